#![allow(deprecated, clippy::all)]
extern crate alloc;

mod multi;

use vcore::mon::Prop;
use vcore::{MOCK_NOTE, VM_NOTE};

fn main() {
    vcore::main(vec![
        Prop {
            id: "P15",
            run: multi::p15,
            quick: 24_000,
            thorough: 300_000,
            rule: "distinct multi-token ledger states (balances, operators)",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P16",
            run: multi::p16,
            quick: 24_000,
            thorough: 300_000,
            rule: "distinct multi-token ledger states with supplies",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P31",
            run: multi::p31,
            quick: 24_000,
            thorough: 300_000,
            rule: "distinct (ledger state, receiver behaviour) pairs",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
    ]);
}

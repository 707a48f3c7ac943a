#![allow(deprecated, clippy::all)]
extern crate alloc;

mod ext;
mod plain;

use vcore::mon::Prop;
use vcore::{MOCK_NOTE, VM_NOTE};

fn main() {
    vcore::main(vec![
        Prop {
            id: "P09",
            run: plain::p09,
            quick: 24_000,
            thorough: 300_000,
            rule: "distinct NFT ledger states (owners, balances, approvals, operators)",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P10",
            run: plain::p10,
            quick: 36_000,
            thorough: 300_000,
            rule: "distinct (ledger state, receiver behaviour) pairs",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
        Prop {
            id: "P11",
            run: ext::p11,
            quick: 16_000,
            thorough: 200000,
            rule: "distinct NFT ledger states whose complete enumeration was read back",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P12",
            run: ext::p12,
            quick: 24_000,
            thorough: 300000,
            rule: "distinct consecutive-ledger states (batches, overrides, burns)",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P13",
            run: ext::p13,
            quick: 24_000,
            thorough: 300000,
            rule: "distinct (underlying, wrapped) ledger pairs",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
    ]);
}

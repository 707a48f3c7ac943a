#![allow(deprecated, clippy::all)]
extern crate alloc;

mod access;
mod iface;
mod layout;
mod sig;
mod structs;
mod uri;
mod vesting;

use vcore::mon::Prop;
use vcore::{MOCK_NOTE, VM_NOTE};

fn main() {
    vcore::main(vec![
        Prop {
            id: "P14",
            run: uri::p14,
            quick: 48_000,
            thorough: 400_000,
            rule: "distinct (base, stored URIs, existing ids) states",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P17",
            run: uri::p17,
            quick: 100_000,
            thorough: 500_000,
            rule: "distinct royalty configurations queried",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P18",
            run: access::p18,
            quick: 36_000,
            thorough: 400_000,
            rule: "distinct (role membership, role admin) states",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P19",
            run: access::p19,
            quick: 120_000,
            thorough: 600_000,
            rule: "distinct (owner, caller, operation, argument, outcome) observations",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P20",
            run: access::p20,
            quick: 120_000,
            thorough: 600_000,
            rule: "distinct (owner, pending owner, caller, operation, argument, outcome) observations",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P21",
            run: access::p21,
            quick: 120_000,
            thorough: 600_000,
            rule: "distinct operation histories",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P22",
            run: vesting::p22,
            quick: 75_000,
            thorough: 500_000,
            rule: "distinct (owner, released amounts, time, schedule) states",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
        Prop {
            id: "P23",
            run: structs::p23,
            quick: 30_000,
            thorough: 120_000,
            rule: "distinct (trace length, last checkpoint) states queried",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P24",
            run: structs::p24,
            quick: 60_000,
            thorough: 300_000,
            rule: "distinct index sets",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P25",
            run: structs::p25,
            quick: 24_000,
            thorough: 100_000,
            rule: "distinct mul_div argument tuples",
            assumptions: &["the reference uses 512-bit integers of ruint; the arithmetic runs natively"],
        },
        Prop {
            id: "P26",
            run: sig::p26,
            quick: 18_000,
            thorough: 120_000,
            rule: "distinct (digest, v, r, s) presented",
            assumptions: &[VM_NOTE, "the ecrecover precompile is emulated with k256"],
        },
        Prop {
            id: "P27",
            run: sig::p27,
            quick: 50_000,
            thorough: 200_000,
            rule: "distinct (domain separator, struct hash) pairs",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P28",
            run: iface::p28,
            quick: iface::EPISODES,
            thorough: iface::EPISODES,
            rule: "distinct (component, 2^26-id slice) pairs; all 2^32 ids per component",
            assumptions: &["interface ids follow ERC-165: the XOR of the selectors of the trait's Solidity signatures"],
        },
        Prop {
            id: "P29",
            run: layout::p29,
            quick: 144_000,
            thorough: 1_000_000,
            rule: "distinct storage images compared slot by slot",
            assumptions: &[VM_NOTE],
        },
    ]);
}

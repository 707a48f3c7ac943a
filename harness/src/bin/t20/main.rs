#![allow(deprecated, clippy::all)]
extern crate alloc;

mod erc20;
mod flash;
mod permit;
mod reent;
mod safe;
mod vault;
mod wrapper;

use vcore::mon::Prop;
use vcore::{MOCK_NOTE, VM_NOTE};

fn main() {
    vcore::main(vec![
        Prop {
            id: "P01",
            run: erc20::p01,
            quick: 24_000,
            thorough: 400_000,
            rule: "distinct ledger states (balances, allowances, supply) reached after a transaction",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P02",
            run: permit::p02,
            quick: 12_000,
            thorough: 150_000,
            rule: "distinct ledger states reached after a permit-token transaction",
            assumptions: &[VM_NOTE, "k256 is the reference for secp256k1 recovery"],
        },
        Prop {
            id: "P03",
            run: permit::p03,
            quick: 72_000,
            thorough: 400_000,
            rule: "distinct nonce tables observed",
            assumptions: &[VM_NOTE],
        },
        Prop {
            id: "P04",
            run: wrapper::p04,
            quick: 25_000,
            thorough: 300_000,
            rule: "distinct (wrapped ledger, underlying ledger) states",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
        Prop {
            id: "P05",
            run: flash::p05,
            quick: 24_000,
            thorough: 300_000,
            rule: "distinct ledger states after a flash loan",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
        Prop {
            id: "P06",
            run: vault::p06,
            quick: 40_000,
            thorough: 250_000,
            rule: "distinct (supply, totalAssets, offset, amount) conversions compared with 512-bit arithmetic",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
        Prop {
            id: "P07",
            run: vault::p07,
            quick: 20_000,
            thorough: 300_000,
            rule: "distinct (share ledger, asset ledger) states",
            assumptions: &[VM_NOTE, MOCK_NOTE],
        },
        Prop {
            id: "P30",
            run: reent::p30,
            quick: 24_000,
            thorough: 300_000,
            rule: "distinct (share ledger, token ledger) states after a transaction whose token calls back",
            assumptions: &[VM_NOTE, MOCK_NOTE, "reentrancy permission is emulated by the host at run time"],
        },
        Prop {
            id: "P08",
            run: safe::p08,
            quick: 75_000,
            thorough: 500_000,
            rule: "distinct (operation, token behaviour, allowance) combinations judged",
            assumptions: &[VM_NOTE, MOCK_NOTE, "tokens returning between 1 and 31 bytes are not driven: the intended reading is unspecified"],
        },
    ]);
}

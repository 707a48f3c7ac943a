#![allow(clippy::all)]
pub mod bigint;
pub mod curves;
pub mod fields;
pub mod hashes;
pub mod merkle;
pub mod mon;
pub mod poseidon;
pub mod refs;
pub mod rng;

use mon::Prop;

pub fn props() -> Vec<Prop> {
    let mut v = merkle::props();
    v.extend(hashes::props());
    v.extend(bigint::props());
    v.extend(fields::props());
    v.extend(curves::props());
    v.extend(poseidon::props());
    v
}

#[cfg(target_family = "wasm")]
mod wasm {
    use crate::mon;
    static mut OUT: String = String::new();
    static mut PANIC: String = String::new();
    static mut EP: u32 = 0;

    #[no_mangle]
    pub extern "C" fn run(prop: u32, slo: u32, shi: u32, from: u32, to: u32, thorough: u32) -> *const u8 {
        std::panic::set_hook(Box::new(|i| unsafe {
            PANIC = i.to_string();
        }));
        let seed = (shi as u64) << 32 | slo as u64;
        let all = crate::props();
        let p = &all[prop as usize];
        let mut m = mon::Mon::new();
        m.thorough = thorough != 0;
        for ep in from..to {
            unsafe { EP = ep };
            mon::begin(&mut m, p, seed, ep as u64);
            (p.run)(&mut m);
            if m.violations.len() >= 6 {
                break;
            }
        }
        unsafe {
            OUT = mon::report(&m);
            OUT.as_ptr()
        }
    }
    #[no_mangle]
    pub extern "C" fn out_len() -> usize {
        unsafe { OUT.len() }
    }
    #[no_mangle]
    pub extern "C" fn panic_ptr() -> *const u8 {
        unsafe { PANIC.as_ptr() }
    }
    #[no_mangle]
    pub extern "C" fn panic_len() -> usize {
        unsafe { PANIC.len() }
    }
    #[no_mangle]
    pub extern "C" fn cur_ep() -> u32 {
        unsafe { EP }
    }
}

//! The symbolic vocabulary.  In the symbolic build these are externs the engine interprets; in the
//! native build they read a concrete assignment, so the very same harness replays a counterexample
//! (or a sample, to validate the translator) against the real crate.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_u8(id: u32, lo: u64, hi: u64) -> u8;
        fn sym_u16(id: u32, lo: u64, hi: u64) -> u16;
        fn sym_u32(id: u32, lo: u64, hi: u64) -> u32;
        fn sym_u64(id: u32, lo: u64, hi: u64) -> u64;
        fn sym_assume(b: bool);
        fn sym_check(b: bool, id: u32);
        fn sym_cover(b: bool, id: u32);
        fn sym_observe(id: u32, v: u64);
        fn sym_case(k: u32) -> u64;
        fn sym_log(k: u64);
    }
    static mut CTR: u32 = 0;
    fn next() -> u32 {
        unsafe {
            CTR += 1;
            CTR
        }
    }
    pub fn u8(lo: u8, hi: u8) -> u8 {
        unsafe { sym_u8(next(), lo as u64, hi as u64) }
    }
    pub fn u16(lo: u16, hi: u16) -> u16 {
        unsafe { sym_u16(next(), lo as u64, hi as u64) }
    }
    pub fn u32(lo: u32, hi: u32) -> u32 {
        unsafe { sym_u32(next(), lo as u64, hi as u64) }
    }
    pub fn u64(lo: u64, hi: u64) -> u64 {
        unsafe { sym_u64(next(), lo, hi) }
    }
    pub fn assume(b: bool) {
        unsafe { sym_assume(b) }
    }
    pub fn check(b: bool, id: u32) {
        unsafe { sym_check(b, id) }
    }
    pub fn cover(b: bool, id: u32) {
        unsafe { sym_cover(b, id) }
    }
    pub fn observe(id: u32, v: u64) {
        unsafe { sym_observe(id, v) }
    }
    pub fn case(k: u32) -> u64 {
        unsafe { sym_case(k) }
    }
    pub fn log(k: u64) {
        unsafe { sym_log(k) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::collections::BTreeMap;
    #[derive(Default)]
    pub struct Run {
        pub inputs: BTreeMap<u32, u64>,
        pub cases: Vec<u64>,
        pub ctr: u32,
        pub obs: Vec<(u32, u64)>,
        pub failed: Vec<u32>,
        pub missing: u32,
    }
    thread_local! { pub static RUN: RefCell<Run> = RefCell::new(Run::default()); }
    pub struct AssumeFailed;
    fn next(lo: u64, hi: u64) -> u64 {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            r.ctr += 1;
            let k = r.ctr;
            let v = match r.inputs.get(&k) {
                Some(&v) => v,
                None => {
                    r.missing += 1;
                    lo
                }
            };
            assert!(v >= lo && v <= hi, "harness: input {k}={v} outside {lo}..={hi}");
            v
        })
    }
    pub fn u8(lo: u8, hi: u8) -> u8 {
        next(lo as u64, hi as u64) as u8
    }
    pub fn u16(lo: u16, hi: u16) -> u16 {
        next(lo as u64, hi as u64) as u16
    }
    pub fn u32(lo: u32, hi: u32) -> u32 {
        next(lo as u64, hi as u64) as u32
    }
    pub fn u64(lo: u64, hi: u64) -> u64 {
        next(lo, hi)
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::resume_unwind(Box::new(AssumeFailed));
        }
    }
    pub fn check(b: bool, id: u32) {
        if !b {
            RUN.with(|r| {
                let mut r = r.borrow_mut();
                if !r.failed.contains(&id) {
                    r.failed.push(id)
                }
            })
        }
    }
    pub fn cover(_b: bool, _id: u32) {}
    pub fn observe(id: u32, v: u64) {
        RUN.with(|r| r.borrow_mut().obs.push((id, v)))
    }
    pub fn case(k: u32) -> u64 {
        RUN.with(|r| r.borrow().cases[k as usize])
    }
    pub fn log(_k: u64) {}
}
pub use imp::*;

pub fn boolean() -> bool {
    u8(0, 1) == 1
}
pub fn casez(k: u32) -> usize {
    case(k) as usize
}

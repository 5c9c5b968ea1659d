//! The interface between a harness and whoever runs it.
//!
//! Symbolic build: undefined functions the symbolic executor interprets.
//! Native build (feature `native`): the same functions over a concrete list of inputs.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_bool() -> bool;
        fn sym_u8() -> u8;
        fn sym_u16() -> u16;
        fn sym_u32() -> u32;
        fn sym_u64() -> u64;
        fn sym_assume(c: bool);
        fn sym_check(c: bool, id: u32);
        fn sym_panic_ok(c: bool);
        fn sym_observe(v: u64);
    }
    #[inline(always)]
    pub fn any_bool() -> bool {
        unsafe { sym_bool() }
    }
    #[inline(always)]
    pub fn any_u8() -> u8 {
        unsafe { sym_u8() }
    }
    #[inline(always)]
    pub fn any_u16() -> u16 {
        unsafe { sym_u16() }
    }
    #[inline(always)]
    pub fn any_u32() -> u32 {
        unsafe { sym_u32() }
    }
    #[inline(always)]
    pub fn any_u64() -> u64 {
        unsafe { sym_u64() }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: u32) {
        unsafe { sym_check(c, id) }
    }
    /// From here on a panic is the expected behaviour (true) or a violation (false, the default).
    #[inline(always)]
    pub fn panic_ok(c: bool) {
        unsafe { sym_panic_ok(c) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run {
        pub inputs: Vec<u128>,
        pub pos: usize,
        pub failed: Vec<u32>,
        pub panic_ok: bool,
        pub observes: Vec<u64>,
        pub assume_failed: bool,
        pub short: bool,
    }
    thread_local!(pub static RUN: RefCell<Run> = RefCell::new(Run::default()));
    pub struct Stop;
    fn next() -> u128 {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            let p = r.pos;
            r.pos += 1;
            match r.inputs.get(p) {
                Some(&v) => v,
                None => {
                    r.short = true;
                    0
                }
            }
        })
    }
    pub fn any_bool() -> bool {
        next() & 1 == 1
    }
    pub fn any_u8() -> u8 {
        next() as u8
    }
    pub fn any_u16() -> u16 {
        next() as u16
    }
    pub fn any_u32() -> u32 {
        next() as u32
    }
    pub fn any_u64() -> u64 {
        next() as u64
    }
    pub fn assume(c: bool) {
        if !c {
            RUN.with(|r| r.borrow_mut().assume_failed = true);
            std::panic::panic_any(Stop);
        }
    }
    pub fn check(c: bool, id: u32) {
        if !c {
            RUN.with(|r| {
                let mut r = r.borrow_mut();
                if !r.short {
                    r.failed.push(id);
                }
            });
        }
    }
    pub fn panic_ok(c: bool) {
        RUN.with(|r| r.borrow_mut().panic_ok = c);
    }
    pub fn observe(v: u64) {
        RUN.with(|r| r.borrow_mut().observes.push(v));
    }
}
pub use imp::*;

pub fn any_u128() -> u128 {
    let h = any_u64() as u128;
    let l = any_u64() as u128;
    h << 64 | l
}

/// A number in 0..=max, concrete on every path.
#[inline(never)]
pub fn choose(max: u8) -> u8 {
    let mut k = 0;
    while k < max && any_bool() {
        k += 1;
    }
    k
}
/// A boolean that is concrete on every path.
pub fn coin() -> bool {
    choose(1) == 1
}

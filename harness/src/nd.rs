//! Nondeterminism. Under Kani every value is a symbolic variable; natively the
//! values come from a recorded counterexample/witness, so that the very same
//! harness body replays against the real build.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn u8() -> u8 {
        kani::any()
    }
    #[inline(always)]
    pub fn u16() -> u16 {
        kani::any()
    }
    #[inline(always)]
    pub fn u32() -> u32 {
        kani::any()
    }
    #[inline(always)]
    pub fn usize() -> usize {
        kani::any()
    }
    #[inline(always)]
    pub fn bytes<const K: usize>() -> [u8; K] {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static VALS: RefCell<std::collections::VecDeque<Vec<u8>>> = Default::default();
    }
    pub fn load(v: impl Iterator<Item = Vec<u8>>) {
        VALS.with(|q| *q.borrow_mut() = v.collect());
    }
    pub const ASSUME_FAILED: i32 = 77;
    pub const TRACE_SHORT: i32 = 78;

    fn pop(width: usize) -> u64 {
        let v = VALS.with(|v| v.borrow_mut().pop_front());
        let v = match v {
            Some(v) => v,
            None => {
                println!("REPLAY: trace too short");
                std::process::exit(TRACE_SHORT)
            }
        };
        if v.len() != width {
            println!("REPLAY: width mismatch {} vs {}", v.len(), width);
            std::process::exit(TRACE_SHORT)
        }
        v.iter().rev().fold(0u64, |a, b| (a << 8) | *b as u64)
    }
    pub fn u8() -> u8 {
        pop(1) as u8
    }
    pub fn u16() -> u16 {
        pop(2) as u16
    }
    pub fn u32() -> u32 {
        pop(4) as u32
    }
    pub fn usize() -> usize {
        pop(8) as usize
    }
    pub fn bytes<const K: usize>() -> [u8; K] {
        core::array::from_fn(|_| pop(1) as u8)
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY: assumption not met");
            std::process::exit(ASSUME_FAILED)
        }
    }
}

pub use imp::*;

#[inline(always)]
pub fn bool() -> bool {
    u8() & 1 == 1
}

/// Symbolic value `<= max`.
#[inline(always)]
pub fn upto(max: usize) -> usize {
    let v = usize();
    assume(v <= max);
    v
}

/// Any Unicode scalar value.
#[inline(always)]
pub fn char() -> char {
    let v = u32();
    assume(v <= 0x10FFFF && !(v >= 0xD800 && v <= 0xDFFF));
    // Safety: just checked
    unsafe { char::from_u32_unchecked(v) }
}

/// The property assertion. Descriptions start with `VP:`.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        {
            kani::assert($c, concat!("VP: ", $m));
        }
        #[cfg(not(kani))]
        {
            if !$c {
                println!("REPLAY-VIOLATION: {}", $m);
                std::process::exit(66);
            }
        }
    }};
}

/// Reachability witness (vacuity guard).
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        {
            kani::cover!($c, $m);
        }
        #[cfg(not(kani))]
        {
            if $c {
                println!("REPLAY-WITNESS: {}", $m);
            }
        }
    }};
}

/// Runs `f`, which must not return normally. Under Kani a panic ends the path,
/// so reaching the assertion after `f` is the violation; the runner ignores the
/// panics themselves in harnesses that use this.
#[inline(always)]
pub fn must_panic<R>(f: impl FnOnce() -> R) {
    #[cfg(kani)]
    {
        let _ = f();
        kani::assert(false, "VP: call returned where it has to panic");
    }
    #[cfg(not(kani))]
    {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        if r.is_ok() {
            println!("REPLAY-VIOLATION: call returned where it has to panic");
            std::process::exit(66);
        }
    }
}

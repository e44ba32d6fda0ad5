//! Natively (replays of C18) the allocator reports any use while armed; in the
//! encoding the allocator itself is the assertion (see ../no_heap.c).
#[cfg(all(not(kani), feature = "counting-alloc"))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    pub static ARMED: AtomicBool = AtomicBool::new(false);
    struct Watch;
    fn seen() {
        if ARMED.swap(false, SeqCst) {
            println!("REPLAY-VIOLATION: heap memory is allocated");
            std::process::exit(66);
        }
    }
    unsafe impl GlobalAlloc for Watch {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            seen();
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            seen();
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            seen();
            System.realloc(p, l, n)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static WATCH: Watch = Watch;
    pub fn arm(on: bool) {
        ARMED.store(on, SeqCst);
    }
}
#[cfg(not(all(not(kani), feature = "counting-alloc")))]
mod imp {
    #[inline(always)]
    pub fn arm(_: bool) {}
}

/// Calls `f`, during which nothing may be allocated.
#[inline(always)]
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    imp::arm(true);
    let r = f();
    imp::arm(false);
    r
}

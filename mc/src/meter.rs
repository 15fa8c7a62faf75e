//! Work done by the program itself in one transaction: basic blocks executed (every crate is
//! compiled with LLVM's edge instrumentation) and bytes allocated. Only in the build with
//! the feature `meter` (see ../meter); elsewhere these are no-ops.
#[cfg(feature = "meter")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    extern "C" {
        fn mc_meter_install(f: extern "C" fn());
        fn mc_meter_on(x: i32) -> i32;
        fn mc_meter_reset(limit: u64);
        fn mc_meter_steps() -> u64;
        fn mc_meter_heap() -> u64;
        fn mc_meter_alloc(size: u64, align: u64);
    }
    pub const METERED: bool = true;
    pub fn install(f: extern "C" fn()) {
        unsafe { mc_meter_install(f) }
    }
    pub fn on(x: bool) -> bool {
        unsafe { mc_meter_on(x as i32) != 0 }
    }
    pub fn reset(limit: u64) {
        unsafe { mc_meter_reset(limit) }
    }
    pub fn steps() -> u64 {
        unsafe { mc_meter_steps() }
    }
    pub fn heap() -> u64 {
        unsafe { mc_meter_heap() }
    }
    struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            mc_meter_alloc(l.size() as u64, l.align() as u64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        // realloc: the default one, like the allocator of the chain: a new block each time
    }
    #[global_allocator]
    static A: Counting = Counting;
}
#[cfg(not(feature = "meter"))]
mod imp {
    pub const METERED: bool = false;
    pub fn install(_: extern "C" fn()) {}
    pub fn on(_: bool) -> bool {
        false
    }
    pub fn reset(_: u64) {}
    pub fn steps() -> u64 {
        0
    }
    pub fn heap() -> u64 {
        0
    }
}
pub use imp::*;

use crate::report::Ctx;
use serde_json::Value;
use std::cell::Cell;

thread_local! {
    /// the case being run by this thread, and where to report it
    static CASE: Cell<Option<(&'static Ctx, &'static dyn Fn() -> Value)>> = Cell::new(None);
}

/// Runs `f` with the counters at zero and at most `limit` steps; a run that takes more is reported as `case`.
pub fn bounded<R>(ctx: &Ctx, case: &dyn Fn() -> Value, limit: u64, f: impl FnOnce() -> R) -> R {
    // both outlive this call, and the cell is emptied before it returns
    let kept = unsafe { std::mem::transmute::<(&Ctx, &dyn Fn() -> Value), (&'static Ctx, &'static dyn Fn() -> Value)>((ctx, case)) };
    CASE.with(|c| c.set(Some(kept)));
    reset(limit);
    let r = f();
    CASE.with(|c| c.set(None));
    r
}

/// called in the middle of the program: there is no way back
pub extern "C" fn overrun() {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _g = ONE.lock();
    if let Some((ctx, case)) = CASE.with(|c| c.get()) {
        ctx.violation("a request that does not come to an end", case());
        let rc = ctx.finish(&std::env::args().nth(3).unwrap());
        std::process::exit(rc);
    }
    std::process::exit(2);
}

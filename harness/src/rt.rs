//! Interface to the executor (symbolic build: unresolved externs; `native` build: replay.rs).
mod raw {
    extern "C" {
        pub fn qs_choose(n: u32) -> u32;
        pub fn qs_sym(lo: u64, hi: u64) -> u64;
        pub fn qs_assume(b: bool);
        pub fn qs_assert(b: bool, prop: u32, code: u32);
        pub fn qs_cover(id: u32);
        pub fn qs_log(v: u64);
        pub fn qs_param(i: u32) -> u64;
        pub fn qs_heap_live() -> u64;
        pub fn qs_heap_bytes() -> u64;
        pub fn qs_expect_panic(b: bool);
        pub fn qs_conc(v: u64) -> u64;
        pub fn qs_clock_advance(ns: u64);
        pub fn qs_clock() -> u64;
        pub fn qs_spawn(f: extern "C" fn(u64), a: u64) -> u64;
        pub fn qs_yield();
        pub fn qs_pause();
        pub fn qs_block(addr: u64);
        pub fn qs_wake(addr: u64);
        pub fn qs_tid() -> u64;
        pub fn qs_thread_done(t: u32) -> u64;
        pub fn qs_try(f: extern "C-unwind" fn(u64), a: u64) -> u64;
    }
    extern "C-unwind" {
        pub fn qs_unwind();
    }
}
/// case split: every value in 0..n is explored
#[inline(always)]
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe { raw::qs_choose(n) }
}
#[inline(always)]
pub fn flip() -> bool {
    choose(2) == 1
}
/// symbolic value in lo..=hi
#[inline(always)]
pub fn sym(lo: u64, hi: u64) -> u64 {
    unsafe { raw::qs_sym(lo, hi) }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { raw::qs_assume(b) }
}
/// assertion of property `prop` (0: of every property), decided by the solver
#[inline(always)]
pub fn check(b: bool, prop: u32, code: u32) {
    unsafe { raw::qs_assert(b, prop, code) }
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { raw::qs_cover(id) }
}
#[inline(always)]
pub fn log(v: u64) {
    unsafe { raw::qs_log(v) }
}
#[inline(always)]
pub fn param(i: u32) -> u64 {
    unsafe { raw::qs_param(i) }
}
#[inline(always)]
pub fn heap_live() -> u64 {
    unsafe { raw::qs_heap_live() }
}
#[inline(always)]
pub fn heap_bytes() -> u64 {
    unsafe { raw::qs_heap_bytes() }
}
#[inline(always)]
pub fn expect_panic(b: bool) {
    unsafe { raw::qs_expect_panic(b) }
}
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { raw::qs_conc(v) }
}
#[inline(always)]
pub fn clock_advance(ns: u64) {
    unsafe { raw::qs_clock_advance(ns) }
}
#[inline(always)]
pub fn clock() -> u64 {
    unsafe { raw::qs_clock() }
}
#[inline(always)]
pub fn spawn(f: extern "C" fn(u64), a: u64) -> u64 {
    unsafe { raw::qs_spawn(f, a) }
}
#[inline(always)]
pub fn yield_now() {
    unsafe { raw::qs_yield() }
}
#[inline(always)]
pub fn pause() {
    unsafe { raw::qs_pause() }
}
#[inline(always)]
pub fn block(a: u64) {
    unsafe { raw::qs_block(a) }
}
#[inline(always)]
pub fn wake(a: u64) {
    unsafe { raw::qs_wake(a) }
}
#[inline(always)]
pub fn tid() -> u64 {
    unsafe { raw::qs_tid() }
}
pub fn join(t: u64) {
    if unsafe { raw::qs_thread_done(t as u32) } == 0 {
        block(0xFFFF_0000 + t);
    }
}
/// panics, if the operation under way is meant to (builds that unwind)
#[inline(always)]
pub fn may_die() {
    unsafe {
        if DYING[tid() as usize] {
            raw::qs_unwind()
        }
    }
}
static mut DYING: [bool; 16] = [false; 16];
/// runs `f`; if `die`, the caller's code in it panics: None if that happened
pub fn attempt<R, F: FnOnce() -> R>(die: bool, f: F) -> Option<R> {
    struct D<F, R>(Option<F>, Option<R>);
    extern "C-unwind" fn go<R, F: FnOnce() -> R>(d: u64) {
        let d = unsafe { &mut *(d as *mut D<F, R>) };
        if let Some(f) = d.0.take() {
            d.1 = Some(f());
        }
    }
    if !die {
        return Some(f());
    }
    let mut d: D<F, R> = D(Some(f), None);
    unsafe {
        DYING[tid() as usize] = true;
        let died = raw::qs_try(go::<R, F>, &mut d as *mut D<F, R> as u64);
        DYING[tid() as usize] = false;
        check((died != 0) == d.1.is_none(), 0, 906);
    }
    d.1
}

//! Native runtime: replays recorded inputs (and schedules) of the executor against the compiled
//! crate.  usage: replay ENTRY PROP PARAMS FILE [single]   (one comma separated input list per line)
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

struct Counting;
static LIVE: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
/// allocations of the runtime itself (starting a thread)
static UNCOUNTED: AtomicBool = AtomicBool::new(false);
static STARTED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !UNCOUNTED.load(SeqCst) {
            LIVE.fetch_add(1, SeqCst);
            BYTES.fetch_add(l.size() as u64, SeqCst);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !UNCOUNTED.load(SeqCst) {
            LIVE.fetch_sub(1, SeqCst);
            BYTES.fetch_sub(l.size() as u64, SeqCst);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add((n as u64).wrapping_sub(l.size() as u64), SeqCst);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

static mut INPUTS: &[u64] = &[];
static mut PARAMS: &[u64] = &[];
static POS: AtomicUsize = AtomicUsize::new(0);
static PROP: AtomicU64 = AtomicU64::new(0);
static OBS: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);
static EXPECT: AtomicBool = AtomicBool::new(false);
static OUT: AtomicU64 = AtomicU64::new(1);

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}
fn finish(s: &str) -> ! {
    let mut buf = [0u8; 400];
    let n = s.len().min(398);
    buf[..n].copy_from_slice(&s.as_bytes()[..n]);
    buf[n] = b'\n';
    unsafe {
        write(OUT.load(SeqCst) as i32, buf.as_ptr().cast(), n + 1);
        _exit(if s.starts_with("ok") { 0 } else { 9 })
    }
}
fn done_ok() -> ! {
    finish(&format!("ok {}", OBS.load(SeqCst)))
}
fn next() -> u64 {
    let i = POS.fetch_add(1, SeqCst);
    unsafe {
        let v = INPUTS;
        if i >= v.len() {
            finish("underrun")
        }
        v[i]
    }
}
#[no_mangle]
extern "C" fn qs_choose(n: u32) -> u32 {
    let v = next();
    if v >= n as u64 {
        finish(&format!("range {v} {n} at {}", POS.load(SeqCst)))
    }
    v as u32
}
#[no_mangle]
extern "C" fn qs_sym(lo: u64, hi: u64) -> u64 {
    if hi < lo {
        finish("assume")
    }
    let v = next();
    if v < lo || v > hi {
        finish(&format!("range {v} {lo}..{hi} at {}", POS.load(SeqCst)))
    }
    v
}
#[no_mangle]
extern "C" fn qs_assume(b: bool) {
    if !b {
        finish("assume")
    }
}
#[no_mangle]
extern "C" fn qs_assert(b: bool, prop: u32, code: u32) {
    let p = PROP.load(SeqCst);
    if !b && (p == 0 || prop == 0 || prop as u64 == p) {
        finish(&format!("assert {prop} {code}"))
    }
}
#[no_mangle]
extern "C" fn qs_cover(_: u32) {}
#[no_mangle]
extern "C" fn qs_log(v: u64) {
    let mut h = OBS.load(SeqCst);
    h = (h ^ v).wrapping_mul(0x100000001b3);
    h ^= h >> 29;
    OBS.store(h, SeqCst)
}
#[no_mangle]
extern "C" fn qs_param(i: u32) -> u64 {
    unsafe {
        let p = PARAMS;
        p.get(i as usize).copied().unwrap_or(0)
    }
}
#[no_mangle]
extern "C" fn qs_heap_live() -> u64 {
    LIVE.load(SeqCst)
}
#[no_mangle]
extern "C" fn qs_heap_bytes() -> u64 {
    BYTES.load(SeqCst)
}
#[no_mangle]
extern "C" fn qs_expect_panic(b: bool) {
    EXPECT.store(b, SeqCst)
}
#[no_mangle]
extern "C" fn qs_conc(v: u64) -> u64 {
    v
}

#[no_mangle]
extern "C-unwind" fn qs_unwind() {
    std::panic::resume_unwind(Box::new(()))
}
#[no_mangle]
extern "C" fn qs_try(f: extern "C-unwind" fn(u64), a: u64) -> u64 {
    std::panic::catch_unwind(|| f(a)).is_err() as u64
}

// ---------------------------------------------------------------- virtual time
static CLOCK: AtomicU64 = AtomicU64::new(0);
static VIRTUAL: AtomicBool = AtomicBool::new(false);
#[no_mangle]
extern "C" fn qs_clock_advance(ns: u64) {
    CLOCK.fetch_add(ns, SeqCst);
}
#[no_mangle]
extern "C" fn qs_clock() -> u64 {
    CLOCK.load(SeqCst)
}
#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    if VIRTUAL.load(SeqCst) {
        *ts = Ts { s: 0, n: CLOCK.fetch_add(1, SeqCst) as i64 };
        return 0;
    }
    raw_syscall(228, clk as usize, ts as usize, 0, 0, 0, 0) as i32
}
#[cfg(target_arch = "x86_64")]
unsafe fn raw_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
/// std parks through `syscall(SYS_futex, ..)`; in virtual time the harness decides what happens
#[no_mangle]
unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == 202 && VIRTUAL.load(SeqCst) && (b & 0x7f == 9 || b & 0x7f == 0) && d != 0 {
        // FUTEX_WAIT_BITSET with an absolute deadline on the virtual clock: recover the duration
        let ts = &*(d as *const Ts);
        let abs = ts.s as u128 * 1_000_000_000 + ts.n as u128;
        // park_timeout read the clock once to compute the deadline
        let now = CLOCK.load(SeqCst) as u128 - 1;
        CLOCK.fetch_sub(1, SeqCst);
        let dur = abs - now;
        qh::park_hook((dur / 1_000_000_000) as u64, (dur % 1_000_000_000) as u32);
        let v = &*(a as *const std::sync::atomic::AtomicU32);
        if v.load(SeqCst) != c as u32 {
            return 0;
        }
        *__errno_location() = 110;
        return -1;
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- threads: one runs at a time
struct Sched {
    cur: usize,
    /// 0 runnable, 1 done, otherwise 2 + blocked address
    stat: Vec<u64>,
}
static SCHED: Mutex<Sched> = Mutex::new(Sched { cur: 0, stat: vec![] });
static CV: Condvar = Condvar::new();
thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
fn me() -> usize {
    ME.with(|m| m.get())
}
fn switch(mut s: std::sync::MutexGuard<Sched>, stat: u64) {
    let me = me();
    s.stat[me] = stat;
    if !s.stat.iter().any(|x| *x == 0) {
        finish("deadlock")
    }
    let c = next() as usize;
    if c >= s.stat.len() || s.stat[c] != 0 {
        finish(&format!("schedule {c} at {}", POS.load(SeqCst)))
    }
    s.cur = c;
    CV.notify_all();
    if stat == 1 {
        return;
    }
    while s.cur != me {
        s = CV.wait(s).unwrap();
    }
}
#[no_mangle]
extern "C" fn qs_spawn(f: extern "C" fn(u64), a: u64) -> u64 {
    let id = {
        let mut s = SCHED.lock().unwrap();
        s.stat.push(0);
        s.stat.len() - 1
    };
    UNCOUNTED.store(true, SeqCst);
    std::thread::spawn(move || {
        ME.with(|m| m.set(id));
        STARTED.store(id, SeqCst);
        {
            let mut s = SCHED.lock().unwrap();
            while s.cur != id {
                s = CV.wait(s).unwrap();
            }
        }
        f(a);
        let mut s = SCHED.lock().unwrap();
        for x in s.stat.iter_mut() {
            if *x == 2 + 0xFFFF_0000 + id as u64 {
                *x = 0;
            }
        }
        switch(s, 1);
        // stay: ending would free memory the harness does not expect
        loop {
            std::thread::park();
        }
    });
    while STARTED.load(SeqCst) != id {
        std::thread::yield_now();
    }
    UNCOUNTED.store(false, SeqCst);
    id as u64
}
#[no_mangle]
extern "C" fn qs_yield() {
    switch(SCHED.lock().unwrap(), 0)
}
#[no_mangle]
extern "C" fn qs_pause() {
    qs_yield()
}
#[no_mangle]
extern "C" fn qs_block(addr: u64) {
    let s = SCHED.lock().unwrap();
    if (0xFFFF_0000..0xFFFF_0010).contains(&addr) {
        let t = (addr - 0xFFFF_0000) as usize;
        if t < s.stat.len() && s.stat[t] == 1 {
            return;
        }
    }
    switch(s, 2 + addr)
}
#[no_mangle]
extern "C" fn qs_wake(addr: u64) {
    for x in SCHED.lock().unwrap().stat.iter_mut() {
        if *x == 2 + addr {
            *x = 0;
        }
    }
}
#[no_mangle]
extern "C" fn qs_tid() -> u64 {
    me() as u64
}
#[no_mangle]
extern "C" fn qs_thread_done(t: u32) -> u64 {
    (SCHED.lock().unwrap().stat[t as usize] == 1) as u64
}

fn nums(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = qh::entry(&a[1]).expect("entry");
    PROP.store(a[2].parse().unwrap(), SeqCst);
    unsafe { PARAMS = nums(&a[3]).leak() };
    let single = a.get(5).is_some();
    let text = std::fs::read_to_string(&a[4]).unwrap();
    std::panic::set_hook(Box::new(|i| {
        if EXPECT.load(SeqCst) {
            done_ok()
        }
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        finish(&format!("panic {} at {}", m.replace('\n', " "), i.location().map(|l| l.to_string()).unwrap_or_default()))
    }));
    for line in text.lines() {
        let inp: &'static [u64] = nums(line).leak();
        std::io::stdout().flush().unwrap();
        if !single {
            let p = unsafe { fork() };
            if p != 0 {
                let mut st = 0;
                unsafe { waitpid(p, &mut st, 0) };
                if st & 0x7f != 0 {
                    println!("{}", if st & 0x7f == 14 { "timeout".into() } else { format!("signal {}", st & 0x7f) });
                }
                continue;
            }
            unsafe { alarm(20) };
        }
        let _ = std::thread::current();
        SCHED.lock().unwrap().stat = Vec::with_capacity(32);
        SCHED.lock().unwrap().stat.push(0);
        unsafe { INPUTS = inp };
        VIRTUAL.store(qh::virtual_time(&a[1]), SeqCst);
        entry();
        VIRTUAL.store(false, SeqCst);
        if POS.load(SeqCst) != inp.len() {
            finish(&format!("overrun {} of {}", POS.load(SeqCst), inp.len()))
        }
        done_ok()
    }
}

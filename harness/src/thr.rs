//! C15, C16, C18, C19, C27: threads that share one cache (the crate's `shuttle` feature, locks and parking
//! from models/shuttle).  Every interleaving within the preemption bound is explored.
use crate::api::*;
use crate::guards::{FLIGHT, STALE, WOKEN};
use crate::machine::*;
use crate::pick;
use crate::rt::*;
use crate::twin::make;
use crate::types::*;
use quick_cache::sync::{GuardResult, PlaceholderGuard};
use shuttle::point;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

pub const LINEAR: u32 = 19;
type G = PlaceholderGuard<'static, K, V, We, H, L>;

const READ: u8 = 0;
const WRITE: u8 = 1;
/// a fill that may have been refused because of a disturbance
const FILLQ: u8 = 2;
const REMOVE: u8 = 3;
const CLEAR: u8 = 4;
const RETAIN: u8 = 5;
const REPL: u8 = 6;
const REPLNO: u8 = 7;
const HAS: u8 = 8;
const NOPS: usize = 12;
const NT: usize = 4;
#[derive(Clone, Copy)]
struct Op {
    kind: u8,
    k: u8,
    id: u32,
    inv: u32,
    resp: u32,
    evk: [u8; 3],
    ev: [u32; 3],
}
const OP0: Op = Op { kind: 0, k: 0, id: 0, inv: 0, resp: 0, evk: [0; 3], ev: [0; 3] };
static mut OPS: [Op; NOPS] = [OP0; NOPS];
static mut NO: usize = 0;
static mut CLK: u32 = 0;
static mut CACHE: Option<&'static S> = None;
static mut NKEYS: usize = 1;
static mut FEAT: u64 = 0;
static mut CAP: u64 = 0;
static mut WEIGHT: [u64; NV] = [0; NV];
/// values the lookups returned without loading: (key, id, inv, resp)
static mut VALS: [(usize, u32, u32, u32); NOPS] = [(0, 0, 0, 0); NOPS];
static mut NVAL: usize = 0;
/// guards held: per thread key + 1, and undisturbed since it was obtained
static mut HELD: [usize; NT] = [0; NT];
static mut CLEAN: [bool; NT] = [false; NT];
/// operations under way that disturb loads
static mut DIST: u32 = 0;
static mut NDIST: u32 = 0;
static mut LAST_DIST: u32 = 0;
/// disturbances of the key that began and ended since the guard was obtained
static mut HARD: [bool; NT] = [false; NT];
static mut FILLS: u32 = 0;
static mut LOADS: u32 = 0;
static mut GIVEN: u32 = 0;
static mut EVICTED: u32 = 0;

fn cache() -> &'static S {
    unsafe { CACHE.unwrap() }
}
fn now() -> u32 {
    unsafe {
        CLK += 1;
        CLK
    }
}
fn spec() -> Spec {
    unsafe {
        let s = Spec {
            id: fresh_id(),
            w: if FEAT & F_UNIT != 0 { unit() } else { sym(0, if CAP > 1 << 32 { 1 << 30 } else { CAP / 8 }) },
            ..Default::default()
        };
        WEIGHT[s.id as usize] = s.w;
        s
    }
}
fn push(kind: u8, k: usize, id: u32, inv: u32) {
    unsafe {
        check(NO < NOPS, 0, 800);
        let mut o = Op { kind, k: k as u8, id, inv, resp: now(), ..OP0 };
        // the items evicted by this thread since its last operation
        let me = tid() as u8;
        let mut n = 0;
        for i in 0..NEV {
            if EV[i].who == me && EV[i].kind == EVICT {
                check(n < 3, 0, 801);
                o.evk[n] = EV[i].k;
                o.ev[n] = EV[i].id;
                EV[i].kind = 0;
                n += 1;
                EVICTED += 1;
            }
        }
        OPS[NO] = o;
        NO += 1;
    }
}
fn value(k: usize, id: u32, inv: u32) {
    unsafe {
        check(NVAL < NOPS, 0, 802);
        VALS[NVAL] = (k, id, inv, now());
        NVAL += 1;
    }
}
fn disturb_begin() -> u32 {
    unsafe {
        DIST += 1;
        NDIST += 1;
        for t in 0..NT {
            CLEAN[t] = false;
        }
    }
    now()
}
/// `key`: loads of this key (nk: of all) end here
fn disturb_end(key: usize, inv: u32, stored: bool) {
    unsafe {
        DIST -= 1;
        LAST_DIST = now();
        for t in 0..NT {
            CLEAN[t] = false;
            if HELD[t] != 0 && (key == NKEYS || HELD[t] == key + 1) && SINCE[t] < inv && stored {
                HARD[t] = true;
            }
        }
    }
}
static mut SINCE: [u32; NT] = [0; NT];
/// this thread has obtained a guard
fn obtained(k: usize, inv: u32) {
    let me = tid() as usize;
    unsafe {
        for t in 0..NT {
            check(!(t != me && HELD[t] == k + 1 && CLEAN[t]), FLIGHT, 1);
        }
        HELD[me] = k + 1;
        CLEAN[me] = DIST == 0;
        HARD[me] = false;
        SINCE[me] = now();
        LOADS += 1;
    }
    // the key was absent at some point of the lookup
    push(READ, k, 0, inv);
}
fn given_up() {
    unsafe {
        HELD[tid() as usize] = 0;
        GIVEN += 1;
    }
}
fn fill_begin() -> u32 {
    unsafe {
        FILLS += 1;
    }
    now()
}
/// `lookup`: when the lookup that obtained the guard started
fn fill_end(k: usize, s: Spec, lookup: u32, inv: u32, ok: Option<bool>, hard: bool) {
    let me = tid() as usize;
    unsafe {
        HELD[me] = 0;
        let disturbed = DIST > 0 || LAST_DIST > lookup;
        match ok {
            Some(true) => check(!hard, STALE, 2),
            Some(false) => check(disturbed, STALE, 3),
            None => {}
        }
        push(
            match ok {
                Some(true) => WRITE,
                Some(false) => READ + 100,
                None if disturbed => FILLQ,
                None => WRITE,
            },
            k,
            s.id,
            inv,
        );
    }
}
fn use_guard(k: usize, g: G, inv: u32, fill: bool) {
    obtained(k, inv);
    point();
    if fill {
        let s = spec();
        let hard = unsafe { HARD[tid() as usize] };
        let t = fill_begin();
        let r = g.insert(V::new(s));
        if let Err(v) = &r {
            check(v.0.id == s.id, STALE, 4);
        }
        let ok = r.is_ok();
        fill_end(k, s, inv, t, Some(ok), hard);
    } else {
        given_up();
        attempt(unsafe { DIES[tid() as usize] }, || {
            let g = g;
            may_die();
            drop(g)
        });
    }
}
/// whether a thread gives its loads up by panicking
static mut DIES: [bool; NT] = [false; NT];

// ---------------------------------------------------------------- futures
static mut WAKERS: i32 = 0;
fn w_clone(p: *const ()) -> RawWaker {
    unsafe { WAKERS += 1 };
    RawWaker::new(p, &VT)
}
fn w_wake(p: *const ()) {
    w_wake_ref(p);
    w_drop(p)
}
fn w_wake_ref(p: *const ()) {
    shuttle::thread::wake(p as u64 - 1)
}
fn w_drop(_: *const ()) {
    unsafe { WAKERS -= 1 }
}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);
fn waker() -> Waker {
    unsafe {
        WAKERS += 1;
        Waker::from_raw(RawWaker::new((tid() + 1) as *const (), &VT))
    }
}
fn block_on<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    loop {
        let w = waker();
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return r;
        }
        drop(w);
        shuttle::thread::park();
    }
}
fn poll_once<F: Future>(f: &mut Pin<Box<F>>) -> Poll<F::Output> {
    let w = waker();
    f.as_mut().poll(&mut Context::from_waker(&w))
}

fn role(op: u32, k: usize) {
    let c = cache();
    let q = Q(k as u8);
    let inv = now();
    let me = tid() as usize;
    match op {
        // loads
        0 | 1 => {
            let mut ran = 0;
            let mut s = Spec::default();
            let mut hard = false;
            let die = op == 1 && unsafe { DIES[me] };
            let r = attempt(die, || c.get_or_insert_with(&q, || {
                obtained(k, inv);
                point();
                if op == 0 {
                    s = spec();
                    hard = unsafe { HARD[me] };
                    ran = fill_begin();
                    Ok(V::new(s))
                } else {
                    given_up();
                    ran = 1;
                    may_die();
                    Err(())
                }
            }));
            match r.unwrap_or(Err(())) {
                Ok(v) if ran != 0 => {
                    check(v.0.id == s.id, FLIGHT, 5);
                    drop(v);
                    fill_end(k, s, inv, ran, None, hard)
                }
                Ok(v) => value(k, v.0.id, inv),
                Err(()) => check(ran != 0 && op == 1, FLIGHT, 6),
            }
        }
        2 | 3 => match c.get_value_or_guard(&q, None) {
            GuardResult::Value(v) => value(k, v.0.id, inv),
            GuardResult::Guard(g) => use_guard(k, g, inv, op == 2),
            GuardResult::Timeout => check(false, WOKEN, 7),
        },
        4 | 5 => match c.get_value_or_guard(&q, Some(Duration::from_millis(1))) {
            GuardResult::Value(v) => value(k, v.0.id, inv),
            GuardResult::Guard(g) => use_guard(k, g, inv, op == 4),
            GuardResult::Timeout => {}
        },
        6 | 7 => match block_on(c.get_value_or_guard_async(&q)) {
            Ok(v) => value(k, v.0.id, inv),
            Err(g) => use_guard(k, g, inv, op == 6),
        },
        8 => {
            let mut ran = 0;
            let mut s = Spec::default();
            let mut hard = false;
            let r = block_on(c.get_or_insert_async(&q, async {
                obtained(k, inv);
                point();
                s = spec();
                hard = unsafe { HARD[me] };
                ran = fill_begin();
                Ok::<_, ()>(V::new(s))
            }));
            match r {
                Ok(v) if ran != 0 => {
                    check(v.0.id == s.id, FLIGHT, 8);
                    drop(v);
                    fill_end(k, s, inv, ran, None, hard)
                }
                Ok(v) => value(k, v.0.id, inv),
                Err(()) => check(false, FLIGHT, 9),
            }
        }
        // futures that are dropped while they wait
        9 | 10 => {
            let mut f = Box::pin(c.get_value_or_guard_async(&q));
            let mut r = poll_once(&mut f);
            if op == 10 && r.is_pending() {
                point();
                r = poll_once(&mut f);
            }
            match r {
                Poll::Ready(Ok(v)) => value(k, v.0.id, inv),
                Poll::Ready(Err(g)) => use_guard(k, g, inv, op == 10),
                Poll::Pending => {
                    point();
                    drop(f);
                }
            }
        }
        11 => {
            let r = c.get(&q).map_or(0, |v| v.0.id);
            push(READ, k, r, inv);
        }
        12 => {
            disturb_begin();
            let r = c.remove(&q).map_or(0, |x| x.1 .0.id);
            push(REMOVE, k, r, inv);
            disturb_end(k, inv, true);
        }
        13 => {
            let s = spec();
            disturb_begin();
            c.insert(K::new(k), V::new(s));
            push(WRITE, k, s.id, inv);
            disturb_end(k, inv, true);
        }
        14 => {
            let s = spec();
            disturb_begin();
            let r = c.replace(K::new(k), V::new(s), false);
            let ok = r.is_ok();
            if let Err((_, v)) = r {
                check(v.0.id == s.id, LINEAR, 10);
            }
            push(if ok { REPL } else { REPLNO }, k, s.id, inv);
            disturb_end(k, inv, ok);
        }
        15 => {
            disturb_begin();
            c.clear();
            push(CLEAR, 0, 0, inv);
            disturb_end(unsafe { NKEYS }, inv, true);
        }
        16 => {
            disturb_begin();
            c.retain(|x, _| x.k() != k);
            push(RETAIN, k, 0, inv);
            disturb_end(k, inv, false);
        }
        17 => {
            let r = c.contains_key(&q);
            push(HAS, k, r as u32, inv);
        }
        18 => {
            let r = c.peek(&q).map_or(0, |v| v.0.id);
            push(READ, k, r, inv);
        }
        _ => {}
    }
}
/// what each thread does, chosen before they start
static mut PLAN: [[(u32, usize); 4]; NT] = [[(0, 0); 4]; NT];
extern "C" fn thread(t: u64) {
    for i in 0..param(5) as usize {
        if i > 0 {
            point();
        }
        let (op, k) = unsafe { PLAN[t as usize][i] };
        role(op, k);
    }
}

// ---------------------------------------------------------------- an order of the operations
fn apply(o: &Op, st: &mut [u32; 3], opt: bool) -> bool {
    let k = o.k as usize;
    match o.kind {
        READ => {
            if st[k] != o.id {
                return false;
            }
        }
        HAS => {
            if (st[k] != 0) != (o.id != 0) {
                return false;
            }
        }
        WRITE => st[k] = o.id,
        FILLQ => {
            if opt {
                st[k] = o.id
            }
        }
        REMOVE => {
            if st[k] != o.id {
                return false;
            }
            st[k] = 0;
        }
        CLEAR => *st = [0; 3],
        RETAIN => st[k] = 0,
        REPL => {
            if st[k] == 0 {
                return false;
            }
            st[k] = o.id;
        }
        REPLNO => {
            if st[k] != 0 {
                return false;
            }
        }
        _ => {}
    }
    for i in 0..3 {
        if o.ev[i] != 0 && st[o.evk[i] as usize] == o.ev[i] {
            st[o.evk[i] as usize] = 0;
        }
    }
    true
}
fn order(ops: &[Op], done: u32, st: [u32; 3], end: &[u32; 3]) -> bool {
    if done + 1 == 1 << ops.len() {
        return st == *end;
    }
    // the first response among the operations left
    let mut first = u32::MAX;
    for (i, o) in ops.iter().enumerate() {
        if done >> i & 1 == 0 && o.resp < first {
            first = o.resp;
        }
    }
    for (i, o) in ops.iter().enumerate() {
        if done >> i & 1 == 0 && o.inv < first {
            for opt in 0..if o.kind == FILLQ { 2 } else { 1 } {
                let mut s = st;
                if apply(o, &mut s, opt == 0) && order(ops, done | 1 << i, s, end) {
                    return true;
                }
            }
        }
    }
    false
}
/// params: 0..=3 operations of each thread (0: no such thread), 4 number of keys, 5 operations per thread,
/// 6 configurations, 7 features (2: keys may be present at first), 8 spurious wake-ups,
/// 9 preemption at integer atomics too, 10 hash layouts
pub fn threads() {
    set_hashes(pick(param(10)));
    let base = heap_live();
    let (c, cap, _) = make::<S>(pick(param(6)));
    let p = Box::into_raw(Box::new(c));
    unsafe {
        CACHE = Some(&*p);
        NKEYS = param(4) as usize;
        FEAT = param(7);
        CAP = cap;
        shuttle::SPURIOUS = param(8) as u32;
        shuttle::FINE = param(9) != 0;
    }
    let c = cache();
    let nk = param(4) as usize;
    if param(7) & 2 != 0 {
        for k in 0..nk {
            if flip() {
                let s = spec();
                let inv = now();
                c.insert(K::new(k), V::new(s));
                push(WRITE, k, s.id, inv);
            }
        }
    }
    let mut n = 0;
    let mut used = if param(7) & 2 != 0 { nk } else { 0 };
    while n < NT && param(n as u32) != 0 {
        for i in 0..param(5) as usize {
            let op = pick(param(n as u32));
            // keys in the order of their use, threads with the same choice in the order of their first operation
            let k = if used < nk { choose(used as u32 + 1) as usize } else { choose(nk as u32) as usize };
            if k == used {
                used += 1;
            }
            unsafe { PLAN[n][i] = (op, k) };
        }
        unsafe {
            let gives_up = PLAN[n][..param(5) as usize].iter().any(|p| matches!(p.0, 1 | 3 | 5 | 7 | 9));
            DIES[n] = FEAT & F_PANIC != 0 && gives_up && flip()
        };
        if n > 0 && param(n as u32) == param(n as u32 - 1) {
            unsafe { assume(PLAN[n - 1][0].0 <= PLAN[n][0].0) };
        }
        n += 1;
    }
    for t in 1..n {
        spawn(thread, t as u64);
    }
    unsafe { shuttle::ON = true };
    pause();
    thread(0);
    for t in 1..n {
        join(t as u64);
    }
    unsafe { shuttle::ON = false };
    // quiescent: the counts are exact
    let mut end = [0; 3];
    let (mut len, mut weight) = (0, 0);
    for k in 0..nk {
        end[k] = c.peek(&Q(k as u8)).map_or(0, |v| v.0.id);
        log(end[k] as u64);
        if end[k] != 0 {
            len += 1;
            weight += unsafe { WEIGHT[end[k] as usize] };
        }
    }
    check(c.len() == len, LINEAR, 20);
    check(c.weight() == weight, LINEAR, 21);
    unsafe {
        // values delivered to callers: stored by an operation that overlaps the lookup, or seen in the cache
        for i in 0..NVAL {
            let (k, id, inv, resp) = VALS[i];
            let mut over = false;
            for j in 0..NO {
                let o = &OPS[j];
                if o.id == id && o.k as usize == k && matches!(o.kind, WRITE | FILLQ | 100) && o.inv < resp && o.resp > inv {
                    over = true;
                }
            }
            if !over {
                OPS[NO] = Op { kind: READ, k: k as u8, id, inv, resp, ..OP0 };
                NO += 1;
                check(NO < NOPS, 0, 803);
            }
        }
        if NDIST == 0 && EVICTED == 0 {
            // a single load succeeds per key, and everybody gets its value
            check(FILLS <= nk as u32, FLIGHT, 22);
            check(LOADS == FILLS + GIVEN, FLIGHT, 23);
            for i in 0..NVAL {
                check(end[VALS[i].0] == VALS[i].1, FLIGHT, 24);
            }
        }
        check(order(&OPS[..NO], 0, [0; 3], &end), LINEAR, 25);
        check(WAKERS == 0, WOKEN, 26);
        check(RLIVE == 0, 0, 27);
    }
    // nothing is left behind: no key stays blocked
    check(klive() == len as i32 && vlive() == len as i32, STALE, 30);
    for k in 0..nk {
        if end[k] == 0 {
            match c.get_value_or_guard(&Q(k as u8), None) {
                GuardResult::Guard(_) => {}
                _ => check(false, WOKEN, 31),
            }
        }
    }
    check(c.len() == len, LINEAR, 32);
    drop(unsafe { Box::from_raw(p) });
    check(klive() == 0 && vlive() == 0, STALE, 33);
    check(heap_live() == base, STALE, 34);
}

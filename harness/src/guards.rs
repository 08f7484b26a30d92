//! C18, C27 (and the single-threaded part of C15, C16): outstanding guards and pending futures of one
//! shared cache, interleaved with other operations at the granularity of API calls and polls.
use crate::api::*;
use crate::machine::*;
use crate::pick;
use crate::rt::*;
use crate::twin::make;
use crate::types::*;
use quick_cache::sync::{GuardResult, PlaceholderGuard};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub const FLIGHT: u32 = 15;
pub const WOKEN: u32 = 16;
pub const STALE: u32 = 18;
pub const CANCEL: u32 = 27;

pub type G = PlaceholderGuard<'static, K, V, We, H, L>;
type Fut = Pin<Box<dyn Future<Output = Out>>>;
enum Out {
    Val(u32),
    Guard(G),
    Failed,
}

// ---------------------------------------------------------------- wakers: the number of times each was woken
const NW: usize = 32;
pub static mut WAKES: [u32; NW] = [0; NW];
pub static mut WAKERS: i32 = 0;
fn w_clone(p: *const ()) -> RawWaker {
    unsafe { WAKERS += 1 };
    RawWaker::new(p, &VT)
}
fn w_wake(p: *const ()) {
    w_wake_ref(p);
    w_drop(p)
}
fn w_wake_ref(p: *const ()) {
    unsafe { WAKES[p as usize - 1] += 1 }
}
fn w_drop(_: *const ()) {
    unsafe { WAKERS -= 1 }
}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);
pub fn waker(i: usize) -> Waker {
    unsafe {
        WAKERS += 1;
        Waker::from_raw(RawWaker::new((i + 1) as *const (), &VT))
    }
}

// ---------------------------------------------------------------- model
const NF: usize = 3;
const NG: usize = 3;
#[derive(Clone, Copy, PartialEq)]
enum GenSt {
    Free,
    /// guard in slot
    Held(usize),
    /// future running its loader
    Running(usize),
    /// future that was woken to take over
    Heir(usize),
    Filled(u32),
    Gone,
}
#[derive(Clone, Copy, PartialEq)]
enum FutSt {
    None,
    New,
    Pend(usize),
    Run(usize),
}
const NGEN: usize = 16;
struct M {
    c: &'static S,
    nk: usize,
    feat: u64,
    cap: u64,
    res: [u32; 3],
    w: [u64; 3],
    load: [usize; 3],
    gen: [GenSt; NGEN],
    gkey: [usize; NGEN],
    ngen: usize,
    guards: [Option<G>; NG],
    ggen: [usize; NG],
    futs: [Option<Fut>; NF],
    fst: [FutSt; NF],
    fkey: [usize; NF],
    fload: [u32; NF],
    polls: [usize; NF],
    nf: usize,
}
const NOGEN: usize = 99;
/// loader that is pending once
struct Once(bool);
impl Future for Once {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
/// outcome of the running asynchronous loader: 0 fails, otherwise the id of the value
static mut LOADED: Spec = Spec { id: 0, w: 0, pin: false, mode: false, bw: 0 };
async fn value_or_guard(c: &'static S, k: usize) -> Out {
    let q = Q(k as u8);
    match c.get_value_or_guard_async(&q).await {
        Ok(v) => Out::Val(v.0.id),
        Err(g) => Out::Guard(g),
    }
}
async fn get_or_insert(c: &'static S, k: usize) -> Out {
    let q = Q(k as u8);
    let r = c
        .get_or_insert_async(&q, async {
            Once(false).await;
            let s = unsafe { LOADED };
            if s.id == 0 {
                may_die();
                Err(())
            } else {
                Ok(V::new(s))
            }
        })
        .await;
    match r {
        Ok(v) => Out::Val(v.0.id),
        Err(()) => Out::Failed,
    }
}
impl M {
    fn spec(&self) -> Spec {
        Spec {
            id: fresh_id(),
            w: if self.feat & F_UNIT != 0 {
                unit()
            } else if self.feat & F_LIGHT != 0 {
                1
            } else {
                sym(0, self.cap + 1)
            },
            ..Default::default()
        }
    }
    fn wid(&self, f: usize) -> usize {
        f * 8 + if self.polls[f] > 7 { 7 } else { self.polls[f] }
    }
    /// (number of wake-ups of the waker the future gave last)
    fn woken(&self, f: usize) -> u32 {
        unsafe { WAKES[self.wid(f)] }
    }
    fn stored(&mut self, k: usize, s: Spec) {
        self.res[k] = s.id;
        self.w[k] = s.w;
        self.load[k] = NOGEN;
    }
    fn evictions(&mut self) {
        for i in 0..unsafe { NEV } {
            let e = unsafe { EV[i] };
            if e.kind == EVICT && self.res[e.k as usize] == e.id {
                self.res[e.k as usize] = 0;
            }
        }
        ev_reset();
    }
    fn new_gen(&mut self, k: usize, st: GenSt) -> usize {
        let g = self.ngen;
        self.ngen += 1;
        self.gen[g] = st;
        self.gkey[g] = k;
        self.load[k] = g;
        g
    }
    fn wakes(&self) -> [u32; NF] {
        let mut a = [0; NF];
        for f in 0..self.nf {
            a[f] = self.woken(f);
        }
        a
    }
    /// the guard of `g` was given up; `before`: wake counts before
    fn given_up(&mut self, g: usize, before: [u32; NF]) {
        let mut waiting = 0;
        let mut heirs = 0;
        let mut heir = 0;
        for f in 0..self.nf {
            if self.fst[f] == FutSt::Pend(g) {
                waiting += 1;
                if self.woken(f) > before[f] {
                    heirs += 1;
                    heir = f;
                }
            }
        }
        if waiting == 0 {
            self.gen[g] = GenSt::Gone;
            if self.load[self.gkey[g]] == g {
                self.load[self.gkey[g]] = NOGEN;
            }
        } else {
            check(heirs == 1, WOKEN, 1);
            assume(heirs == 1);
            self.gen[g] = GenSt::Heir(heir);
        }
    }
    /// the guard of `g` was filled; `ok`: reported as stored
    fn filled(&mut self, g: usize, s: Spec, before: [u32; NF], ok: Option<bool>) {
        for f in 0..self.nf {
            if self.fst[f] == FutSt::Pend(g) {
                check(self.woken(f) > before[f], WOKEN, 2);
            }
        }
        let k = self.gkey[g];
        let current = self.load[k] == g;
        if let Some(ok) = ok {
            check(ok == current, STALE, 3);
        }
        self.gen[g] = GenSt::Filled(s.id);
        if current {
            self.stored(k, s);
        }
        self.evictions();
    }
    fn take_guard(&mut self, g: usize, x: G) {
        let slot = match self.guards.iter().position(|x| x.is_none()) {
            Some(s) => s,
            None => {
                // bound: no more guards than slots
                std::mem::forget(x);
                assume(false);
                return;
            }
        };
        self.guards[slot] = Some(x);
        self.ggen[slot] = g;
        self.gen[g] = GenSt::Held(slot);
    }
    fn observe(&mut self) {
        let mut n = 0;
        let mut w = 0u64;
        for k in 0..self.nk {
            let q = Q(k as u8);
            let p = self.c.peek(&q).map_or(0, |v| v.0.id);
            check(p == self.res[k], STALE, 10);
            check(self.c.contains_key(&q) == (self.res[k] != 0), STALE, 11);
            if self.res[k] != 0 {
                n += 1;
                w += self.w[k];
            }
            log(p as u64);
        }
        check(self.c.len() == n, STALE, 12);
        check(self.c.weight() == w, STALE, 13);
    }
    fn step(&mut self, mask: u64) {
        let op = pick(mask);
        ev_reset();
        let before = self.wakes();
        match op {
            // obtain a guard; if the key is loading, a lookup has to wait
            0 => {
                let k = choose(self.nk as u32) as usize;
                let q = Q(k as u8);
                if self.res[k] == 0 && self.load[k] != NOGEN {
                    let mut f: Fut = Box::pin(value_or_guard(self.c, k));
                    let w = waker(NW - 1);
                    match f.as_mut().poll(&mut Context::from_waker(&w)) {
                        Poll::Pending => {}
                        Poll::Ready(_) => check(false, FLIGHT, 20),
                    }
                } else {
                    match self.c.get_value_or_guard(&q, None) {
                        GuardResult::Value(v) => check(v.0.id == self.res[k], STALE, 21),
                        GuardResult::Guard(x) => {
                            check(self.res[k] == 0, STALE, 22);
                            let g = self.new_gen(k, GenSt::Free);
                            self.take_guard(g, x);
                        }
                        GuardResult::Timeout => check(false, STALE, 23),
                    }
                }
            }
            // fill or drop a guard
            1 | 2 => {
                let slot = choose(NG as u32) as usize;
                assume(self.guards[slot].is_some());
                let Some(x) = self.guards[slot].take() else { return };
                let g = self.ggen[slot];
                if op == 1 {
                    let s = self.spec();
                    let r = if param(6) == 0 {
                        x.insert(V::new(s))
                    } else {
                        x.insert_with_lifecycle(V::new(s)).map(|_| ())
                    };
                    if let Err(v) = &r {
                        check(v.0.id == s.id, STALE, 24);
                    }
                    let ok = r.is_ok();
                    drop(r);
                    self.filled(g, s, before, Some(ok));
                } else {
                    self.dies(x);
                    self.given_up(g, before);
                }
            }
            3 => {
                let k = choose(self.nk as u32) as usize;
                let s = self.spec();
                self.c.insert(K::new(k), V::new(s));
                let load = self.load[k];
                self.stored(k, s);
                self.evictions();
                if self.res[k] == 0 {
                    // refused: a load under way is not affected
                    self.load[k] = load;
                }
            }
            4 => {
                let k = choose(self.nk as u32) as usize;
                let r = self.c.remove(&Q(k as u8)).map_or(0, |x| x.1 .0.id);
                check(r == self.res[k], STALE, 25);
                self.res[k] = 0;
                self.load[k] = NOGEN;
            }
            5 => {
                let k = choose(self.nk as u32) as usize;
                let s = self.spec();
                let r = self.c.replace(K::new(k), V::new(s), flip());
                if r.is_ok() {
                    check(self.res[k] != 0, STALE, 26);
                    self.stored(k, s);
                } else if let Err((_, v)) = &r {
                    check(v.0.id == s.id, STALE, 27);
                    let over = s.w > self.cap;
                    // refused although present: only an over-heavy one (the old value is gone then)
                    if self.res[k] != 0 {
                        self.res[k] = self.c.peek(&Q(k as u8)).map_or(0, |v| v.0.id);
                        let _ = over;
                    }
                }
                self.evictions();
            }
            6 => {
                self.c.clear();
                for k in 0..self.nk {
                    self.res[k] = 0;
                    self.load[k] = NOGEN;
                }
            }
            7 => {
                let k = choose(self.nk as u32) as usize;
                self.c.retain(|x, _| x.k() != k);
                self.res[k] = 0;
            }
            // a new future
            8 | 9 => {
                assume(self.nf < NF);
                if self.nf >= NF {
                    return;
                }
                let f = self.nf;
                self.nf += 1;
                let k = choose(self.nk as u32) as usize;
                self.fkey[f] = k;
                self.fst[f] = FutSt::New;
                self.fload[f] = (op == 9) as u32;
                self.futs[f] = Some(if op == 8 {
                    Box::pin(value_or_guard(self.c, k)) as Fut
                } else {
                    Box::pin(get_or_insert(self.c, k)) as Fut
                });
                self.poll(f);
            }
            10 => {
                let f = choose(NF as u32) as usize;
                assume(self.futs[f].is_some());
                if self.futs[f].is_some() {
                    self.poll(f);
                }
            }
            11 => {
                let f = choose(NF as u32) as usize;
                assume(self.futs[f].is_some());
                let Some(x) = self.futs[f].take() else { return };
                self.dies(x);
                self.dropped(f, before);
            }
            _ => {}
        }
        self.observe();
    }
    /// dropped by the code that holds it, or while that code unwinds
    fn dies<T>(&self, x: T) {
        let die = self.feat & F_PANIC != 0 && flip();
        let r = attempt(die, || {
            let x = x;
            may_die();
            drop(x)
        });
        check(r.is_none() == die, CANCEL, 46);
    }
    fn dropped(&mut self, f: usize, before: [u32; NF]) {
        let st = self.fst[f];
        self.fst[f] = FutSt::None;
        match st {
            FutSt::Pend(g) if self.gen[g] == GenSt::Heir(f) => self.given_up(g, before),
            FutSt::Run(g) => self.given_up(g, before),
            _ => {}
        }
    }
    fn poll(&mut self, f: usize) {
        let before = self.wakes();
        let Some(mut x) = self.futs[f].take() else { return };
        self.polls[f] += 1;
        let w = waker(self.wid(f));
        // a running loader finishes now
        let mut s = Spec::default();
        if let FutSt::Run(_) = self.fst[f] {
            if flip() {
                s = self.spec();
            }
        }
        unsafe { LOADED = s };
        let die = self.feat & F_PANIC != 0 && s.id == 0 && matches!(self.fst[f], FutSt::Run(_)) && flip();
        let r = match attempt(die, || x.as_mut().poll(&mut Context::from_waker(&w))) {
            Some(r) => r,
            // the loader panicked
            None => Poll::Ready(Out::Failed),
        };
        drop(w);
        let k = self.fkey[f];
        let ready = matches!(r, Poll::Ready(_));
        // what has to happen
        match self.fst[f] {
            FutSt::None => {}
            FutSt::New => {
                if self.res[k] != 0 {
                    check(matches!(&r, Poll::Ready(Out::Val(i)) if *i == self.res[k]), CANCEL, 30);
                } else if self.load[k] != NOGEN {
                    check(!ready, FLIGHT, 31);
                    self.fst[f] = FutSt::Pend(self.load[k]);
                } else {
                    let g = self.new_gen(k, GenSt::Free);
                    self.obtained(f, g, &r);
                }
            }
            FutSt::Pend(g) => match self.gen[g] {
                GenSt::Filled(i) => check(matches!(&r, Poll::Ready(Out::Val(j)) if *j == i), CANCEL, 32),
                GenSt::Heir(h) if h == f => self.obtained(f, g, &r),
                _ => check(!ready, CANCEL, 33),
            },
            FutSt::Run(g) => {
                if s.id != 0 {
                    check(matches!(&r, Poll::Ready(Out::Val(j)) if *j == s.id), CANCEL, 34);
                    self.filled(g, s, before, None);
                } else {
                    check(matches!(&r, Poll::Ready(Out::Failed)), CANCEL, 35);
                    self.fst[f] = FutSt::None;
                    self.given_up(g, before);
                }
            }
        }
        match r {
            Poll::Ready(o) => {
                drop(x);
                self.fst[f] = FutSt::None;
                if let Out::Guard(x) = o {
                    // the generation was set by `obtained`
                    let g = (0..self.ngen).find(|g| self.gen[*g] == GenSt::Running(f)).unwrap_or(0);
                    check(self.gen[g] == GenSt::Running(f), FLIGHT, 36);
                    self.take_guard(g, x);
                }
            }
            Poll::Pending => self.futs[f] = Some(x),
        }
    }
    /// the future has to have taken the load over
    fn obtained(&mut self, f: usize, g: usize, r: &Poll<Out>) {
        if self.fload[f] == 0 {
            check(matches!(r, Poll::Ready(Out::Guard(_))), WOKEN, 37);
        } else {
            check(r.is_pending(), WOKEN, 38);
            self.fst[f] = FutSt::Run(g);
        }
        self.gen[g] = GenSt::Running(f);
    }
}
/// params: 0 operations, 1 number of operations, 2 keys, 3 configurations, 4 features, 5 hash layouts,
/// 6 fill with the lifecycle variant
pub fn guards() {
    set_hashes(pick(param(5)));
    let base = heap_live();
    let (c, cap, _) = make::<S>(pick(param(3)));
    let p = Box::into_raw(Box::new(c));
    let mut m = M {
        c: unsafe { &*p },
        nk: param(2) as usize,
        feat: param(4),
        cap,
        res: [0; 3],
        w: [0; 3],
        load: [NOGEN; 3],
        gen: [GenSt::Free; NGEN],
        gkey: [0; NGEN],
        ngen: 0,
        guards: [const { None }; NG],
        ggen: [0; NG],
        futs: [const { None }; NF],
        fst: [FutSt::None; NF],
        fkey: [0; NF],
        fload: [0; NF],
        polls: [0; NF],
        nf: 0,
    };
    for _ in 0..param(1) {
        m.step(param(0));
    }
    // everything is given up; no key stays blocked and nothing is left behind
    for f in 0..NF {
        if m.futs[f].is_some() {
            let before = m.wakes();
            m.futs[f] = None;
            m.dropped(f, before);
        }
    }
    for s in 0..NG {
        if m.guards[s].is_some() {
            let before = m.wakes();
            m.guards[s] = None;
            let g = m.ggen[s];
            m.given_up(g, before);
        }
    }
    m.observe();
    check(unsafe { WAKERS } == 0, CANCEL, 40);
    let c = m.c;
    for k in 0..m.nk {
        check(m.load[k] == NOGEN, CANCEL, 41);
        if m.res[k] == 0 {
            match c.get_value_or_guard(&Q(k as u8), None) {
                GuardResult::Guard(_) => {}
                _ => check(false, CANCEL, 42),
            }
        }
    }
    m.observe();
    let n = c.len() as i32;
    check(klive() == n && vlive() == n, CANCEL, 43);
    drop(unsafe { Box::from_raw(p) });
    check(klive() == 0 && vlive() == 0, CANCEL, 44);
    check(heap_live() == base, CANCEL, 45);
}

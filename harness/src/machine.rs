//! Reference machine for single-threaded histories over the public API, shared by `unsync` and `sync`.
//!
//! The model never predicts *which* item the policy evicts: it follows the lifecycle events and
//! asserts, after every operation, what the documented guarantees say about them.
use crate::rt::*;
use crate::types::*;
use quick_cache::{Options, OptionsBuilder};

// property numbers
pub const COHERENCE: u32 = 1;
pub const BOUND: u32 = 2;
pub const ACCOUNT: u32 = 3;
pub const CONSERVE: u32 = 4;
pub const PINNED: u32 = 5;
pub const ADMIT: u32 = 6;
pub const OVERWEIGHT: u32 = 7;
pub const REPLACE: u32 = 8;
pub const REMOVE: u32 = 9;
pub const MUTATE: u32 = 10;
pub const LOADER: u32 = 11;
pub const MEMORY: u32 = 12;
pub const REQUEST: u32 = 24;

/// what an operation reported
pub enum GuardOut {
    Hit(u32),
    Done,
}

/// a pending lookup of a key that is being loaded
pub type Wait<A> = std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, <A as Api>::Guard>>>>;
pub fn poll<T>(f: &mut std::pin::Pin<Box<dyn std::future::Future<Output = T>>>) -> Option<T> {
    use std::task::*;
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

pub trait Api: Sized + 'static {
    const SYNC: bool;
    const CAN_DRAIN: bool = !Self::SYNC;
    /// a guard that is kept while other operations happen (shared cache only)
    type Guard;
    fn hold(c: &'static Self, q: &Q) -> Result<Self::Guard, u32>;
    fn fill(g: Self::Guard, v: V, lc: bool) -> Result<(), u32>;
    fn join(c: &'static Self, k: usize) -> Wait<Self>;
    fn make(o: Options) -> Self;
    fn insert(&mut self, k: K, v: V);
    fn insert_lc(&mut self, k: K, v: V) -> R;
    fn replace(&mut self, k: K, v: V, soft: bool) -> Result<(), (K, V)>;
    fn replace_lc(&mut self, k: K, v: V, soft: bool) -> Result<R, (K, V)>;
    fn get(&mut self, q: &Q) -> Option<(u32, u64)>;
    fn peek(&self, q: &Q) -> Option<(u32, u64)>;
    fn contains(&self, q: &Q) -> bool;
    fn remove(&mut self, q: &Q) -> Option<(K, V)>;
    fn retain(&mut self, f: impl Fn(&K, &V) -> bool);
    fn clear(&mut self);
    fn reserve(&mut self, n: usize);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn weight(&self) -> u64;
    fn capacity(&self) -> u64;
    /// guard based insertion: `Hit(id)` if present, otherwise `v` is inserted (`lc`: through the
    /// variant returning the request state); `how` selects among equivalent entry points
    fn guard_insert(&mut self, q: &Q, how: u32, lc: bool, v: V) -> GuardOut;
    fn guard_abandon(&mut self, q: &Q, how: u32) -> GuardOut;
    /// get_or_insert_with; the loader must run iff the key is absent.  Returns (loader ran, id seen)
    fn load(&mut self, q: &Q, how: u32, v: Option<V>) -> (bool, Result<Option<u32>, ()>);
    /// get_mut/peek_mut: set the weight through the mutable reference; None if absent
    fn mutate(&mut self, q: &Q, how: u32, w: u64, pin: bool) -> Option<u32>;
    /// every resident entry through iteration: calls f(k, id, w)
    fn each(&self, f: impl FnMut(usize, u32, u64)) -> bool;
    /// drain, consuming at most `n` items
    fn drain(&mut self, n: usize, f: impl FnMut(usize, u32, u64)) -> bool;
}

#[derive(Clone, Copy, Default)]
pub struct Slot {
    pub pres: bool,
    pub s: Spec,
}

/// an outstanding guard
pub struct Held<A: Api> {
    g: A::Guard,
    k: usize,
    /// the key was neither removed nor stored meanwhile
    cur: bool,
    f: Option<Wait<A>>,
}
const NHELD: usize = 2;

pub struct Mach<A: Api> {
    pub c: Box<A>,
    pub held: [Option<Held<A>>; NHELD],
    pub m: [Slot; NK],
    pub nk: usize,
    pub used: usize,
    pub cap: u64,
    /// heaviest admissible unpinned item
    pub hot: u64,
    pub feat: u64,
    /// the total may exceed the capacity since an item grew in place
    pub grown: bool,
    /// heap allocations before the cache existed
    pub base: u64,
    pub wmax: u64,
    /// keys that were inserted before (their hash may be remembered)
    pub seen: [bool; NK],
}

pub const F_PIN: u64 = 1;
pub const F_MODE: u64 = 2;
pub const F_UNIT: u64 = 4;
pub const F_MODE0: u64 = 8;
/// do not check lookups of every key after every operation (the property under check is another)
pub const F_LIGHT: u64 = 16;
/// the user's code panics in the middle of operations (builds that unwind)
pub const F_PANIC: u64 = 32;

pub const UNIT_LO: u64 = 1000;
pub const UNIT_HI: u64 = 1100;
/// a symbolic weight in a band narrow enough that the number of items that fit is fixed
pub fn unit() -> u64 {
    sym(UNIT_LO, UNIT_HI)
}
pub fn config(i: u32) -> (u64, usize, f64, f64) {
    // (weight capacity, estimated items, hot allocation, ghost allocation)
    match i {
        0 => (100, 4, 0.5, 0.5),
        1 => (3 << 32, 4, 0.97, 0.5),
        2 => (100, 8, 0.75, 1.0),
        3 => (60, 4, 1.0, 0.0),
        4 => (40, 4, 0.25, 0.25),
        5 => (0, 4, 0.97, 0.5),
        6 => (1, 1, 1.0, 1.0),
        7 => (100, 4, 0.0, 0.5),
        8 => (10, 0, 0.5, 1.0),
        // room for a number of items weighing UNIT_LO..=UNIT_HI
        9 => (3700, 8, 0.67, 1.0),
        10 => (4800, 8, 0.5, 0.5),
        11 => (5800, 4, 0.97, 0.25),
        12 => (u64::MAX, 8, 0.97, 0.5),
        13 => (u64::MAX / 2, 2, 0.5, 0.5),
        14 => (6800, 6, 0.5, 0.34),
        15 => (2400, 2, 0.5, 0.5),
        // next to nothing or nothing is remembered
        19 => (2400, 4, 0.5, 0.0),
        23 => (3700, 3, 0.34, 0.34),
        // not representable as f64, rounded up
        22 => ((1 << 53) + 3, 4, 1.0, 0.5),
        16 => (2400, 4, 1.0, 0.5),
        17 => (3700, 2, 0.34, 1.0),
        18 => (3700, 4, 0.67, 0.5),
        // several shards, room for everything
        20 => (1 << 40, 256, 0.97, 0.5),
        21 => (1 << 40, 64, 0.97, 0.5),
        // defaults
        24 => (2400, 4, 0.97, 0.5),
        25 => (3700, 6, 0.97, 0.5),
        _ => (3700, 4, 0.67, 0.5),
    }
}

pub fn options(cfg: u32) -> Options {
    let (cap, est, hot, ghost) = config(cfg);
    let mut o = OptionsBuilder::new();
    o.estimated_items_capacity(est).weight_capacity(cap).shards(match cfg {
        20 => 8,
        21 => 2,
        _ => 1,
    });
    if cfg < 24 {
        o.hot_allocation(hot).ghost_allocation(ghost);
    }
    o.build().unwrap()
}
impl<A: Api> Mach<A> {
    pub fn new(cfg: u32, nk: usize, feat: u64) -> Self {
        let base = heap_live();
        let (cap, _, hot, _) = config(cfg);
        let o = options(cfg);
        let hotw = (cap as f64 * hot) as u64;
        Mach {
            c: Box::new(A::make(o)),
            held: [const { None }; NHELD],
            m: Default::default(),
            nk,
            used: 0,
            cap,
            hot: if hotw > cap { cap } else { hotw },
            feat,
            grown: false,
            base,
            seen: [false; NK],
            wmax: match cfg {
                20 | 21 => 1000,
                _ if cap > u64::MAX / 64 => u64::MAX,
                _ => cap + 2,
            },
        }
    }
    pub fn spec(&mut self) -> Spec {
        let mut s = Spec { id: fresh_id(), ..Default::default() };
        s.w = if self.feat & F_UNIT != 0 { unit() } else { sym(0, self.wmax) };
        if self.feat & F_PIN != 0 {
            s.pin = flip();
        }
        if self.feat & F_MODE != 0 && flip() {
            s.mode = true;
            s.bw = if self.feat & F_UNIT != 0 { sym(0, UNIT_HI) } else { sym(0, self.wmax) };
        } else if self.feat & F_MODE0 != 0 && flip() {
            s.mode = true;
            s.bw = 0;
        }
        // the sum of the weights is a 64-bit number
        if self.wmax == u64::MAX {
            let mut t = s.w;
            let mut ok = true;
            if s.mode {
                ok &= t <= t.wrapping_add(s.bw);
                t = t.wrapping_add(s.bw);
            }
            for k in 0..self.nk {
                if self.m[k].pres {
                    for w in [self.m[k].s.w, if self.m[k].s.mode { self.m[k].s.bw } else { 0 }] {
                        ok &= t <= t.wrapping_add(w);
                        t = t.wrapping_add(w);
                    }
                }
            }
            assume(ok);
        }
        s
    }
    /// a key already used, or the next fresh one (keys are interchangeable up to their hash)
    pub fn key(&mut self) -> usize {
        let n = if self.used < self.nk { self.used + 1 } else { self.nk };
        let k = choose(n as u32) as usize;
        if k == self.used {
            self.used += 1;
        }
        k
    }
    /// a key whose absence and presence both matter: any key
    pub fn total(&self) -> u64 {
        let mut t = 0;
        for k in 0..self.nk {
            if self.m[k].pres {
                t += self.m[k].s.w;
            }
        }
        t
    }
    fn begin(&mut self) -> (u32, u32) {
        ev_reset();
        unsafe { (BEGUN, ENDED) }
    }
    /// request protocol: exactly one request begun, ended once iff `ended`
    fn request(&self, b: (u32, u32), begun: u32, ended: u32) {
        unsafe {
            check(BEGUN == b.0 + begun, REQUEST, 1);
            check(ENDED == b.1 + ended, REQUEST, 2);
            check(RLIVE == 0, REQUEST, 3);
            for i in 0..NEV {
                // every hook of the operation saw the state of this request
                check(EV[i].serial == BEGUN, REQUEST, 4);
                check(EV[i].kind != END || i + 1 == NEV, REQUEST, 5);
            }
        }
    }
    /// lookups, lengths and weights agree with the model
    pub fn observe(&mut self) {
        let mut n = 0;
        let mut t = 0;
        let mut ok = true;
        for k in 0..self.nk {
            let s = self.m[k];
            if s.pres {
                n += 1;
                t += s.s.w;
            }
            if self.feat & F_LIGHT == 0 {
                let p = self.c.peek(&Q(k as u8));
                let has = self.c.contains(&Q(k as u8));
                check(has == s.pres, COHERENCE, 1);
                check(p.is_some() == s.pres, COHERENCE, 2);
                if let Some((id, w)) = p {
                    check(id == s.s.id, COHERENCE, 3);
                    ok &= w == s.s.w;
                }
            }
        }
        if self.feat & F_LIGHT == 0 {
            check(ok, COHERENCE, 4);
        }
        check(self.c.len() == n, ACCOUNT, 1);
        check(self.c.is_empty() == (n == 0), ACCOUNT, 2);
        let w = self.c.weight();
        check(w == t, ACCOUNT, 3);
        check(self.c.capacity() == self.cap, ACCOUNT, 4);
        // one live key and one live value per resident entry, nothing more
        check(vlive() == n as i32, CONSERVE, 1);
        check(klive() == n as i32 + self.loads(), MEMORY, 1);
        log(n as u64);
        log(w);
    }
    pub fn observe_iter(&mut self) {
        let m = self.m;
        let mut seen = [false; NK];
        let mut ok = true;
        let did = self.c.each(|k, id, w| {
            check(m[k].pres && m[k].s.id == id && !seen[k], ACCOUNT, 5);
            ok &= m[k].s.w == w;
            seen[k] = true;
        });
        if did {
            check(ok, ACCOUNT, 6);
            for k in 0..self.nk {
                check(seen[k] == m[k].pres, ACCOUNT, 7);
            }
        }
    }
    /// Follows the events of an insertion-type operation on key `k` bringing `new`.
    /// Returns whether the new item is resident afterwards.
    fn follow(&mut self, k: usize, mut new: Spec, over0: bool) -> bool {
        let mut alive = true;
        let mut offered = [0u32; NK];
        let old = self.m[k];
        let mut old_out = !old.pres;
        let n = unsafe { NEV };
        for i in 0..n {
            let e = unsafe { EV[i] };
            let ek = e.k as usize;
            if e.kind == BEFORE {
                if e.id == new.id {
                    check(ek == k && alive, CONSERVE, 2);
                    // offered for eviction: neither pinned nor weightless
                    check(!new.pin && new.w != 0, PINNED, 1);
                    if new.mode {
                        new.mode = false;
                        new.w = new.bw;
                    }
                    if !over0 {
                        // a victim of its own insertion that became weightless stays
                        offered[k] = e.id;
                    }
                } else {
                    let s = &mut self.m[ek];
                    check(s.pres && s.s.id == e.id, CONSERVE, 3);
                    check(!s.s.pin && s.s.w != 0, PINNED, 2);
                    if s.s.mode {
                        s.s.mode = false;
                        s.s.w = s.s.bw;
                    }
                    offered[ek] = e.id;
                }
            } else if e.kind == EVICT {
                if e.id == new.id {
                    check(ek == k && alive, CONSERVE, 4);
                    alive = false;
                    if !over0 {
                        check(new.w != 0, PINNED, 3);
                        check(offered[k] == e.id, REQUEST, 6);
                    }
                } else if !old_out && ek == k && e.id == old.s.id {
                    // value replacement: no before_evict for it
                    check(offered[k] != e.id, REQUEST, 7);
                    old_out = true;
                    self.m[k].pres = false;
                } else {
                    let s = &mut self.m[ek];
                    check(s.pres && s.s.id == e.id, CONSERVE, 5);
                    check(offered[ek] == e.id, REQUEST, 8);
                    check(s.s.w != 0, PINNED, 4);
                    s.pres = false;
                }
            }
        }
        check(old_out, CONSERVE, 6);
        if alive {
            self.m[k] = Slot { pres: true, s: new };
        }
        alive
    }
    fn others_untouched(&self, pre: &[Slot; NK], k: usize) -> bool {
        let mut ok = true;
        for j in 0..self.nk {
            if j != k {
                ok &= self.m[j].pres == pre[j].pres && self.m[j].s.id == pre[j].s.id;
            }
        }
        ok
    }
    /// the weight bound after an insertion of key `k`
    fn bounded(&mut self, k: usize, guard: bool) {
        let mut unpinned = 0;
        let mut ev = 0;
        for j in 0..self.nk {
            if self.m[j].pres && !self.m[j].s.pin {
                unpinned += self.m[j].s.w;
                if j != k {
                    ev += self.m[j].s.w;
                }
            }
        }
        let t = self.total();
        // filling a guard with a weightless value triggers no eviction
        let none = guard & (!self.m[k].pres | (self.m[k].s.w == 0));
        check((t <= self.cap) | (ev == 0) | none, BOUND, 1);
        check(unpinned <= self.cap, BOUND, 2);
        // what the cache itself reports
        let w = self.c.weight();
        check((w <= self.cap) | (ev == 0) | none, BOUND, 3);
        self.grown = false;
    }
    /// common part of insert / replace / guard insert; `kind` 0 insert 1 replace 2 guard
    /// `rejected`: the call returned the item to the caller
    fn inserted(&mut self, b: (u32, u32), kind: u32, k: usize, s: Spec, rejected: bool, lc: bool) {
        let pre = self.m;
        let existed = pre[k].pres;
        let t0 = self.total();
        let over0 = s.w > self.hot && !s.pin;
        let mut w = s.w;
        if over0 {
            if s.mode {
                w = s.bw;
            }
            unsafe { check(NEV >= 1 && EV[0].kind == BEFORE && EV[0].id == s.id, REQUEST, 9) };
        }
        let over = over0 && w > self.hot;
        if over {
            cover(1);
            // refused: old value of the key goes, nobody else is disturbed
            let alive = {
                let mut n = 0;
                let mut got_old = false;
                let mut got_new = false;
                unsafe {
                    for i in 0..NEV {
                        let e = EV[i];
                        if e.kind == EVICT {
                            n += 1;
                            if e.id == s.id {
                                got_new = true
                            }
                            if existed && e.id == pre[k].s.id {
                                got_old = true
                            }
                        }
                        check(e.kind != BEFORE || e.id == s.id, OVERWEIGHT, 1);
                    }
                }
                check(got_old == existed, OVERWEIGHT, 2);
                check(got_new == (kind != 1), OVERWEIGHT, 3);
                check(n == existed as u32 + (kind != 1) as u32, OVERWEIGHT, 4);
                // nothing vanishes without notice
                check(got_old == existed && got_new == (kind != 1), CONSERVE, 11);
                check(n == existed as u32 + (kind != 1) as u32, CONSERVE, 12);
                false
            };
            check(rejected == (kind == 1), if kind == 1 { REPLACE } else { OVERWEIGHT }, 5);
            self.m[k].pres = alive;
            check(!self.c.contains(&Q(k as u8)), OVERWEIGHT, 6);
            if rejected {
                self.request(b, 1, 0);
            } else {
                self.request(b, 1, !lc as u32);
            }
            return;
        }
        if kind == 1 && !existed {
            cover(2);
            check(rejected, REPLACE, 1);
            unsafe { check(NEV == over0 as usize, REPLACE, 2) };
            self.request(b, 1, 0);
            return;
        }
        check(!rejected, if kind == 1 { REPLACE } else { ADMIT }, 3);
        if kind == 0 {
            self.detach(k);
        }
        // an item counted at its weight after before_evict shrank it
        let fits = t0 - if existed { pre[k].s.w } else { 0 } + w <= self.cap;
        let alive = self.follow(k, s, over0);
        if fits {
            cover(3);
            check(alive, ADMIT, 1);
            check(self.others_untouched(&pre, k), ADMIT, 2);
            unsafe {
                let mut n = 0;
                for i in 0..NEV {
                    n += (EV[i].kind == BEFORE) as usize;
                }
                check(n == over0 as usize, ADMIT, 4);
            }
        } else {
            cover(4);
        }
        // a key whose hash the cache never saw is always admitted (a remembered one competes with
        // the hot items and may lose)
        if kind == 0 && !existed {
            let mut fresh = true;
            for j in 0..self.nk {
                fresh &= !(self.seen[j] && unsafe { HASH[j] == HASH[k] });
            }
            if fresh {
                check(alive, ADMIT, 5);
            }
        }
        if kind == 1 {
            check(existed, REPLACE, 4);
        }
        if !alive {
            cover(5);
        }
        for j in 0..self.nk {
            if j != k && pre[j].pres && (pre[j].s.pin || pre[j].s.w == 0) {
                check(self.c.contains(&Q(j as u8)), PINNED, 5);
            }
        }
        if !(kind == 2 && self.grown) {
            self.bounded(k, kind == 2);
        }
        self.seen[k] = true;
        self.request(b, 1, !lc as u32);
    }
    pub fn op_insert(&mut self, k: usize, lc: bool) {
        let s = self.spec();
        self.op_insert_spec(k, s, lc)
    }
    pub fn op_insert_spec(&mut self, k: usize, s: Spec, lc: bool) {
        let b = self.begin();
        if lc {
            let r = self.c.insert_lc(K::new(k), V::new(s));
            unsafe { check(r.serial == b.0 + 1, REQUEST, 10) };
        } else {
            self.c.insert(K::new(k), V::new(s));
        }
        self.inserted(b, 0, k, s, false, lc);
    }
    pub fn op_replace(&mut self, k: usize, soft: bool, lc: bool) {
        let s = self.spec();
        let b = self.begin();
        let r = if lc {
            self.c.replace_lc(K::new(k), V::new(s), soft).map(|r| {
                check(r.serial == b.0 + 1, REQUEST, 11);
            })
        } else {
            self.c.replace(K::new(k), V::new(s), soft)
        };
        let rejected = r.is_err();
        if let Err((rk, rv)) = r {
            check(rk.k() == k && rv.0.id == s.id, REPLACE, 5);
        }
        self.inserted(b, 1, k, s, rejected, lc);
    }
    pub fn op_get(&mut self, k: usize) {
        let b = self.begin();
        let r = self.c.get(&Q(k as u8));
        let s = self.m[k];
        check(r.is_some() == s.pres, COHERENCE, 5);
        if let Some((id, w)) = r {
            check(id == s.s.id, COHERENCE, 6);
            check(w == s.s.w, COHERENCE, 7);
        }
        self.no_events(b);
    }
    fn no_events(&self, b: (u32, u32)) {
        unsafe { check(NEV == 0, CONSERVE, 7) };
        self.request(b, 0, 0);
    }
    pub fn op_remove(&mut self, k: usize) {
        let b = self.begin();
        let r = self.c.remove(&Q(k as u8));
        let s = self.m[k];
        check(r.is_some() == s.pres, REMOVE, 1);
        if let Some((rk, rv)) = r {
            check(rk.k() == k && rv.0.id == s.s.id, REMOVE, 2);
            check(rv.0.w == s.s.w, REMOVE, 3);
        }
        self.m[k].pres = false;
        self.detach(k);
        check(!self.c.contains(&Q(k as u8)), REMOVE, 4);
        self.still(REMOVE, 5);
        self.no_events(b);
    }
    /// everything the model holds resident is still served
    fn still(&mut self, p: u32, code: u32) {
        for k in 0..self.nk {
            let s = self.m[k];
            let r = self.c.peek(&Q(k as u8));
            check(r.is_some() == s.pres, p, code);
            if let Some((id, _)) = r {
                check(id == s.s.id, p, code);
            }
        }
        check(self.c.len() == self.count(), p, code + 50);
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        for k in 0..self.nk {
            n += self.m[k].pres as usize;
        }
        n
    }
    pub fn op_retain(&mut self) {
        let b = self.begin();
        if !A::SYNC && self.count() > 0 && self.dies() {
            // the predicate panics at the last item: whatever it refused may be gone
            self.retain_dies();
            self.no_events(b);
            return;
        }
        // keep by a symbolic weight threshold or by an arbitrary subset of the keys
        if flip() {
            let th = sym(0, self.wmax);
            self.c.retain(|k, v| {
                let _ = k;
                v.0.w >= th
            });
            for k in 0..self.nk {
                if self.m[k].pres && !(self.m[k].s.w >= th) {
                    self.m[k].pres = false;
                }
            }
        } else {
            let mut keep = [true; NK];
            for k in 0..self.nk {
                if self.m[k].pres {
                    keep[k] = flip();
                }
            }
            self.c.retain(|k, _| keep[k.k()]);
            for k in 0..self.nk {
                if !keep[k] {
                    self.m[k].pres = false;
                }
            }
        }
        self.still(REMOVE, 6);
        self.no_events(b);
    }
    pub fn op_clear(&mut self) {
        let b = self.begin();
        self.c.clear();
        for k in 0..self.nk {
            self.m[k].pres = false;
            self.detach(k);
        }
        self.still(REMOVE, 7);
        check(self.c.weight() == 0, REMOVE, 8);
        check(vlive() == 0, REMOVE, 9);
        self.no_events(b);
    }
    fn retain_dies(&mut self) {
        let n = self.count();
        let at = choose(n as u32) as usize;
        let left = core::cell::Cell::new(at);
        let mut keep = [true; NK];
        for k in 0..self.nk {
            if self.m[k].pres {
                keep[k] = flip();
            }
        }
        let r = attempt(true, || {
            self.c.retain(|k, _| {
                if left.get() == 0 {
                    may_die();
                }
                left.set(left.get() - 1);
                keep[k.k()]
            })
        });
        check(r.is_none(), REMOVE, 20);
        for k in 0..self.nk {
            if self.m[k].pres && !keep[k] && !self.c.contains(&Q(k as u8)) {
                self.m[k].pres = false;
            }
        }
        self.still(REMOVE, 21);
    }
    /// case split: does the user's code in the coming operation panic?
    fn dies(&self) -> bool {
        self.feat & F_PANIC != 0 && flip()
    }
    pub fn op_drain(&mut self) {
        let b = self.begin();
        let n = self.count();
        let take = choose(n as u32 + 2) as usize;
        let m = self.m;
        let mut seen = [false; NK];
        let mut got = 0;
        let die = take > 0 && n > 0 && A::CAN_DRAIN && self.dies();
        let last = if take < n { take } else { n };
        let did = attempt(die, || self.c.drain(take, |k, id, w| {
            check(m[k].pres && m[k].s.id == id && !seen[k], REMOVE, 10);
            check(m[k].s.w == w, REMOVE, 11);
            seen[k] = true;
            got += 1;
            if got == last {
                may_die();
            }
        }));
        if did != Some(false) {
            check(got == if take < n { take } else { n }, REMOVE, 12);
            for k in 0..self.nk {
                self.m[k].pres = false;
            }
            self.still(REMOVE, 13);
            check(self.c.weight() == 0, REMOVE, 14);
            check(vlive() == 0, REMOVE, 15);
        }
        self.no_events(b);
    }
    pub fn op_reserve(&mut self) {
        let b = self.begin();
        let n = match choose(3) {
            0 => 0,
            1 => 1,
            _ => 7,
        };
        self.c.reserve(n);
        self.no_events(b);
    }
    pub fn op_guard_insert(&mut self, k: usize, lc: bool) {
        let s = self.spec();
        let how = choose(if A::SYNC { 2 } else { 2 });
        let b = self.begin();
        match self.c.guard_insert(&Q(k as u8), how, lc, V::new(s)) {
            GuardOut::Hit(id) => {
                check(self.m[k].pres && self.m[k].s.id == id, LOADER, 1);
                self.no_events(b);
            }
            GuardOut::Done => {
                check(!self.m[k].pres, LOADER, 2);
                self.inserted(b, 2, k, s, false, lc);
                let r = self.c.peek(&Q(k as u8));
                check(r.is_some() == self.m[k].pres, LOADER, 3);
                if let Some((id, _)) = r {
                    check(id == s.id, LOADER, 4);
                }
            }
        }
    }
    pub fn op_guard_abandon(&mut self, k: usize) {
        let how = choose(2);
        let die = self.dies();
        let b = self.begin();
        match attempt(die, || self.c.guard_abandon(&Q(k as u8), how)) {
            Some(GuardOut::Hit(id)) => check(self.m[k].pres && self.m[k].s.id == id, LOADER, 5),
            Some(GuardOut::Done) | None => check(!self.m[k].pres, LOADER, 6),
        }
        self.still(LOADER, 7);
        check(klive() == self.count() as i32 + self.loads(), LOADER, 17);
        self.no_events(b);
    }
    pub fn op_load(&mut self, k: usize, fail: bool) {
        let how = choose(2);
        if fail {
            let die = self.dies();
            let b = self.begin();
            unsafe { crate::api::RAN = false };
            let r = attempt(die, || self.c.load(&Q(k as u8), how, None).1);
            let ran = unsafe { crate::api::RAN };
            check(ran == !self.m[k].pres, LOADER, 8);
            match r {
                None => check(ran, LOADER, 19),
                Some(Err(())) => check(ran, LOADER, 9),
                Some(Ok(v)) => check(!ran && v == Some(self.m[k].s.id), LOADER, 10),
            }
            // as if never called
            self.still(LOADER, 11);
            check(klive() == self.count() as i32 + self.loads(), LOADER, 18);
            self.no_events(b);
        } else {
            let s = self.spec();
            let b = self.begin();
            let (ran, r) = self.c.load(&Q(k as u8), how, Some(V::new(s)));
            check(ran == !self.m[k].pres, LOADER, 12);
            if ran {
                let lc = false;
                self.inserted(b, 2, k, s, false, lc);
                match r {
                    Err(()) => check(false, LOADER, 13),
                    Ok(Some(id)) => check(id == s.id && (A::SYNC || self.m[k].pres), LOADER, 14),
                    Ok(None) => check(!self.m[k].pres && !A::SYNC, LOADER, 15),
                }
            } else {
                check(r == Ok(Some(self.m[k].s.id)), LOADER, 16);
                self.no_events(b);
            }
        }
    }
    pub fn op_mutate(&mut self, k: usize) {
        let b = self.begin();
        let w = sym(0, self.wmax);
        if self.wmax == u64::MAX {
            assume(self.total() <= u64::MAX - w);
        }
        let pin = self.m[k].s.pin;
        let how = choose(if self.m[k].pres { 5 } else { 2 });
        let die = self.dies();
        let r = attempt(die, || self.c.mutate(&Q(k as u8), how, w, pin));
        if !self.m[k].pres {
            check(r == Some(None), MUTATE, 1);
        } else {
            check(if die { r.is_none() } else { r == Some(Some(self.m[k].s.id)) }, MUTATE, 2);
            // how == 4: looked at through the mutable reference, not changed
            if how != 4 {
                if w > self.m[k].s.w {
                    self.grown = true;
                }
                self.m[k].s.w = w;
                let p = self.c.peek(&Q(k as u8));
                check(p.is_some(), MUTATE, 3);
                if let Some((_, pw)) = p {
                    check(pw == w, MUTATE, 4);
                }
            }
        }
        check(self.c.weight() == self.total(), MUTATE, 5);
        self.still(MUTATE, 6);
        self.no_events(b);
    }
    // ------------------------------------------------------------ outstanding guards
    fn shared(&self) -> &'static A {
        unsafe { &*(&*self.c as *const A) }
    }
    /// number of keys being loaded
    fn loads(&self) -> i32 {
        let mut n = 0;
        for h in self.held.iter().flatten() {
            n += h.cur as i32;
        }
        n
    }
    fn loading(&self, k: usize) -> bool {
        self.held.iter().flatten().any(|h| h.cur && h.k == k)
    }
    /// the load of `k` was overtaken by another operation
    fn detach(&mut self, k: usize) {
        for h in self.held.iter_mut().flatten() {
            if h.k == k {
                h.cur = false;
            }
        }
    }
    pub fn op_hold(&mut self, k: usize) {
        assume(!self.loading(k) && self.held.iter().any(|h| h.is_none()));
        let b = self.begin();
        let r = A::hold(self.shared(), &Q(k as u8));
        match r {
            Err(id) => check(self.m[k].pres && self.m[k].s.id == id, LOADER, 40),
            Ok(g) => {
                check(!self.m[k].pres, LOADER, 41);
                self.seen[k] = true;
                for h in self.held.iter_mut() {
                    if h.is_none() {
                        *h = Some(Held { g, k, cur: true, f: None });
                        break;
                    }
                }
            }
        }
        self.still(LOADER, 42);
        self.no_events(b);
    }
    /// another task waits for the load
    pub fn op_join(&mut self) {
        let i = choose(NHELD as u32) as usize;
        let ok = matches!(&self.held[i], Some(h) if h.cur && h.f.is_none());
        assume(ok);
        let b = self.begin();
        let c = self.shared();
        if let Some(h) = &mut self.held[i] {
            let mut f = A::join(c, h.k);
            check(poll(&mut f).is_none(), LOADER, 43);
            h.f = Some(f);
        }
        self.still(LOADER, 44);
        self.no_events(b);
    }
    pub fn op_fill(&mut self, lc: bool) {
        let i = choose(NHELD as u32) as usize;
        assume(self.held[i].is_some());
        let s = self.spec();
        let b = self.begin();
        let Some(Held { g, k, cur, f }) = self.held[i].take() else { return };
        let r = A::fill(g, V::new(s), lc);
        // reported as stored iff nothing came in between; the waiter gets the value either way
        check(r.is_ok() == cur, LOADER, 45);
        if let Some(mut f) = f {
            check(matches!(poll(&mut f), Some(Ok(id)) if id == s.id), LOADER, 46);
        }
        if cur {
            self.inserted(b, 2, k, s, false, lc);
        } else {
            check(r == Err(s.id), LOADER, 47);
            unsafe { check(NEV == 0, CONSERVE, 10) };
            self.request(b, 1, 0);
        }
        self.still(LOADER, 48);
    }
    pub fn op_give_up(&mut self) {
        let i = choose(NHELD as u32) as usize;
        assume(self.held[i].is_some());
        let b = self.begin();
        let die = self.dies();
        let Some(Held { g, k, cur, f }) = self.held[i].take() else { return };
        let r = attempt(die, || {
            let g = g;
            may_die();
            drop(g)
        });
        check(r.is_none() == die, LOADER, 51);
        if let Some(mut f) = f {
            // the waiter takes over
            match poll(&mut f) {
                Some(Err(g)) => self.held[i] = Some(Held { g, k, cur, f: None }),
                _ => check(false, LOADER, 49),
            }
        }
        self.still(LOADER, 50);
        self.no_events(b);
    }
    /// one operation chosen among `mask`
    pub fn step(&mut self, mask: u64) {
        let mut n = 0;
        for i in 0..32 {
            n += (mask >> i & 1) as u32;
        }
        let mut c = choose(n);
        let mut op = 0;
        for i in 0..32 {
            if mask >> i & 1 == 1 {
                if c == 0 {
                    op = i;
                    break;
                }
                c -= 1;
            }
        }
        match op {
            0 => {
                let k = self.key();
                self.op_insert(k, false)
            }
            1 => {
                let k = self.key();
                self.op_get(k)
            }
            2 => {
                let k = self.key();
                self.op_remove(k)
            }
            3 => {
                let k = self.key();
                self.op_replace(k, false, false)
            }
            4 => {
                let k = self.key();
                self.op_replace(k, true, false)
            }
            5 => {
                let k = self.key();
                // (it would wait)
                assume(!self.loading(k));
                self.op_guard_insert(k, false)
            }
            6 => {
                let k = self.key();
                // (it would wait)
                assume(!self.loading(k));
                self.op_guard_abandon(k)
            }
            7 => {
                let k = self.key();
                // (it would wait)
                assume(!self.loading(k));
                self.op_load(k, false)
            }
            8 => {
                let k = self.key();
                // (it would wait)
                assume(!self.loading(k));
                self.op_load(k, true)
            }
            9 => {
                let k = self.key();
                self.op_mutate(k)
            }
            10 => self.op_retain(),
            11 => self.op_clear(),
            12 => self.op_drain(),
            13 => self.op_reserve(),
            14 => {
                let k = self.key();
                self.op_insert(k, true)
            }
            15 => {
                let k = self.key();
                let soft = flip();
                self.op_replace(k, soft, true)
            }
            16 => {
                let k = self.key();
                // (it would wait)
                assume(!self.loading(k));
                self.op_guard_insert(k, true)
            }
            17 => {
                let k = self.key();
                self.op_hold(k)
            }
            18 => self.op_fill(false),
            19 => self.op_give_up(),
            20 => self.op_join(),
            21 => self.op_fill(true),
            _ => {}
        }
        self.observe();
    }
    /// `n` insertions of distinct keys, each read 0..=`reads` times afterwards
    /// `admitted`: only items of non-zero weight that are not refused for their weight alone
    pub fn prefix(&mut self, n: usize, reads: u32, admitted: bool) {
        for k in 0..n {
            self.used = k + 1;
            let s = self.spec();
            if admitted {
                assume(s.w >= 1);
                assume(s.w <= self.hot);
            }
            self.op_insert_spec(k, s, false);
            for _ in 0..choose(reads + 1) {
                self.op_get(k);
            }
        }
        if n > 0 {
            self.observe();
        }
    }
    pub fn finish(mut self) {
        let base = self.base;
        for h in self.held.iter_mut() {
            if let Some(h) = h.take() {
                drop(h.f);
                drop(h.g);
            }
        }
        check(klive() == self.count() as i32, LOADER, 51);
        drop(self);
        // everything is released exactly once
        check(vlive() == 0, CONSERVE, 8);
        check(klive() == 0, CONSERVE, 9);
        check(heap_live() == base, MEMORY, 2);
    }
}

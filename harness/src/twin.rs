//! C13, C23: two caches fed with the same operations; one of them also gets operations that must not matter,
//! or is a clone of the other.
use crate::api::*;
use crate::machine::*;
use crate::pick;
use crate::rt::*;
use crate::types::*;

pub const READONLY: u32 = 13;
pub const CLONE: u32 = 23;

pub fn make<A: Api>(cfg: u32) -> (A, u64, u64) {
    let (cap, _, hot, _) = config(cfg);
    let target = (cap as f64 * hot) as u64;
    (
        A::make(options(cfg)),
        cap,
        if target > cap { cap } else { target },
    )
}
/// an operation with its arguments fixed, so that it can be applied twice
#[derive(Clone, Copy)]
pub struct Op {
    pub op: u32,
    pub k: usize,
    pub s: Spec,
    pub how: u32,
}
pub struct Gen {
    pub nk: usize,
    pub used: usize,
    pub feat: u64,
    pub cap: u64,
}
impl Gen {
    pub fn key(&mut self) -> usize {
        let n = if self.used < self.nk { self.used + 1 } else { self.nk };
        let k = choose(n as u32) as usize;
        if k == self.used {
            self.used += 1;
        }
        k
    }
    pub fn spec(&self) -> Spec {
        let mut s = Spec { id: fresh_id(), ..Default::default() };
        s.w = if self.feat & F_UNIT != 0 { unit() } else { sym(0, self.cap + 1) };
        if self.feat & F_MODE0 != 0 && flip() {
            s.w = 0;
        }
        if self.feat & F_PIN != 0 {
            s.pin = flip();
        }
        s
    }
    pub fn op(&mut self, mask: u64) -> Op {
        let op = pick(mask);
        let k = self.key();
        let s = if matches!(op, 0 | 3 | 4 | 5 | 7 | 9) { self.spec() } else { Spec::default() };
        let how = if matches!(op, 5 | 7 | 9) { choose(2) } else { 0 };
        Op { op, k, s, how }
    }
}
pub const NL: usize = NE + 8;
/// applies the operation; returns what the caller saw, and the evictions through the log
pub fn apply<A: Api>(c: &mut A, o: Op) -> u64 {
    ev_reset();
    let q = Q(o.k as u8);
    match o.op {
        0 => {
            c.insert(K::new(o.k), V::new(o.s));
            0
        }
        1 => c.get(&q).map_or(0, |x| x.0 as u64),
        2 => c.remove(&q).map_or(0, |x| x.1 .0.id as u64),
        3 | 4 => c.replace(K::new(o.k), V::new(o.s), o.op == 4).is_ok() as u64,
        5 => match c.guard_insert(&q, o.how, false, V::new(o.s)) {
            GuardOut::Hit(i) => i as u64,
            GuardOut::Done => 0,
        },
        6 => match c.guard_abandon(&q, o.how) {
            GuardOut::Hit(i) => i as u64,
            GuardOut::Done => 0,
        },
        7 => {
            let (ran, r) = c.load(&q, o.how, Some(V::new(o.s)));
            (ran as u64) << 32 | r.ok().flatten().unwrap_or(0) as u64
        }
        8 => {
            let (ran, r) = c.load(&q, o.how, None);
            (ran as u64) << 32 | r.ok().flatten().unwrap_or(0) as u64
        }
        9 => c.mutate(&q, o.how, o.s.w, false).unwrap_or(0) as u64,
        10 => {
            c.retain(|k, _| k.k() != o.k);
            0
        }
        11 => {
            c.clear();
            0
        }
        _ => 0,
    }
}
pub fn events() -> ([Ev; NE], usize) {
    unsafe { (EV, NEV) }
}
/// both caches reacted alike
pub fn same(p: u32, a: ([Ev; NE], usize), b: ([Ev; NE], usize), ra: u64, rb: u64) {
    check(ra == rb, p, 1);
    check(a.1 == b.1, p, 2);
    for i in 0..a.1 {
        check(a.0[i].kind == b.0[i].kind && a.0[i].k == b.0[i].k && a.0[i].id == b.0[i].id, p, 3);
        log((a.0[i].kind as u64) << 8 | a.0[i].k as u64);
    }
}
pub fn step_both<A: Api>(p: u32, a: &mut A, b: &mut A, o: Op) {
    let ra = apply(a, o);
    let ea = events();
    let rb = apply(b, o);
    same(p, ea, events(), ra, rb);
    compare(p, a, b);
}
pub fn compare<A: Api>(p: u32, a: &A, b: &A) {
    check(a.len() == b.len(), p, 4);
    check(a.weight() == b.weight(), p, 5);
}
pub fn contents<A: Api>(p: u32, a: &A, b: &A, nk: usize) {
    for k in 0..nk {
        let q = Q(k as u8);
        let (x, y) = (a.peek(&q), b.peek(&q));
        check(x.is_some() == y.is_some(), p, 6);
        if let (Some(x), Some(y)) = (x, y) {
            check(x.0 == y.0, p, 7);
            check(x.1 == y.1, p, 8);
        }
    }
}
/// operations that must leave no trace
fn noise<A: Noise>(c: &mut A, g: &Gen) {
    let n = if g.used < g.nk { g.used + 1 } else { g.nk };
    let kind = choose(A::KINDS);
    match kind {
        0 => {
            let q = Q(choose(n as u32) as u8);
            let _ = c.peek(&q);
            let _ = c.contains(&q);
        }
        1 => {
            let _ = (c.len(), c.weight(), c.is_empty(), c.capacity());
            c.each(|_, _, _| ());
        }
        2 => c.reserve(5),
        3 => {
            // a lookup that fails
            let k = choose(n as u32) as usize;
            if !c.contains(&Q(k as u8)) {
                let _ = c.get(&Q(k as u8));
            }
        }
        4 => {
            // soft replacement by an equal value
            let k = choose(n as u32) as usize;
            if let Some((id, w)) = c.peek(&Q(k as u8)) {
                let s = Spec { id, w, pin: c.pinned(&Q(k as u8)), ..Default::default() };
                let _ = c.replace(K::new(k), V::new(s), true);
            } else {
                // nothing to replace
                let s = Spec { id: 0, w: 1, ..Default::default() };
                let _ = c.replace(K::new(k), V::new(s), false);
            }
        }
        5 => c.retain(|_, _| true),
        _ => {
            let k = choose(n as u32) as usize;
            c.touch(&Q(k as u8));
        }
    }
}
pub trait Noise: Api {
    const KINDS: u32;
    fn pinned(&self, q: &Q) -> bool;
    fn touch(&mut self, _: &Q) {}
}
impl Noise for U {
    const KINDS: u32 = 7;
    fn pinned(&self, q: &Q) -> bool {
        quick_cache::unsync::Cache::peek(self, q).is_some_and(|v| v.0.pin)
    }
    fn touch(&mut self, q: &Q) {
        if let Some(v) = self.peek_mut(q) {
            let _ = v.0.w;
        }
    }
}
impl Noise for S {
    const KINDS: u32 = 6;
    fn pinned(&self, q: &Q) -> bool {
        quick_cache::sync::Cache::peek(self, q).is_some_and(|v| v.0.pin)
    }
}
fn tail<A: Api>(p: u32, a: &mut A, b: &mut A, g: &Gen, n: usize, target: u64) {
    for i in 0..n {
        let w = if g.feat & F_UNIT != 0 { unit() } else { target };
        let s = Spec { id: fresh_id(), w, ..Default::default() };
        step_both(p, a, b, Op { op: 0, k: g.nk + i, s, how: 0 });
    }
}
/// params: 0 operation mask, 1 prefix insertions, 2 free operations, 3 keys, 4 features, 5 configurations,
/// 6 insertions at the end, 7 reads per prefix key, 8 hash layouts
pub fn readonly<A: Noise>() {
    set_hashes(pick(param(8)));
    let cfg = pick(param(5));
    let (mut a, cap, target) = make::<A>(cfg);
    let (mut b, _, _) = make::<A>(cfg);
    let mut g = Gen { nk: param(3) as usize, used: 0, feat: param(4), cap };
    // where the harmless operation happens
    let n = param(1) + param(2);
    let at = choose(n as u32 + 1) as u64;
    for i in 0..n {
        let o = if i < param(1) {
            let mut s = g.spec();
            if g.feat & F_UNIT == 0 {
                assume(s.w >= 1);
                assume(s.w <= target);
            }
            s.mode = false;
            g.used = i as usize + 1;
            Op { op: 0, k: i as usize, s, how: 0 }
        } else {
            g.op(param(0))
        };
        step_both(READONLY, &mut a, &mut b, o);
        if i < param(1) {
            for _ in 0..choose(param(7) as u32 + 1) {
                step_both(READONLY, &mut a, &mut b, Op { op: 1, ..o });
            }
        }
        if i == at {
            noise(&mut a, &g);
            contents(READONLY, &a, &b, g.nk);
        }
    }
    if at == n {
        noise(&mut a, &g);
    }
    tail(READONLY, &mut a, &mut b, &g, param(6) as usize, target);
    contents(READONLY, &a, &b, g.nk);
}
/// the copy is taken after some operations and either follows the original or is left alone
pub fn clone() {
    set_hashes(pick(param(8)));
    let (mut a, cap, target) = make::<U>(pick(param(5)));
    let mut g = Gen { nk: param(3) as usize, used: 0, feat: param(4), cap };
    for k in 0..param(1) as usize {
        let s = g.spec();
        if g.feat & F_UNIT == 0 {
            assume(s.w >= 1);
            assume(s.w <= target);
        }
        g.used = k + 1;
        let o = Op { op: 0, k, s, how: 0 };
        apply(&mut a, o);
        for _ in 0..choose(param(7) as u32 + 1) {
            apply(&mut a, Op { op: 1, ..o });
        }
    }
    let at = choose(param(2) as u32) as u64;
    let mut b = None;
    for i in 0..param(2) {
        if i == at {
            let v = vlive();
            b = Some(a.clone());
            let b = b.as_ref().unwrap();
            compare(CLONE, &a, b);
            contents(CLONE, &a, b, g.nk);
            check(b.capacity() == a.capacity(), CLONE, 9);
            check(vlive() == 2 * v, CLONE, 10);
        }
        let o = g.op(param(0));
        if let Some(b) = &mut b {
            if flip() {
                // only the original: the copy does not notice
                let before = b.clone();
                apply(&mut a, o);
                compare(CLONE, &before, b);
                contents(CLONE, &before, b, g.nk);
                drop(a);
                a = before;
                apply(&mut a, o);
                apply(b, o);
            } else {
                step_both(CLONE, &mut a, b, o);
            }
        } else {
            apply(&mut a, o);
        }
    }
    let mut b = b.unwrap();
    tail(CLONE, &mut a, &mut b, &g, param(6) as usize, target);
    contents(CLONE, &a, &b, g.nk);
    let n = b.len();
    drop(a);
    check(vlive() == n as i32, CLONE, 11);
    drop(b);
    check(vlive() == 0, CLONE, 12);
    check(klive() == 0, CLONE, 13);
}

//! C14: evictions against an abstract model of the documented policy (two clock lists and a ghost queue).
use crate::machine::*;
use crate::pick;
use crate::rt::*;
use crate::types::*;

pub const POLICY: u32 = 14;

#[derive(Clone, Copy)]
struct Ring {
    a: [u8; NK],
    n: usize,
}
impl Ring {
    fn new() -> Ring {
        Ring { a: [0; NK], n: 0 }
    }
    fn push(&mut self, k: usize) {
        self.a[self.n] = k as u8;
        self.n += 1;
    }
    fn remove(&mut self, k: usize) -> bool {
        let mut i = 0;
        while i < self.n {
            if self.a[i] as usize == k {
                while i + 1 < self.n {
                    self.a[i] = self.a[i + 1];
                    i += 1;
                }
                self.n -= 1;
                return true;
            }
            i += 1;
        }
        false
    }
    /// takes out position `p`; what was before it goes to the back
    fn take(&mut self, p: usize) -> usize {
        let k = self.a[p] as usize;
        let old = *self;
        self.n = 0;
        for i in p + 1..old.n {
            self.push(old.a[i] as usize);
        }
        for i in 0..p {
            self.push(old.a[i] as usize);
        }
        k
    }
    fn has(&self, k: usize) -> bool {
        let mut i = 0;
        while i < self.n {
            if self.a[i] as usize == k {
                return true;
            }
            i += 1;
        }
        false
    }
}
#[derive(Clone, Copy, Default)]
struct Ent {
    pres: bool,
    hot: bool,
    uses: u8,
    s: Spec,
}
struct Pol {
    e: [Ent; NK],
    hot: Ring,
    cold: Ring,
    ghost: Ring,
    wh: u64,
    wc: u64,
    cap: u64,
    target: u64,
    ghosts: usize,
    ev: [Ev; NE],
    nev: usize,
}
impl Pol {
    fn out(&mut self, kind: u8, k: usize, id: u32) {
        self.ev[self.nev] = Ev { kind, k: k as u8, id, serial: 0, who: 0 };
        self.nev += 1;
    }
    fn evict(&mut self, k: usize) {
        let id = self.e[k].s.id;
        self.out(BEFORE, k, id);
        self.out(EVICT, k, id);
        self.e[k].pres = false;
    }
    fn advance_hot(&mut self) -> bool {
        if self.hot.n == 0 {
            return false;
        }
        let mut p = 0;
        let mut any = false;
        loop {
            let k = self.hot.a[p] as usize;
            let next = if p + 1 == self.hot.n { 0 } else { p + 1 };
            if self.e[k].s.pin {
                if self.e[k].uses > 0 {
                    self.e[k].uses -= 1;
                }
                if !any && next == 0 {
                    return false;
                }
            } else {
                any = true;
                if self.e[k].uses == 0 {
                    self.wh -= self.e[k].s.w;
                    self.evict(k);
                    self.hot.take(p);
                    return true;
                }
                self.e[k].uses -= 1;
            }
            p = next;
        }
    }
    fn advance(&mut self) -> bool {
        for p in 0..self.cold.n {
            let k = self.cold.a[p] as usize;
            let w = self.e[k].s.w;
            if self.e[k].uses > 0 {
                self.e[k].uses -= 1;
                self.e[k].hot = true;
                self.cold.take(p);
                self.hot.push(k);
                self.wc -= w;
                self.wh += w;
                while self.wh > self.target && self.advance_hot() {}
                return true;
            }
            if !self.e[k].s.pin {
                self.wc -= w;
                self.evict(k);
                self.cold.take(p);
                self.ghost.push(k);
                if self.ghost.n > self.ghosts {
                    self.ghost.take(0);
                }
                return true;
            }
        }
        self.advance_hot()
    }
    fn make_room(&mut self, w: u64) {
        while self.wh + self.wc + w > self.cap && self.advance() {}
    }
    fn enter(&mut self, k: usize, s: Spec, hot: bool) {
        self.e[k] = Ent { pres: true, hot, uses: 0, s };
        if hot {
            self.hot.push(k);
            self.wh += s.w;
        } else {
            self.cold.push(k);
            self.wc += s.w;
        }
    }
    fn forget(&mut self, k: usize) {
        let e = self.e[k];
        if e.pres {
            if e.hot {
                self.hot.remove(k);
                self.wh -= e.s.w;
            } else {
                self.cold.remove(k);
                self.wc -= e.s.w;
            }
            self.e[k].pres = false;
        }
    }
    /// kind: 0 insert, 1 replace, 2 soft replace, 3 guard fill
    fn store(&mut self, k: usize, s: Spec, kind: u32) {
        let remembered = kind == 3 && self.ghost.remove(k);
        self.store_as(k, s, kind, remembered, 0)
    }
    /// kind 4: insert while the key is being loaded; `uses`: tasks waited for the value
    fn store_as(&mut self, k: usize, s: Spec, kind: u32, remembered: bool, uses: u8) {
        let old = self.e[k];
        if s.w > self.target && !s.pin {
            self.out(BEFORE, k, s.id);
            if old.pres {
                self.out(EVICT, k, old.s.id);
                self.forget(k);
            }
            if kind == 0 || kind >= 3 {
                self.out(EVICT, k, s.id);
            }
            return;
        }
        if old.pres {
            let e = &mut self.e[k];
            if kind != 2 && e.uses < 2 {
                e.uses += 1;
            }
            e.s = s;
            if e.hot {
                self.wh = self.wh - old.s.w + s.w;
            } else {
                self.wc = self.wc - old.s.w + s.w;
            }
            self.out(EVICT, k, old.s.id);
            self.make_room(0);
        } else if kind == 1 || kind == 2 {
            // nothing to replace
        } else if kind == 3 {
            let hot = remembered || self.wh + self.wc + s.w <= self.cap;
            self.enter(k, s, hot);
            self.e[k].uses = uses;
            self.make_room(0);
        } else if kind == 4 {
            self.enter(k, s, remembered);
            self.e[k].uses = 1;
            self.make_room(0);
        } else if self.ghost.remove(k) {
            self.enter(k, s, true);
            self.make_room(0);
        } else {
            let hot = self.wh + s.w <= self.target;
            self.make_room(s.w);
            self.enter(k, s, hot);
        }
    }
    fn restart(&mut self) {
        self.e = Default::default();
        self.hot = Ring::new();
        self.cold = Ring::new();
        self.ghost = Ring::new();
        self.wh = 0;
        self.wc = 0;
    }
    fn used(&mut self, k: usize) {
        if self.e[k].pres && self.e[k].uses < 2 {
            self.e[k].uses += 1;
        }
    }
    /// what the cache reported is what the policy says, in the same order
    fn compare(&mut self) {
        unsafe {
            let mut n = 0;
            for i in 0..NEV {
                let e = EV[i];
                if e.kind != END {
                    check(n < self.nev, POLICY, 1);
                    let x = self.ev[n];
                    check(x.kind == e.kind && x.k == e.k && x.id == e.id, POLICY, 2);
                    log((e.kind as u64) << 8 | e.k as u64);
                    n += 1;
                }
            }
            check(n == self.nev, POLICY, 3);
        }
        self.nev = 0;
        ev_reset();
    }
}

/// params: 0 operation mask, 1 prefix insertions, 2 free operations, 3 keys, 4 features (PIN, UNIT),
/// 5 configurations, 6 insertions of fresh keys at the end, 7 reads per prefix key,
/// 8 times the cache is emptied and the prefix inserted again
pub fn policy<A: Api>() {
    set_hashes(0);
    let cfg = pick(param(5));
    let (cap, est, hot, ghost) = config(cfg);
    let feat = param(4);
    let nk = param(3) as usize;
    let mut c = A::make(options(cfg));
    let target = (cap as f64 * hot) as u64;
    let mut m = Pol {
        e: Default::default(),
        hot: Ring::new(),
        cold: Ring::new(),
        ghost: Ring::new(),
        wh: 0,
        wc: 0,
        cap,
        target: if target > cap { cap } else { target },
        ghosts: (est as f64 * ghost) as usize,
        ev: [Ev::default(); NE],
        nev: 0,
    };
    ev_reset();
    let mut used = 0;
    // a guard kept while other operations happen: key, entered remembered, still current, a waiting task
    let shared: &'static A = unsafe { &*(&c as *const A) };
    let mut held: Option<(A::Guard, usize, bool, bool, Option<Wait<A>>)> = None;
    let spec = |m: &Pol| {
        let mut s = Spec { id: fresh_id(), ..Default::default() };
        s.w = if feat & F_UNIT != 0 { unit() } else { sym(1, m.cap + 1) };
        if feat & F_PIN != 0 {
            s.pin = flip();
        }
        s
    };
    for round in 0..=param(8) {
        if round > 0 {
            if A::CAN_DRAIN && flip() {
                c.drain(choose(2) as usize, |_, _, _| ());
            } else {
                c.clear();
            }
            m.restart();
        }
        for k in 0..param(1) as usize {
            let s = spec(&m);
            if feat & F_UNIT == 0 {
                assume(s.w <= m.target);
            }
            c.insert(K::new(k), V::new(s));
            m.store(k, s, 0);
            m.compare();
            used = k + 1;
            for _ in 0..choose(param(7) as u32 + 1) {
                let r = c.get(&Q(k as u8));
                check(r.is_some() == m.e[k].pres, POLICY, 4);
                m.used(k);
            }
        }
    }
    for _ in 0..param(2) {
        let op = pick(param(0));
        let n = if used < nk { used + 1 } else { nk };
        let k = if op > 10 && op != 13 { nk } else { choose(n as u32) as usize };
        if k == used && k < nk {
            used += 1;
        }
        let q = Q(k as u8);
        let loading = matches!(&held, Some(h) if h.3 && h.1 == k);
        // other lookups that load would wait
        assume(!loading || !matches!(op, 5..=8 | 13));
        match op {
            0 if loading => {
                let s = spec(&m);
                c.insert(K::new(k), V::new(s));
                if let Some(h) = &mut held {
                    m.store_as(k, s, 4, h.2, 0);
                    if s.w <= m.target || s.pin {
                        h.3 = false;
                    }
                }
            }
            0 => {
                let s = spec(&m);
                c.insert(K::new(k), V::new(s));
                m.store(k, s, 0);
            }
            1 => {
                let r = c.get(&q);
                check(r.is_some() == m.e[k].pres, POLICY, 5);
                m.used(k);
            }
            2 => {
                c.remove(&q);
                m.forget(k);
                m.ghost.remove(k);
                if let Some(h) = &mut held {
                    h.3 &= !loading;
                }
            }
            3 | 4 => {
                let s = spec(&m);
                let r = c.replace(K::new(k), V::new(s), op == 4);
                drop(r);
                m.store(k, s, op - 2);
            }
            5 | 7 => {
                let s = spec(&m);
                let hit = if op == 5 {
                    matches!(c.guard_insert(&q, choose(2), false, V::new(s)), GuardOut::Hit(_))
                } else {
                    !c.load(&q, choose(2), Some(V::new(s))).0
                };
                check(hit == m.e[k].pres, POLICY, 6);
                if hit {
                    m.used(k);
                } else {
                    m.store(k, s, 3);
                }
            }
            6 | 8 => {
                let hit = if op == 6 {
                    matches!(c.guard_abandon(&q, 0), GuardOut::Hit(_))
                } else {
                    !c.load(&q, 0, None).0
                };
                check(hit == m.e[k].pres, POLICY, 7);
                if hit {
                    m.used(k);
                } else {
                    // the key is forgotten altogether
                    m.ghost.remove(k);
                }
            }
            9 => {
                // read through the mutable accessors without changing anything
                let r = c.mutate(&q, 4, 0, false);
                check(r.is_some() == m.e[k].pres, POLICY, 8);
                m.used(k);
            }
            10 => {
                // retain by key
                c.retain(|x, _| x.k() != k);
                m.forget(k);
            }
            13 => {
                assume(held.is_none());
                match A::hold(shared, &q) {
                    Err(_) => {
                        check(m.e[k].pres, POLICY, 10);
                        m.used(k);
                    }
                    Ok(g) => {
                        check(!m.e[k].pres, POLICY, 11);
                        let r = m.ghost.remove(k);
                        held = Some((g, k, r, true, None));
                    }
                }
            }
            14 | 15 => {
                assume(held.is_some());
                let Some((g, k, r, cur, f)) = held.take() else { return };
                if op == 14 {
                    let s = spec(&m);
                    let ok = A::fill(g, V::new(s), false).is_ok();
                    check(ok == cur, POLICY, 12);
                    if cur {
                        m.store_as(k, s, 3, r, f.is_some() as u8);
                    }
                    drop(f);
                } else {
                    // the waiting task, if any, takes over
                    drop(g);
                    if let Some(mut f) = f {
                        match poll(&mut f) {
                            Some(Err(g)) => held = Some((g, k, r, cur, None)),
                            _ => check(false, POLICY, 13),
                        }
                    }
                }
            }
            16 => {
                let ok = matches!(&held, Some(h) if h.3 && h.4.is_none());
                assume(ok);
                if let Some(h) = &mut held {
                    let mut f = A::join(shared, h.1);
                    check(poll(&mut f).is_none(), POLICY, 14);
                    h.4 = Some(f);
                }
            }
            _ => {
                // start over: nothing of the past, remembered keys included, has an influence
                if op == 12 {
                    c.drain(choose(2) as usize, |_, _, _| ());
                } else {
                    c.clear();
                }
                m.restart();
                if let Some(h) = &mut held {
                    h.3 = false;
                }
            }
        }
        m.compare();
    }
    if let Some((g, _, _, _, f)) = held.take() {
        drop(f);
        drop(g);
    }
    for i in 0..param(6) as usize {
        let k = nk + i;
        let s = Spec { id: fresh_id(), w: if feat & F_UNIT != 0 { unit() } else { m.target }, ..Default::default() };
        c.insert(K::new(k), V::new(s));
        m.store(k, s, 0);
        m.compare();
    }
    for k in 0..nk {
        check(c.contains(&Q(k as u8)) == m.e[k].pres, POLICY, 9);
    }
    let _ = m.ghost.has(0);
}

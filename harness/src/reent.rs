//! Code of the caller that the shared cache runs outside its locks and that uses the same cache:
//! loaders, `end_request`, and the drop of the item that a store evicted (default lifecycle).
use crate::api::now;
use crate::machine::options;
use crate::pick;
use crate::rt::*;
use crate::types::*;
use quick_cache::sync::{self, GuardResult};
use quick_cache::{Lifecycle, UnitWeighter, Weighter};

pub const REENT: u32 = 29;
const LOADS: u32 = 1;
const ENDS: u32 = 2;
const DROPS: u32 = 4;

/// a value whose drop may use the cache
struct N(V);
impl Clone for N {
    fn clone(&self) -> N {
        N(self.0.clone())
    }
}
impl Drop for N {
    fn drop(&mut self) {
        // copies of the value being stored are no evicted item
        if self.0 .0.id != unsafe { NEW } {
            hook(DROPS)
        }
    }
}
#[derive(Clone)]
struct W;
impl Weighter<K, N> for W {
    fn weight(&self, _: &K, v: &N) -> u64 {
        v.0 .0.w
    }
}
#[derive(Clone)]
struct LE;
impl Lifecycle<K, N> for LE {
    type RequestState = ();
    fn begin_request(&self) {}
    fn on_evict(&self, _: &mut (), _: K, _: N) {}
    fn end_request(&self, _: ()) {
        hook(ENDS)
    }
}
static mut ARMED: u32 = 0;
static mut NEW: u32 = 0;
static mut WORLD: *mut u8 = std::ptr::null_mut();
static mut NESTED: Option<fn(u32)> = None;
fn hook(ctx: u32) {
    unsafe {
        if ARMED & ctx != 0 {
            ARMED = 0;
            if let Some(f) = NESTED {
                f(ctx)
            }
        }
    }
}

struct World<We, Lc> {
    c: sync::Cache<K, N, We, H, Lc>,
    /// the value last stored, while it is not known to be gone
    last: [Option<(u32, u64)>; NK],
    /// the store under way
    store: Option<(usize, Spec)>,
    /// the key being loaded, while neither stored nor removed
    loading: Option<usize>,
    nk: usize,
    cap: u64,
    hot: u64,
    w: (u64, u64),
}
fn look(v: Option<N>) -> Option<(u32, u64)> {
    v.map(|v| (v.0 .0.id, v.0 .0.w))
}
impl<We: Weighter<K, N> + Clone + 'static, Lc: Lifecycle<K, N> + Clone + 'static> World<We, Lc> {
    fn spec(&self) -> Spec {
        Spec { id: fresh_id(), w: sym(self.w.0, self.w.1), ..Default::default() }
    }
    fn commit(&mut self) {
        if let Some((k, s)) = self.store.take() {
            self.last[k] = Some((s.id, s.w));
        }
    }
    fn changed(&mut self, k: usize) {
        if self.loading == Some(k) {
            self.loading = None;
        }
    }
    /// one operation from inside another one
    fn nested(&mut self, ctx: u32) {
        if ctx != LOADS {
            // the store that brought us here has happened
            self.commit();
        }
        let op = pick(param(1));
        let k = choose(self.nk as u32) as usize;
        let q = Q(k as u8);
        cover(20 + ctx);
        match op {
            0 => {
                let r = look(self.c.get(&q));
                check(r.is_none() || r == self.last[k], REENT, 1);
                check(r.is_none() || self.loading != Some(k), REENT, 2);
            }
            1 => {
                let r = look(self.c.peek(&q));
                check(r.is_none() || r == self.last[k], REENT, 3);
                check(self.c.contains_key(&q) == r.is_some(), REENT, 4);
            }
            2 => {
                let n = self.c.len();
                check(self.c.is_empty() == (n == 0) && self.c.weight() <= self.cap, REENT, 5);
            }
            3 => {
                let s = self.spec();
                unsafe { NEW = s.id };
                self.c.insert(K::new(k), N(V::new(s)));
                self.last[k] = Some((s.id, s.w));
                // an over-heavy item is refused and overtakes no load
                if s.w <= self.hot {
                    self.changed(k);
                }
            }
            4 => {
                let r = self.c.remove(&q).map(|(_, v)| v);
                let r = look(r);
                check(r.is_none() || r == self.last[k], REENT, 6);
                self.last[k] = None;
                self.changed(k);
            }
            5 => {
                self.c.clear();
                self.last = [None; NK];
                self.loading = None;
            }
            6 => {
                self.c.retain(|x, _| x.k() != k);
                self.last[k] = None;
            }
            7 => {
                // a load inside a load of the same key would wait for itself
                if self.loading != Some(k) {
                    let s = self.spec();
                    unsafe { NEW = s.id };
                    let mut ran = false;
                    let r = self.c.get_or_insert_with(&q, || {
                        ran = true;
                        Ok::<_, ()>(N(V::new(s)))
                    });
                    let r = look(r.ok());
                    check(r == if ran { Some((s.id, s.w)) } else { self.last[k] }, REENT, 7);
                    self.last[k] = r;
                }
            }
            8 => self.c.reserve(4),
            _ => {
                let s = self.spec();
                unsafe { NEW = s.id };
                match self.c.replace(K::new(k), N(V::new(s)), false) {
                    Ok(()) => {
                        check(self.last[k].is_some() && self.loading != Some(k), REENT, 8);
                        self.last[k] = Some((s.id, s.w));
                    }
                    Err((x, v)) => check(x.k() == k && v.0 .0.id == s.id, REENT, 9),
                }
            }
        }
    }
    // through a raw pointer, as `nested` gets at the same world
    unsafe fn step(me: *mut Self, ops: u64, ctxs: u32) {
        let op = pick(ops);
        let k = choose((*me).nk as u32) as usize;
        let q = Q(k as u8);
        let s = (*me).spec();
        let had = (*me).last[k];
        ARMED = ctxs;
        NEW = s.id;
        match op {
            0 => {
                (*me).store = Some((k, s));
                (*me).c.insert(K::new(k), N(V::new(s)));
            }
            1 | 2 => {
                if had.is_some() {
                    (*me).store = Some((k, s));
                }
                let r = (*me).c.replace(K::new(k), N(V::new(s)), op == 2);
                check(r.is_err() || had.is_some(), REENT, 10);
                // an over-heavy item is refused
                check(r.is_ok() || had.is_none() || param(7) != 0, REENT, 26);
            }
            // loads
            3 | 4 | 5 => {
                let mut ran = false;
                let mut load = || {
                    ran = true;
                    (*me).loading = Some(k);
                    hook(LOADS);
                    NEW = s.id;
                    if op == 5 {
                        return Err(());
                    }
                    if (*me).loading == Some(k) {
                        (*me).store = Some((k, s));
                    }
                    (*me).loading = None;
                    Ok(N(V::new(s)))
                };
                let r = if flip() { (*me).c.get_or_insert_with(&q, load) } else { now((*me).c.get_or_insert_async(&q, async { load() })) };
                check(ran == had.is_none(), REENT, 11);
                let want = if !ran {
                    Ok(had)
                } else if op == 5 {
                    Err(())
                } else {
                    Ok(Some((s.id, s.w)))
                };
                check(r.map(|v| look(Some(v))) == want, REENT, 12);
            }
            8 => {
                (*me).store = Some((k, s));
                drop((*me).c.insert_with_lifecycle(K::new(k), N(V::new(s))));
            }
            // a guard that is filled or dropped
            _ => match (*me).c.get_value_or_guard(&q, None) {
                GuardResult::Value(v) => check(look(Some(v)) == had, REENT, 13),
                GuardResult::Timeout => check(false, REENT, 14),
                GuardResult::Guard(g) => {
                    check(had.is_none(), REENT, 15);
                    (*me).loading = Some(k);
                    hook(LOADS);
                    NEW = s.id;
                    let cur = (*me).loading == Some(k);
                    (*me).loading = None;
                    if op == 6 {
                        if cur {
                            (*me).store = Some((k, s));
                        }
                        check(g.insert(N(V::new(s))).is_ok() == cur, REENT, 16);
                    } else {
                        drop(g);
                    }
                }
            },
        }
        ARMED = 0;
        (*me).loading = None;
        (*me).commit();
        (*me).settle();
    }
    fn settle(&mut self) {
        let (mut n, mut t, mut ok) = (0, 0, true);
        for k in 0..self.nk {
            let q = Q(k as u8);
            let p = look(self.c.peek(&q));
            check(self.c.contains_key(&q) == p.is_some(), REENT, 17);
            if let (Some(a), Some(b)) = (p, self.last[k]) {
                check(a.0 == b.0, REENT, 18);
                ok &= a.1 == b.1;
            } else {
                check(p.is_none(), REENT, 19);
            }
            self.last[k] = p;
            if let Some(p) = p {
                n += 1;
                t += if self.w.1 == u64::MAX { 1 } else { p.1 };
            }
            log(p.map_or(0, |p| p.0) as u64);
        }
        check(ok, REENT, 20);
        check(self.c.len() == n && self.c.weight() == t, REENT, 21);
        check(t <= self.cap, REENT, 22);
        check(vlive() == n as i32 && klive() == n as i32, REENT, 23);
    }
}
fn go<We: Weighter<K, N> + Clone + 'static, Lc: Lifecycle<K, N> + Clone + 'static>(w: World<We, Lc>, ctxs: u32) {
    let w = Box::into_raw(Box::new(w));
    unsafe {
        WORLD = w as *mut u8;
        NESTED = Some(|ctx| (*(WORLD as *mut World<We, Lc>)).nested(ctx));
        for _ in 0..param(2) {
            World::step(w, param(8), 0);
        }
        World::step(w, param(0), ctxs);
        drop(Box::from_raw(w));
    }
    check(vlive() == 0 && klive() == 0, REENT, 24);
}
/// params: 0 operations, 1 operations inside them, 2 number of operations before, 3 keys, 4 configurations,
/// 5 hash layouts, 6 where the inner operation runs, 7 any weights,
/// 8 operations before
pub fn reent() {
    let base = heap_live();
    let cfg = pick(param(4));
    set_hashes(pick(param(5)));
    let ctx = 1 << pick(param(6));
    let o = options(cfg);
    let (cap, _, hot, _) = crate::machine::config(cfg);
    let hot = (cap as f64 * hot) as u64;
    let (last, store, loading, nk) = ([None; NK], None, None, param(3) as usize);
    if ctx == DROPS {
        // room for 2 or 3 items
        let cap = cap / crate::machine::UNIT_LO;
        let o = quick_cache::OptionsBuilder::new().estimated_items_capacity(4).weight_capacity(cap).shards(1).build().unwrap();
        let c = sync::Cache::with_options(o, UnitWeighter, H, sync::DefaultLifecycle::default());
        go(World { c, last, store, loading, nk, cap, hot: u64::MAX, w: (0, u64::MAX) }, ctx);
    } else {
        let c = sync::Cache::with_options(o, W, H, LE);
        go(World { c, last, store, loading, nk, cap, hot, w: if param(7) != 0 { (0, cap + 2) } else { (crate::machine::UNIT_LO, crate::machine::UNIT_HI) } }, ctx);
    }
    check(heap_live() == base, REENT, 25);
}

//! The caches as most users have them: unit weights and the default lifecycle.
use crate::api::*;
use crate::machine::*;
use crate::pick;
use crate::rt::*;
use crate::types::*;
use quick_cache::{sync, unsync, OptionsBuilder, UnitWeighter};

type DU = unsync::Cache<K, V, UnitWeighter, H, unsync::DefaultLifecycle<K, V>>;
type DS = sync::Cache<K, V, UnitWeighter, H, sync::DefaultLifecycle<K, V>>;

macro_rules! common {
    ($m:ident, $c:ident, $op:ident, $k:ident, $s:ident) => {{
        let q = Q($k as u8);
        match $op {
            0 => {
                $c.insert(K::new($k), V::new($s));
                $m.stored($k, $s);
            }
            1 => {
                let r = $c.get(&q).map(|v| (v.0.id, v.0.w));
                check(r == $m.last[$k], COHERENCE, 30);
            }
            2 => {
                let r = $c.remove(&q);
                check(r.as_ref().map(|x| (x.1 .0.id, x.1 .0.w)) == $m.last[$k], REMOVE, 30);
                $m.last[$k] = None;
            }
            3 | 4 => {
                let had = $m.last[$k].is_some();
                let r = $c.replace(K::new($k), V::new($s), $op == 4);
                match r {
                    Ok(()) => {
                        check(had, REPLACE, 30);
                        $m.stored($k, $s);
                    }
                    Err((rk, rv)) => check(!had && rk.k() == $k && rv.0.id == $s.id && rv.0.w == $s.w, REPLACE, 31),
                }
            }
            5 => {
                // the state of the request holds what was evicted last
                let st = $c.insert_with_lifecycle(K::new($k), V::new($s));
                $m.stored($k, $s);
                drop(st);
            }
            10 => {
                // keep the values below a limit, any limit
                let t = $s.w;
                $c.retain(|x, v| x.k() != $k || v.0.w < t);
                if let Some((_, w)) = $m.last[$k] {
                    if w >= t {
                        $m.last[$k] = None;
                    }
                }
            }
            11 => {
                $c.clear();
                $m.last = [None; NK];
            }
            _ => {}
        }
    }};
}
struct D {
    /// the value last stored, while it is not known to be gone
    last: [Option<(u32, u64)>; NK],
    nk: usize,
    cap: u64,
}
impl D {
    fn stored(&mut self, k: usize, s: Spec) {
        self.last[k] = Some((s.id, s.w));
    }
    fn seen(&mut self, peek: impl Fn(&Q) -> Option<(u32, u64)>, has: impl Fn(&Q) -> bool, len: usize, weight: u64, empty: bool) {
        let mut n = 0;
        for k in 0..self.nk {
            let q = Q(k as u8);
            let p = peek(&q);
            check(has(&q) == p.is_some(), COHERENCE, 31);
            if p.is_some() {
                check(p == self.last[k], COHERENCE, 32);
                n += 1;
            }
            // an evicted key does not come back by itself
            self.last[k] = p;
            log(p.map_or(0, |p| p.0) as u64);
        }
        check(len == n, ACCOUNT, 30);
        check(weight == n as u64, ACCOUNT, 31);
        check(empty == (n == 0), ACCOUNT, 32);
        check(n as u64 <= self.cap, BOUND, 30);
        check(vlive() == n as i32 && klive() == n as i32, CONSERVE, 30);
        check(vlive() == n as i32 && klive() == n as i32, MEMORY, 30);
    }
}
fn start() -> (D, quick_cache::Options) {
    set_hashes(pick(param(3)));
    let cap = choose(param(4) as u32) as u64 + 1;
    let nk = param(2) as usize;
    let o = OptionsBuilder::new().estimated_items_capacity(4).weight_capacity(cap).shards(1).build().unwrap();
    (D { last: [None; NK], nk, cap }, o)
}
fn spec() -> Spec {
    Spec { id: fresh_id(), w: sym(0, u64::MAX), ..Default::default() }
}
/// params: 0 operations, 1 number of operations, 2 keys, 3 hash layouts, 4 capacities 1..=n
pub fn unsync_default() {
    let base = heap_live();
    let (mut m, o) = start();
    let mut c: DU = unsync::Cache::with_options(o, UnitWeighter, H, Default::default());
    for _ in 0..param(1) {
        let op = pick(param(0));
        let k = choose(m.nk as u32) as usize;
        let s = spec();
        match op {
            7 | 8 => {
                let mut ran = false;
                let r = c
                    .get_or_insert_with(&Q(k as u8), || {
                        ran = true;
                        if op == 7 {
                            Ok(V::new(s))
                        } else {
                            Err(())
                        }
                    })
                    .map(|v| v.map(|v| (v.0.id, v.0.w)));
                check(ran == m.last[k].is_none(), LOADER, 60);
                if !ran {
                    check(r == Ok(m.last[k]), LOADER, 61);
                } else if op == 7 {
                    m.stored(k, s);
                    check(matches!(r, Ok(None)) || r == Ok(Some((s.id, s.w))), LOADER, 62);
                } else {
                    check(r == Err(()), LOADER, 63);
                }
            }
            _ => common!(m, c, op, k, s),
        }
        m.seen(|q| c.peek(q).map(|v| (v.0.id, v.0.w)), |q| c.contains_key(q), c.len(), c.weight(), c.is_empty());
    }
    drop(c);
    check(vlive() == 0 && klive() == 0, CONSERVE, 31);
    check(heap_live() == base, MEMORY, 31);
}
pub fn sync_default() {
    let base = heap_live();
    let (mut m, o) = start();
    let c: DS = sync::Cache::with_options(o, UnitWeighter, H, Default::default());
    for _ in 0..param(1) {
        let op = pick(param(0));
        let k = choose(m.nk as u32) as usize;
        let s = spec();
        match op {
            7 | 8 => {
                let mut ran = false;
                let mut load = || {
                    ran = true;
                    if op == 7 {
                        Ok(V::new(s))
                    } else {
                        Err(())
                    }
                };
                let q = Q(k as u8);
                let r = if flip() { c.get_or_insert_with(&q, load) } else { now(c.get_or_insert_async(&q, async { load() })) }.map(|v| (v.0.id, v.0.w));
                check(ran == m.last[k].is_none(), LOADER, 64);
                if !ran {
                    check(r.ok() == m.last[k], LOADER, 65);
                } else if op == 7 {
                    m.stored(k, s);
                    check(r == Ok((s.id, s.w)), LOADER, 66);
                } else {
                    check(r == Err(()), LOADER, 67);
                }
            }
            _ => common!(m, c, op, k, s),
        }
        m.seen(|q| c.peek(q).map(|v| (v.0.id, v.0.w)), |q| c.contains_key(q), c.len(), c.weight(), c.is_empty());
    }
    drop(c);
    check(vlive() == 0 && klive() == 0, CONSERVE, 32);
    check(heap_live() == base, MEMORY, 32);
}

//! C20, C25: construction for every capacity, estimate, shard count and allocation.
use crate::api::*;
use crate::rt::*;
use crate::types::*;
use quick_cache::{sync, unsync, OptionsBuilder};

pub const SHARDED: u32 = 20;
pub const OPTIONS: u32 = 25;

const CAPS: [u64; 8] = [0, 1, 7, 100, 1 << 32, (1 << 53) + 1, u64::MAX - 3, u64::MAX];
/// heaviest admissible item: the hot share of the capacity, computed in f64
fn admissible(cap: u64, hot: f64) -> u64 {
    let x = (cap as f64 * hot) as u64;
    if x > cap {
        cap
    } else {
        x
    }
}
/// params: 0 largest requested shard count (every value from 0 on), 1 also use the cache
pub fn sharded() {
    set_hashes(0);
    let req = choose(param(0) as u32 + 1) as u64;
    // when the cache is used the capacity is one of a list (it passes through f64 arithmetic)
    let cap = if param(1) != 0 { CAPS[choose(CAPS.len() as u32) as usize] } else { sym(0, u64::MAX) };
    let est = sym(0, u64::MAX);
    let o = OptionsBuilder::new()
        .estimated_items_capacity(est as usize)
        .weight_capacity(cap)
        .hot_allocation(1.0)
        .ghost_allocation(0.0)
        .shards(req as usize)
        .build()
        .unwrap();
    let c: S = sync::Cache::with_options(o, We, H, L);
    let n = c.num_shards() as u64;
    let per = c.shard_capacity();
    let total = c.capacity();
    let mut pot = 1;
    while pot < req {
        pot *= 2;
    }
    check(n >= 1 && n & (n - 1) == 0, SHARDED, 1);
    check(n <= pot, SHARDED, 2);
    // equal shards
    check(per.wrapping_mul(n) == total, SHARDED, 3);
    check(per <= u64::MAX / n, SHARDED, 4);
    // within one unit per shard of what was asked for
    if total >= cap {
        check(total - cap < n, SHARDED, 5);
    } else {
        check(cap - total < n, SHARDED, 6);
        // only where rounding up is impossible
        check(cap > u64::MAX - n, SHARDED, 7);
    }
    check((cap == 0) | (per != 0), SHARDED, 8);
    // merged exactly while a shard would serve fewer than 32 items
    if n > 1 {
        check(est > 31 * n, SHARDED, 9);
    }
    if n < pot {
        check(est <= 31 * (2 * n), SHARDED, 10);
    }
    check(c.len() == 0 && c.is_empty(), SHARDED, 11);
    check(c.weight() == 0, SHARDED, 12);
    log(n);
    log(total);
    if param(1) != 0 {
        // an item filling a whole shard is admitted, a heavier one is not
        let w = sym(0, u64::MAX);
        let id = fresh_id();
        sync::Cache::insert(&c, K::new(0), V::new(Spec { id, w, ..Default::default() }));
        let limit = admissible(per, 1.0);
        check(c.contains_key(&Q(0)) == (w <= limit), SHARDED, 13);
        check(c.weight() == if w <= limit { w } else { 0 }, SHARDED, 14);
        // and every shard has room for such an item, in any combination
        let mut total = c.weight();
        for i in 1..if n < 4 { n } else { 4 } {
            unsafe { HASH[i as usize] = i << 32 };
            let id = fresh_id();
            sync::Cache::insert(&c, K::new(i as usize), V::new(Spec { id, w: limit, ..Default::default() }));
            total += limit;
            check(c.weight() == total, SHARDED, 15);
        }
    }
}

#[derive(Clone)]
pub struct W1;
impl quick_cache::Weighter<u64, u64> for W1 {
    fn weight(&self, _: &u64, v: &u64) -> u64 {
        *v
    }
}
/// params: 0 what is tested
pub fn options() {
    set_hashes(0);
    match param(0) {
        0 => {
            // required settings
            let (a, b, c, d) = (flip(), flip(), flip(), flip());
            let mut o = OptionsBuilder::new();
            o.shards(1);
            if a {
                o.estimated_items_capacity(sym(0, u64::MAX) as usize);
            }
            let cap = sym(0, u64::MAX);
            if b {
                o.weight_capacity(cap);
            }
            if c {
                o.hot_allocation(0.5);
            }
            if d {
                o.ghost_allocation(0.5);
            }
            let r = o.build();
            check(r.is_err() == !(a && b), OPTIONS, 1);
            if let Ok(o) = r {
                let u: U = unsync::Cache::with_options(o.clone(), We, H, L);
                check(u.capacity() == cap, OPTIONS, 2);
                check(u.len() == 0 && u.weight() == 0, OPTIONS, 3);
                let s: S = sync::Cache::with_options(o, We, H, L);
                check(s.capacity() == cap, OPTIONS, 4);
            }
            log(a as u64 * 2 + b as u64);
        }
        1 | 2 => {
            // any bit pattern of an f64
            let x = f64::from_bits(sym(0, u64::MAX));
            let ok = x >= 0.0 && x <= 1.0;
            let mut o = OptionsBuilder::new();
            o.shards(1).estimated_items_capacity(4).weight_capacity(1000);
            if !ok {
                expect_panic(true);
            }
            if param(0) == 1 {
                o.hot_allocation(x);
            } else {
                o.ghost_allocation(x);
            }
            check(ok, OPTIONS, 5);
            // the last setting wins, the other one is the default
            let mut c: U = unsync::Cache::with_options(o.build().unwrap(), We, H, L);
            let limit = if param(0) == 1 { (1000.0 * x) as u64 } else { 970 };
            let w = sym(1, 1001);
            c.insert(K::new(0), V::new(Spec { id: fresh_id(), w, ..Default::default() }));
            check(c.contains_key(&Q(0)) == (w <= limit), OPTIONS, 6);
        }
        4 => {
            // without a setting: four shards per core, fewer for small caches
            let cpus = std::thread::available_parallelism().map_or(1, |n| n.get()) as u64;
            let pot = (cpus * 4).next_power_of_two();
            let est = sym(0, u64::MAX);
            let cap = sym(0, u64::MAX);
            let (n, total) = match choose(3) {
                0 => {
                    let c: S = sync::Cache::with(est as usize, cap, We, H, L);
                    (c.num_shards() as u64, c.capacity())
                }
                1 => {
                    let c: sync::Cache<u64, u64, W1> = sync::Cache::with_weighter(est as usize, cap, W1);
                    (c.num_shards() as u64, c.capacity())
                }
                _ => {
                    assume(est == cap);
                    let c: sync::Cache<u64, u64> = sync::Cache::new(cap as usize);
                    (c.num_shards() as u64, c.capacity())
                }
            };
            check(n >= 1 && n <= pot && n & (n - 1) == 0, OPTIONS, 12);
            check(if n == pot { (est > 31 * n) | (n == 1) } else { est <= 31 * 2 * n }, OPTIONS, 13);
            check(if total >= cap { total - cap < n } else { cap - total < n }, OPTIONS, 14);
        }
        5 => {
            // the constructors without options: everything fits that should, nothing more
            let cap = sym(0, u64::MAX);
            let u: unsync::Cache<u64, u64, W1> = unsync::Cache::with_weighter(7, cap, W1);
            check(u.capacity() == cap, OPTIONS, 15);
            let n = 2 + choose(3) as u64;
            let mut u: unsync::Cache<u64, u64> = unsync::Cache::new(n as usize);
            check(u.capacity() == n, OPTIONS, 16);
            let s: sync::Cache<u64, u64> = sync::Cache::new(n as usize);
            check(s.capacity() == n, OPTIONS, 17);
            let v = sym(0, u64::MAX);
            for i in 0..n {
                u.insert(i, v ^ i);
                s.insert(i, v ^ i);
            }
            for i in 0..n {
                check(u.get(&i) == Some(&(v ^ i)), OPTIONS, 18);
                check(s.get(&i) == Some(v ^ i), OPTIONS, 19);
            }
            u.insert(n, v);
            s.insert(n, v);
            check(u.len() as u64 == n && s.len() as u64 == n, OPTIONS, 20);
            check(u.weight() == n && s.weight() == n, OPTIONS, 21);
        }
        _ => {
            // setters may be repeated, the builder reused
            let mut o = OptionsBuilder::new();
            let (a, b) = (sym(0, u64::MAX), CAPS[choose(CAPS.len() as u32) as usize]);
            o.weight_capacity(a).hot_allocation(0.25).estimated_items_capacity(7).shards(1);
            let first = o.build().unwrap();
            o.weight_capacity(b).hot_allocation(1.0);
            let second = o.build().unwrap();
            let u: U = unsync::Cache::with_options(first, We, H, L);
            check(u.capacity() == a, OPTIONS, 7);
            let mut v: U = unsync::Cache::with_options(second, We, H, L);
            check(v.capacity() == b, OPTIONS, 8);
            let w = sym(1, u64::MAX);
            v.insert(K::new(0), V::new(Spec { id: fresh_id(), w, ..Default::default() }));
            check(v.contains_key(&Q(0)) == (w <= admissible(b, 1.0)), OPTIONS, 9);
            // constructors taking only capacities use the defaults
            let cap = CAPS[choose(CAPS.len() as u32) as usize];
            let mut p: U = unsync::Cache::with(7, cap, We, H, L);
            check(p.capacity() == cap, OPTIONS, 10);
            p.insert(K::new(0), V::new(Spec { id: fresh_id(), w, ..Default::default() }));
            check(p.contains_key(&Q(0)) == (w <= admissible(cap, 0.97)), OPTIONS, 11);
        }
    }
}

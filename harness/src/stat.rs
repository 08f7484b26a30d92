//! C22: hit and miss counters (feature `stats`).
#[cfg(feature = "stats")]
use crate::api::*;
use crate::machine::*;
use crate::pick;
use crate::rt::*;
use crate::twin::*;
use crate::types::*;

pub const STATS: u32 = 22;
pub trait Stat: Api {
    fn counts(&self) -> (u64, u64);
}
#[cfg(feature = "stats")]
impl Stat for U {
    fn counts(&self) -> (u64, u64) {
        (self.hits(), self.misses())
    }
}
#[cfg(feature = "stats")]
impl Stat for S {
    fn counts(&self) -> (u64, u64) {
        (self.hits(), self.misses())
    }
}
#[cfg(not(feature = "stats"))]
impl<A: Api> Stat for A {
    fn counts(&self) -> (u64, u64) {
        (0, 0)
    }
}
/// params: 0 operation mask (twin.rs; 9 get_mut/peek_mut, 12 peek, 13 contains, 14 iterate, 15 reserve), 1 prefix insertions,
/// 2 operations, 3 keys, 4 features, 5 configurations, 6 hash layouts
pub fn stats<A: Stat>() {
    set_hashes(pick(param(6)));
    let cfg = pick(param(5));
    let (mut c, cap, _) = make::<A>(cfg);
    let mut g = Gen { nk: param(3) as usize, used: 0, feat: param(4), cap };
    let (mut h, mut m) = (0u64, 0u64);
    check(c.counts() == (0, 0), STATS, 1);
    for _ in 0..param(1) {
        let o = Op { op: 0, k: g.used, s: g.spec(), how: 0 };
        g.used += 1;
        apply(&mut c, o);
    }
    check(c.counts() == (0, 0), STATS, 2);
    for _ in 0..param(2) {
        let o = g.op(param(0));
        let q = Q(o.k as u8);
        let there = c.contains(&q);
        check(c.counts() == (h, m), STATS, 3);
        match o.op {
            12 => {
                c.peek(&q);
            }
            13 => {
                c.contains(&q);
            }
            14 => {
                c.each(|_, _, _| {});
            }
            15 => c.reserve(3),
            _ => {
                apply(&mut c, o);
            }
        }
        let (h2, m2) = c.counts();
        let (dh, dm) = (h2.wrapping_sub(h), m2.wrapping_sub(m));
        match o.op {
            1 => check(dh == there as u64 && dm == !there as u64, STATS, 4),
            9 if o.how == 0 => check(dh == there as u64 && dm == !there as u64, STATS, 5),
            5..=8 if there => check(dh == 1 && dm == 0, STATS, 6),
            5..=8 => check(dh == 0 && dm >= 1 && (A::SYNC || dm == 1), STATS, 7),
            _ => check(dh == 0 && dm == 0, STATS, 8),
        }
        log(dh << 8 | dm);
        (h, m) = (h2, m2);
    }
    c.len();
    c.weight();
    c.capacity();
    c.is_empty();
    check(c.counts() == (h, m), STATS, 9);
}

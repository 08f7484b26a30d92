//! C12: a cycle of operations repeated many times does not grow the cache.
use crate::machine::*;
use crate::pick;
use crate::rt::*;
use crate::twin::*;
use crate::types::*;
use quick_cache::OptionsBuilder;

/// params: 0 operation mask, 1 operations per cycle, 2 repetitions, 3 features, 4 configurations, 5 hash layouts
pub fn cycles<A: Api>() {
    set_hashes(pick(param(5)));
    let cfg = pick(param(4));
    unsafe { NEXT_ID = 8 };
    let (cap, est, _, ghost) = config(cfg);
    // a cache holding as many entries as this one may ever hold or remember, and two more
    let wide = param(3) & 32 != 0;
    let most = (cap / if wide { cap / 4 + 1 } else { UNIT_LO }) as usize + (est as f64 * ghost) as usize + 2;
    let bytes = heap_bytes();
    let limit = {
        let mut c = A::make(OptionsBuilder::new().estimated_items_capacity(16).weight_capacity(1 << 40).shards(1).build().unwrap());
        for k in 0..if most > NK { NK } else { most } {
            c.insert(K::new(k), V::new(Spec { id: 1, w: 1, ..Default::default() }));
        }
        c.reserve(1);
        2 * (heap_bytes() - bytes) + 256
    };
    let base = heap_bytes();
    let (mut c, _, target) = make::<A>(cfg);
    let n = param(1) as usize;
    let mut ops = [Op { op: 0, k: 0, s: Spec::default(), how: 0 }; 6];
    for o in ops.iter_mut().take(n) {
        o.op = pick(param(0));
        o.how = if matches!(o.op, 5..=8) { choose(2) } else { 0 };
        // a fixed key, or another one in every cycle
        o.k = choose(3) as usize;
        if matches!(o.op, 0 | 3 | 5 | 7) {
            o.s = Spec { id: 1 + o.k as u32, w: if wide { sym(cap / 4 + 1, cap + 1) } else { unit() }, ..Default::default() };
            if param(3) & F_PIN != 0 {
                // weightless now and then
                o.s.w = match choose(3) {
                    0 => 0,
                    1 => target + 1,
                    _ => o.s.w,
                };
            }
        }
    }
    for i in 0..param(2) as usize {
        for (j, o) in ops.iter().take(n).enumerate() {
            let mut o = *o;
            if o.k == 2 {
                o.k = 2 + (i * n + j) % (NK - 2);
            }
            if o.op == 9 {
                c.reserve(1);
            } else {
                apply(&mut c, o);
            }
        }
        let len = c.len() as i32;
        check(klive() == len && vlive() == len, MEMORY, 10);
    }
    let b = heap_bytes() - base;
    check(b <= limit, MEMORY, 11);
    log(c.len() as u64);
    drop(c);
    check(heap_bytes() == base, MEMORY, 12);
}

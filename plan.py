"""What each property's check runs: harness entries, parameters and bounds."""
# operation bits of machine.rs
INS, GET, REM, REPL, SOFT, GINS, GABA, LOAD, LFAIL, MUT, RETAIN, CLEAR, DRAIN, RESERVE, INSLC, REPLLC, GINSLC, HOLD, FILL, GIVEUP, JOIN, FILLLC = (1 << i for i in range(22))
ALL = (1 << 17) - 1
# guards kept outstanding while other operations happen, tasks waiting for them (shared cache)
HELD = HOLD | FILL | GIVEUP | JOIN
SYNC_ALL = (ALL | HELD | FILLLC) & ~(MUT | DRAIN)
PIN, MODE, UNIT, MODE0, LIGHT, PANIC = 1, 2, 4, 8, 16, 32
ASSUME = [
    "rustc/LLVM compile the harness and crate to the IR that is executed (the executor starts from the IR; sampled paths are compared with a native build)",
    "the executor's semantics of the LLVM IR subset and Z3's verdicts; hashbrown, alloc and core are executed from their own IR, not modelled",
    "std RwLock: its fast path is executed; a single-threaded history that reaches the contended path is reported as a deadlock",
    "outside C28 a panic ends the run (panic=abort); C28's runs unwind: landing pads are executed from the IR, the unwinder itself and std's panic count are modelled",
]
def hist(name, what, sync=False, ops=ALL, prefix=0, free=3, keys=3, feat=0, cfgs=(0,), hashes=(0,), reads=0, it=1, admitted=1, **kw):
    if sync:
        ops &= SYNC_ALL
    return dict(name=name, what=what, variant="base", entry="h_sync" if sync else "h_unsync",
                params=[ops, prefix, free, keys, feat, sum(1 << c for c in cfgs), sum(1 << h for h in hashes), reads, it, admitted], **kw)
def both(name, what, **kw):
    return [hist(name + "-unsync", what + " (unsync)", **kw), hist(name + "-sync", what + " (sync)", sync=True, **kw)]
PLAN = {}
def prop(id, bounds, runs, **kw):
    PLAN[id] = dict(bounds=bounds, runs=runs, **kw)

HB = ("single-threaded histories; values carry symbolic 64-bit weights in 0..capacity+2, every choice of key and operation is explored; "
      "one shard; configurations (weight capacity, estimated items, hot, ghost) from machine.rs config(); histories longer than the stated number of operations and caches with more keys are outside the bounds")
ADMITTED = dict(prefix=4, free=1, keys=6, reads=1)
PRE4 = "4 admitted insertions of symbolic weight, each key read 0..1 times, then any one operation"
def held(which="fptz", light=LIGHT, **kw):
    r = []
    if "f" in which:
        r.append(hist("held", "guards held while other operations happen", sync=True, ops=HELD | INS | REM | REPL | CLEAR, free=4, keys=2, feat=light, it=0, **kw))
    if "p" in which:
        r.append(hist("held-full", "3 insertions, then guards held while other keys are stored", sync=True, ops=HELD | INS, prefix=3, free=3, keys=5, feat=light, it=0, **kw))
    if "t" in which:
        r.append(hist("held-unit", "guards held while other operations happen, unit weights", sync=True, ops=HELD | INS | REM | GET, prefix=2, free=4, keys=4, feat=UNIT | light, cfgs=(15, 9), it=0, **kw))
    if "z" in which:
        r.append(hist("held-pin", "guards held, pinned and weightless items", sync=True, ops=HELD | INS, prefix=1, free=3, keys=3, feat=PIN | light, admitted=0, it=0, **kw))
        r.append(hist("held-zero", "guards held, weightless items", sync=True, ops=HELD | INS, prefix=2, free=3, keys=4, feat=light, admitted=0, it=0, **kw))
    if "m" in which:
        r.append(hist("held-mode", "guards held, before_evict changes weights", sync=True, ops=HELD | INS, prefix=2, free=3, keys=3, feat=MODE | light, it=0, **kw))
    return r
def unit(name, ops=INS | GET | REM, free=6, keys=4, cfgs=(15, 9), **kw):
    return hist(name, "%d operations with unit weights and a capacity of 2 or 3 items" % free, ops=ops, free=free, keys=keys, feat=UNIT, cfgs=cfgs, it=0, **kw)

prop("C01", HB + "; up to 3 free operations of all 17 kinds on 3 keys from an empty cache, 1 free operation after 4 admitted insertions each read 0..1 times, 6 operations with unit weights; hash layouts: distinct, all equal, equal tags, equal pairs, extreme",
     both("prefix4", PRE4, **ADMITTED) +
     [hist("free3", "3 operations of any kind", free=3, keys=3),
      hist("collide", "insert/get/remove/replace/guard with colliding hashes", ops=INS | GET | REM | REPL | GINS | GABA, free=3, keys=3, hashes=(1, 2, 3)),
      hist("collide-sync", "the same through the sync cache", sync=True, ops=INS | REM | LOAD | GABA, free=3, keys=3, hashes=(1, 3, 4)),
      unit("unit"),
      unit("unit-collide", ops=INS | GET | REM | GINS, free=5, cfgs=(15,), hashes=(1, 3)),
      hist("two", "two more operations after 4 insertions", ops=INS | GET | REM | REPL, prefix=4, free=2, keys=5, it=0, thorough=True),
      unit("unit7", free=7, thorough=True),
      unit("unit-all", ops=ALL, free=4, keys=3, cfgs=(15,), thorough=True),
      hist("free3-cfg", "3 operations of any kind, other configurations", free=3, keys=3, cfgs=(1, 2, 3, 4), thorough=True, budget_thorough=1500)])
prop("C02", HB + "; up to 6 insertions; pinned items and items whose weight before_evict changes in histories of 4 insertions",
     both("prefix4", PRE4, cfgs=(0, 4), **ADMITTED) +
     [hist("pin", "pinned items", ops=INS | REPL | GINS | REM, prefix=3, free=1, keys=4, feat=PIN),
      hist("mode", "before_evict changes weights", ops=INS | REPL | GINS | LOAD, prefix=3, free=1, keys=4, feat=MODE),
      hist("two", "two more operations after 4 insertions", ops=INS | GET | REPL | GINS, prefix=4, free=2, keys=6, it=0),
      hist("mutate", "insertions after in-place changes", ops=INS | MUT | REPL, prefix=2, free=3, keys=4, it=0),
      unit("unit"),
      hist("big", "capacities near the top of the weight range", ops=INS | REPL, free=4, keys=4, cfgs=(1, 12, 13, 22), it=0),
      hist("two-pin", "two more operations, pinned items", ops=INS | GET | REPL | GINS, prefix=3, free=2, keys=5, feat=PIN, it=0, thorough=True),
      hist("two-mode", "two more operations, before_evict changes weights", ops=INS | GET | REPL, prefix=3, free=2, keys=5, feat=MODE, it=0, thorough=True),
      hist("three", "three more operations after 4 insertions", ops=INS | GET | REPL, prefix=4, free=3, keys=6, it=0, thorough=True, budget_thorough=1500)])
prop("C03", HB + "; 3 free operations, 1 after 4 insertions, 6 with unit weights",
     both("prefix4", PRE4, feat=LIGHT, **ADMITTED) +
     [hist("free3", "3 operations of any kind", free=3, keys=3, feat=LIGHT),
      hist("pin", "pinned items", prefix=3, free=1, keys=4, feat=PIN | LIGHT),
      hist("mode", "before_evict changes weights", ops=ALL & ~(CLEAR | DRAIN | GET), prefix=2, free=1, keys=3, feat=MODE | LIGHT),
      hist("mutate", "in-place changes", ops=INS | MUT | REM, prefix=2, free=2, keys=3, feat=LIGHT),
      hist("collide", "colliding hashes", ops=INS | REM | REPL | GABA, free=3, keys=3, hashes=(1, 3), feat=LIGHT),
      unit("unit"),
      hist("free3-cfg", "3 operations of any kind, other configurations", free=3, keys=3, cfgs=(1, 2, 3, 4), feat=LIGHT, thorough=True, budget_thorough=1500),
      unit("unit7", free=7, thorough=True)])
prop("C04", HB + "; 3 free operations, 1 after 4 insertions, 6 with unit weights; instance counts of keys and values after every operation",
     both("prefix4", PRE4, feat=LIGHT, **ADMITTED) +
     [hist("free3", "3 operations of any kind", free=3, keys=3, feat=LIGHT),
      hist("pin", "pinned items", prefix=3, free=1, keys=4, feat=PIN | LIGHT),
      hist("mode", "before_evict changes weights", ops=ALL & ~(CLEAR | DRAIN | GET), prefix=2, free=1, keys=3, feat=MODE | LIGHT),
      hist("collide", "colliding hashes", ops=INS | REM | REPL | GINS | GABA, free=3, keys=3, hashes=(1, 3), feat=LIGHT),
      unit("unit"),
      hist("free3-sync", "3 operations of any kind (sync)", sync=True, free=3, keys=3, feat=LIGHT, thorough=True),
      hist("free3-cfg", "3 operations of any kind, other configurations", free=3, keys=3, cfgs=(1, 2, 3, 4), feat=LIGHT, thorough=True, budget_thorough=1500)])
prop("C05", HB + "; any subset of up to 5 items pinned; before_evict may zero a weight",
     [hist("pin", "pinned items, any operation", prefix=3, free=1, keys=4, feat=PIN | LIGHT),
      hist("pin-sync", "pinned items, any operation (sync)", sync=True, prefix=3, free=1, keys=4, feat=PIN | LIGHT),
      hist("pin-read", "pinned items, read before", ops=INS | REPL | GINS, prefix=3, free=1, keys=4, reads=1, feat=PIN | LIGHT),
      hist("pin-two", "pinned items, two more operations", ops=INS | GET | REPL, prefix=3, free=2, keys=5, feat=PIN | LIGHT, it=0, admitted=0, budget=40),
      hist("zero", "before_evict zeroes weights", prefix=3, free=1, keys=4, feat=MODE0 | LIGHT),
      hist("zero-two", "before_evict zeroes weights, two more operations", ops=INS | GET | REPL, prefix=3, free=2, keys=5, feat=MODE0 | LIGHT, it=0),
      hist("weightless", "weights from 0 on", ops=INS | GET | MUT, prefix=3, free=2, keys=4, feat=LIGHT, admitted=0, it=0),
      hist("pin-mode", "pinned and changing items", ops=INS | REPL | GINS, prefix=2, free=2, keys=4, feat=PIN | MODE | LIGHT, it=0, thorough=True),
      hist("pin-three", "pinned items, three more operations", ops=INS | GET, prefix=3, free=3, keys=6, feat=PIN | LIGHT, it=0, thorough=True, budget_thorough=1500)])
prop("C06", HB + "; 1 operation of any kind after 4 insertions, 2 after 4 for stores; 6 operations with unit weights",
     both("prefix4", PRE4, cfgs=(0, 2), feat=LIGHT, **ADMITTED) +
     [hist("two", "two more operations after 4 insertions", ops=INS | GET | REPL | REM, prefix=4, free=2, keys=6, feat=LIGHT, it=0),
      hist("mode", "before_evict changes weights", ops=INS | REPL | GINS | LOAD, prefix=3, free=1, keys=4, feat=MODE | LIGHT),
      hist("pin", "pinned items", ops=INS | REPL | GINS | REM, prefix=3, free=1, keys=4, feat=PIN | LIGHT),
      unit("unit"),
      hist("edge", "hot allocation 0.25 to 1", ops=INS | REPL | GINS, prefix=3, free=1, keys=4, cfgs=(1, 3, 4), feat=LIGHT),
      hist("three", "three more operations after 4 insertions", ops=INS | GET | REPL, prefix=4, free=3, keys=6, feat=LIGHT, it=0, thorough=True, budget_thorough=1500)])
prop("C07", HB + "; the refused item arrives after up to 4 other operations",
     [hist("prefix4", PRE4, ops=INS | REPL | SOFT | GINS | LOAD | INSLC | REPLLC | GINSLC, feat=LIGHT, cfgs=(0, 4), **ADMITTED),
      hist("prefix4-sync", PRE4, sync=True, ops=INS | REPL | SOFT | GINS | LOAD | INSLC | REPLLC | GINSLC, feat=LIGHT, cfgs=(0, 4), **ADMITTED),
      hist("mode", "before_evict changes weights", ops=INS | REPL | SOFT | GINS | LOAD, prefix=3, free=1, keys=4, feat=MODE | LIGHT),
      hist("after", "after other operations", ops=INS | REM | REPL | GINS | GABA | MUT, free=3, keys=3, feat=LIGHT, cfgs=(0, 3)),
      hist("pin", "pinned items", ops=INS | REPL | GINS, prefix=2, free=2, keys=4, feat=PIN | LIGHT),
      hist("collide", "colliding hashes", ops=INS | REPL | GINS | REM, prefix=2, free=2, keys=4, feat=LIGHT, hashes=(1, 3)),
      hist("hot0", "nothing is admissible without pinning", ops=INS | REPL | GINS | LOAD, free=3, keys=3, feat=PIN | LIGHT, cfgs=(5, 7))])
prop("C08", HB + "; replace after up to 5 operations, including on evicted (remembered) and abandoned keys",
     [hist("free3", "replace among other operations", ops=INS | REM | REPL | SOFT | REPLLC | GABA | GINS, free=3, keys=3, feat=LIGHT),
      hist("prefix4", PRE4, ops=REPL | SOFT | REPLLC | INS, prefix=4, free=2, keys=5, feat=LIGHT, it=0),
      hist("prefix4-sync", PRE4, sync=True, ops=REPL | SOFT | REPLLC | INS, prefix=4, free=2, keys=5, feat=LIGHT, it=0),
      hist("mode", "before_evict changes weights", ops=REPL | SOFT | REPLLC, prefix=3, free=1, keys=4, feat=MODE | LIGHT),
      unit("unit", ops=INS | REPL | REM | GABA, free=5, cfgs=(15,)),
      unit("unit-sync", ops=INS | SOFT | REM | GABA, free=5, cfgs=(15,), sync=True),
      hist("collide", "colliding hashes", ops=INS | REPL | SOFT | REM, prefix=2, free=2, keys=4, feat=LIGHT, hashes=(1, 3))])
prop("C09", HB + "; removal after up to 5 operations and before up to 2",
     both("prefix4", PRE4, ops=REM | RETAIN | CLEAR | DRAIN, feat=LIGHT, **ADMITTED) +
     [hist("twice", "two removals and insertions", ops=INS | REM | RETAIN | CLEAR | DRAIN, prefix=3, free=2, keys=4, feat=LIGHT, budget=30),
      hist("unit", "removals among insertions, unit weights", ops=INS | GET | REM | RETAIN | CLEAR | DRAIN, free=4, keys=3, feat=UNIT | LIGHT, cfgs=(15,)),
      unit("unit-rem", free=6),
      hist("restart", "3 insertions, removals, then starting over, unit weights", ops=INS | REM | CLEAR | DRAIN, prefix=3, free=4, keys=4, feat=UNIT, cfgs=(15,), reads=1, it=0),
      hist("restart-sync", "3 insertions, removals, then starting over, unit weights (sync)", sync=True, ops=INS | REM | CLEAR, prefix=3, free=4, keys=4, feat=UNIT, cfgs=(15,), reads=1, it=0),
      hist("restart5-sync", "as restart-sync, 5 operations", sync=True, ops=INS | REM | CLEAR, prefix=3, free=5, keys=4, feat=UNIT, cfgs=(15,), reads=1, it=0, thorough=True),
      hist("unit-sync", "removals among insertions, unit weights (sync)", sync=True, ops=INS | GET | REM | RETAIN | CLEAR, free=4, keys=3, feat=UNIT | LIGHT, cfgs=(15,)),
      hist("collide", "colliding hashes", ops=INS | REM | RETAIN, free=4, keys=3, feat=UNIT | LIGHT, hashes=(1, 3)),
      hist("placeholders", "after abandoned and refused loads", ops=INS | GABA | LFAIL | REM | RETAIN | DRAIN, free=3, keys=3, feat=LIGHT)])
prop("C10", HB + "; in-place changes (5 entry points) at any point of histories of up to 5 operations",
     [hist("prefix4", "4 insertions, then changes and stores", ops=MUT | INS, prefix=3, free=2, keys=4, feat=LIGHT, it=1),
      hist("free3", "changes among other operations", ops=INS | GET | REM | MUT | REPL | GABA, free=3, keys=3, feat=LIGHT),
      hist("weightless", "weights from 0 on", ops=INS | MUT | REM, prefix=1, free=3, keys=3, admitted=0, feat=LIGHT),
      hist("pin", "pinned items", ops=INS | MUT, prefix=2, free=2, keys=3, feat=PIN | LIGHT),
      hist("hot", "changes of hot items", ops=INS | MUT | GET, prefix=4, free=1, keys=5, reads=1, feat=LIGHT),
      hist("three", "3 insertions, then changes, stores and removals", ops=MUT | INS | REM, prefix=3, free=3, keys=4, feat=LIGHT, thorough=True, budget_thorough=1500)])
prop("C11", HB + "; guards filled or abandoned and loads, through 2 entry points each, among other operations",
     both("prefix4", PRE4, ops=GINS | GABA | LOAD | LFAIL | GINSLC, feat=LIGHT, **ADMITTED) +
     both("free3", "loads among other operations", ops=INS | REM | GINS | GABA | LOAD | LFAIL, free=3, keys=3, feat=LIGHT) +
     [unit("unit", ops=INS | GABA | LOAD | REM, free=5, cfgs=(15,)),
      unit("unit-sync", ops=INS | LFAIL | GINS | REM, free=5, cfgs=(15,), sync=True),
      hist("held-reserve", "guards held while space is reserved", sync=True, ops=HELD | INS | REM | RESERVE | RETAIN, prefix=1, free=4, keys=3, feat=UNIT, cfgs=(15,), it=0),
      hist("collide", "colliding hashes", ops=INS | GABA | LOAD, free=3, keys=3, hashes=(1, 3), feat=LIGHT)])
prop("C24", HB + "; every storing entry point, plain and *_with_lifecycle",
     both("prefix4", PRE4, feat=LIGHT, **ADMITTED) +
     [hist("free3", "3 operations", ops=INS | REPL | SOFT | GINS | GABA | LOAD | LFAIL | INSLC | REPLLC | GINSLC, free=3, keys=3, feat=LIGHT),
      hist("pin", "pinned items", prefix=3, free=1, keys=4, feat=PIN | LIGHT),
      hist("mode", "before_evict changes weights", ops=INS | REPL | GINS | LOAD | INSLC | REPLLC | GINSLC, prefix=2, free=1, keys=3, feat=MODE | LIGHT),
      unit("unit", ops=INS | GET | INSLC, free=6, cfgs=(15,))])
def run(name, what, entry, params, **kw):
    return dict(name=name, what=what, variant=kw.pop("variant", "base"), entry=entry, params=list(params), **kw)
def pol(name, what, ops, prefix, free, keys, feat=0, cfgs=(0,), tail=2, reads=0, sync=False, again=0, **kw):
    return run(name, what, "h_policy_sync" if sync else "h_policy", [ops, prefix, free, keys, feat, sum(1 << c for c in cfgs), tail, reads, again], **kw)
def twin(entry, name, what, ops, prefix, free, keys, feat=0, cfgs=(0,), tail=2, reads=0, hashes=(0,), **kw):
    return run(name, what, entry, [ops, prefix, free, keys, feat, sum(1 << c for c in cfgs), tail, reads, sum(1 << h for h in hashes)], **kw)
def cyc(name, what, ops, per, reps, feat=0, cfgs=(15, 9), hashes=(0,), sync=False, **kw):
    return run(name, what, "h_cycles_sync" if sync else "h_cycles", [ops, per, reps, feat, sum(1 << c for c in cfgs), sum(1 << h for h in hashes)], **kw)
BAND = "band weights: every weight is symbolic in 1000..1100 and the capacity a multiple of such items, so that small differences decide; "
POLB = ("single-threaded histories compared event by event with an abstract model of the two clock lists and the ghost list; weights at least 1 "
        "(symbolic up to capacity, or 1000..1100 with capacities of 2 to 6 items); one shard; ")

prop("C12", "cycles of up to 2 operations of any kind repeated 20 to 150 times, with weights symbolic between a quarter of the capacity and above it, in a narrow band, weightless or over-heavy, live heap bytes compared with those of a cache holding the most entries allowed; " + POLB + "the ghost list of the model is the allowance",
     [cyc("cycle2", "any two operations, repeated", 1023, 2, 150),
      cyc("cycle2-sync", "any two operations, repeated (sync)", 511, 2, 150, cfgs=(15,), sync=True),
      cyc("cycle2-heavy", "repeated operations with over-heavy and weightless values", 239, 2, 100, feat=PIN, cfgs=(15,)),
      cyc("cycle2-wide", "any two operations with symbolic weights, repeated", 1023, 2, 30, feat=32, cfgs=(0, 2, 3, 4)),
      cyc("cycle2-wide-sync", "any two operations with symbolic weights, repeated (sync)", 511, 2, 20, feat=32, cfgs=(0,), sync=True),
      pol("ghost-prefix", "4 insertions of symbolic weight", INS | GET | REM, 4, 1, 6, 0, (0, 2), 2, 1, prop=14),
      pol("ghost", "ghosts beyond the allowance", INS | GET | REM, 0, 6, 4, UNIT, (15, 9), 4, prop=14),
      pol("ghost-none", "no or one ghost allowed", INS | GET | REM, 0, 6, 4, UNIT, (19, 23), 3, prop=14),
      pol("ghost-restart", "clear and drain while keys are remembered", INS | REM | CLEAR | DRAIN, 3, 3, 4, UNIT, (15, 9), 3, 1, prop=14),
      pol("ghost-many", "as many evictions as the allowance and more", INS, 0, 9, 9, UNIT, (15, 16, 18), 2, prop=14),
      cyc("cycle3-wide", "any three operations with symbolic weights, repeated", 237, 3, 20, feat=32, cfgs=(0,), thorough=True),
      cyc("cycle3", "any three operations, repeated", 237, 3, 60, cfgs=(15,), thorough=True),
      cyc("cycle3-sync", "any three operations, repeated (sync)", 239, 3, 60, cfgs=(15,), sync=True, thorough=True)])
prop("C13", "pairs of histories differing in the read-only calls inserted; 4 operations with band weights or 1 operation after 3 insertions with symbolic weights, then up to 4 insertions; " + POLB,
     [twin("h_readonly", "unit", "read-only calls between 4 operations", 7, 0, 4, 4, UNIT, (15, 9), 4),
      twin("h_readonly", "weightless", "read-only calls between 4 stores, some of them weightless", INS | GET, 0, 4, 3, UNIT | MODE0, (15,), 3),
      twin("h_readonly", "prefix3", "read-only calls after 3 insertions", 7, 3, 1, 4, 0, (0,), 2, 1),
      twin("h_readonly_sync", "prefix3-sync", "read-only calls after 3 insertions (sync)", 15, 3, 1, 4, 0, (0,), 2, 1)])
prop("C14", POLB + "6 operations with band weights, 2 operations after 3 insertions with symbolic weights, one guard held (with up to one waiting task) during 4 operations, clear and drain among 4 operations after 3 insertions",
     [pol("unit", "insert, get, remove", INS | GET | REM, 0, 6, 4, UNIT, (15, 9), 4),
      pol("all", "all storing operations", 511, 0, 4, 3, UNIT, (15, 19), 4),
      pol("prefix4", "4 insertions of symbolic weight", INS | GET | REM, 4, 1, 6, 0, (0,), 2, 1),
      pol("prefix3", "3 insertions of symbolic weight read 0..2 times", INS | GET | REM, 3, 2, 5, 0, (0,), 1, 2),
      pol("prefix3-all", "any operation after 3 insertions", 1023, 3, 1, 5, 0, (0, 4), 1, 2),
      pol("pin", "pinned items", INS | REPL, 3, 1, 5, PIN, (0,), 1, 1),
      pol("sync", "any operation after 3 insertions (sync)", 511, 3, 1, 5, 0, (0, 4), 1, 2, sync=True),
      pol("restart", "clear and drain among 3 insertions and 4 operations", INS | REM | CLEAR | DRAIN, 3, 4, 4, UNIT, (15, 9), 3, 1),
      pol("again", "3 insertions, the cache emptied, 3 insertions again, then 2 operations", INS | GET | REM, 3, 2, 4, UNIT, (15, 23), 3, 1, again=1),
      pol("again-sync", "the same (sync)", INS | GET | REM, 3, 2, 4, UNIT, (15, 23), 2, 1, sync=True, again=1),
      pol("restart-sync", "clear among 3 insertions and 4 operations (sync)", INS | REM | CLEAR, 3, 4, 4, UNIT, (15, 9), 3, 1, sync=True),
      pol("held", "guards held while other items are stored, weights symbolic", INS | 1 << 13 | 1 << 14 | 1 << 15 | 1 << 16, 3, 3, 5, 0, (0,), 1, 1, sync=True),
      pol("held-unit", "guards held, with waiting tasks, while other items are stored and read", INS | GET | 1 << 13 | 1 << 14 | 1 << 15 | 1 << 16, 2, 4, 4, UNIT, (15, 9), 3, 1, sync=True),
      pol("held-start", "guards held while other operations happen", INS | REM | CLEAR | 1 << 13 | 1 << 14 | 1 << 15 | 1 << 16, 0, 4, 3, 0, (0, 4), 2, 0, sync=True),
      pol("held5", "guards held, 5 operations", INS | 1 << 13 | 1 << 14 | 1 << 15 | 1 << 16, 2, 5, 4, UNIT, (15, 9), 3, 1, sync=True, thorough=True),
      pol("retain", "retain and guards among reads", 1055, 3, 2, 4, UNIT, (15, 9), 4, 3),
      pol("large", "capacity of 3 to 6 items", INS | GET, 4, 3, 7, UNIT, (10, 11, 14, 17, 18), 3, 1, budget=60),
      pol("unit7", "7 operations", INS | GET | REM, 0, 7, 5, UNIT, (15, 9), 4, thorough=True),
      pol("large4", "capacity of 3 to 6 items, longer", INS | GET | REM, 4, 4, 7, UNIT, (10, 11, 14, 17, 18), 3, 2, thorough=True, budget_thorough=1200)])
prop("C20", "all 64-bit capacities and item estimates (symbolic), requested shard counts 1..64 (case split, up to 1024 in thorough); shard arithmetic as compiled",
     [run("arith", "requested shards 0..64", "h_sharded", [64, 0]),
      run("use", "requested shards 0..4, with an insertion", "h_sharded", [4, 1]),
      run("arith-large", "requested shards 0..512", "h_sharded", [512, 0], thorough=True)])
prop("C21", "histories on caches of 2 and 8 shards; hash layouts: bits differ in low, middle and top positions, equal, every 64-bit hash (one key), every value of the upper 56 bits (two keys); all assertions of the history machine apply",
     [hist("shards8", "2 operations of any kind on 8 shards", sync=True, free=2, keys=3, cfgs=(20,), hashes=(5, 1), it=1, prop=0),
      hist("shards2", "3 operations on 2 shards", sync=True, ops=ALL & ~(INSLC | REPLLC | GINSLC | RESERVE), free=3, keys=2, cfgs=(21,), hashes=(5,), it=1, prop=0),
      hist("anyhash1", "1 operation of any kind on a key with any 64-bit hash, 8 shards", sync=True, free=1, keys=1, cfgs=(20,), hashes=(6,), it=1, prop=0),
      hist("anyhash2", "2 operations of any kind on 2 keys whose upper 56 hash bits are symbolic, 8 shards", sync=True, free=2, keys=2, cfgs=(20,), hashes=(7,), it=1, prop=0),
      hist("anyhash3", "3 operations on 2 keys whose upper 56 hash bits are symbolic, 2 shards", sync=True, ops=INS | GET | REM | LOAD, free=3, keys=2, cfgs=(21,), hashes=(7,), it=1, prop=0),
      hist("shards-held", "guards held while other operations happen, 2 shards", sync=True, ops=HELD | INS | REM | CLEAR | RETAIN, free=5, keys=2, feat=LIGHT, cfgs=(21,), hashes=(5,), it=0, prop=0),
      hist("anyhash-full", "2 operations on 2 keys with any 64-bit hashes", sync=True, ops=INS | GET | REM, free=2, keys=2, cfgs=(21,), hashes=(6,), it=0, prop=0, thorough=True)])
prop("C23", "4 operations with band weights or 1 after 3 insertions before the clone, up to 4 insertions on both copies; " + POLB,
     [twin("h_clone", "unit", "clone after 4 operations", 7, 0, 4, 4, UNIT, (15, 9), 4),
      twin("h_clone", "reads", "clone of a cache whose items were read up to 3 times", INS | GET, 3, 2, 4, UNIT, (15, 9, 18), 4, 3),
      twin("h_clone", "prefix3", "clone after 3 insertions and any operation", 1023, 3, 1, 4, 0, (0,), 2, 1)])
prop("C25", "every 64-bit float setting (symbolic, Z3 floating point), every 64-bit integer setting, every subset of setters; default allocations observed through evictions of up to 5 operations",
     [run("missing", "every subset of required settings", "h_options", [0], opts=["--fp", "1"]),
      run("hot", "every f64 hot allocation", "h_options", [1], opts=["--fp", "1"]),
      run("ghost", "every f64 ghost allocation", "h_options", [2], opts=["--fp", "1"]),
      run("values", "values are used as given", "h_options", [3]),
      run("shards", "default shard count and capacity of the constructors, any estimate and capacity", "h_options", [4]),
      run("plain", "the plain constructors and their hasher", "h_options", [5]),
      pol("defaults", "evictions under the default allocations", INS | GET | REM, 0, 5, 4, UNIT, (24, 25), 3, prop=14)])
def stat(name, what, ops, prefix, free, keys, feat=0, cfgs=(0,), hashes=(0,), sync=False, **kw):
    return run(name, what, "h_stats_sync" if sync else "h_stats", [ops & ~((1 << 9) | (1 << 14)) if sync else ops, prefix, free, keys, feat, sum(1 << c for c in cfgs), sum(1 << h for h in hashes)], variant="stats", **kw)
prop("C22", "crate built with the stats feature; 3 operations of 16 kinds on 2 keys, 2 after 2 insertions with symbolic weights, 4 with band weights; one shard, and 2 shards for the sums",
     [stat("free3", "3 operations of any kind", 65535, 0, 3, 2),
      stat("free3-sync", "3 operations of any kind (sync)", 65535, 0, 3, 2, sync=True),
      stat("prefix2", "2 operations after 2 insertions", 65535, 2, 2, 3),
      stat("prefix2-sync", "2 operations after 2 insertions (sync)", 65535, 2, 2, 3, sync=True),
      stat("unit", "4 operations, band weights", 65535, 0, 4, 3, UNIT, (15,)),
      stat("unit-sync", "4 operations, band weights (sync)", 65535, 0, 4, 3, UNIT, (15,), sync=True),
      stat("shards", "2 shards", 65535, 0, 3, 3, UNIT, (21,), (5,), sync=True)])
EXTREME = (5, 6, 7, 8, 12, 13, 22)
prop("C26", HB + "; configurations: capacity 0, 1, u64::MAX/2, u64::MAX, hot allocation 0 and 1, ghost allocation 1, 0 estimated items; weights up to the top of the 64-bit range; a path of more than 2 million instructions counts as an endless loop; all assertions of the history machine apply",
     [hist("extreme3-unsync", "3 operations of any kind", ops=ALL & ~(INSLC | REPLLC | GINSLC | RESERVE | SOFT | MUT), free=3, keys=2, cfgs=EXTREME, admitted=0, it=0, prop=0),
      hist("extreme3-sync", "3 operations of any kind (sync)", sync=True, ops=ALL & ~(INSLC | REPLLC | GINSLC | RESERVE | SOFT), free=3, keys=2, cfgs=EXTREME, admitted=0, it=0, prop=0),
      hist("extreme-lc", "2 operations of any kind", free=2, keys=2, cfgs=EXTREME, admitted=0, prop=0)] +
     both("extreme-pin", "2 insertions, pinned items, then any operation", prefix=2, free=1, keys=3, feat=PIN, cfgs=EXTREME, admitted=0, prop=0) +
     both("extreme-mode", "2 insertions, items whose weight before_evict changes, then any operation", prefix=2, free=1, keys=3, feat=MODE, cfgs=EXTREME, admitted=0, prop=0) +
     both("extreme-pin-mode", "2 insertions, pinned items and changing weights, then any operation", prefix=2, free=1, keys=3, feat=PIN | MODE, cfgs=EXTREME, admitted=0, prop=0, thorough=True) +
     [hist("extreme4", "4 operations", ops=INS | GET | REM | REPL, free=4, keys=3, cfgs=EXTREME, admitted=0, prop=0),
      hist("zero-mode", "before_evict zeroes weights", prefix=3, free=1, keys=4, feat=MODE0, prop=0),
      unit("unit", ops=INS | GET | REM | GABA, free=5, cfgs=(15, 16, 17), prop=0),
      hist("extreme4-all", "4 operations of any kind", ops=ALL, free=4, keys=2, cfgs=EXTREME, admitted=0, prop=0, thorough=True, budget_thorough=1500)])
def grd(name, what, ops, n, keys, cfg, feat=0, hashes=(0,), lc=0, **kw):
    return run(name, what, "h_guards", [ops, n, keys, 1 << cfg, feat, sum(1 << h for h in hashes), lc], prop=0, **kw)
GRDB = ("one shared cache, one shard; guards and futures of up to 3 each are interleaved with other operations at the granularity of API calls and polls; "
        "weights symbolic 0..capacity+1, 1000..1100 with room for two items, or 1; ")
prop("C17", "up to 5 wake-ups of one timed wait; timeout and the times that pass are symbolic nanoseconds below 1 s (virtual clock) plus timeouts of seconds up to Duration::MAX; between wake-ups the load is left alone, filled, given up, removed, overwritten or taken over by another waiter; the park primitive is replaced by the environment",
     [run("spurious", "4 wake-ups", "h_timeout", [4, 0, 31, 0]),
      run("heir", "3 wake-ups, another task waited before", "h_timeout", [3, 1, 63, 0]),
      run("second", "4 wake-ups, another task waits later", "h_timeout", [4, 2, 63, 0]),
      run("five", "5 wake-ups, another task waits later", "h_timeout", [5, 2, 63, 0]),
      run("long", "long timeouts", "h_timeout", [2, 3, 63, 1]),
      run("long3", "long timeouts, another task waits later", "h_timeout", [3, 2, 63, 1])])
prop("C18", GRDB + "5 operations on one key, 4 on two",
     [grd("ops5", "5 operations, guards and futures", 4095, 5, 1, 0, LIGHT),
      grd("ops4-two", "4 operations on two keys, symbolic weights", 255, 4, 2, 0),
      grd("ops4-all", "4 operations on two keys, guards and futures, symbolic weights", 4095, 4, 2, 0),
      grd("ops6", "6 operations of guards and stores", 31, 6, 1, 0, LIGHT),
      grd("evicting", "5 operations on two keys of a cache with room for two items", 255, 5, 2, 15, UNIT),
      grd("lifecycle", "filled through insert_with_lifecycle", 255, 4, 2, 0, lc=1),
      grd("collide", "colliding hashes", 4095, 4, 2, 15, UNIT, (1,))])
prop("C27", GRDB + "5 operations of any kind, 7 of guards and futures, on one key",
     [grd("ops5", "5 operations, guards and futures", 4095, 5, 1, 0, LIGHT),
      grd("ops6", "6 operations on guards and futures", 3847, 6, 1, 0, LIGHT),
      grd("ops7", "7 operations on guards, futures, stores and removals", 3871, 7, 1, 0, LIGHT),
      grd("ops4-all", "4 operations on two keys, symbolic weights", 4095, 4, 2, 0)])
# operation bits of thr.rs
(T_LOAD, T_FAIL, T_FILL, T_DROP, T_TFILL, T_TDROP, T_AFILL, T_ADROP, T_ALOAD, T_CANCEL, T_CANCEL2, T_GET, T_REM, T_INS, T_REPL, T_CLEAR, T_RETAIN, T_HAS,
 T_PEEK) = (1 << i for i in range(19))
T_LOADS = T_GET - 1
T_BASIC = T_GET | T_REM | T_INS | T_REPL | T_CLEAR | T_RETAIN | T_HAS | T_PEEK
T_DIST = T_REM | T_INS | T_REPL | T_CLEAR | T_RETAIN
def thr(name, what, masks, keys=1, per=1, preempt=99, cfg=0, feat=0, spurious=0, fine=0, hashes=(0,), **kw):
    return run(name, what, "h_threads", (list(masks) + [0] * 4)[:4] + [keys, per, 1 << cfg, feat, spurious, fine, sum(1 << h for h in hashes)], variant="thr",
               prop=0, opts=["--preempt", str(preempt)], **kw)
THRB = ("threads are symbolic-executed with a scheduler choice before each lock acquisition, AtomicBool access, park and unpark (sequentially consistent memory; locks and parking are models/shuttle, behind the crate's own shuttle feature); "
        "two threads with one operation each: every interleaving; three threads or two operations each: at most 2 preemptions besides blocking; weights symbolic; no schedule outside these bounds is claimed; ")
THR_ASSUME = ["sequentially consistent memory; RwLock, park and unpark behave as modelled in models/shuttle (writers go before waiting readers, spurious wake-ups where stated)",
              "the crate's shuttle feature changes only the lock, atomic and park primitives and skips the elapsed-time test of timed waits (that test is covered by C17)"]
TWO = "two threads, any two of 19 operations on one key, every interleaving"
prop("C15", THRB + GRDB,
     [thr("two", TWO, [T_LOADS | T_BASIC] * 2, budget=120),
      thr("three", "three concurrent loaders of any kind", [T_LOADS] * 3, preempt=2, budget=120),
      thr("four", "four concurrent loaders, 1 preemption", [T_LOAD | T_FAIL | T_ADROP | T_FILL] * 4, preempt=1),
      thr("disturbed", "two loaders, one disturbing thread", [T_LOADS] * 2 + [T_DIST], preempt=2, budget=120),
      thr("twice", "two loads per thread", [T_LOAD | T_FAIL | T_TFILL | T_ADROP] * 2, per=2, preempt=2),
      grd("ops5", "5 operations, guards and futures", 4095, 5, 1, 0, LIGHT),
      grd("ops7", "7 operations on guards, futures, stores and removals", 3871, 7, 1, 0, LIGHT),
      thr("three-3", "three loaders, 3 preemptions", [T_LOAD | T_FAIL | T_FILL | T_DROP | T_ALOAD | T_ADROP] * 3, preempt=3, thorough=True),
      thr("four-2", "four loaders, 2 preemptions", [T_LOAD | T_FAIL | T_ADROP] * 4, preempt=2, thorough=True)], assume=THR_ASSUME)
prop("C16", THRB + "up to 1 spurious wake-up; a schedule in which every unfinished thread is blocked is a violation; " + GRDB,
     [thr("two", TWO, [T_LOADS | T_BASIC] * 2, budget=120),
      thr("spurious", "two threads, 1 spurious wake-up, 4 preemptions", [T_LOADS | T_DIST] * 2, spurious=1, preempt=4),
      thr("three", "a loader that may give up and two waiters (blocking, timed, async, cancelled)", [T_FAIL | T_DROP | T_FILL, T_LOAD | T_DROP | T_TDROP | T_ADROP | T_CANCEL | T_CANCEL2, T_LOAD | T_DROP | T_TDROP | T_ADROP | T_CANCEL | T_CANCEL2], preempt=2),
      thr("disturbed", "a loader, a waiter and a disturbing thread", [T_FAIL | T_DROP | T_FILL, T_LOAD | T_DROP | T_TDROP | T_ADROP | T_CANCEL, T_DIST], preempt=2),
      grd("ops7", "7 operations on guards, futures, stores and removals", 3871, 7, 1, 0, LIGHT),
      thr("three-3", "a loader and two waiters, 3 preemptions", [T_FAIL | T_DROP | T_FILL] + [T_LOAD | T_DROP | T_TDROP | T_ADROP | T_CANCEL | T_CANCEL2] * 2, preempt=3, thorough=True),
      thr("four", "a loader and three waiters", [T_DROP | T_FILL] + [T_DROP | T_TDROP | T_ADROP | T_CANCEL] * 3, preempt=1, thorough=True)], assume=THR_ASSUME)
prop("C19", THRB + "two keys; an order of the operations consistent with real time and with the results is searched per path; evictions are attributed to the operation that made them",
     [thr("two", TWO + ", key present or absent at first", [T_BASIC | T_LOAD | T_FILL] * 2, feat=2),
      thr("two-keys", "two threads, two keys, room for two items", [T_BASIC | T_LOAD] * 2, keys=2, cfg=15, feat=UNIT | 2),
      thr("twice", "two operations per thread", [T_BASIC] * 2, per=2, preempt=3),
      thr("twice-keys", "two operations per thread, two keys, room for two items", [T_GET | T_REM | T_INS | T_REPL] * 2, per=2, keys=2, cfg=15, feat=UNIT, preempt=3),
      thr("three", "three threads, every interleaving", [T_BASIC] * 3, feat=2),
      thr("three-evict", "three threads, two keys, one of which is evicted", [T_GET | T_INS | T_REM | T_REPL | T_LOAD] * 3, keys=2, cfg=15, feat=UNIT, preempt=3),
      thr("fine", "preemption at the access counters too", [T_BASIC] * 3, feat=2, fine=1, preempt=3),
      grd("sequential", "4 operations on two keys, one after the other", 255, 4, 2, 0),
      thr("shards", "two keys on 8 shards (no clear or retain, which visit one shard after the other)", [T_BASIC & ~(T_CLEAR | T_RETAIN)] * 2, keys=2, cfg=20, hashes=(5,)),
      thr("twice-all", "two operations of any kind per thread", [T_BASIC] * 2, per=2, preempt=3, thorough=True),
      thr("thrice", "three operations per thread", [T_GET | T_REM | T_INS | T_REPL] * 2, per=3, preempt=2, thorough=True)], assume=THR_ASSUME)
PLAN["C18"]["runs"] += [
    thr("thr-two", TWO, [T_LOADS | T_BASIC] * 2, budget=120),
    thr("thr-disturbed", "two loaders, one disturbing thread", [T_FILL | T_DROP | T_ALOAD] * 2 + [T_DIST], preempt=2),
    thr("thr-twice", "a loader and two disturbances", [T_FILL | T_ALOAD, T_DIST | T_GET, T_DIST | T_GET], preempt=2)]
PLAN["C17"]["runs"] += [
    thr("thr-two", "a timed wait against any operation, every interleaving", [T_TFILL | T_TDROP, T_LOADS | T_BASIC]),
    thr("thr-three", "a timed wait, another waiter and a loader", [T_TFILL | T_TDROP, T_DROP | T_TDROP | T_ADROP, T_LOAD | T_FAIL | T_FILL | T_DROP], preempt=2)]
PLAN["C27"]["runs"] += [
    thr("thr-two", "a cancelled lookup against any operation, every interleaving", [T_CANCEL | T_CANCEL2, T_LOADS | T_BASIC]),
    thr("thr-three", "a cancelled lookup, another waiter and a loader", [T_CANCEL | T_CANCEL2, T_DROP | T_FILL | T_ADROP | T_FAIL, T_LOADS], preempt=2)]
for i in ("C17", "C18", "C27"):
    PLAN[i]["bounds"] += "; threads: " + THRB
    PLAN[i].setdefault("assume", []).extend(THR_ASSUME)
for i, w in dict(C01="fpt", C02="fpzm", C03="fptz", C04="fptm", C05="fpzm", C06="fptm", C07="fpm", C08="fpt", C09="ft", C11="fptz", C24="fpzm").items():
    PLAN[i]["runs"] += held(w, light=0 if i == "C01" else LIGHT)
    PLAN[i]["bounds"] += "; shared cache with up to 2 guards outstanding, each with a waiting task, while up to 4 operations happen"
PLAN["C26"]["runs"] += [hist("held-extreme", "guards held while other operations happen", sync=True, ops=HELD | INS | REM, free=4, keys=2, cfgs=EXTREME, admitted=0, it=0, prop=0)]
for i in ("C02", "C03", "C04", "C05", "C06", "C24"):
    PLAN[i]["runs"].append(hist("mode-hot", "before_evict changes weights of items that were read, 4 insertions and two more", ops=INS, prefix=4, free=2, keys=6, feat=MODE | UNIT | LIGHT, cfgs=(15,), reads=1, it=0))
def deflt(name, what, ops, n, keys, caps, hashes=(0,), **kw):
    return [run("default-" + name + x, what + ", unit weighter and default lifecycle" + y, "h_default" + e, [ops, n, keys, sum(1 << h for h in hashes), caps], **kw)
            for x, y, e in (("-unsync", " (unsync)", ""), ("-sync", " (sync)", "_sync"))]
D_ALL = INS | GET | REM | REPL | SOFT | 32 | LOAD | LFAIL | RETAIN | CLEAR
for i in ("C01", "C02", "C03", "C04", "C08", "C09", "C11", "C12"):
    PLAN[i]["runs"] += deflt("any", "3 operations of any kind, capacities 1..3", D_ALL, 3, 3, 3)
    PLAN[i]["bounds"] += "; caches with UnitWeighter and DefaultLifecycle: capacities 1..3, 3 operations of any kind, values with a symbolic payload"
def unw(r):
    return dict(r, variant="thru" if r["variant"] == "thr" else "unw", prop=0)
prop("C28", "the histories of C11, C16, C18 and C27 in a build that unwinds, where at each point a loader, a holder of a guard, of a mutable reference or of a draining iterator, or a retain predicate (unsync) may panic: "
     "3 operations on 3 keys or 1 after 3 insertions (unsync), 4 on 2 keys or 3 after 3 insertions with guards held and tasks waiting (sync), 5 to 6 operations on guards and futures, 2 threads in every interleaving, 3 threads with 2 preemptions; "
     "panics in code that the cache runs under its locks (weighter, lifecycle, hasher, the sync cache's retain predicate) are outside; " + HB,
     [unw(r) for r in [
         hist("prefix3", "3 admitted insertions, each read 0..1 times, then an operation whose caller may panic", ops=INS | LFAIL | GABA | MUT | DRAIN | RETAIN | LOAD | GINS | REM, prefix=3, free=1, keys=4, reads=1, feat=LIGHT | PANIC),
         hist("free3", "3 operations whose caller may panic", ops=INS | LFAIL | GABA | MUT | DRAIN | RETAIN | LOAD | REM, free=3, keys=3, feat=LIGHT | PANIC),
         hist("unit", "3 insertions and 3 operations whose caller may panic, unit weights", ops=INS | LFAIL | GABA | RETAIN, prefix=3, free=3, keys=3, feat=UNIT | LIGHT | PANIC, cfgs=(15,), it=0),
         hist("collide", "colliding hashes", ops=INS | LFAIL | GABA | RETAIN | REM, free=3, keys=3, feat=LIGHT | PANIC, hashes=(1, 3)),
         hist("held", "guards held, tasks waiting, 4 operations", sync=True, ops=INS | LFAIL | GABA | LOAD | REM | HELD, free=4, keys=2, feat=LIGHT | PANIC),
         hist("held-full", "3 insertions, then guards held, unit weights", sync=True, ops=INS | LFAIL | GABA | HELD, prefix=3, free=3, keys=4, feat=UNIT | LIGHT | PANIC, cfgs=(15, 9), it=0),
         grd("ops5", "5 operations, guards and futures", 4095, 5, 1, 0, LIGHT | PANIC),
         grd("ops6", "6 operations on guards and futures", 3847, 6, 1, 0, LIGHT | PANIC),
         grd("ops4-two", "4 operations on two keys, symbolic weights", 4095, 4, 2, 0, PANIC),
         thr("two", "a thread that gives its load up by panicking and one with any operation, every interleaving", [T_FAIL | T_DROP | T_TDROP | T_ADROP, T_LOADS | T_BASIC], feat=PANIC),
         thr("three", "a load given up by panicking and two waiters", [T_FAIL | T_DROP] + [T_LOAD | T_FAIL | T_DROP | T_ADROP | T_CANCEL] * 2, preempt=2, feat=PANIC),
         thr("disturbed", "a load given up by panicking, a waiter and a disturbing thread", [T_FAIL | T_DROP, T_LOAD | T_FAIL | T_DROP | T_ADROP, T_DIST], preempt=2, feat=PANIC),
         grd("ops7", "7 operations on guards, futures, stores and removals", 3871, 7, 1, 0, LIGHT | PANIC, thorough=True),
         hist("free4", "4 operations whose caller may panic", ops=INS | LFAIL | GABA | MUT | DRAIN | RETAIN | LOAD | REM, free=4, keys=3, feat=LIGHT | PANIC, thorough=True, budget_thorough=1500)]],
     assume=THR_ASSUME)
def reent(name, what, pre, n, keys, where, cfgs=(15,), hashes=(0,), wide=0, ops=511, inner=1023, **kw):
    return run(name, what, "h_reent", [ops, inner, n, keys, sum(1 << c for c in cfgs), sum(1 << h for h in hashes), where, wide, pre], **kw)
prop("C29", "shared cache; one operation (insert, insert_with_lifecycle, replace, soft replace, get_or_insert_with, get_or_insert_async, guard filled or dropped) in whose loader, guard-holding code, end_request or drop of the evicted value "
     "one of 10 operations on the same cache runs, on any of 2 to 3 keys, after 1 to 3 operations of any kind or 2 to 3 insertions; the drop only with the default lifecycle and unit weights, where a store evicts at most one item; "
     "1 shard, 2 shards in one run; deeper nesting and callbacks that the cache runs under its locks by design (weighter, hasher, is_pinned, before_evict, on_evict, retain's predicate, clones, wakers) are outside",
     [reent("any", "an operation inside any operation, after 2 operations of any kind", 511, 2, 2, 7),
      reent("wide", "symbolic weights from 0 to beyond the capacity, after 1 operation of any kind", 511, 1, 2, 3, cfgs=(0,), wide=1),
      reent("wide2", "symbolic weights, after 2 insertions", 1, 2, 3, 3, cfgs=(0,), wide=1),
      reent("full", "after 3 insertions, room for 2 or 3 items", 1, 3, 3, 6, cfgs=(15, 9)),
      reent("full-load", "after 3 insertions or loads, an operation while loading", 9, 3, 3, 1, cfgs=(15,), ops=232),
      reent("collide", "colliding hashes", 129, 2, 2, 7, hashes=(1, 3)),
      reent("shards", "2 shards", 129, 2, 2, 7, cfgs=(21,), hashes=(5,)),
      reent("any3", "after 3 operations of any kind", 511, 3, 2, 7, thorough=True, budget_thorough=900),
      reent("wide3", "symbolic weights, after 2 operations of any kind", 511, 2, 2, 3, cfgs=(0,), wide=1, thorough=True, budget_thorough=900)])
NOT_APPLICABLE = {}

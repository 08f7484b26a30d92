#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
SH, US, SY, PL, SL, OP = "src/shard.rs", "src/unsync.rs", "src/sync.rs", "src/sync_placeholder.rs", "src/linked_slab.rs", "src/options.rs"
H = ["histories", "inputs", "configurations"]
p("C01", "A lookup returns exactly the value last stored under that key, or nothing",
  "After any history, get/peek/contains_key of a key yields the value most recently stored under exactly that key if it is still resident, and nothing otherwise; they agree with each other. This holds for borrowed key forms and when different keys share part or all of their hash.",
  H, "every history of operations on one cache, every value weight, every hash layout including full collisions, every capacity split",
  "Tests use a handful of keys with a good hash and never force hash collisions or ghost/resident mixes; stale or foreign values need particular sequences of eviction, ghosting and re-insertion.",
  [SH, SL, US, SY], [("search / search_resident", SH), ("insert_existing", SH), ("LinkedSlab token reuse", SL)], ["get", "peek", "contains_key", "get_mut", "peek_mut"])
p("C02", "Resident weight never exceeds the capacity after an insertion",
  "After any insertion completes, the total resident weight is at most the configured weight capacity, unless pinned items (plus at most the item just inserted) alone exceed it. The unpinned part alone never exceeds the capacity.",
  H, "every history of insertions, replacements, guard insertions, removals and in-place mutations, every weight and pinning",
  "The fuzz-style test samples random weights; an accounting slip of one path (e.g. zero-weight, ghost re-entry, before_evict shrinking) needs a specific order of weights.",
  [SH], [("eviction loop in insert / replace_placeholder / insert_existing", SH)], ["weight", "capacity"])
p("C03", "len, weight and iteration account exactly for the resident entries",
  "After any operation, len() is the number of resident keys, weight() is the sum of the weights their values have under the weighter, is_empty() agrees, capacity() is constant and iteration yields every resident pair exactly once.",
  H, "every history, weight, pinning and configuration",
  "Tests compare len/weight in a few fixed scenarios.",
  [SH, SL, US, SY], [("num_/weight_ counters", SH), ("LinkedSlab::iter", SL)], ["len", "weight", "iter"])
p("C04", "Every value leaves the cache exactly once: evicted, returned, drained or dropped",
  "Every value handed to the cache is at any time resident or has left through exactly one door: passed to on_evict once, returned to the caller once, drained, or dropped by clear/retain/cache drop. Keys and values are never duplicated, leaked or dropped twice, and on_evict always receives the pair that was actually stored.",
  H, "every history over all storing and removing operations",
  "Tests do not count instances; a lost or doubled notification shows up only for particular replace/reject/evict combinations.",
  [SH, SL, US, SY], [("on_evict calls", SH), ("mem::replace of entries", SH)], ["Lifecycle::on_evict", "Drop"])
p("C05", "Pinned and zero-weight items are never evicted",
  "An item that is pinned or whose weight is zero is never offered for eviction and stays resident until it is explicitly removed, replaced, drained or cleared. An item that before_evict turns weightless is kept instead of evicted.",
  H, "every history with any mix of pinned, weightless and ordinary items, every before_evict effect",
  "Tests pin in one or two fixed scenarios; the clock hands visit pinned items only for particular weight/order combinations.",
  [SH], [("is_pinned / weight checks in advance_hot and advance_cold", SH), ("before_evict re-weighing", SH)], ["Lifecycle::before_evict", "Lifecycle::on_evict"])
p("C06", "Nothing is evicted while everything fits, and admissible items get in",
  "If the total weight after a store fits in the capacity, no other item is evicted or offered for eviction and the stored item is resident. An ordinary item of admissible weight under a key the cache has never seen is always resident right after its insertion.",
  H, "every history, weight and configuration",
  "Spurious evictions merely look like cache misses; no test would notice them.",
  [SH], [("eviction loop conditions", SH), ("admission test against the hot target", SH)], ["insert", "get"])
p("C07", "An over-heavy item is refused without disturbing other entries",
  "Storing an unpinned item heavier than the admissible maximum leaves every other entry untouched, removes any previous value of that key, and hands the refused item to on_evict (or back to the caller of replace). The key is absent afterwards.",
  H, "every history ending in an over-heavy insert, replace, guard insert or load",
  "Only one refusal is tested, with a fixed cache state.",
  [SH], [("handle_overweight path", SH)], ["insert", "replace", "PlaceholderGuard::insert"])
p("C08", "replace stores only over an existing key",
  "replace on an absent key changes nothing and returns the very key and value to the caller; on a present key it installs the new value; over-heavy replacements are returned as well.",
  H, "every history followed by replace (hard or soft), present, absent, previously evicted or loading keys",
  "Tests cover one present and one absent case; a key that was evicted earlier but is still remembered behaves differently inside.",
  [SH, US, SY], [("InsertStrategy::Replace", SH)], ["replace", "replace_with_lifecycle"])
p("C09", "remove, retain, clear and drain remove exactly what they say",
  "remove takes out exactly the named key and returns its pair; retain drops exactly the entries rejected by the predicate; clear and drain (even if the iterator is dropped early) leave an empty cache of weight zero, and the cache keeps working afterwards. None of them notifies evictions and no other entry is affected.",
  H, "every history before and after each removing operation, every predicate, every number of drained items",
  "Tests remove from small fixed caches; list heads and free slots go wrong only for particular positions.",
  [SH, SL, US, SY], [("remove_internal", SH), ("retain", SH), ("drain", SH), ("LinkedSlab::remove", SL)], ["remove", "retain", "clear", "drain"])
p("C10", "In-place mutation keeps key, value and weight consistent",
  "Mutating a value through get_mut, peek_mut or the *_mut guard lookups makes the new value visible, moves the reported weight by exactly the change (also to and from zero), and neither loses nor evicts any entry at that moment. Later insertions restore the capacity bound.",
  H, "every history with in-place weight changes of any size",
  "Weight changes through RefMut are tested with one value; transitions to/from weight zero re-link lists.",
  [SH, US], [("RefMut drop / cold_change_weight", SH)], ["get_mut", "peek_mut", "get_mut_or_insert_with"])
p("C11", "The loader runs iff the key is absent; a failed or dropped load leaves no trace",
  "The get-or-insert and guard lookups return the resident value without running the loader, or run it exactly once and store and return its value. A failing loader or a dropped guard leaves the cache exactly as if it had not been called, including its memory.",
  H, "every history (single thread) of guard lookups, fills, abandonments, successful and failing loads",
  "Tests exercise single uncontended loads and not what an abandoned load leaves behind.",
  [SH, US, SY, PL], [("upsert_placeholder / replace_placeholder / remove_placeholder", SH), ("Guard drop", US), ("PlaceholderGuard drop", PL)], ["get_or_insert_with", "get_ref_or_guard", "get_value_or_guard", "get_or_insert_async"])
p("C12", "Bookkeeping memory stays bounded, no key is kept for a non-resident entry",
  "However long a cache is used, its memory stays proportional to the resident entries plus the configured ghost allowance: keys and values of entries that left are dropped at once, remembered (non-resident) entries never exceed the ghost allowance, and repeating a cycle of operations does not grow memory. Dropping the cache frees everything.",
  H, "every history, in particular repeated cycles of insert/evict/remove/load/abandon",
  "No test measures memory or the slots kept for entries that are gone.",
  [SH, SL], [("capacity_non_resident / advance_ghost", SH), ("LinkedSlab free list", SL), ("remove_placeholder", SH)], ["memory"])
p("C13", "Read-only operations do not influence what is evicted",
  "peek, contains_key, len, weight, iteration, reserve, a failed get and a soft replace leave the future eviction behaviour exactly as if they had not been called (a soft replace: as if the value had been there all along), whereas get and hard stores count as use.",
  H, "every pair of histories differing only in such calls",
  "A test would have to compare two caches over every continuation.",
  [SH, US, SY], [("referenced counter updates", SH), ("InsertStrategy soft", SH)], ["peek", "contains_key", "iter", "reserve", "replace"])
p("C14", "Evictions follow the documented two-list clock policy",
  "New items enter the hot list while it has room and the cold queue (FIFO) afterwards; when room is needed the oldest cold item that was not used since it entered goes first, used ones are promoted to hot, hot overflow is evicted by a clock that spends at most two earlier uses per item, and an evicted key that returns while still within the ghost allowance enters hot; a filled guard enters hot if it fits without evicting, and counts as used once if someone waited for it. The victim is determined by this policy and nothing else (items of weight zero or made weightless take no part).",
  H, "every history of stores and reads within the bounds, every weight, every hot and ghost allowance",
  "Tests check hit ratios on traces only statistically.",
  [SH], [("advance_cold", SH), ("advance_hot", SH), ("advance_ghost", SH), ("insert", SH)], ["Lifecycle::on_evict order"])
p("C15", "Concurrent loaders of one key: a single flight",
  "While a guard for a key is outstanding no other thread or task obtains a guard for it; they wait and receive the value that guard stores. Loaders for the same key never run concurrently unless the key was removed, overwritten or cleared meanwhile.",
  ["schedules"], "every interleaving of two or three threads calling get_value_or_guard/get_or_insert_with on the same key, with insertion or abandonment",
  "The shuttle tests sample random schedules of one scenario.",
  [SY, PL, SH], [("join / join_internal", PL), ("upsert_placeholder", SH)], ["get_value_or_guard", "get_or_insert_with"])
p("C16", "A waiting caller is always woken: by the value or by inheriting the load",
  "A caller that waits for another's load always completes: it receives the inserted value, or, if the guard is dropped, exactly one waiter takes over and obtains the guard. There is no schedule in which a waiter sleeps forever.",
  ["schedules"], "every interleaving of waiters (blocking, with timeout, async), a loader that inserts or abandons, and concurrent removal",
  "A lost wakeup needs one particular interleaving of registration and notification.",
  [PL], [("drop_uninserted_slow", PL), ("Waiter::notify", PL), ("JoinFuture::poll / drop", PL)], ["get_value_or_guard", "get_value_or_guard_async"])
p("C17", "A timed wait ends by its deadline and not before",
  "get_value_or_guard with a timeout returns Timeout only after at least the timeout has passed and the load is still outstanding, never parks beyond the remaining time, is immune to spurious wakeups, and returns the value or guard if notified before giving up. A timed-out caller leaves no trace.",
  ["schedules", "inputs"], "every timeout, every sequence of wakeups (spurious, late, notified) and elapsed times",
  "Tests use one real-time timeout and cannot observe how long the thread parks.",
  [PL], [("join, timeout branch", PL)], ["get_value_or_guard"])
p("C18", "Filling a guard never resurrects an entry that was changed meanwhile",
  "If the key was removed, overwritten or the cache cleared while a guard was outstanding, the guard's value is not stored and the fill reports that to its caller, otherwise it is stored and reported so; an explicitly inserted value is never silently lost, and what a later lookup sees is the last store that succeeded.",
  ["schedules", "histories"], "every interleaving of an outstanding guard with remove, insert, replace, clear, retain and other guards on the same key",
  "Needs operations placed exactly between obtaining and filling a guard.",
  [PL, SH], [("replace_placeholder same_as check", SH), ("insert", PL)], ["PlaceholderGuard::insert", "remove", "insert", "clear"])
p("C19", "Concurrent basic operations are linearizable",
  "Concurrent insert, get, peek, remove, replace and contains on a shared cache behave as if executed one at a time in an order consistent with real time; len and weight are exact once quiescent.",
  ["schedules"], "every interleaving, within the bounds, of two or three threads of such operations on the same or different keys",
  "Tests are single threaded or sample random schedules without checking histories.",
  [SY, SH], [("per-shard RwLock", SY)], ["insert", "get", "remove"])
p("C20", "Sharded capacity equals the requested capacity up to per-shard rounding",
  "For any requested capacity, item estimate and shard count, the shards have equal capacities whose total differs from the requested capacity by less than one unit of weight per shard and never overflows, their number is a power of two not above the next power of two of the request, and shards are merged while each would serve fewer than 32 estimated items. Construction never panics or yields a zero-capacity shard from a non-zero capacity.",
  ["configurations"], "all 64-bit weight capacities, item estimates and shard counts (bounded by allocatable shard counts)",
  "Tests construct a few round configurations.",
  [SY, OP], [("with_options shard arithmetic", SY)], ["capacity", "with_options"])
p("C21", "Sharding is transparent: routing is consistent and aggregates add up",
  "With several shards every operation on a key addresses the same shard whatever entry point is used, so lookups, removals, loads and replacements see each other; len, weight, capacity, hits, misses, clear, retain and reserve cover all shards.",
  H, "every 64-bit hash value, shard counts 1..8, every history within the bounds",
  "Tests do not control the hash, so an entry point using other hash bits goes unnoticed with few keys.",
  [SY], [("shard_for / shard_hash", SY)], ["all keyed operations of the sync cache"])
p("C22", "Hit and miss counters count each plain lookup exactly once",
  "With statistics enabled, every plain lookup (get, get_mut) adds exactly one hit if it found the key and exactly one miss otherwise; a guard or get-or-insert lookup that finds the key adds exactly one hit and no miss, one that does not adds at least one miss and no hit; operations that are not lookups (peek, contains_key, stores, removals) add nothing.",
  H, "every history of lookups and other operations",
  "The tests check one or two counts.",
  [SH, SY, US], [("record_hit / record_miss", SH)], ["hits", "misses"])
p("C23", "A cloned cache is an independent, equivalent copy",
  "A clone holds the same entries and reacts to the same subsequent operations with the same results and evictions, and operations on either never affect the other.",
  H, "every history before the clone and every continuation on both copies",
  "Clone is exercised once, if at all.",
  [SH, US, SL], [("impl Clone for CacheShard", SH)], ["Clone"])
p("C24", "Lifecycle request protocol: one request per store, all its evictions inside",
  "Every storing operation begins exactly one request and all before_evict/on_evict calls it causes carry that request's state; the request is ended exactly once after all of them, or its state is returned to the caller by the *_with_lifecycle variants instead; when a store is refused with an error its request state is simply dropped. before_evict precedes on_evict for evicted items and other operations begin no request.",
  H, "every history of storing operations in all variants",
  "Tests look at single evictions only.",
  [SH, US, SY, PL], [("begin_request/end_request", US + ", " + SY)], ["Lifecycle"])
p("C25", "Options builder accepts exactly the meaningful settings",
  "build() fails exactly when the estimated items or weight capacity is missing; the ghost and hot allocation setters panic exactly for values outside [0,1] (including NaN) and otherwise the values are used as given; unset fields take their documented defaults.",
  ["inputs", "configurations"], "every 64-bit float and integer setting and every subset of setters",
  "Tests try no invalid value.",
  [OP], [("OptionsBuilder", OP)], ["OptionsBuilder::build"])
p("C26", "No panic, memory error or endless loop in any valid configuration",
  "No sequence of safe API calls on a cache with any valid options (capacity 0 to u64::MAX, hot or ghost allocation 0 or 1, estimated items 0, weights from 0 up to any whose sum fits 64 bits) panics, overflows, loops forever or touches memory it does not own.",
  H, "every history within the bounds over extreme configurations and weights",
  "Tests use ordinary capacities; overflow and empty-list corners need extreme ones.",
  [SH, SL, US, SY], [("unchecked slab accesses", SL), ("eviction loops", SH)], ["whole API"])
p("C27", "Dropping a waiting async lookup at any point is harmless",
  "An async lookup may be dropped before its first poll, while waiting or after being woken; remaining waiters still complete, exactly one of them takes over an abandoned load, and neither waiters nor placeholders leak.",
  ["schedules", "histories"], "every order of polls, drops, guard fills and guard drops of up to three futures on one key",
  "Tests never cancel a future between wake-up and poll.",
  [PL], [("JoinFuture drop / drop_pending_waiter", PL)], ["get_value_or_guard_async", "get_or_insert_async"])
p("C28", "A panic in the caller's code leaves the cache as a failure would",
  "When a loader (blocking or async) panics, or code panics while it holds a guard, a waiting lookup, a mutable reference or a draining iterator of the cache, or an unsync retain predicate panics, the panic reaches the caller and the cache is as after the corresponding failure or ordinary drop: nothing is stored, no placeholder, key or value is left behind, one waiter takes an abandoned load over, a changed weight is accounted for, and the cache stays consistent and usable. (Panics in code which a shared cache runs under its own locks are not covered: std locks are then poisoned by design.)",
  ["inputs", "histories", "schedules"], "every point at which such code may panic, in every history and interleaving within the bounds",
  "The tests never panic inside a loader or while holding a guard.",
  [US, SY, PL, SH], [("Guard / PlaceholderGuard drop", US + ", " + PL), ("get_or_insert_with", US), ("RefMut drop", SH)], ["get_or_insert_with", "get_or_insert_async", "PlaceholderGuard", "RefMut", "drain"])
p("C29", "Loaders, end_request and the drop of the evicted item run outside the locks",
  "In the shared cache a loader (blocking or async), code holding a guard, the lifecycle's end_request hook and, with the default lifecycle, the drop of the single item that a store evicts run while the cache holds none of its locks: they may call any operation of the same cache (other than waiting for the very key their own load is loading) and neither deadlock nor corrupt anything. A load under way blocks no operation on other keys, nor get, insert or remove of its own key; by the time end_request or that drop runs, the store is visible, and the inner operation takes effect in program order.",
  ["inputs", "histories"], "every inner operation at each of these points of every store, in every history within the bounds",
  "The tests never use the cache from inside a loader, a lifecycle hook or a value's drop.",
  [SY, PL, SH], [("get_or_insert_with / insert / replace", SY), ("PlaceholderGuard::insert", PL), ("DefaultLifecycle", SY)], ["get_or_insert_with", "end_request", "DefaultLifecycle", "PlaceholderGuard::insert"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")

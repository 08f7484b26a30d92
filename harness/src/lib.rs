#![allow(static_mut_refs)]
#![allow(unused_unsafe)]
pub mod api;
pub mod machine;
pub mod mem;
pub mod conf;
pub mod default;
pub mod stat;
pub mod guards;
pub mod timeout;
#[cfg(feature = "threads")]
pub mod thr;
pub mod policy;
pub mod reent;
pub mod twin;
pub mod rt;
pub mod types;
use machine::*;
use rt::*;

/// params: 0 operation mask, 1 prefix insertions, 2 free operations, 3 keys, 4 features,
/// 5 configurations (bit set), 6 hash layouts (bit set), 7 reads per prefix key, 8 iterate at the end,
/// 9 the prefix inserts only items of weight 1..=hot target
fn history<A: Api>() {
    let cfg = pick(param(5));
    types::set_hashes(pick(param(6)));
    let mut m = Mach::<A>::new(cfg, param(3) as usize, param(4));
    m.prefix(param(1) as usize, param(7) as u32, param(9) != 0);
    for _ in 0..param(2) {
        m.step(param(0));
    }
    if param(8) != 0 {
        m.observe_iter();
    }
    m.finish();
}
/// case split over the members of a bit set
pub fn pick(set: u64) -> u32 {
    let mut n = 0;
    for i in 0..32 {
        n += (set >> i & 1) as u32;
    }
    let mut c = choose(n);
    for i in 0..32 {
        if set >> i & 1 == 1 {
            if c == 0 {
                return i;
            }
            c -= 1;
        }
    }
    0
}
#[no_mangle]
pub extern "C" fn h_unsync() {
    history::<api::U>()
}
#[no_mangle]
pub extern "C" fn h_sync() {
    history::<api::S>()
}
#[no_mangle]
pub extern "C" fn h_policy() {
    policy::policy::<api::U>()
}
#[no_mangle]
pub extern "C" fn h_policy_sync() {
    policy::policy::<api::S>()
}
#[no_mangle]
pub extern "C" fn h_readonly() {
    twin::readonly::<api::U>()
}
#[no_mangle]
pub extern "C" fn h_readonly_sync() {
    twin::readonly::<api::S>()
}
#[no_mangle]
pub extern "C" fn h_clone() {
    twin::clone()
}
#[no_mangle]
pub extern "C" fn h_cycles() {
    mem::cycles::<api::U>()
}
#[no_mangle]
pub extern "C" fn h_cycles_sync() {
    mem::cycles::<api::S>()
}
#[no_mangle]
pub extern "C" fn h_sharded() {
    conf::sharded()
}
#[no_mangle]
pub extern "C" fn h_options() {
    conf::options()
}
#[no_mangle]
pub extern "C" fn h_stats() {
    stat::stats::<api::U>()
}
#[no_mangle]
pub extern "C" fn h_stats_sync() {
    stat::stats::<api::S>()
}
#[no_mangle]
pub extern "C" fn h_default() {
    default::unsync_default()
}
#[no_mangle]
pub extern "C" fn h_default_sync() {
    default::sync_default()
}
#[no_mangle]
pub extern "C" fn h_reent() {
    reent::reent()
}
#[no_mangle]
pub extern "C" fn h_guards() {
    guards::guards()
}
/// what parking a thread with a timeout does: the environment decides
#[no_mangle]
pub extern "C" fn qs_park_hook(s: u64, n: u32) {
    timeout::hook(s, n)
}
#[no_mangle]
pub extern "C" fn h_timeout() {
    timeout::timeout()
}
#[cfg(feature = "threads")]
#[no_mangle]
pub extern "C" fn h_threads() {
    thr::threads()
}
/// entry points by name (native replay)
#[cfg(feature = "native")]
pub fn entry(n: &str) -> Option<extern "C" fn()> {
    Some(match n {
        "h_unsync" => h_unsync,
        "h_sync" => h_sync,
        "h_policy" => h_policy,
        "h_policy_sync" => h_policy_sync,
        "h_readonly" => h_readonly,
        "h_readonly_sync" => h_readonly_sync,
        "h_clone" => h_clone,
        "h_cycles" => h_cycles,
        "h_cycles_sync" => h_cycles_sync,
        "h_sharded" => h_sharded,
        "h_options" => h_options,
        "h_stats" => h_stats,
        "h_stats_sync" => h_stats_sync,
        "h_guards" => h_guards,
        "h_reent" => h_reent,
        "h_default" => h_default,
        "h_default_sync" => h_default_sync,
        "h_timeout" => h_timeout,
        #[cfg(feature = "threads")]
        "h_threads" => h_threads,
        _ => return None,
    })
}
/// entries whose clock is the virtual one
#[cfg(feature = "native")]
pub fn virtual_time(n: &str) -> bool {
    n.starts_with("h_timeout")
}
#[cfg(feature = "native")]
pub fn park_hook(s: u64, n: u32) {
    timeout::hook(s, n)
}

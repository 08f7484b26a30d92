//! C17: a timed wait against an environment that wakes it at any time, for any reason, on a virtual clock.
use crate::api::*;
use crate::guards::*;
use crate::pick;
use crate::rt::*;
use crate::twin::make;
use crate::types::*;
use quick_cache::sync::GuardResult;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

const TIMED: u32 = 17;
/// clock readings cost 1 ns; more readings than this between two events are not expected
const SLACK: u64 = 16;
type Wait = Pin<Box<dyn Future<Output = Result<V, G>>>>;
struct Env {
    guard: Option<G>,
    c: Option<&'static S>,
    /// 0 outstanding, 1 filled, 2 given up
    state: u32,
    filled: u32,
    disturbed: bool,
    start: u64,
    secs: u64,
    nanos: u64,
    parks: u32,
    fut: Option<Wait>,
    /// the future was chosen as heir
    heir: bool,
}
static mut ENV: Env = Env {
    guard: None,
    c: None,
    state: 0,
    filled: 0,
    disturbed: false,
    start: 0,
    secs: 0,
    nanos: 0,
    parks: 0,
    fut: None,
    heir: false,
};
fn env() -> &'static mut Env {
    unsafe { &mut *std::ptr::addr_of_mut!(ENV) }
}
async fn wait(c: &'static S) -> Result<V, G> {
    let q = Q(0);
    c.get_value_or_guard_async(&q).await
}
/// another task starts waiting for the same key
fn add_future() {
    let e = env();
    let mut f: Wait = Box::pin(wait(e.c.unwrap()));
    let w = waker(0);
    check(f.as_mut().poll(&mut Context::from_waker(&w)).is_pending(), TIMED, 1);
    e.fut = Some(f);
}
/// the task that inherited the load gets on with it
fn take_over() {
    let e = env();
    if let Some(mut f) = e.fut.take() {
        let w = waker(2);
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(Err(g)) => {
                e.guard = Some(g);
                e.state = 0;
                e.heir = false;
            }
            _ => check(false, TIMED, 3),
        }
    }
}
fn act(a: u32) {
    let e = env();
    match a {
        // fill
        1 => {
            if let Some(g) = e.guard.take() {
                e.filled = fresh_id();
                let r = g.insert(V::new(Spec { id: e.filled, w: 1, ..Default::default() }));
                check(r.is_ok() == !e.disturbed, TIMED, 2);
                e.state = 1;
            }
        }
        // give up
        2 => {
            if let Some(g) = e.guard.take() {
                let before = unsafe { WAKES[0] };
                drop(g);
                e.state = 2;
                e.heir = e.fut.is_some() && unsafe { WAKES[0] } > before;
            }
        }
        3 => {
            e.c.unwrap().remove(&Q(0));
            e.disturbed = true;
        }
        5 if e.heir => take_over(),
        4 => {
            e.c.unwrap().insert(K::new(0), V::new(Spec { id: 90, w: 1, ..Default::default() }));
            e.disturbed = true;
        }
        _ => {}
    }
}
/// called instead of parking: for how long the thread wants to park
pub fn hook(secs: u64, nanos: u32) {
    let e = env();
    let now = clock();
    let el = now - e.start;
    // never beyond the remaining time
    if e.secs == 0 {
        let left = if el < e.nanos { e.nanos - el } else { 0 };
        check(secs == 0 && nanos as u64 <= left + SLACK, TIMED, 10);
        if e.parks > 0 {
            check(el < e.nanos + SLACK, TIMED, 11);
        }
    } else {
        check(secs <= e.secs && (secs < e.secs || nanos as u64 <= e.nanos), TIMED, 12);
    }
    // once notified there is no reason to park again
    check(e.state == 0 || e.heir || e.parks == 0, TIMED, 13);
    e.parks += 1;
    if e.parks as u64 > param(0) {
        // bound: number of wake-ups; the last one is late, and gives up if that is not the deadline
        if e.secs > 0 {
            if e.heir {
                take_over();
            }
            act(1);
        } else {
            let d = sym(1, 300_000_000);
            assume(d > nanos as u64);
            clock_advance(d);
        }
        // a waiter that goes on sleeping past its deadline is a violation
        check(e.parks as u64 <= param(0) + 2, TIMED, 14);
        return;
    }
    if e.fut.is_none() && param(1) & 2 != 0 && e.guard.is_some() && !e.disturbed && flip() {
        add_future();
    }
    let d = sym(0, 100_000_000);
    clock_advance(d);
    act(pick(param(2)));
}
/// params: 0 wake-ups before the last, 1 another task waits (1 from before, 2 may come later), 2 actions, 3 long timeouts
pub fn timeout() {
    set_hashes(0);
    unsafe { NEXT_ID = 8 };
    let base = heap_live();
    let (c, _, _) = make::<S>(0);
    let p = Box::into_raw(Box::new(c));
    let e = env();
    let c: &'static S = unsafe { &*p };
    e.c = Some(c);
    e.guard = match c.get_value_or_guard(&Q(0), Some(Duration::ZERO)) {
        GuardResult::Guard(g) => Some(g),
        _ => None,
    };
    check(e.guard.is_some(), TIMED, 20);
    if param(1) & 1 != 0 {
        add_future();
    }
    e.nanos = sym(0, if param(3) != 0 { 999_999_999 } else { 200_000_000 });
    e.secs = if param(3) != 0 { sym(1, 1 << 40) } else { 0 };
    e.start = clock();
    let r = c.get_value_or_guard(&Q(0), Some(Duration::new(e.secs, e.nanos as u32)));
    let el = clock() - e.start;
    let e = env();
    match r {
        GuardResult::Timeout => {
            check(e.secs == 0 && el >= e.nanos, TIMED, 21);
            check(e.state == 0 || e.heir, TIMED, 22);
            cover(1);
        }
        GuardResult::Value(v) => {
            check(e.state == 1 && v.0.id == e.filled, TIMED, 23);
            cover(2);
        }
        GuardResult::Guard(g) => {
            check(e.state == 2 && !e.heir, TIMED, 24);
            // the other task goes on waiting for this one
            e.guard = Some(g);
            e.state = 0;
            cover(3);
        }
    }
    log(e.state as u64);
    // no trace of the waiter: the others go on as if it had not been there
    if e.guard.is_some() {
        act(1 + choose(2));
    }
    if let Some(mut f) = e.fut.take() {
        let w = waker(1);
        let r = f.as_mut().poll(&mut Context::from_waker(&w));
        match r {
            Poll::Ready(Ok(v)) => check(e.state == 1 && v.0.id == e.filled, TIMED, 25),
            Poll::Ready(Err(g)) => {
                check(e.state == 2 && e.heir, TIMED, 26);
                drop(g);
            }
            Poll::Pending => check(false, TIMED, 27),
        }
        drop(f);
        drop(w);
    }
    check(unsafe { WAKERS } == 0, TIMED, 28);
    let there = c.peek(&Q(0)).map_or(0, |v| v.0.id);
    let want = if e.state == 1 && !e.disturbed { e.filled } else { there };
    check(there == want, TIMED, 29);
    if there == 0 {
        check(matches!(c.get_value_or_guard(&Q(0), None), GuardResult::Guard(_)), TIMED, 30);
    }
    drop(unsafe { Box::from_raw(p) });
    check(klive() == 0 && vlive() == 0, TIMED, 31);
    check(heap_live() == base, TIMED, 32);
}

use crate::machine::*;
use crate::types::*;
use quick_cache::{sync, unsync, Options};

pub type U = unsync::Cache<K, V, We, H, L>;
pub type S = sync::Cache<K, V, We, H, L>;

/// whether the loader of the last `load` ran
pub static mut RAN: bool = false;
fn loader_ran() {
    unsafe { RAN = true };
    crate::rt::may_die()
}

impl Api for U {
    const SYNC: bool = false;
    type Guard = ();
    fn hold(_: &'static Self, _: &Q) -> Result<(), u32> {
        Err(0)
    }
    fn fill(_: (), _: V, _: bool) -> Result<(), u32> {
        Err(0)
    }
    fn join(_: &'static Self, _: usize) -> Wait<Self> {
        unreachable!()
    }
    fn make(o: Options) -> Self {
        unsync::Cache::with_options(o, We, H, L)
    }
    fn insert(&mut self, k: K, v: V) {
        unsync::Cache::insert(self, k, v)
    }
    fn insert_lc(&mut self, k: K, v: V) -> R {
        self.insert_with_lifecycle(k, v)
    }
    fn replace(&mut self, k: K, v: V, soft: bool) -> Result<(), (K, V)> {
        unsync::Cache::replace(self, k, v, soft)
    }
    fn replace_lc(&mut self, k: K, v: V, soft: bool) -> Result<R, (K, V)> {
        self.replace_with_lifecycle(k, v, soft)
    }
    fn get(&mut self, q: &Q) -> Option<(u32, u64)> {
        unsync::Cache::get(self, q).map(|v| (v.0.id, v.0.w))
    }
    fn peek(&self, q: &Q) -> Option<(u32, u64)> {
        unsync::Cache::peek(self, q).map(|v| (v.0.id, v.0.w))
    }
    fn contains(&self, q: &Q) -> bool {
        self.contains_key(q)
    }
    fn remove(&mut self, q: &Q) -> Option<(K, V)> {
        unsync::Cache::remove(self, q)
    }
    fn retain(&mut self, f: impl Fn(&K, &V) -> bool) {
        unsync::Cache::retain(self, f)
    }
    fn clear(&mut self) {
        unsync::Cache::clear(self)
    }
    fn reserve(&mut self, n: usize) {
        unsync::Cache::reserve(self, n)
    }
    fn len(&self) -> usize {
        unsync::Cache::len(self)
    }
    fn is_empty(&self) -> bool {
        unsync::Cache::is_empty(self)
    }
    fn weight(&self) -> u64 {
        unsync::Cache::weight(self)
    }
    fn capacity(&self) -> u64 {
        unsync::Cache::capacity(self)
    }
    fn guard_insert(&mut self, q: &Q, how: u32, lc: bool, v: V) -> GuardOut {
        let g = match how {
            0 => match self.get_ref_or_guard(q) {
                Ok(v) => return GuardOut::Hit(v.0.id),
                Err(g) => g,
            },
            _ => match self.get_mut_or_guard(q) {
                Ok(v) => return GuardOut::Hit(v.map_or(0, |v| v.0.id)),
                Err(g) => g,
            },
        };
        if lc {
            g.insert_with_lifecycle(v);
        } else {
            g.insert(v);
        }
        GuardOut::Done
    }
    fn guard_abandon(&mut self, q: &Q, how: u32) -> GuardOut {
        match how {
            0 => match self.get_ref_or_guard(q) {
                Ok(v) => GuardOut::Hit(v.0.id),
                Err(g) => {
                    crate::rt::may_die();
                    drop(g);
                    GuardOut::Done
                }
            },
            _ => match self.get_mut_or_guard(q) {
                Ok(v) => GuardOut::Hit(v.map_or(0, |v| v.0.id)),
                Err(g) => {
                    crate::rt::may_die();
                    drop(g);
                    GuardOut::Done
                }
            },
        }
    }
    fn load(&mut self, q: &Q, how: u32, v: Option<V>) -> (bool, Result<Option<u32>, ()>) {
        let mut ran = false;
        let r = match how {
            0 => self
                .get_or_insert_with(q, || {
                    ran = true;
                    loader_ran();
                    v.ok_or(())
                })
                .map(|v| v.map(|v| v.0.id)),
            _ => self
                .get_mut_or_insert_with(q, || {
                    ran = true;
                    loader_ran();
                    v.ok_or(())
                })
                .map(|v| v.map(|v| v.0.id)),
        };
        (ran, r)
    }
    fn mutate(&mut self, q: &Q, how: u32, w: u64, pin: bool) -> Option<u32> {
        let mut r = match how {
            0 | 4 => self.get_mut(q)?,
            1 => self.peek_mut(q)?,
            2 => match self.get_mut_or_guard(q) {
                Ok(r) => r?,
                Err(_) => return None,
            },
            _ => self.get_mut_or_insert_with::<_, ()>(q, || Err(())).ok().flatten()?,
        };
        if how != 4 {
            r.0.w = w;
            r.0.pin = pin;
        }
        crate::rt::may_die();
        Some(r.0.id)
    }
    fn each(&self, mut f: impl FnMut(usize, u32, u64)) -> bool {
        for (k, v) in self.iter() {
            f(k.k(), v.0.id, v.0.w)
        }
        true
    }
    fn drain(&mut self, n: usize, mut f: impl FnMut(usize, u32, u64)) -> bool {
        for (k, v) in unsync::Cache::drain(self).take(n) {
            f(k.k(), v.0.id, v.0.w)
        }
        true
    }
}

/// polls a future that must not block
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => r,
        Poll::Pending => {
            crate::rt::check(false, 0, 903);
            loop {}
        }
    }
}

impl Api for S {
    const SYNC: bool = true;
    type Guard = sync::PlaceholderGuard<'static, K, V, We, H, L>;
    fn hold(c: &'static Self, q: &Q) -> Result<Self::Guard, u32> {
        match c.get_value_or_guard(q, None) {
            sync::GuardResult::Value(v) => Err(v.0.id),
            sync::GuardResult::Guard(g) => Ok(g),
            sync::GuardResult::Timeout => {
                crate::rt::check(false, 0, 905);
                Err(0)
            }
        }
    }
    fn fill(g: Self::Guard, v: V, lc: bool) -> Result<(), u32> {
        if lc {
            g.insert_with_lifecycle(v).map(|_| ()).map_err(|v| v.0.id)
        } else {
            g.insert(v).map_err(|v| v.0.id)
        }
    }
    fn join(c: &'static Self, k: usize) -> Wait<Self> {
        Box::pin(async move {
            let q = Q(k as u8);
            match c.get_value_or_guard_async(&q).await {
                Ok(v) => Ok(v.0.id),
                Err(g) => Err(g),
            }
        })
    }
    fn make(o: Options) -> Self {
        sync::Cache::with_options(o, We, H, L)
    }
    fn insert(&mut self, k: K, v: V) {
        sync::Cache::insert(self, k, v)
    }
    fn insert_lc(&mut self, k: K, v: V) -> R {
        self.insert_with_lifecycle(k, v)
    }
    fn replace(&mut self, k: K, v: V, soft: bool) -> Result<(), (K, V)> {
        sync::Cache::replace(self, k, v, soft)
    }
    fn replace_lc(&mut self, k: K, v: V, soft: bool) -> Result<R, (K, V)> {
        self.replace_with_lifecycle(k, v, soft)
    }
    fn get(&mut self, q: &Q) -> Option<(u32, u64)> {
        sync::Cache::get(self, q).map(|v| (v.0.id, v.0.w))
    }
    fn peek(&self, q: &Q) -> Option<(u32, u64)> {
        sync::Cache::peek(self, q).map(|v| (v.0.id, v.0.w))
    }
    fn contains(&self, q: &Q) -> bool {
        self.contains_key(q)
    }
    fn remove(&mut self, q: &Q) -> Option<(K, V)> {
        sync::Cache::remove(self, q)
    }
    fn retain(&mut self, f: impl Fn(&K, &V) -> bool) {
        sync::Cache::retain(self, f)
    }
    fn clear(&mut self) {
        sync::Cache::clear(self)
    }
    fn reserve(&mut self, n: usize) {
        sync::Cache::reserve(self, n)
    }
    fn len(&self) -> usize {
        sync::Cache::len(self)
    }
    fn is_empty(&self) -> bool {
        sync::Cache::is_empty(self)
    }
    fn weight(&self) -> u64 {
        sync::Cache::weight(self)
    }
    fn capacity(&self) -> u64 {
        sync::Cache::capacity(self)
    }
    fn guard_insert(&mut self, q: &Q, how: u32, lc: bool, v: V) -> GuardOut {
        let g = match how {
            0 => match self.get_value_or_guard(q, None) {
                sync::GuardResult::Value(v) => return GuardOut::Hit(v.0.id),
                sync::GuardResult::Guard(g) => g,
                sync::GuardResult::Timeout => {
                    crate::rt::check(false, 0, 904);
                    return GuardOut::Done;
                }
            },
            _ => match now(self.get_value_or_guard_async(q)) {
                Ok(v) => return GuardOut::Hit(v.0.id),
                Err(g) => g,
            },
        };
        let ok = if lc {
            g.insert_with_lifecycle(v).is_ok()
        } else {
            g.insert(v).is_ok()
        };
        crate::rt::check(ok, LOADER, 30);
        GuardOut::Done
    }
    fn guard_abandon(&mut self, q: &Q, how: u32) -> GuardOut {
        match how {
            0 => match self.get_value_or_guard(q, None) {
                sync::GuardResult::Value(v) => GuardOut::Hit(v.0.id),
                g => {
                    crate::rt::may_die();
                    drop(g);
                    GuardOut::Done
                }
            },
            _ => match now(self.get_value_or_guard_async(q)) {
                Ok(v) => GuardOut::Hit(v.0.id),
                Err(g) => {
                    crate::rt::may_die();
                    drop(g);
                    GuardOut::Done
                }
            },
        }
    }
    fn load(&mut self, q: &Q, how: u32, v: Option<V>) -> (bool, Result<Option<u32>, ()>) {
        let mut ran = false;
        let r = match how {
            0 => self.get_or_insert_with(q, || {
                ran = true;
                loader_ran();
                v.ok_or(())
            }),
            _ => now(self.get_or_insert_async(q, async {
                ran = true;
                loader_ran();
                v.ok_or(())
            })),
        };
        (ran, r.map(|v| Some(v.0.id)))
    }
    fn mutate(&mut self, _: &Q, _: u32, _: u64, _: bool) -> Option<u32> {
        None
    }
    fn each(&self, _: impl FnMut(usize, u32, u64)) -> bool {
        false
    }
    fn drain(&mut self, _: usize, _: impl FnMut(usize, u32, u64)) -> bool {
        false
    }
}

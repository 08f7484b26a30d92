//! Instance-counted keys and values, a hasher with a chosen hash per key, weighter, lifecycle log.
use crate::rt::*;
use quick_cache::{Lifecycle, Weighter};
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash, Hasher};

pub const NK: usize = 12;
pub const NV: usize = 96;
pub const NE: usize = 32;
pub static mut HASH: [u64; NK] = [0; NK];
pub static mut KLIVE: [i32; NK] = [0; NK];
pub static mut VLIVE: [i32; NV] = [0; NV];
pub static mut NEXT_ID: u32 = 0;

/// borrowed form of the key
#[derive(PartialEq, Eq)]
pub struct Q(pub u8);
impl Hash for Q {
    #[inline]
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0)
    }
}
pub struct K(Q);
impl K {
    #[inline]
    pub fn new(k: usize) -> K {
        unsafe { KLIVE[k] += 1 };
        K(Q(k as u8))
    }
    #[inline]
    pub fn k(&self) -> usize {
        self.0 .0 as usize
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl Hash for K {
    #[inline]
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0 .0)
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        K::new(self.k())
    }
}
impl Drop for K {
    #[inline]
    fn drop(&mut self) {
        unsafe {
            let n = &mut KLIVE[self.0 .0 as usize];
            check(*n > 0, 0, 900);
            *n -= 1;
        }
    }
}
impl Borrow<Q> for K {
    fn borrow(&self) -> &Q {
        &self.0
    }
}
impl ToOwned for Q {
    type Owned = K;
    fn to_owned(&self) -> K {
        K::new(self.0 as usize)
    }
}

#[derive(Clone, Copy, Default)]
pub struct Spec {
    pub id: u32,
    pub w: u64,
    pub pin: bool,
    /// before_evict changes the weight to `bw`, once
    pub mode: bool,
    pub bw: u64,
}
pub struct V(pub Spec);
impl V {
    pub fn new(s: Spec) -> V {
        unsafe { VLIVE[s.id as usize] += 1 };
        V(s)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.0)
    }
}
impl Drop for V {
    #[inline]
    fn drop(&mut self) {
        unsafe {
            let n = &mut VLIVE[self.0.id as usize];
            check(*n > 0, 0, 901);
            *n -= 1;
        }
    }
}
pub fn fresh_id() -> u32 {
    unsafe {
        NEXT_ID += 1;
        NEXT_ID
    }
}
pub fn klive() -> i32 {
    unsafe { KLIVE.iter().sum() }
}
pub fn vlive() -> i32 {
    let mut n = 0;
    unsafe {
        let mut i = 0;
        while i <= NEXT_ID as usize {
            n += VLIVE[i];
            i += 1;
        }
    }
    n
}

#[derive(Clone, Default)]
pub struct H;
pub struct HH(u8);
impl Hasher for HH {
    #[inline]
    fn finish(&self) -> u64 {
        unsafe { HASH[self.0 as usize] }
    }
    fn write(&mut self, _: &[u8]) {}
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.0 = i
    }
}
impl BuildHasher for H {
    type Hasher = HH;
    #[inline]
    fn build_hasher(&self) -> HH {
        HH(0)
    }
}
/// hash layouts: distinct; all equal; equal 7-bit tags and home buckets but different hashes
pub fn set_hashes(mode: u32) {
    for k in 0..NK as u64 {
        let h = match mode {
            0 => (k + 1) << 57 | (k * 5 + 1) | (k << 32),
            1 => 0x1234_5678_9abc_def0,
            2 => 5 << 57 | k << 20 | 3,
            // pairs of keys share a hash
            3 => ((k / 2) + 1) << 57 | (k / 2) * 3 | ((k / 2) << 32),
            // different bits at the bottom, in the middle and at the top
            5 => k << 32 | (k * 3 + 1) % 4 | ((k * 2 + 1) % 4) << 16 | ((k * 3 + 2) % 4) << 48 | ((k + 2) % 4) << 62,
            // any hash
            6 => crate::rt::sym(0, u64::MAX),
            // any hash above the bits that select the table position
            7 => crate::rt::sym(0, u64::MAX >> 8) << 8 | (k * 7 + 1),
            // extreme bit patterns
            _ => {
                if k % 2 == 0 {
                    u64::MAX - k
                } else {
                    k
                }
            }
        };
        unsafe { HASH[k as usize] = h };
    }
}

#[derive(Clone)]
pub struct We;
impl Weighter<K, V> for We {
    #[inline]
    fn weight(&self, _: &K, v: &V) -> u64 {
        v.0.w
    }
}

#[derive(Clone, Copy, Default)]
pub struct Ev {
    pub kind: u8,
    pub k: u8,
    pub id: u32,
    pub serial: u32,
    pub who: u8,
}
pub const BEFORE: u8 = 1;
pub const EVICT: u8 = 2;
pub const END: u8 = 3;
pub static mut EV: [Ev; NE] = [Ev { kind: 0, k: 0, id: 0, serial: 0, who: 0 }; NE];
pub static mut NEV: usize = 0;
pub static mut BEGUN: u32 = 0;
pub static mut ENDED: u32 = 0;
pub static mut RLIVE: i32 = 0;
pub fn ev_reset() {
    unsafe { NEV = 0 }
}
fn push(kind: u8, k: u8, id: u32, serial: u32) {
    unsafe {
        check(NEV < NE, 0, 902);
        EV[NEV] = Ev { kind, k, id, serial, who: tid() as u8 };
        NEV += 1;
    }
}
pub struct R {
    pub serial: u32,
}
impl Drop for R {
    fn drop(&mut self) {
        unsafe { RLIVE -= 1 }
    }
}
#[derive(Clone)]
pub struct L;
impl Lifecycle<K, V> for L {
    type RequestState = R;
    #[inline]
    fn is_pinned(&self, _: &K, v: &V) -> bool {
        v.0.pin
    }
    fn begin_request(&self) -> R {
        unsafe {
            BEGUN += 1;
            RLIVE += 1;
            R { serial: BEGUN }
        }
    }
    fn before_evict(&self, s: &mut R, k: &K, v: &mut V) {
        push(BEFORE, k.k() as u8, v.0.id, s.serial);
        if v.0.mode {
            v.0.mode = false;
            v.0.w = v.0.bw;
        }
    }
    fn on_evict(&self, s: &mut R, k: K, v: V) {
        push(EVICT, k.k() as u8, v.0.id, s.serial);
    }
    fn end_request(&self, s: R) {
        push(END, 0, 0, s.serial);
        unsafe { ENDED += 1 };
    }
}

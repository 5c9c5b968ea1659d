//! Element types and their model: every value has an index, and stepping by one adds one to it.
use crate::sym::*;
use rangetools::Step;

/// Positions in the width and order of the element type.
pub trait Ix: Copy + Ord + core::fmt::Debug {
    type D: Dx;
    fn plus(self, n: u64) -> Self;
    fn minus(self, n: u64) -> Self;
    fn diff(self, o: Self) -> Self::D;
    fn low(self) -> u64;
}
/// Distances.
pub trait Dx: Copy + Ord + core::fmt::Debug {
    fn from(n: u64) -> Self;
    fn less(self, n: u64) -> Self;
    /// n <= self
    fn covers(self, n: u64) -> bool;
    /// self + 1, if a usize can hold it
    fn count(self) -> Option<usize>;
    fn low(self) -> u64;
}
macro_rules! ix {
    ($($t:ident $u:ident),*) => {$(
        impl Ix for $t {
            type D = $u;
            #[inline(always)]
            fn plus(self, n: u64) -> Self { self.wrapping_add(n as $t) }
            #[inline(always)]
            fn minus(self, n: u64) -> Self { self.wrapping_sub(n as $t) }
            #[inline(always)]
            fn diff(self, o: Self) -> $u { (self as $u).wrapping_sub(o as $u) }
            #[inline(always)]
            fn low(self) -> u64 { self as u64 }
        }
    )*};
}
ix!(u8 u8, i8 u8, u16 u16, i16 u16, u32 u32, i32 u32, u64 u64, i64 u64, usize u64, isize u64, u128 u128, i128 u128);
macro_rules! dx {
    ($($t:ident $w:ident),*) => {$(
        impl Dx for $t {
            #[inline(always)]
            fn from(n: u64) -> Self { n as $t }
            #[inline(always)]
            fn less(self, n: u64) -> Self { self.wrapping_sub(n as $t) }
            #[inline(always)]
            fn covers(self, n: u64) -> bool { n as $w <= self as $w }
            #[inline(always)]
            fn count(self) -> Option<usize> {
                if self as $w >= usize::MAX as $w { None } else { Some(self as usize + 1) }
            }
            #[inline(always)]
            fn low(self) -> u64 { self as u64 }
        }
    )*};
}
dx!(u8 u64, u16 u64, u32 u64, u64 u64, u128 u128);

pub trait El: Copy + Ord + Step + Default + core::fmt::Debug {
    type I: Ix;
    const MAXI: Self::I;
    const MINI: Self::I;
    fn any() -> Self;
    fn ix(self) -> Self::I;
    /// Distance from the smallest value, and its largest value.
    const MAXW: u128;
    fn idx(self) -> u128;
}
macro_rules! el_u {
    ($($t:ident $u:ident $any:ident),*) => {$(
        impl El for $t {
            type I = $t;
            const MAXI: $t = $t::MAX;
            const MINI: $t = $t::MIN;
            const MAXW: u128 = $u::MAX as u128;
            fn any() -> Self { $any() as $t }
            #[inline(always)]
            fn ix(self) -> $t { self }
            #[inline(always)]
            fn idx(self) -> u128 { ((self as $u) ^ ($t::MIN as $u)) as u128 }
        }
    )*};
}
el_u!(u8 u8 any_u8, i8 u8 any_u8, u16 u16 any_u16, i16 u16 any_u16, u32 u32 any_u32, i32 u32 any_u32, u64 u64 any_u64, i64 u64 any_u64, usize usize any_u64, isize usize any_u64, u128 u128 any_u128, i128 u128 any_u128);

impl El for char {
    type I = u32;
    const MAXI: u32 = 0x10FFFF - 0x800;
    const MINI: u32 = 0;
    const MAXW: u128 = Self::MAXI as u128;
    fn idx(self) -> u128 {
        self.ix() as u128
    }
    fn any() -> Self {
        let v = any_u32();
        assume((v < 0xD800) | ((v >= 0xE000) & (v <= 0x10FFFF)));
        // SAFETY: just assumed to be a scalar value
        unsafe { char::from_u32_unchecked(v) }
    }
    #[inline(always)]
    fn ix(self) -> u32 {
        let v = self as u32;
        v.wrapping_sub(((v >= 0xE000) as u32) << 11)
    }
}

/// A user-defined step type that relies on the trait's provided methods.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct My(pub u8);
impl Step for My {
    fn steps_between(start: &Self, end: &Self) -> Option<usize> {
        if start.0 <= end.0 {
            Some((end.0 - start.0) as usize)
        } else {
            None
        }
    }
    fn forward_checked(start: Self, n: usize) -> Option<Self> {
        if n > (255 - start.0) as usize {
            None
        } else {
            Some(My(start.0 + n as u8))
        }
    }
    fn backward_checked(start: Self, n: usize) -> Option<Self> {
        if n > start.0 as usize {
            None
        } else {
            Some(My(start.0 - n as u8))
        }
    }
}
impl El for My {
    type I = u8;
    const MAXI: u8 = 255;
    const MINI: u8 = 0;
    const MAXW: u128 = 255;
    fn idx(self) -> u128 {
        self.0 as u128
    }
    fn any() -> Self {
        My(any_u8())
    }
    fn ix(self) -> u8 {
        self.0
    }
}

/// Laws of one step type.  `strict`: stepping out of the type must panic (it always must never
/// return a wrong value where a right one exists).
pub fn step_laws<T: El>(strict: bool) {
    let (a, b, n) = (T::any(), T::any(), any_u64() as usize);
    let (ia, ib, nn) = (a.idx(), b.idx(), n as u128);
    // forward
    let fits = nn <= T::MAXW - ia;
    match T::forward_checked(a, n) {
        Some(r) => {
            check(fits, 1);
            check(!fits | (r.idx() == ia.wrapping_add(nn)), 2);
            observe(r.idx() as u64);
        }
        None => check(!fits, 3),
    }
    // backward
    let bfits = nn <= ia;
    match T::backward_checked(a, n) {
        Some(r) => {
            check(bfits, 4);
            check(!bfits | (r.idx() == ia.wrapping_sub(nn)), 5);
        }
        None => check(!bfits, 6),
    }
    // distance
    let d = ib.wrapping_sub(ia);
    let ok = (ia <= ib) & (d <= usize::MAX as u128);
    match T::steps_between(&a, &b) {
        Some(k) => {
            check(ok, 7);
            check(!ok | (k as u128 == d), 8);
        }
        None => check(!ok, 9),
    }
    // order agrees with the index
    check((a < b) == (ia < ib), 10);
    // unchecked stepping
    if any_bool() {
        panic_ok(!fits);
        let r = T::forward(a, n);
        panic_ok(false);
        if fits {
            check(r.idx() == ia + nn, 11);
        } else if strict {
            check(false, 12);
        }
    } else {
        panic_ok(!bfits);
        let r = T::backward(a, n);
        panic_ok(false);
        if bfits {
            check(r.idx() == ia - nn, 13);
        } else if strict {
            check(false, 14);
        }
    }
}

//! Indexing with the crate's ranges against the standard library's `get`.
use crate::sym::*;
use rangetools::*;
use std::ops::{Index, IndexMut};

/// What the range selects of something `len` long: start and end, None if it must panic.
#[derive(Clone, Copy)]
pub struct Want {
    start: usize,
    end: usize,
    ok: bool,
}

pub trait Sel: Copy {
    fn any(len: usize) -> (Self, Want);
}
fn want(start: Option<usize>, end: Option<usize>, len: usize) -> Want {
    match (start, end) {
        (Some(s), Some(e)) => Want { start: s, end: e, ok: (s <= e) & (e <= len) },
        _ => Want { start: 0, end: 0, ok: false },
    }
}
fn low() -> (LowerBound<usize>, Option<usize>) {
    let a = any_u64() as usize;
    if coin() {
        (LowerBound::included(a), Some(a))
    } else {
        (LowerBound::excluded(a), a.checked_add(1))
    }
}
fn up() -> (UpperBound<usize>, Option<usize>) {
    let b = any_u64() as usize;
    if coin() {
        (UpperBound::included(b), b.checked_add(1))
    } else {
        (UpperBound::excluded(b), Some(b))
    }
}
impl Sel for BoundedRange<usize> {
    fn any(len: usize) -> (Self, Want) {
        let (l, s) = low();
        let (u, e) = up();
        (BoundedRange::new(l, u), want(s, e, len))
    }
}
impl Sel for LowerBoundedRange<usize> {
    fn any(len: usize) -> (Self, Want) {
        let (l, s) = low();
        (LowerBoundedRange::new(l), want(s, Some(len), len))
    }
}
impl Sel for UpperBoundedRange<usize> {
    fn any(len: usize) -> (Self, Want) {
        let (u, e) = up();
        (UpperBoundedRange::new(u), want(Some(0), e, len))
    }
}
impl Sel for UnboundedRange {
    fn any(len: usize) -> (Self, Want) {
        (UnboundedRange::new(), want(Some(0), Some(len), len))
    }
}
impl Sel for EmptyRange<usize> {
    fn any(_len: usize) -> (Self, Want) {
        (EmptyRange::new(), Want { start: 0, end: 0, ok: true })
    }
}

pub const N: usize = 5;
fn data() -> ([u16; N], usize) {
    let d = [any_u16(), any_u16(), any_u16(), any_u16(), any_u16()];
    (d, choose(N as u8) as usize)
}
fn same16(got: &[u16], d: &[u16], w: Want, id: u32) {
    check(w.ok, id);
    if w.ok {
        check(got.len() == w.end - w.start, id + 1);
        for i in 0..got.len() {
            check(got[i] == d[w.start + i], id + 2);
            observe(got[i] as u64);
        }
    }
}
fn head(d: &[u16; N], n: usize) -> &[u16] {
    &d[..n]
}
fn head_mut(d: &mut [u16; N], n: usize) -> &mut [u16] {
    &mut d[..n]
}
fn flipped_inside(e: &[u16; N], d: &[u16; N], n: usize, w: Want, id: u32) {
    for i in 0..n {
        let inside = w.start <= i && i < w.end;
        check(e[i] == if inside { !d[i] } else { d[i] }, id);
    }
}
/// Shared indexing of slices and vectors.
pub fn seq<R: Sel>()
where
    [u16]: Index<R, Output = [u16]>,
    Vec<u16>: Index<R, Output = [u16]>,
{
    let (d, n) = data();
    let (r, w) = R::any(n);
    if coin() {
        let s: &[u16] = head(&d, n);
        panic_ok(!w.ok);
        let got = &s[r];
        panic_ok(false);
        same16(got, &d, w, 1);
    } else {
        let v: Vec<u16> = head(&d, n).to_vec();
        panic_ok(!w.ok);
        let got = &v[r];
        panic_ok(false);
        same16(got, &d, w, 4);
    }
}
/// Mutable indexing: exactly the selected elements are handed out.
pub fn seq_mut<R: Sel>()
where
    [u16]: IndexMut<R, Output = [u16]>,
    Vec<u16>: IndexMut<R, Output = [u16]>,
{
    let (d, n) = data();
    let (r, w) = R::any(n);
    let mut e = d;
    if coin() {
        let s: &mut [u16] = head_mut(&mut e, n);
        panic_ok(!w.ok);
        let got = &mut s[r];
        panic_ok(false);
        same16(got, &d, w, 1);
        for x in got.iter_mut() {
            *x = !*x;
        }
    } else {
        let mut v: Vec<u16> = head(&d, n).to_vec();
        panic_ok(!w.ok);
        let got = &mut v[r];
        panic_ok(false);
        same16(got, &d, w, 4);
        for x in got.iter_mut() {
            *x = !*x;
        }
        head_mut(&mut e, n).copy_from_slice(v.as_slice());
    }
    flipped_inside(&e, &d, n, w, 7);
}

/// Text with characters of one, two, three and four bytes.
const TEXT: &str = "aé日𝄞z";
fn text() -> (&'static str, usize) {
    let n = match choose(5) {
        0 => 0,
        1 => 1,
        2 => 3,
        3 => 6,
        4 => 10,
        _ => 11,
    };
    (&TEXT[..n], n)
}
fn same_str(got: &str, s: &str, w: Want, ok: bool, id: u32) {
    check(ok, id);
    if ok {
        let g = got.as_bytes();
        check(g.len() == w.end - w.start, id + 1);
        for i in 0..g.len() {
            check(g[i] == s.as_bytes()[w.start + i], id + 2);
            observe(g[i] as u64);
        }
    }
}
fn boundary(i: usize) -> bool {
    (i == 0) | (i == 1) | (i == 3) | (i == 6) | (i == 10) | (i == 11)
}
pub fn txt<R: Sel>()
where
    str: Index<R, Output = str>,
    String: Index<R, Output = str>,
{
    let (s, n) = text();
    let (r, w) = R::any(n);
    let ok = w.ok & boundary(w.start) & boundary(w.end);
    if coin() {
        panic_ok(!ok);
        let got = &s[r];
        panic_ok(false);
        same_str(got, s, w, ok, 1);
    } else {
        let t = String::from(s);
        panic_ok(!ok);
        let got = &t[r];
        panic_ok(false);
        same_str(got, s, w, ok, 4);
    }
}
pub fn txt_mut<R: Sel>()
where
    str: IndexMut<R, Output = str>,
    String: IndexMut<R, Output = str>,
{
    let (s, n) = text();
    let (r, w) = R::any(n);
    let ok = w.ok & boundary(w.start) & boundary(w.end);
    let mut t = String::from(s);
    if coin() {
        let m: &mut str = t.as_mut_str();
        panic_ok(!ok);
        let got = &mut m[r];
        panic_ok(false);
        same_str(got, s, w, ok, 1);
        got.make_ascii_uppercase();
    } else {
        panic_ok(!ok);
        let got = &mut t[r];
        panic_ok(false);
        same_str(got, s, w, ok, 4);
        got.make_ascii_uppercase();
    }
    for i in 0..n {
        let b = s.as_bytes()[i];
        let inside = w.start <= i && i < w.end;
        check(t.as_bytes()[i] == if inside { b.to_ascii_uppercase() } else { b }, 7);
    }
}
/// C strings: the rest of the string from a position that is inside it.
pub fn cstr() {
    let s = match choose(2) {
        0 => c"",
        1 => c"x",
        _ => c"abcd",
    };
    let all = s.to_bytes_with_nul();
    let (l, a) = low();
    let ok = match a {
        Some(a) => a < all.len(),
        None => false,
    };
    panic_ok(!ok);
    let got = &s[LowerBoundedRange::new(l)];
    panic_ok(false);
    check(ok, 1);
    if ok {
        let a = a.unwrap_or(0);
        let g = got.to_bytes_with_nul();
        check(g.len() == all.len() - a, 2);
        for i in 0..g.len() {
            check(g[i] == all[a + i], 3);
        }
    }
}
/// Owned C and OS strings: the whole string.
pub fn whole() {
    let n = choose(3) as usize;
    let b = [any_u8(), any_u8(), any_u8()];
    let mut v = vec![];
    for i in 0..n {
        assume((b[i] != 0) & (b[i] < 128));
        v.push(b[i]);
    }
    match choose(2) {
        0 => {
            // SAFETY: no zero byte was pushed
            let c = unsafe { std::ffi::CString::from_vec_unchecked(v) };
            let got = c[UnboundedRange::new()].to_bytes();
            check(got.len() == n, 1);
            for i in 0..got.len() {
                check(got[i] == b[i], 2);
            }
        }
        1 => {
            use std::os::unix::ffi::{OsStrExt, OsStringExt};
            let o = std::ffi::OsString::from_vec(v);
            let got = o[UnboundedRange::new()].as_bytes();
            check(got.len() == n, 3);
            for i in 0..got.len() {
                check(got[i] == b[i], 4);
            }
        }
        _ => {
            use std::os::unix::ffi::{OsStrExt, OsStringExt};
            let mut o = std::ffi::OsString::from_vec(v);
            let got = &mut o[UnboundedRange::new()];
            check(got.as_bytes().len() == n, 5);
            got.make_ascii_uppercase();
            let got = o.as_bytes();
            check(got.len() == n, 6);
            for i in 0..got.len() {
                check(got[i] == b[i].to_ascii_uppercase(), 7);
            }
        }
    }
}

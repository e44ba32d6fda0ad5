//! C16 views.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use core::borrow::{Borrow, BorrowMut};
use core::fmt::Write;

/// Collects what is displayed.
pub struct Sink<const B: usize> {
    b: [u8; B],
    n: usize,
}

impl<const B: usize> Write for Sink<B> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < B {
            if i < s.len() && self.n + i < B {
                self.b[self.n + i] = s[i];
            }
            i += 1;
        }
        self.n += s.len();
        Ok(())
    }
}

/// Every read view of `s` is the text `b(0..n)`.
#[inline(always)]
fn views<S: Api>(s: &S, n: usize, b: impl Fn(usize) -> u8) {
    check!(s.k_len() == n, "len is the length of the text");
    check!(s.k_is_empty() == (n == 0), "is_empty exactly for the empty text");
    is_exactly(s.k_as_str().as_bytes(), n, &b);
    is_exactly(s.k_deref().as_bytes(), n, &b);
    let v: &str = s.borrow();
    is_exactly(v.as_bytes(), n, &b);
    let v: &str = s.as_ref();
    is_exactly(v.as_bytes(), n, &b);
    let v: &[u8] = s.as_ref();
    is_exactly(v, n, &b);
}

pub fn read<S: Api, const L: usize>() {
    let (s, t) = if nd::bool() { state::<S, L>() } else { shifted::<S, L>() };
    views(&s, t.len, |i| t.b[i]);
    let c = s;
    views(&c, t.len, |i| t.b[i]);
    let c = s.clone();
    views(&c, t.len, |i| t.b[i]);
    witness!(t.len == L, "full");
    witness!(t.len == 0, "empty");
}

pub fn display<S: Api, const L: usize>() {
    let (s, t) = state::<S, L>();
    let mut k = Sink::<L> { b: [0; L], n: 0 };
    let r = write!(k, "{}", s);
    check!(r.is_ok(), "displaying succeeds");
    check!(k.n == t.len, "as many bytes are displayed");
    is_exactly(&k.b[..if k.n <= L { k.n } else { 0 }], t.len, |i| t.b[i]);
    witness!(t.len == L, "full");
}

#[inline(always)]
fn view_mut<S: Api>(s: &mut S, which: u8) -> &mut str {
    match which {
        0 => s.k_as_mut_str(),
        1 => s.k_deref_mut(),
        2 => s.as_mut(),
        _ => s.borrow_mut(),
    }
}

pub fn write<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let old = s;
    let which = nd::u8() & 3;
    let v = view_mut(&mut s, which);
    is_exactly(v.as_bytes(), t.len, |i| t.b[i]);
    let k = nd::usize();
    let c = nd::u8() & 0x7F;
    let hit = k < t.len && t.b[k] < 0x80;
    if hit {
        // Safety: an ASCII byte replaces an ASCII byte
        unsafe { v.as_bytes_mut()[k] = c };
    }
    views(&s, t.len, |i| if hit && i == k { c } else { t.b[i] });
    views(&old, t.len, |i| t.b[i]);
    witness!(hit && c != t.b[k] && which == 0, "written through as_mut_str");
    witness!(hit && c != t.b[k] && which == 1, "written through DerefMut");
    witness!(hit && c != t.b[k] && which == 2, "written through AsMut");
    witness!(hit && c != t.b[k] && which == 3, "written through BorrowMut");
}

/// Mutating the original leaves a copy alone and the other way round.
pub fn copies<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let mut c = if nd::bool() { s } else { s.clone() };
    if nd::bool() {
        s.k_clear();
        views(&c, t.len, |i| t.b[i]);
    } else {
        let _ = c.k_pop();
        views(&s, t.len, |i| t.b[i]);
    }
    witness!(s.k_len() == 0 && t.len > 0, "original cleared");
    witness!(c.k_len() < t.len, "copy shortened");
}

pub fn empty<S: Api>() {
    views(&S::k_new(), 0, |_| 0);
    views(&S::default(), 0, |_| 0);
    witness!(true, "new and default");
}

pub fn big<S: Api, const K: usize>(l: usize) {
    let t = shaped::<K>(l, 0, &[]);
    let mut s = fresh::<S>(prefix(&t, l));
    views(&s, l, |i| t[i]);
    let mut w = 0;
    while w < 4 {
        is_exactly(view_mut(&mut s, w).as_bytes(), l, |i| t[i]);
        w += 1;
    }
    witness!(true, "large");
}

harnesses! {
    q_read_n1 (6) = read::<A<1>, 1>();
    q_read_n4 (8) = read::<A<4>, 4>();
    q_read_n8 (12) = read::<A<8>, 8>();
    q_display_n4 (8) = display::<A<4>, 4>();
    q_write_n4 (8) = write::<A<4>, 4>();
    q_write_n8 (12) = write::<A<8>, 8>();
    q_copies_n4 (8) = copies::<A<4>, 4>();
    q_empty_n4 (4) = { empty::<A<1>>(); empty::<A<255>>(); empty::<Cs>() };
    q_cache_read_n63 (8) = read::<Cs, 4>();
    q_cache_write_n63 (8) = write::<Cs, 4>();
    q_cache_display_n63 (8) = display::<Cs, 3>();
    q_cache_copies_n63 (8) = copies::<Cs, 3>();
    q_big_n255 (12) = { big::<A<255>, 255>(255); big::<A<255>, 255>(200) };
    q_big_cache_n63 (12) = big::<Cs, 63>(63);
    t_read_n24 (30) = read::<A<24>, 24>();
    t_write_n24 (30) = write::<A<24>, 24>();
    t_display_n16 (20) = display::<A<16>, 16>();
}

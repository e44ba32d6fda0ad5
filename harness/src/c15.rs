//! C15 range indexing.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};

/// Symbolic (form, start, end) and the part of a text of `len` bytes it selects:
/// `None` for an end past `usize`, which cannot happen for u8 ends.
#[inline(always)]
fn request(len: usize) -> (u8, u8, u8, usize, usize) {
    let form = nd::u8() % 6;
    let (a, b) = (nd::u8(), nd::u8());
    let (s, e) = selects(form, a, b, len);
    (form, a, b, s, e)
}

#[inline(always)]
fn selects(form: u8, a: u8, b: u8, len: usize) -> (usize, usize) {
    match form {
        0 => (a as usize, b as usize),
        1 => (a as usize, len),
        2 => (0, b as usize),
        3 => (0, len),
        4 => (a as usize, b as usize + 1),
        _ => (0, b as usize + 1),
    }
}

#[inline(always)]
fn valid(t: &[u8], s: usize, e: usize) -> bool {
    s <= e && e <= t.len() && boundary(t, s) && boundary(t, e)
}

#[inline(always)]
fn at<S: Api>(s: &S, form: u8, a: u8, b: u8) -> &str {
    match form {
        0 => &s[a..b],
        1 => &s[a..],
        2 => &s[..b],
        3 => &s[..],
        4 => &s[a..=b],
        _ => &s[..=b],
    }
}

#[inline(always)]
fn at_mut<S: Api>(s: &mut S, form: u8, a: u8, b: u8) -> &mut str {
    match form {
        0 => &mut s[a..b],
        1 => &mut s[a..],
        2 => &mut s[..b],
        3 => &mut s[..],
        4 => &mut s[a..=b],
        _ => &mut s[..=b],
    }
}

#[inline(always)]
fn seen(form: u8, s: usize, e: usize, len: usize) {
    witness!(form == 0 && s > 0 && e < len && s < e, "inner half-open range");
    witness!(form == 1 && s > 0 && s < len, "from");
    witness!(form == 2 && e > 0 && e < len, "to");
    witness!(form == 3 && len > 0, "full");
    witness!(form == 4 && s > 0 && e == len && s < e, "inclusive");
    witness!(form == 5 && e > 0 && e < len, "to inclusive");
}

pub fn shared<S: Api, const L: usize>() {
    let (z, t) = state::<S, L>();
    let (form, a, b, s, e) = request(t.len);
    nd::assume(valid(t.bytes(), s, e));
    let r = at(&z, form, a, b);
    same(r.as_bytes(), &t.bytes()[s..e]);
    seen(form, s, e, t.len);
}

/// Writes one ASCII byte through the returned slice.
pub fn mutable<S: Api, const L: usize>() {
    let (mut z, t) = state::<S, L>();
    let (form, a, b, s, e) = request(t.len);
    nd::assume(valid(t.bytes(), s, e));
    let r = at_mut(&mut z, form, a, b);
    same(r.as_bytes(), &t.bytes()[s..e]);
    let k = nd::usize();
    let c = nd::u8() & 0x7F;
    let write = k < e - s && t.b[s + k] < 0x80;
    if write {
        // Safety: an ASCII byte replaces an ASCII byte
        unsafe { r.as_bytes_mut()[k] = c };
    }
    is_exactly(text(&z), t.len, |i| if write && i == s + k { c } else { t.b[i] });
    seen(form, s, e, t.len);
}

pub fn panics<S: Api, const L: usize>(mutably: bool) {
    let (mut z, t) = state::<S, L>();
    let (form, a, b, s, e) = request(t.len);
    nd::assume(!valid(t.bytes(), s, e));
    witness!(s > e && s <= t.len && boundary(t.bytes(), s) && boundary(t.bytes(), e), "inverted");
    witness!(e == t.len + 1 && s <= e, "one past the end");
    witness!(s <= e && e <= t.len && !boundary(t.bytes(), s), "start inside a character");
    witness!(s <= e && e <= t.len && !boundary(t.bytes(), e), "end inside a character");
    witness!(form == 4 && b == 255, "largest inclusive end");
    if mutably {
        nd::must_panic(|| at_mut(&mut z, form, a, b).len());
    } else {
        nd::must_panic(|| at(&z, form, a, b).len());
    }
}

pub fn big<S: Api, const K: usize>(l: usize, cases: &[(u8, u8, u8)]) {
    let mut k = 0;
    while k < cases.len() {
        let (form, a, b) = cases[k];
        let (s, e) = selects(form, a, b, l);
        let t = shaped::<K>(l, 0, &[s, e]);
        let mut z = fresh::<S>(prefix(&t, l));
        let r = at(&z, form, a, b);
        same(r.as_bytes(), &t[s..e]);
        let r = at_mut(&mut z, form, a, b);
        same(r.as_bytes(), &t[s..e]);
        k += 1;
    }
    witness!(true, "large");
}

pub fn big_panics<S: Api, const K: usize>(l: usize, form: u8, a: u8, b: u8) {
    let (s, e) = selects(form, a, b, l);
    let t = shaped::<K>(l, 0, &[s, e]);
    let mut z = fresh::<S>(prefix(&t, l));
    witness!(true, "large, invalid");
    if nd::bool() {
        nd::must_panic(|| at_mut(&mut z, form, a, b).len());
    } else {
        nd::must_panic(|| at(&z, form, a, b).len());
    }
}

harnesses! {
    q_shared_n4 (8) = shared::<A<4>, 4>();
    q_shared_n8 (12) = shared::<A<8>, 8>();
    q_mut_n4 (8) = mutable::<A<4>, 4>();
    q_mut_n8 (12) = mutable::<A<8>, 8>();
    q_mp_shared_n4 (8) = panics::<A<4>, 4>(false);
    q_mp_mut_n4 (8) = panics::<A<4>, 4>(true);
    q_cache_shared_n63 (8) = shared::<Cs, 4>();
    q_cache_mut_n63 (8) = mutable::<Cs, 4>();
    q_cache_mp_shared_n63 (8) = panics::<Cs, 3>(false);
    q_cache_mp_mut_n63 (8) = panics::<Cs, 3>(true);
    q_big_n255 (12) = big::<A<255>, 255>(255, &[(0, 0, 255), (0, 130, 131), (1, 130, 0), (1, 255, 0), (2, 0, 255), (2, 0, 128 + 3), (3, 0, 0), (4, 0, 254), (4, 250, 254), (5, 0, 254), (5, 0, 125)]);
    q_mp_inclusive_n255 (12) = big_panics::<A<255>, 255>(255, 4, 0, 255);
    q_mp_to_inclusive_n255 (12) = big_panics::<A<255>, 255>(255, 5, 0, 255);
    q_mp_inverted_n255 (12) = big_panics::<A<255>, 255>(255, 0, 141, 140);
    t_shared_n16 (20) = shared::<A<16>, 16>();
    t_mut_n16 (20) = mutable::<A<16>, 16>();
    t_mp_shared_n8 (12) = panics::<A<8>, 8>(false);
    t_mp_mut_n8 (12) = panics::<A<8>, 8>(true);
    t_shared_n32 (36) = shared::<A<32>, 32>();
}

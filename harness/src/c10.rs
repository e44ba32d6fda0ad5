//! C10 drain.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring::Error;

#[inline(always)]
fn judge<S: Api>(r: &Result<S::D, Error>, s: &S, t: &[u8], v: &Verdict) {
    check!(r.is_ok() == v.ok, "succeeds exactly for an ordered range at boundaries inside the string");
    match r {
        Ok(d) => {
            let n = v.end - v.start;
            is_exactly(d.k_str().as_bytes(), n, |i| t[v.start + i]);
            is_exactly(text(s), t.len() - n, |i| if i < v.start { t[i] } else { t[i + n] });
        }
        Err(Error::OutOfBounds) => check!(v.oob, "OutOfBounds only when inverted or past the end"),
        Err(Error::Utf8) => check!(v.utf8, "Utf8 only for an end inside a character"),
        Err(Error::Utf16) => check!(false, "never a UTF-16 error"),
    }
    witness!(r.is_ok() && v.start > 0 && v.end < t.len() && v.start < v.end, "drained from the middle");
    witness!(r.is_ok() && v.start == v.end, "empty range");
    witness!(matches!(r, Err(Error::Utf8)), "inside a character");
    witness!(matches!(r, Err(Error::OutOfBounds)) && v.start > v.end && v.start <= t.len(), "inverted");
}

pub fn drain<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let b = any_bounds();
    let (rs, re) = resolve(b, t.len);
    let v = verdict(t.bytes(), rs, re);
    let r = s.k_drain(b);
    judge(&r, &s, t.bytes(), &v);
}

/// The ordinary range types.
pub fn drain_forms<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let a = nd::usize();
    let b = nd::usize();
    let n = t.len;
    let (r, rs, re) = match nd::u8() % 4 {
        0 => (s.k_drain(a..b), Some(a), Some(b)),
        1 => (s.k_drain(a..), Some(a), Some(n)),
        2 => (s.k_drain(..b), Some(0), Some(b)),
        _ => (s.k_drain(a..=b), Some(a), b.checked_add(1)),
    };
    let v = verdict(t.bytes(), rs, re);
    judge(&r, &s, t.bytes(), &v);
}

pub fn drain_big<S: Api, const K: usize>(cases: &[(usize, usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, a, b) = cases[k];
        let t = shaped::<K>(l, 0, &[a, b]);
        let mut s = fresh::<S>(prefix(&t, l));
        let r = if k % 2 == 0 { s.k_drain(a..b) } else { s.k_drain((core::ops::Bound::Included(a), core::ops::Bound::Excluded(b))) };
        let v = verdict(&t[..l], Some(a), Some(b));
        judge(&r, &s, &t[..l], &v);
        k += 1;
    }
}

/// One step from either end of a draining iterator over `t[lo..hi]`.
#[inline(always)]
fn step<D: DrainApi>(d: &mut D, t: &[u8], lo: &mut usize, hi: &mut usize, front: bool) {
    let r = if front { d.next() } else { d.next_back() };
    check!(r.is_none() == (lo == hi), "None exactly when everything has been yielded");
    if let Some(c) = r {
        if front {
            let (v, w) = dec(&t[..*hi], *lo);
            check!(c as u32 == v, "the first remaining character is yielded");
            *lo += w;
        } else {
            let p = *lo + last_start(&t[*lo..*hi]);
            check!(c as u32 == dec(&t[..*hi], p).0, "the last remaining character is yielded");
            *hi = p;
        }
    }
    let (l, n) = (*lo, *hi - *lo);
    is_exactly(d.k_str().as_bytes(), n, |i| t[l + i]);
}

#[inline(always)]
fn whole<S: Api, const L: usize>() -> (S::D, Text<L>) {
    let t = Text::<L>::any();
    let mut s = fresh::<S>(t.as_str());
    let d = match s.k_drain(..) {
        Ok(d) => d,
        Err(_) => {
            nd::assume(false);
            S::D::default()
        }
    };
    nd::assume(d.k_str().len() == t.len);
    (d, t)
}

pub fn iterate<S: Api, const L: usize>(steps: usize) {
    let (mut d, t) = whole::<S, L>();
    let (mut lo, mut hi) = (0, t.len);
    let (mut fronts, mut backs) = (0, 0);
    let mut i = 0;
    while i < steps {
        let f = nd::bool();
        if f {
            fronts += 1;
        } else {
            backs += 1;
        }
        step(&mut d, &t.b, &mut lo, &mut hi, f);
        i += 1;
    }
    witness!(lo > 0 && hi < t.len, "both ends");
    witness!(lo == hi && t.len == L && fronts > 0 && backs > 0, "all yielded from both ends");
    witness!(t.len < 2 && steps > 2, "asked again after the end");
}

/// Size hints bracket the real count, and the provided methods agree with it.
pub fn provided<S: Api, const L: usize>(which: u8) {
    let (mut d, t) = whole::<S, L>();
    let mut n = 0;
    let mut starts = [0usize; L];
    let mut i = 0;
    while i < L {
        if i < t.len && !is_cont(t.b[i]) {
            starts[n] = i;
            n += 1;
        }
        i += 1;
    }
    let at = |k: usize| if k < n { Some(dec(t.bytes(), starts[k]).0) } else { None };
    match which {
        0 => {
            let (lo, hi) = d.size_hint();
            check!(lo <= n, "lower size hint is a lower bound");
            check!(hi.map_or(true, |h| h >= n), "upper size hint is an upper bound");
        }
        1 => check!(d.count() == n, "count is the number of characters"),
        2 => {
            let l = d.last().map(|c| c as u32);
            check!(l == if n == 0 { None } else { at(n - 1) }, "last is the last character");
        }
        3 => {
            let k = nd::upto(L);
            let r = d.nth(k).map(|c| c as u32);
            check!(r == at(k), "nth is the nth character");
            let r = d.next().map(|c| c as u32);
            check!(r == at(if k < n { k + 1 } else { n }), "nth consumed what it skipped");
        }
        4 => {
            let k = nd::upto(L);
            let r = d.nth_back(k).map(|c| c as u32);
            check!(r == if k < n { at(n - 1 - k) } else { None }, "nth_back counts from the end");
        }
        5 => {
            let mut k = 0;
            d.for_each(|c| {
                check!(Some(c as u32) == at(k), "for_each goes in order");
                k += 1;
            });
            check!(k == n, "for_each visits all");
        }
        _ => {
            let mut k = n;
            d.rev().for_each(|c| {
                check!(k > 0 && Some(c as u32) == at(k - 1), "rev goes in reverse order");
                k -= 1;
            });
            check!(k == 0, "rev visits all");
        }
    }
    witness!(n == L, "all one byte wide");
    witness!(n == 1 && t.len == L, "one wide character");
}

/// Yields everything from one end at a large capacity.
pub fn iterate_big<S: Api, const K: usize>(l: usize, steps: usize) {
    let t = pattern::<K>(l);
    let mut s = fresh::<S>(prefix(&t, l));
    if let Ok(mut d) = s.k_drain(..) {
        let (mut lo, mut hi) = (0, l);
        let mut i = 0;
        while i < steps {
            step(&mut d, &t, &mut lo, &mut hi, i % 3 != 1);
            i += 1;
        }
        witness!(lo > 0 && hi < l, "both ends");
    } else {
        check!(false, "the full range can be drained");
    }
}

harnesses! {
    q_drain_n4 (8) = drain::<A<4>, 4>();
    q_drain_n8 (12) = drain::<A<8>, 8>();
    q_forms_n4 (8) = drain_forms::<A<4>, 4>();
    q_drain_n255 (260) = drain_big::<A<255>, 255>(&[(255, 0, 255), (255, 10, 141), (255, 255, 255), (255, 0, 256), (255, 12, 20), (255, 20, 12), (200, 3, 131)]);
    q_cache_n63 (70) = { drain_big::<Cs, 63>(&[(63, 0, 63), (63, 10, 31), (63, 12, 63), (63, 63, 64)]); };
    q_iterate_n3 (5) = iterate::<A<3>, 3>(4);
    q_iterate_n4 (6) = iterate::<A<4>, 4>(3);
    q_iterate_n255 (260) = iterate_big::<A<255>, 255>(255, 4);
    q_hint_n4 (7) = provided::<A<4>, 4>(0);
    q_count_n2 (4) = provided::<A<2>, 2>(1);
    q_last_n2 (4) = provided::<A<2>, 2>(2);
    q_nth_n2 (4) = provided::<A<2>, 2>(3);
    q_nth_back_n3 (5) = provided::<A<3>, 3>(4);
    q_each_n2 (4) = provided::<A<2>, 2>(5);
    q_rev_n3 (5) = provided::<A<3>, 3>(6);
    t_drain_n16 (20) = drain::<A<16>, 16>();
    t_drain_n24 (30) = drain::<A<24>, 24>();
    t_iterate_n5 (8) = iterate::<A<5>, 5>(6);
    t_iterate_n8 (12) = iterate::<A<8>, 8>(4);
    t_count_n4 (7) = provided::<A<4>, 4>(1);
    t_nth_n4 (7) = provided::<A<4>, 4>(3);
    t_each_n4 (7) = provided::<A<4>, 4>(5);
    t_rev_n4 (7) = provided::<A<4>, 4>(6);
    t_drain_all_n255 (260) = drain_big::<A<255>, 255>(&[(255, 1, 3), (255, 126, 131), (255, 128, 130), (255, 250, 255), (255, 254, 255), (255, 256, 256), (255, 300, 400), (129, 128, 129), (0, 0, 0), (0, 0, 1), (0, 1, 1)]);
}

//! C18 nothing allocates. The encoding is linked with ../no_heap.c.
use crate::api::*;
use crate::c14::Rec;
use crate::c20::{perform, Args};
use crate::common::*;
use crate::heap::quiet;
use crate::nd;
use crate::text::*;
use crate::{harnesses, witness};
use core::cmp::Ordering;
use core::fmt::Write;
use core::ops::Bound;

/// Symbolic content and arguments.
pub fn small<S: Api, const K: usize, const M: usize>(ops: &[u8]) {
    let (s, t) = state::<S, K>();
    let u = Text::<M>::any();
    let w = Text::<1>::any();
    let x = [nd::u16(), nd::u16()];
    let a = Args { u: u.as_str(), w: w.as_str(), i: nd::usize(), b: any_bounds(), c: nd::char(), d: nd::char(), x: &x };
    let mut k = 0;
    while k < ops.len() {
        let _ = quiet(|| perform(ops[k], s, &a));
        k += 1;
    }
    witness!(t.len > 0 && u.len > 0, "non-empty");
}

/// Concrete shapes at the large capacities: a limit above which something is
/// moved to the heap would lie in between.
pub fn large<S: Api, const K: usize, const M: usize>(ops: &[u8], cases: &[(usize, usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, m, i) = cases[k];
        let t = shaped::<K>(l, 0, &[0, i, i + 10]);
        let u = shaped::<M>(m, 3, &[0, S::CAP - l, S::CAP]);
        let mut x = [b'x' as u16; 64];
        x[1] = 0xE9;
        x[2] = 0xD83E;
        x[3] = 0xDD14;
        let a = Args {
            u: prefix(&u, m),
            w: "\u{20ac}",
            i,
            b: (Bound::Included(i), Bound::Excluded(i + 10)),
            c: '\u{20ac}',
            d: '\u{e9}',
            x: &x[..m.min(64)],
        };
        let mut j = 0;
        while j < ops.len() {
            let s = fresh::<S>(prefix(&t, l));
            let _ = quiet(|| perform(ops[j], s, &a));
            j += 1;
        }
        k += 1;
    }
    witness!(true, "completed");
}

/// Views, comparison with str, hashing, indexing, draining.
pub fn rest<S: Api, const K: usize>() {
    let (mut s, t) = state::<S, K>();
    let u = Text::<2>::any();
    quiet(|| {
        let _ = Rec::of(&s);
        let r = s;
        let _ = (r == s, s == *u.as_str(), s == u.as_str());
        let _ = (s.k_as_str().len(), s.k_as_mut_str().len(), s.k_deref().len(), s.k_deref_mut().len());
        let _ = (s[..].len(), (&mut s[..]).len());
        if let Ok(mut d) = s.k_drain(any_bounds()) {
            let _ = d.next();
            let e = d;
            let _ = d.next_back();
            let _ = (d == e, Ord::cmp(&d, &e) == Ordering::Less, d.k_str().len());
            let _ = Rec::of(&d);
        }
    });
    witness!(t.len == K, "full");
}

/// The errors: conversion, comparison, hashing, printing into a fixed buffer.
pub fn errors() {
    use arraystring::prelude::*;
    use arraystring::Error;
    quiet(|| {
        let e = match nd::u8() % 3 {
            0 => Error::from(Utf8),
            1 => Error::from(Utf16),
            _ => Error::from(OutOfBounds),
        };
        let _ = e == Error::Utf8;
        let _ = Rec::of(&e);
        let mut o = A::<32>::new();
        let _ = write!(o, "{}", e);
        let _ = write!(o, "{:?}", e);
        let _ = write!(o, "{}", Utf8);
        let _ = write!(o, "{}", Utf16);
        let _ = write!(o, "{}", OutOfBounds);
    });
    witness!(true, "printed");
}

harnesses! {
    q_build_n3 (8) = small::<A<3>, 1, 5>(&[0, 1, 9, 10]);
    q_from_iter_n2 (6) = small::<A<2>, 1, 2>(&[2, 3, 12]);
    q_from_chars_n2 (5) = small::<A<2>, 1, 1>(&[4, 5, 11]);
    q_utf16_n3 (5) = small::<A<3>, 1, 1>(&[7, 8]);
    q_utf16_strict_n3 (5) = small::<A<3>, 1, 1>(&[6]);
    q_append_n4 (8) = small::<A<4>, 4, 5>(&[13, 14, 15, 28, 32, 33]);
    q_extend_n2 (5) = small::<A<2>, 2, 1>(&[29, 30, 31]);
    q_cut_n4 (8) = small::<A<4>, 4, 1>(&[16, 17, 24, 25]);
    q_trim_n4 (8) = small::<A<4>, 4, 1>(&[18]);
    q_remove_n3 (8) = small::<A<3>, 3, 1>(&[19]);
    q_retain_n2 (5) = small::<A<2>, 2, 1>(&[20]);
    q_insert_n4 (8) = small::<A<4>, 4, 5>(&[21, 22, 23]);
    q_range_n4 (8) = small::<A<4>, 4, 5>(&[26, 27]);
    q_views_n4 (8) = small::<A<4>, 4, 3>(&[34, 35, 36, 37, 38, 39, 40]);
    q_rest_n3 (8) = rest::<A<3>, 3>();
    q_errors_n32 (30) = errors();
    q_cache_build_n63 (8) = small::<Cs, 1, 2>(&[0, 1, 9, 10]);
    q_cache_append_n63 (8) = small::<Cs, 2, 2>(&[13, 14, 15, 28]);
    q_cache_range_n63 (8) = small::<Cs, 2, 1>(&[25, 26, 27]);
    q_cache_large_n63 (70) = large::<Cs, 63, 70>(&[0, 1, 9, 10, 13, 14, 15, 16, 17, 19, 21, 22, 23, 25, 26, 27, 28, 34, 36], &[(63, 1, 30), (40, 24, 20)]);
    q_append_n255 (12) = large::<A<255>, 255, 300>(&[0, 1, 9, 10, 13, 14, 15, 28, 32, 33], &[(255, 1, 30), (200, 56, 30), (0, 256, 0)]);
    q_insert_n255 (12) = large::<A<255>, 255, 300>(&[19, 21, 22, 23, 25, 26, 27], &[(255, 1, 30), (200, 55, 130)]);
    q_cut_n255 (12) = large::<A<255>, 255, 300>(&[16, 17, 24, 34, 36, 39, 40], &[(255, 1, 254), (200, 60, 130)]);
    t_append_n8 (14) = small::<A<8>, 8, 9>(&[13, 14, 15, 28, 32, 33]);
    t_insert_n8 (14) = small::<A<8>, 8, 9>(&[22, 23]);
    t_range_n8 (14) = small::<A<8>, 8, 9>(&[26, 27]);
    t_retain_n4 (7) = small::<A<4>, 4, 1>(&[20]);
    t_trim_n6 (10) = small::<A<6>, 6, 1>(&[18]);
    t_remove_n6 (10) = small::<A<6>, 6, 1>(&[19]);
}

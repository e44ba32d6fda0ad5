//! C17 nothing but indexing panics or hangs. Encoded with debug assertions and
//! overflow checks on; every panic, arithmetic overflow, failed internal assertion
//! and non-terminating loop is a failed assertion of the encoding itself.
use crate::api::*;
use crate::c20::{perform, Args};
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};

/// Symbolic content and arguments.
pub fn calm<S: Api, const K: usize, const M: usize>(ops: &[u8]) {
    let (s, t) = state::<S, K>();
    let u = Text::<M>::any();
    let w = Text::<1>::any();
    let x = [nd::u16(), nd::u16()];
    let a = Args { u: u.as_str(), w: w.as_str(), i: nd::usize(), b: any_bounds(), c: nd::char(), d: nd::char(), x: &x };
    let mut k = 0;
    while k < ops.len() {
        let _ = perform(ops[k], s, &a);
        k += 1;
    }
    witness!(t.len > 0 && u.len > 0, "non-empty");
}

/// Concrete shape at a large capacity; the bytes away from the cuts are symbolic.
pub fn calm_big<S: Api, const K: usize, const M: usize>(ops: &[u8], cases: &[(usize, usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, m, i) = cases[k];
        let t = shaped::<K>(l, 0, &[0, i, i + 10]);
        let u = shaped::<M>(m, 3, &[0, S::CAP - l, S::CAP]);
        let mut x = [b'x' as u16; 64];
        x[1] = 0xE9;
        x[2] = 0xD83E;
        x[3] = 0xDD14;
        let a = Args {
            u: prefix(&u, m),
            w: "\u{20ac}",
            i,
            b: (core::ops::Bound::Included(i), core::ops::Bound::Excluded(i + 10)),
            c: '\u{20ac}',
            d: '\u{e9}',
            x: &x[..m.min(64)],
        };
        let mut j = 0;
        while j < ops.len() {
            let _ = perform(ops[j], fresh::<S>(prefix(&t, l)), &a);
            j += 1;
        }
        k += 1;
    }
    witness!(true, "completed");
}

/// Draining iterators, asked more often than they can answer.
pub fn drained<S: Api, const K: usize>(steps: usize) {
    let (mut s, t) = state::<S, K>();
    if let Ok(mut d) = s.k_drain(any_bounds()) {
        let mut k = 0;
        while k < steps {
            let _ = if nd::bool() { d.next() } else { d.next_back() };
            k += 1;
        }
        let _ = (d.k_str().len(), d == d, Ord::cmp(&d, &d), d.size_hint());
        witness!(t.len == K, "drained");
    }
}

/// Endless iterators of non-empty items, for everything that truncates.
pub fn endless<S: Api, const K: usize>(form: u8) {
    let (mut s, t) = state::<S, K>();
    let u = Text::<2>::any();
    nd::assume(u.len > 0);
    let c = nd::char();
    let u = u.as_str();
    match form {
        0 => s = S::k_from_iterator_truncate(core::iter::repeat(u)),
        1 => s = S::k_from_chars_truncate(core::iter::repeat(c)),
        2 => s = core::iter::repeat(u).collect(),
        3 => s = core::iter::repeat(c).collect(),
        4 => s.extend(core::iter::repeat(u)),
        5 => s.extend(core::iter::repeat(c)),
        _ => s.extend(core::iter::repeat(&c)),
    }
    witness!(t.len > 0 && s.k_len() == S::CAP, "filled");
}

/// The same at a large capacity, with items that fill it in a few steps.
pub fn endless_big<S: Api, const M: usize>(m: usize) {
    let b = shaped::<M>(m, 2, &[S::CAP % m]);
    let u = prefix(&b, m);
    let s = S::k_from_iterator_truncate(core::iter::repeat(u));
    let s: S = core::iter::repeat(u).collect();
    let mut s = fresh::<S>(u);
    s.extend(core::iter::repeat(u));
    witness!(true, "completed");
}

/// The errors' own operations.
pub fn errors() {
    use arraystring::prelude::*;
    use arraystring::Error;
    use core::fmt::Write;
    let e = match nd::u8() % 3 {
        0 => Error::from(Utf8),
        1 => Error::from(Utf16),
        _ => Error::from(OutOfBounds),
    };
    let mut o = A::<32>::new();
    let _ = write!(o, "{}{:?}", e, e);
    let _ = e == e;
    let _ = write!(o, "{}{:?}{}{:?}", Utf8, Utf16, OutOfBounds, Utf8);
    witness!(true, "printed");
}

/// Replaces `core::str::from_utf8` (called by the crate's debug assertions on every
/// view): the same verdict from an automaton of fixed stride, which the solver
/// handles far better than core's word-at-a-time loop.
pub fn from_utf8(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    check!(v.len() <= 8, "within the bound of this encoding");
    if utf8_slice::<8>(v) {
        // Safety: just checked
        Ok(unsafe { core::str::from_utf8_unchecked(v) })
    } else {
        // Safety: an integer and an Option<u8>; only its presence is looked at
        Err(unsafe { core::mem::zeroed() })
    }
}

macro_rules! checked {
    (small { $($d:ident ($du:literal) = $db:expr;)* } big { $($e:ident ($eu:literal) = $eb:expr;)* }) => {
        harnesses! {
            $(
                #[kani::stub(core::str::from_utf8, crate::c17::from_utf8)]
                $d ($du) = $db;
            )*
            $(
                #[kani::stub(core::str::from_utf8, crate::c17::unverified)]
                $e ($eu) = $eb;
            )*
        }
    };
}

/// The same without a verdict, for the large capacities (their validity is C01's).
pub fn unverified(v: &[u8]) -> Result<&str, core::str::Utf8Error> {
    // Safety: as the crate's own
    Ok(unsafe { core::str::from_utf8_unchecked(v) })
}

checked! {
    small {
        q_build_n3 (8) = calm::<A<3>, 1, 5>(&[0, 1, 9, 10]);
        q_from_iter_n2 (6) = calm::<A<2>, 1, 2>(&[2, 3, 12]);
        q_from_chars_n2 (5) = calm::<A<2>, 1, 1>(&[4, 5, 11]);
        q_utf16_strict_n3 (5) = calm::<A<3>, 1, 1>(&[6]);
        q_utf16_truncate_n3 (5) = calm::<A<3>, 1, 1>(&[7]);
        q_utf16_lossy_n3 (5) = calm::<A<3>, 1, 1>(&[8]);
        q_append_n4 (8) = calm::<A<4>, 4, 5>(&[13, 14, 28]);
        q_char_n4 (8) = calm::<A<4>, 4, 1>(&[15, 33]);
        q_write_n4 (8) = calm::<A<4>, 4, 5>(&[32, 35]);
        q_extend_n2 (5) = calm::<A<2>, 2, 1>(&[29, 30]);
        q_extend_strs_n2 (6) = calm::<A<2>, 2, 2>(&[31]);
        q_cut_n4 (8) = calm::<A<4>, 4, 1>(&[16, 17, 24, 25]);
        q_trim_n4 (8) = calm::<A<4>, 4, 1>(&[18]);
        q_remove_n4 (8) = calm::<A<4>, 4, 1>(&[19]);
        q_retain_n2 (4) = calm::<A<2>, 2, 1>(&[20]);
        q_insert_char_n4 (8) = calm::<A<4>, 4, 1>(&[21]);
        q_insert_n4 (8) = calm::<A<4>, 4, 5>(&[22, 23]);
        q_range_n4 (8) = calm::<A<4>, 4, 5>(&[26, 27]);
        q_views_n4 (8) = calm::<A<4>, 4, 3>(&[34, 36, 37, 38, 39, 40]);
        q_drained_n2 (4) = drained::<A<2>, 2>(3);
        t_drained_n3 (6) = drained::<A<3>, 3>(4);
        q_endless_strs_n3 (6) = endless::<A<3>, 1>(0);
        q_endless_chars_n3 (6) = endless::<A<3>, 1>(1);
        q_endless_collect_n3 (6) = endless::<A<3>, 1>(2);
        q_endless_collect_chars_n3 (6) = endless::<A<3>, 1>(3);
        q_endless_extend_n3 (6) = endless::<A<3>, 3>(4);
        q_endless_extend_chars_n2 (6) = endless::<A<2>, 2>(5);
        q_endless_extend_refs_n2 (6) = endless::<A<2>, 2>(6);
        t_append_n8 (14) = calm::<A<8>, 8, 8>(&[13, 14, 28]);
        t_insert_n8 (14) = calm::<A<8>, 8, 8>(&[22, 23]);
        t_range_n8 (14) = calm::<A<8>, 8, 8>(&[26, 27]);
        t_cut_n8 (14) = calm::<A<8>, 8, 1>(&[16, 17, 24, 25]);
        t_trim_n6 (10) = calm::<A<6>, 6, 1>(&[18]);
        t_remove_n8 (14) = calm::<A<8>, 8, 1>(&[19]);
        t_retain_n4 (7) = calm::<A<4>, 4, 1>(&[20]);
        t_drained_n5 (8) = drained::<A<5>, 5>(6);
    }
    big {
        q_errors_n32 (30) = errors();
        q_endless_big_n255 (12) = endless_big::<A<255>, 100>(100);
        q_endless_cache_n63 (12) = endless_big::<Cs, 20>(20);
        q_append_n255 (12) = calm_big::<A<255>, 255, 300>(&[0, 1, 13, 14, 15, 28, 32, 33], &[(255, 1, 30), (200, 60, 30), (0, 256, 0), (128, 127, 0)]);
        q_insert_n255 (12) = calm_big::<A<255>, 255, 300>(&[19, 21, 22, 23, 25, 26, 27], &[(255, 1, 30), (200, 60, 130), (128, 128, 64), (250, 5, 245)]);
        q_cut_n255 (12) = calm_big::<A<255>, 255, 300>(&[16, 17, 24, 34, 36, 39, 40], &[(255, 1, 254), (200, 60, 130), (128, 128, 127)]);
        q_cache_n63 (12) = calm_big::<Cs, 63, 70>(&[0, 1, 13, 14, 15, 16, 17, 19, 21, 22, 23, 25, 26, 27, 28], &[(63, 1, 30), (40, 24, 20)]);
    }
}

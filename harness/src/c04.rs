//! C04 UTF-16.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring::Error;

/// What UTF-16 prescribes for the first `n` of `K` units: the lossy decoding as
/// bytes (`B` is at least 3 * K), and where the first unpaired surrogate is.
pub struct Utf16Ref<const B: usize> {
    pub b: [u8; B],
    pub len: usize,
    /// Decoded length before the first unpaired surrogate, if there is one.
    pub bad: Option<usize>,
}

#[inline(always)]
pub fn decode<const K: usize, const B: usize>(u: &[u16; K], n: usize) -> Utf16Ref<B> {
    let mut r = Utf16Ref { b: [0; B], len: 0, bad: None };
    let mut skip = false;
    let mut i = 0;
    while i < K {
        if i < n {
            if skip {
                skip = false;
            } else {
                let x = u[i];
                let hi = x & 0xFC00 == 0xD800;
                let lo = x & 0xFC00 == 0xDC00;
                let pair = hi && i + 1 < n && u[i + 1] & 0xFC00 == 0xDC00;
                let v = if pair {
                    skip = true;
                    0x10000 + (((x & 0x3FF) as u32) << 10 | (u[i + 1] & 0x3FF) as u32)
                } else if hi || lo {
                    if r.bad.is_none() {
                        r.bad = Some(r.len);
                    }
                    0xFFFD
                } else {
                    x as u32
                };
                // Safety: not a surrogate, at most 10FFFF
                let (e, w) = enc(unsafe { char::from_u32_unchecked(v) });
                let mut k = 0;
                while k < 4 {
                    if k < w && r.len + k < B {
                        r.b[r.len + k] = e[k];
                    }
                    k += 1;
                }
                r.len += w;
            }
        }
        i += 1;
    }
    r
}

#[inline(always)]
fn units<const K: usize>(all: bool) -> ([u16; K], usize) {
    let mut u = [0u16; K];
    let mut i = 0;
    while i < K {
        u[i] = nd::u16();
        i += 1;
    }
    (u, if all { K } else { nd::upto(K) })
}

pub fn strict<S: Api, const K: usize, const B: usize>() {
    let (u, n) = units::<K>(false);
    let want = decode::<K, B>(&u, n);
    let r = S::k_try_from_utf16(&u[..n]);
    check!(r.is_ok() == (want.bad.is_none() && want.len <= S::CAP), "succeeds exactly on valid data that fits");
    match &r {
        Ok(s) => is_exactly(text(s), want.len, |i| want.b[i]),
        Err(Error::Utf16) => check!(want.bad.is_some(), "Utf16 only for invalid data"),
        Err(Error::OutOfBounds) => check!(want.len > S::CAP, "OutOfBounds only for text that does not fit"),
        Err(Error::Utf8) => check!(false, "never a UTF-8 error"),
    }
    witness!(r.is_ok() && n >= 2 && u[0] & 0xFC00 == 0xD800, "decodes a surrogate pair");
    witness!(r == Err(Error::Utf16), "unpaired surrogate");
    witness!(r == Err(Error::OutOfBounds), "too long");
}

pub fn truncating<S: Api, const K: usize, const B: usize>() {
    let (u, n) = units::<K>(false);
    let want = decode::<K, B>(&u, n);
    let r = S::k_from_utf16_truncate(&u[..n]);
    let keep = fit(want.len, S::CAP, |i| want.b[i]);
    match want.bad {
        None => check!(r.is_ok(), "valid data is accepted"),
        // met while the text so far leaves room
        Some(p) if p < S::CAP => check!(r.is_err() || p > keep, "invalid data is reported"),
        // whether data behind the cut is inspected is left open
        Some(_) => {}
    }
    if let Ok(s) = &r {
        is_exactly(text(s), keep, |i| want.b[i]);
    }
    witness!(r.is_err(), "invalid");
    witness!(r.is_ok() && want.len > S::CAP, "cut");
}

pub fn lossy<S: Api, const K: usize, const B: usize>() {
    let (u, n) = units::<K>(false);
    let want = decode::<K, B>(&u, n);
    let s = S::k_from_utf16_lossy_truncate(&u[..n]);
    let keep = fit(want.len, S::CAP, |i| want.b[i]);
    is_exactly(text(&s), keep, |i| want.b[i]);
    witness!(want.bad.is_some() && want.len <= S::CAP, "replacement");
    witness!(want.len > S::CAP, "cut");
}

/// The large capacities: `lead` characters of four bytes, then `tail` (concrete,
/// so that the lengths are), through the three constructors.
pub fn large<S: Api, const K: usize, const B: usize>(lead: usize, tail: &[u16], which: u8) {
    let mut u = [0xDD14u16; K];
    let mut i = 0;
    while i < lead {
        u[2 * i] = 0xD83E;
        i += 1;
    }
    i = 0;
    while i < tail.len() {
        u[2 * lead + i] = tail[i];
        i += 1;
    }
    let n = 2 * lead + tail.len();
    let want = decode::<K, B>(&u, n);
    let keep = fit(want.len, S::CAP, |i| want.b[i]);
    match which {
        0 => {
            let r = S::k_try_from_utf16(&u[..n]);
            check!(r.is_ok() == (want.bad.is_none() && want.len <= S::CAP), "succeeds exactly on valid data that fits");
            if let Ok(s) = &r {
                is_exactly(text(s), want.len, |i| want.b[i]);
            }
            check!(r != Err(Error::Utf8), "never a UTF-8 error");
            check!(r != Err(Error::Utf16) || want.bad.is_some(), "Utf16 only for invalid data");
            check!(r != Err(Error::OutOfBounds) || want.len > S::CAP, "OutOfBounds only for text that does not fit");
        }
        1 => {
            let r = S::k_from_utf16_truncate(&u[..n]);
            match want.bad {
                None => check!(r.is_ok(), "valid data is accepted"),
                Some(p) if p < S::CAP => check!(r.is_err() || p > keep, "invalid data is reported"),
                Some(_) => {}
            }
            if let Ok(s) = &r {
                is_exactly(text(s), keep, |i| want.b[i]);
            }
        }
        _ => {
            let s = S::k_from_utf16_lossy_truncate(&u[..n]);
            is_exactly(text(&s), keep, |i| want.b[i]);
        }
    }
    witness!(n > 30, "large");
}

/// 1 + 3 + 2 bytes, an unpaired surrogate, three of one byte.
const WIDE: [u16; 3] = [b'y' as u16, 0x20AC, 0xE9];
const LONE: [u16; 3] = [b'y' as u16, 0xDD14, b'z' as u16];
const THIN: [u16; 3] = [b'x' as u16, b'y' as u16, b'z' as u16];

harnesses! {
    q_big_strict_n255 (12) = large::<A<255>, 140, 280>(63, &THIN, 0);
    q_big_strict_b_n255 (12) = large::<A<255>, 140, 280>(64, &[], 0);
    q_big_truncate_n255 (12) = large::<A<255>, 140, 280>(63, &WIDE, 1);
    q_big_lossy_n255 (12) = large::<A<255>, 140, 280>(62, &LONE, 2);
    q_cache_strict_b_n63 (12) = { large::<Cs, 40, 70>(15, &THIN, 0); large::<Cs, 40, 70>(16, &[], 0) };
    q_cache_truncate_b_n63 (12) = { large::<Cs, 40, 70>(15, &WIDE, 1); large::<Cs, 40, 70>(15, &LONE, 1) };
    q_cache_lossy_b_n63 (12) = { large::<Cs, 40, 70>(15, &WIDE, 2); large::<Cs, 40, 70>(14, &LONE, 2) };
    t_big_truncate_b_n255 (12) = { large::<A<255>, 140, 280>(63, &LONE, 1); large::<A<255>, 140, 280>(65, &[], 1) };
    t_big_lossy_b_n255 (12) = { large::<A<255>, 140, 280>(63, &WIDE, 2); large::<A<255>, 140, 280>(65, &[], 2) };
    t_big_strict_c_n255 (12) = { large::<A<255>, 280, 530>(130, &[], 0); large::<A<255>, 140, 280>(63, &WIDE, 0) };
    q_strict_n4 (5) = strict::<A<4>, 3, 9>();
    q_strict_n8 (5) = strict::<A<8>, 3, 9>();
    q_truncate_n4 (5) = truncating::<A<4>, 3, 9>();
    q_truncate_n5 (5) = truncating::<A<5>, 3, 9>();
    q_lossy_n4 (5) = lossy::<A<4>, 3, 9>();
    q_lossy_n7 (5) = lossy::<A<7>, 3, 9>();
    q_cache_strict_n63 (5) = strict::<Cs, 2, 6>();
    q_cache_truncate_n63 (5) = truncating::<Cs, 2, 6>();
    q_cache_lossy_n63 (5) = lossy::<Cs, 2, 6>();
    t_strict_n10 (6) = strict::<A<10>, 4, 12>();
    t_truncate_n8 (6) = truncating::<A<8>, 4, 12>();
    t_lossy_n8 (6) = lossy::<A<8>, 4, 12>();
    t_strict_n16 (8) = strict::<A<16>, 6, 18>();
    t_truncate_n12 (8) = truncating::<A<12>, 5, 15>();
    t_lossy_n12 (8) = lossy::<A<12>, 5, 15>();
}

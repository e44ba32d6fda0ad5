//! C11 replace_range.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring::Error;

#[inline(always)]
fn judge<S: Api>(r: Result<(), Error>, s: &S, t: &[u8], v: &Verdict, m: usize, u: impl Fn(usize) -> u8) {
    // only meaningful for an ordered range inside the string
    let gap = if v.oob { 0 } else { v.end - v.start };
    let fits = t.len() - gap + m <= S::CAP;
    check!(r.is_ok() == (v.ok && fits), "succeeds exactly for an ordered range at boundaries inside the string when the result fits");
    match r {
        Ok(()) => is_exactly(text(s), t.len() - gap + m, |i| {
            if i < v.start {
                t[i]
            } else if i - v.start < m {
                u(i - v.start)
            } else {
                t[i - m + gap]
            }
        }),
        Err(Error::OutOfBounds) => check!(v.oob || !fits, "OutOfBounds only when inverted, past the end or too long"),
        Err(Error::Utf8) => check!(v.utf8, "Utf8 only for an end inside a character"),
        Err(Error::Utf16) => check!(false, "never a UTF-16 error"),
    }
    witness!(r.is_ok() && v.start > 0 && v.end < t.len() && gap > m && m > 0, "shrunk in the middle");
    witness!(r.is_ok() && v.end < t.len() && gap > 0 && gap < m, "grown in the middle");
    witness!(r == Err(Error::Utf8) && m == 0 && v.start == v.end, "nothing by nothing inside a character");
    witness!(r == Err(Error::OutOfBounds) && v.start == v.end && m == 0, "nothing by nothing past the end");
    witness!(r == Err(Error::OutOfBounds) && v.ok, "too long");
}

pub fn replace<S: Api, const L: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    let b = any_bounds();
    let (rs, re) = resolve(b, t.len);
    let v = verdict(t.bytes(), rs, re);
    let r = s.k_replace_range(b, u.as_str());
    judge(r, &s, t.bytes(), &v, u.len, |i| u.b[i]);
}

/// The ordinary range types.
pub fn forms<S: Api, const L: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    let a = nd::usize();
    let b = nd::usize();
    let n = t.len;
    let w = u.as_str();
    let (r, rs, re) = match nd::u8() % 6 {
        0 => (s.k_replace_range(a..b, w), Some(a), Some(b)),
        1 => (s.k_replace_range(a.., w), Some(a), Some(n)),
        2 => (s.k_replace_range(..b, w), Some(0), Some(b)),
        3 => (s.k_replace_range(a..=b, w), Some(a), b.checked_add(1)),
        4 => (s.k_replace_range(..=b, w), Some(0), b.checked_add(1)),
        _ => (s.k_replace_range(.., w), Some(0), Some(n)),
    };
    let v = verdict(t.bytes(), rs, re);
    judge(r, &s, t.bytes(), &v, u.len, |i| u.b[i]);
}

/// (content length, start, end, replacement length)
pub fn replace_big<S: Api, const K: usize, const M: usize>(cases: &[(usize, usize, usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, a, b, m) = cases[k];
        let t = shaped::<K>(l, 0, &[a, b]);
        let u = shaped::<M>(m, 3, &[]);
        let mut s = fresh::<S>(prefix(&t, l));
        let r = s.k_replace_range(a..b, prefix(&u, m));
        let v = verdict(&t[..l], Some(a), Some(b));
        judge(r, &s, &t[..l], &v, m, |i| u[i]);
        k += 1;
    }
}

harnesses! {
    q_replace_n1 (6) = replace::<A<1>, 1, 2>();
    q_replace_n4 (8) = replace::<A<4>, 4, 5>();
    q_replace_n8 (14) = replace::<A<8>, 8, 4>();
    q_forms_n4 (8) = forms::<A<4>, 4, 3>();
    q_replace_n255 (530) = replace_big::<A<255>, 255, 260>(&[(255, 10, 141, 131), (255, 10, 141, 132), (255, 10, 130, 3), (250, 3, 6, 8), (250, 3, 6, 9), (255, 0, 255, 255), (255, 0, 255, 256), (200, 200, 200, 55), (255, 254, 256, 1)]);
    q_wide_n255 (530) = replace_big::<A<255>, 255, 520>(&[(10, 1, 3, 256), (0, 0, 0, 512), (255, 12, 20, 0), (255, 20, 10, 0), (255, 2, 2, 0), (255, 256, 256, 0)]);
    q_cache_n63 (70) = replace_big::<Cs, 63, 66>(&[(63, 10, 31, 21), (63, 10, 31, 22), (63, 10, 31, 2), (30, 0, 30, 63), (63, 64, 64, 0), (30, 0, 30, 64)]);
    t_replace_n16 (24) = replace::<A<16>, 16, 17>();
    t_replace_n24 (34) = replace::<A<24>, 24, 8>();
    t_forms_n8 (14) = forms::<A<8>, 8, 9>();
    t_replace_all_n255 (530) = replace_big::<A<255>, 255, 520>(&[(255, 0, 0, 0), (255, 0, 1, 1), (255, 0, 1, 2), (127, 63, 63, 128), (127, 63, 63, 129), (128, 127, 128, 128), (1, 0, 1, 255), (1, 1, 1, 254), (1, 1, 1, 255), (255, 130, 131, 0), (255, 255, 255, 1), (255, 3, 253, 255), (20, 10, 20, 511)]);
}

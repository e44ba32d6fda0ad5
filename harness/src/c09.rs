//! C09 truncate, clear, split_off.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring::Error;

#[inline(always)]
fn judge_truncate<S: Api>(ok: bool, s: &S, t: &[u8], n: usize) {
    check!(ok == (n >= t.len() || boundary(t, n)), "fails exactly inside a character");
    if ok {
        same(text(s), if n < t.len() { &t[..n] } else { t });
    } else {
        same(text(s), t);
    }
    witness!(ok && n > 0 && n < t.len(), "cut");
    witness!(!ok, "inside a character");
    witness!(n > t.len(), "longer than the string");
}

#[inline(always)]
fn judge_split<S: Api>(r: Result<S, Error>, s: &S, t: &[u8], at: usize) {
    let inside = at <= t.len();
    check!(r.is_ok() == (inside && boundary(t, at)), "succeeds exactly at a boundary inside the string");
    match &r {
        Ok(tail) => {
            same(text(tail), &t[at..]);
            same(text(s), &t[..at]);
        }
        Err(Error::OutOfBounds) => check!(!inside, "OutOfBounds only past the end"),
        Err(Error::Utf8) => check!(inside && !boundary(t, at), "Utf8 only inside a character"),
        Err(Error::Utf16) => check!(false, "never a UTF-16 error"),
    }
    witness!(r.is_ok() && at > 0 && at < t.len(), "split in the middle");
    witness!(r.is_ok() && at == t.len(), "split at the end");
    witness!(r == Err(Error::Utf8), "split inside a character");
    witness!(r == Err(Error::OutOfBounds), "split past the end");
}

pub fn truncate<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let n = nd::usize();
    let ok = s.k_truncate(n).is_ok();
    judge_truncate(ok, &s, t.bytes(), n);
}

pub fn clear<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    s.k_clear();
    check!(s.k_len() == 0 && s.k_is_empty() && text(&s).is_empty(), "empty after clear");
    // and usable again
    let again = s.k_try_push_str(t.as_str()).is_ok();
    check!(again, "full capacity is available again");
    same(text(&s), t.bytes());
    witness!(t.len == L, "was full");
}

pub fn split<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let at = nd::usize();
    let r = s.k_split_off(at);
    judge_split(r, &s, t.bytes(), at);
}

pub fn truncate_big<S: Api, const K: usize>(cases: &[(usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, n) = cases[k];
        let t = shaped::<K>(l, 0, &[n]);
        let mut s = fresh::<S>(prefix(&t, l));
        let ok = s.k_truncate(n).is_ok();
        judge_truncate(ok, &s, &t[..l], n);
        k += 1;
    }
}

pub fn split_big<S: Api, const K: usize>(cases: &[(usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, at) = cases[k];
        let t = shaped::<K>(l, 0, &[at]);
        let mut s = fresh::<S>(prefix(&t, l));
        let r = s.k_split_off(at);
        judge_split(r, &s, &t[..l], at);
        k += 1;
    }
}

harnesses! {
    q_truncate_n4 (8) = truncate::<A<4>, 4>();
    q_truncate_n8 (12) = truncate::<A<8>, 8>();
    q_clear_n4 (8) = clear::<A<4>, 4>();
    q_split_n4 (8) = split::<A<4>, 4>();
    q_split_n8 (12) = split::<A<8>, 8>();
    q_truncate_n255 (260) = truncate_big::<A<255>, 255>(&[(255, 250), (255, 128), (255, 0), (255, 255), (255, 256), (255, 257), (250, 262), (255, 131)]);
    q_split_n255 (260) = split_big::<A<255>, 255>(&[(255, 0), (255, 130), (255, 255), (255, 256), (255, 132), (128, 256)]);
    q_cache_n63 (70) = { truncate_big::<Cs, 63>(&[(63, 31), (63, 32), (63, 64)]); split_big::<Cs, 63>(&[(63, 31), (63, 32), (63, 64)]) };
    t_truncate_n24 (30) = truncate::<A<24>, 24>();
    t_split_n16 (24) = split::<A<16>, 16>();
    t_clear_n16 (24) = clear::<A<16>, 16>();
    t_split_n32 (40) = split::<A<32>, 32>();
    t_split_all_n255 (260) = split_big::<A<255>, 255>(&[(255, 1), (255, 126), (255, 127), (255, 128), (255, 251), (255, 253), (255, 254), (255, 512), (129, 129), (0, 0), (0, 1)]);
}

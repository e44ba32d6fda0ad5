//! C08 pop and remove.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring::Error;

#[inline(always)]
fn judge_pop<S: Api>(r: Option<char>, s: &S, t: &[u8]) {
    check!(r.is_none() == t.is_empty(), "None exactly on the empty string");
    if let Some(c) = r {
        let p = last_start(t);
        check!(c as u32 == dec(t, p).0, "the last character is returned");
        same(text(s), &t[..p]);
    } else {
        same(text(s), t);
    }
    witness!(t.len() > 1 && last_start(t) + 4 == t.len(), "four bytes wide");
    witness!(r.is_none(), "empty");
}

#[inline(always)]
fn judge_remove<S: Api>(r: Result<char, Error>, s: &S, t: &[u8], idx: usize) {
    let inside = idx < t.len();
    check!(r.is_ok() == (inside && boundary(t, idx)), "succeeds exactly at the start of a character");
    match r {
        Ok(c) => {
            let (v, w) = dec(t, idx);
            check!(c as u32 == v, "the character at the index is returned");
            is_exactly(text(s), t.len() - w, |i| if i < idx { t[i] } else { t[i + w] });
        }
        Err(Error::OutOfBounds) => check!(!inside, "OutOfBounds only at or past the end"),
        Err(Error::Utf8) => check!(inside && !boundary(t, idx), "Utf8 only inside a character"),
        Err(Error::Utf16) => check!(false, "never a UTF-16 error"),
    }
    witness!(r.is_ok() && idx > 0 && t.len() - idx > 3, "removed from the middle");
    witness!(r == Err(Error::Utf8), "inside a character");
    witness!(r == Err(Error::OutOfBounds) && idx == t.len(), "at the end");
    witness!(r == Err(Error::OutOfBounds) && idx == usize::MAX, "largest index");
}

pub fn pop<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let r = s.k_pop();
    judge_pop(r, &s, t.bytes());
}

pub fn remove<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let idx = nd::usize();
    let r = s.k_remove(idx);
    judge_remove(r, &s, t.bytes(), idx);
}

pub fn remove_big<S: Api, const K: usize>(cases: &[(usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, idx) = cases[k];
        let t = shaped::<K>(l, 0, &[idx]);
        let mut s = fresh::<S>(prefix(&t, l));
        let r = s.k_remove(idx);
        judge_remove(r, &s, &t[..l], idx);
        k += 1;
    }
}

/// The shape and the bytes are concrete here, only the checked position is symbolic.
pub fn pop_big<S: Api, const K: usize>(l: usize) {
    let t = pattern::<K>(l);
    let mut s = fresh::<S>(prefix(&t, l));
    let r = s.k_pop();
    judge_pop(r, &s, &t[..l]);
}

harnesses! {
    q_pop_n1 (6) = pop::<A<1>, 1>();
    q_pop_n4 (8) = pop::<A<4>, 4>();
    q_pop_n8 (12) = pop::<A<8>, 8>();
    q_remove_n1 (6) = remove::<A<1>, 1>();
    q_remove_n4 (8) = remove::<A<4>, 4>();
    q_remove_n8 (12) = remove::<A<8>, 8>();
    q_remove_n255 (260) = remove_big::<A<255>, 255>(&[(255, 0), (255, 6), (255, 131), (255, 253), (251, 250), (255, 8), (255, 255), (200, 250)]);
    q_pop_n255 (260) = pop_big::<A<255>, 255>(250);
    q_cache_n63 (70) = { remove_big::<Cs, 63>(&[(63, 31), (63, 62), (63, 63), (63, 17)]); pop_big::<Cs, 63>(60) };
    t_pop_n16 (20) = pop::<A<16>, 16>();
    t_remove_n16 (20) = remove::<A<16>, 16>();
    t_pop_n32 (36) = pop::<A<32>, 32>();
    t_pop_all_n255 (260) = { pop_big::<A<255>, 255>(255); pop_big::<A<255>, 255>(133); pop_big::<A<255>, 255>(131); pop_big::<A<255>, 255>(1) };
    t_remove_all_n255 (260) = remove_big::<A<255>, 255>(&[(255, 1), (255, 3), (255, 126), (255, 127), (255, 128), (255, 130), (255, 250), (255, 254), (255, 256), (1, 0), (2, 1), (128, 127)]);
}

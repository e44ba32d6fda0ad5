//! C07 insertion.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring::Error;

#[inline(always)]
fn judge<S: Api>(r: Result<(), Error>, s: &S, t: &[u8], m: usize, u: impl Fn(usize) -> u8, idx: usize, truncating: bool) {
    let at = idx <= t.len() && boundary(t, idx);
    let n = if truncating { fit(m, S::CAP - t.len(), &u) } else { m };
    let fits = t.len() + n <= S::CAP;
    check!(r.is_ok() == (at && fits), "succeeds exactly at a boundary inside the text when it fits");
    match r {
        Ok(()) => is_exactly(text(s), t.len() + n, |i| {
            if i < idx {
                t[i]
            } else if i - idx < n {
                u(i - idx)
            } else {
                t[i - n]
            }
        }),
        Err(Error::OutOfBounds) => check!(idx > t.len() || !fits, "OutOfBounds only past the end or when too long"),
        Err(Error::Utf8) => check!(idx <= t.len() && !boundary(t, idx), "Utf8 only inside a character"),
        Err(Error::Utf16) => check!(false, "never a UTF-16 error"),
    }
    witness!(r.is_ok() && idx > 0 && idx < t.len() && n > 0, "inserted in the middle");
    witness!(r == Err(Error::Utf8) && m == 0, "inside a character, nothing to insert");
    witness!(r == Err(Error::OutOfBounds) && idx > t.len(), "past the end");
    witness!(truncating || r == Err(Error::OutOfBounds) && idx <= t.len(), "too long");
    witness!(!truncating || r.is_ok() && n < m && idx < t.len(), "inserted a cut text");
}

pub fn insert_str<S: Api, const L: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    let idx = nd::usize();
    let r = s.k_try_insert_str(idx, u.as_str());
    judge(r, &s, t.bytes(), u.len, |i| u.b[i], idx, false);
}

pub fn insert_truncate<S: Api, const L: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    let idx = nd::usize();
    let r = s.k_insert_str_truncate(idx, u.as_str());
    judge(r, &s, t.bytes(), u.len, |i| u.b[i], idx, true);
}

pub fn insert_char<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let c = nd::char();
    let (e, w) = enc(c);
    let idx = nd::usize();
    let r = s.k_try_insert(idx, c);
    judge(r, &s, t.bytes(), w, |i| e[i], idx, false);
}

/// (content length, index, addition length)
pub fn insert_big<S: Api, const K: usize, const M: usize>(cases: &[(usize, usize, usize)], truncating: bool) {
    let mut k = 0;
    while k < cases.len() {
        let (l, idx, m) = cases[k];
        let t = shaped::<K>(l, 0, &[idx]);
        let u = shaped::<M>(m, 3, &[S::CAP - l]);
        let mut s = fresh::<S>(prefix(&t, l));
        let v = prefix(&u, m);
        let r = if truncating { s.k_insert_str_truncate(idx, v) } else { s.k_try_insert_str(idx, v) };
        judge(r, &s, &t[..l], m, |i| u[i], idx, truncating);
        k += 1;
    }
}

pub fn insert_char_big<S: Api, const K: usize>(cases: &[(usize, usize, char)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, idx, c) = cases[k];
        let t = shaped::<K>(l, 0, &[idx]);
        let (e, w) = enc(c);
        let mut s = fresh::<S>(prefix(&t, l));
        let r = s.k_try_insert(idx, c);
        judge(r, &s, &t[..l], w, |i| e[i], idx, false);
        k += 1;
    }
}

harnesses! {
    q_str_n4 (10) = insert_str::<A<4>, 4, 5>();
    q_str_n8 (14) = insert_str::<A<8>, 8, 9>();
    q_trunc_n4 (10) = insert_truncate::<A<4>, 4, 6>();
    q_trunc_n8 (14) = insert_truncate::<A<8>, 8, 9>();
    q_char_n4 (10) = insert_char::<A<4>, 4>();
    q_char_n8 (14) = insert_char::<A<8>, 8>();
    q_str_n255 (530) = insert_big::<A<255>, 255, 260>(&[(250, 3, 5), (250, 3, 6), (128, 60, 127), (128, 60, 128), (200, 201, 1), (0, 0, 255), (100, 5, 3)], false);
    q_trunc_n255 (530) = insert_big::<A<255>, 255, 520>(&[(128, 60, 128), (250, 3, 9), (255, 10, 3), (255, 5, 3), (20, 10, 513)], true);
    q_char_n255 (260) = insert_char_big::<A<255>, 255>(&[(251, 130, '\u{1f914}'), (252, 130, '\u{1f914}'), (254, 0, 'x'), (255, 250, 'x')]);
    q_cache_n63 (70) = { insert_big::<Cs, 63, 65>(&[(40, 20, 23), (40, 20, 24), (40, 22, 0)], false); insert_big::<Cs, 63, 65>(&[(40, 20, 26), (40, 24, 0)], true); insert_char_big::<Cs, 63>(&[(60, 1, '\u{20ac}'), (61, 1, '\u{20ac}')]) };
    t_str_n16 (24) = insert_str::<A<16>, 16, 17>();
    t_trunc_n16 (24) = insert_truncate::<A<16>, 16, 18>();
    t_char_n32 (40) = insert_char::<A<32>, 32>();
    t_str_all_n255 (530) = insert_big::<A<255>, 255, 520>(&[(0, 0, 256), (1, 1, 254), (1, 0, 255), (127, 63, 128), (127, 127, 129), (200, 199, 55), (200, 33, 56), (255, 255, 0), (255, 256, 0), (255, 254, 1), (30, 10, 256), (30, 10, 511), (30, 512, 1)], false);
    t_trunc_all_n255 (530) = insert_big::<A<255>, 255, 520>(&[(0, 0, 256), (0, 0, 259), (1, 1, 255), (127, 63, 131), (200, 33, 60), (255, 255, 9), (255, 256, 9), (254, 3, 9), (253, 0, 9), (30, 10, 256), (30, 10, 511), (30, 12, 512)], true);
}

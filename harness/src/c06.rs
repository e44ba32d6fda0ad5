//! C06 truncating append.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{harnesses, witness};

#[inline(always)]
fn judge<S: Api>(s: &S, t: &[u8], m: usize, at: impl Fn(usize) -> u8) {
    let l = t.len();
    let n = fit(m, S::CAP - l, &at);
    is_exactly(text(s), l + n, |i| if i < l { t[i] } else { at(i - l) });
    witness!(n < m && l + n < S::CAP, "cut before a character that only partly fits");
    witness!(n < m && l + n == S::CAP && n > 0, "cut at the capacity");
    witness!(n == m && l > 0 && m > 0, "all fits");
}

pub fn push_str<S: Api, const L: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    if nd::bool() {
        s.k_push_str_truncate(u.as_str())
    } else {
        s = s + u.as_str();
    }
    judge(&s, t.bytes(), u.len, |i| u.b[i]);
}

pub fn extend_chars<S: Api, const L: usize, const K: usize>(refs: bool) {
    let (mut s, t) = state::<S, L>();
    let p = Chars::<K>::any();
    if refs {
        s.extend(hinted(p.c.iter()));
    } else {
        s.extend(hinted(p.c.iter().copied()));
    }
    judge(&s, t.bytes(), p.total(), |i| p.at(i));
}

pub fn extend_strs<S: Api, const L: usize, const K: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let p = Parts::<K, M>::any();
    let a = p.strs();
    s.extend(hinted(a.iter().copied()));
    judge(&s, t.bytes(), p.total(), |i| p.at(i));
}

pub fn push_str_big<S: Api, const K: usize, const M: usize>(cases: &[(usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, m) = cases[k];
        let t = shaped::<K>(l, k, &[]);
        let u = shaped::<M>(m, k + 3, &[S::CAP - l]);
        let mut s = fresh::<S>(prefix(&t, l));
        if k % 2 == 0 {
            s.k_push_str_truncate(prefix(&u, m))
        } else {
            s = s + prefix(&u, m);
        }
        judge(&s, &t[..l], m, |i| u[i]);
        k += 1;
    }
}

pub fn extend_big<S: Api, const K: usize>(l: usize) {
    let t = shaped::<K>(l, 0, &[]);
    let mut s = fresh::<S>(prefix(&t, l));
    s.extend(["x\u{e9}", "\u{20ac}", "yy"]);
    let u = "x\u{e9}\u{20ac}yy".as_bytes();
    judge(&s, &t[..l], u.len(), |i| u[i]);
    let mut s = fresh::<S>(prefix(&t, l));
    s.extend(['x', '\u{e9}', '\u{20ac}', 'y', 'y']);
    judge(&s, &t[..l], u.len(), |i| u[i]);
}

/// More items than any length, most of them empty.
pub fn extend_many<S: Api>(last: usize) {
    let t = shaped::<1>(1, 3, &[]);
    let b = shaped::<3>(last, 0, &[]);
    let mut s = fresh::<S>(prefix(&t, 1));
    s.extend(Late { i: 0, empty: 258, tail: [prefix(&b, 1), prefix(&b, last)] });
    judge(&s, &t, 1 + last, |i| b[i.saturating_sub(1)]);
}

harnesses! {
    q_str_n1 (8) = push_str::<A<1>, 1, 5>();
    q_str_n4 (10) = push_str::<A<4>, 4, 6>();
    q_str_n8 (14) = push_str::<A<8>, 8, 11>();
    q_chars_n4 (8) = extend_chars::<A<4>, 4, 3>(false);
    q_charrefs_n4 (8) = extend_chars::<A<4>, 4, 2>(true);
    q_strs_n1 (7) = extend_strs::<A<1>, 1, 6, 1>();
    q_strs_many_n3 (264) = extend_many::<A<3>>(3);
    q_strs_n4 (7) = extend_strs::<A<4>, 4, 2, 5>();
    q_str_n255 (530) = push_str_big::<A<255>, 255, 264>(&[(128, 130), (127, 128), (250, 9), (253, 9), (255, 4), (0, 257), (254, 2)]);
    q_str_wide_n255 (530) = push_str_big::<A<255>, 255, 520>(&[(5, 256), (2, 511), (250, 513)]);
    t_extend_n255 (260) = { extend_big::<A<255>, 255>(250); extend_big::<A<255>, 255>(253) };
    q_cache_n63 (72) = { push_str_big::<Cs, 63, 66>(&[(30, 33), (30, 36), (62, 3), (63, 1)]); extend_big::<Cs, 63>(59) };
    t_str_n16 (24) = push_str::<A<16>, 16, 19>();
    t_str_n32 (42) = push_str::<A<32>, 32, 35>();
    t_chars_n8 (12) = extend_chars::<A<8>, 8, 4>(false);
    t_strs_n8 (12) = extend_strs::<A<8>, 8, 3, 5>();
    t_str_all_n255 (530) = push_str_big::<A<255>, 255, 520>(&[(0, 256), (0, 258), (1, 255), (127, 131), (251, 9), (252, 9), (254, 9), (255, 256), (200, 60), (100, 511), (0, 512), (0, 513), (255, 513)]);
}

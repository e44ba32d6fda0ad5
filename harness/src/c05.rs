//! C05 fallible append.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};

#[inline(always)]
fn judge<S: Api>(ok: bool, s: &S, t: &[u8], m: usize, at: impl Fn(usize) -> u8) {
    let l = t.len();
    check!(ok == (l + m <= S::CAP), "succeeds exactly when the addition fits");
    if ok {
        is_exactly(text(s), l + m, |i| if i < l { t[i] } else { at(i - l) });
    } else {
        same(text(s), t);
    }
    witness!(ok && l > 0 && m > 0, "appended");
    witness!(!ok && l + m == S::CAP + 1, "one byte too many");
}

pub fn push_str<S: Api, const L: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    let ok = if nd::bool() { s.k_try_push_str(u.as_str()).is_ok() } else { s.write_str(u.as_str()).is_ok() };
    judge(ok, &s, t.bytes(), u.len, |i| u.b[i]);
}

pub fn push<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let c = nd::char();
    let ok = if nd::bool() { s.k_try_push(c).is_ok() } else { s.write_char(c).is_ok() };
    let (e, w) = enc(c);
    judge(ok, &s, t.bytes(), w, |i| e[i]);
}

/// (content length, addition length), both concrete; bytes symbolic.
pub fn push_str_big<S: Api, const K: usize, const M: usize>(cases: &[(usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, m) = cases[k];
        let t = shaped::<K>(l, k, &[]);
        let u = shaped::<M>(m, k + 3, &[]);
        let mut s = fresh::<S>(prefix(&t, l));
        let v = prefix(&u, m);
        let ok = if k % 2 == 0 { s.k_try_push_str(v).is_ok() } else { s.write_str(v).is_ok() };
        judge(ok, &s, &t[..l], m, |i| u[i]);
        k += 1;
    }
}

pub fn push_big<S: Api, const K: usize>(cases: &[(usize, char)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, c) = cases[k];
        let t = shaped::<K>(l, k, &[]);
        let mut s = fresh::<S>(prefix(&t, l));
        let ok = if k % 2 == 0 { s.k_try_push(c).is_ok() } else { s.write_char(c).is_ok() };
        let (e, w) = enc(c);
        judge(ok, &s, &t[..l], w, |i| e[i]);
        k += 1;
    }
}

/// Through the formatting machinery.
pub fn formatted<S: Api, const L: usize, const M: usize>() {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    let ok = write!(s, "{}", u.as_str()).is_ok();
    judge(ok, &s, t.bytes(), u.len, |i| u.b[i]);
}

harnesses! {
    q_str_n1 (6) = push_str::<A<1>, 1, 3>();
    q_str_n4 (10) = push_str::<A<4>, 4, 5>();
    q_str_n8 (14) = push_str::<A<8>, 8, 9>();
    q_char_n4 (10) = push::<A<4>, 4>();
    q_char_n8 (14) = push::<A<8>, 8>();
    q_char_n24 (30) = push::<A<24>, 24>();
    q_str_n255 (530) = push_str_big::<A<255>, 255, 260>(&[(0, 255), (0, 256), (128, 127), (127, 129), (251, 4), (252, 4), (255, 1)]);
    q_str_wide_n255 (530) = push_str_big::<A<255>, 255, 520>(&[(3, 256), (1, 511), (0, 512)]);
    q_char_n255 (260) = push_big::<A<255>, 255>(&[(251, '\u{1f914}'), (252, '\u{1f914}'), (252, '\u{20ac}'), (253, '\u{20ac}'), (254, '\u{e9}'), (254, 'x'), (255, 'x')]);
    q_cache_n63 (70) = { push_str_big::<Cs, 63, 65>(&[(30, 33), (30, 34), (0, 64)]); push_big::<Cs, 63>(&[(60, '\u{20ac}'), (61, '\u{20ac}')]) };
    q_fmt_n4 (10) = formatted::<A<4>, 4, 4>();
    t_str_n16 (24) = push_str::<A<16>, 16, 17>();
    t_str_n32 (42) = push_str::<A<32>, 32, 33>();
    t_str_all_n255 (530) = push_str_big::<A<255>, 255, 520>(&[(255, 0), (254, 2), (200, 55), (200, 56), (100, 156), (127, 128), (128, 128), (255, 255), (255, 256), (255, 257), (250, 513)]);
}

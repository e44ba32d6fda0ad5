//! C03 truncating constructors.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{harnesses, witness};

#[inline(always)]
fn judge<S: Api>(s: S, total: usize, at: impl Fn(usize) -> u8) {
    let n = fit(total, S::CAP, &at);
    is_exactly(text(&s), n, at);
    witness!(total > S::CAP && n < S::CAP, "cut before a character that only partly fits");
    witness!(total > S::CAP && n == S::CAP, "cut at the capacity");
    witness!(total < S::CAP && total > 0, "kept whole");
}

pub fn from_str<S: Api, const M: usize>() {
    let u = Text::<M>::any();
    let s = if nd::bool() { S::k_from_str_truncate(u.as_str()) } else { S::from(u.as_str()) };
    judge(s, u.len, |i| u.b[i]);
}

pub fn from_str_big<S: Api, const K: usize>(ls: &[usize]) {
    let mut k = 0;
    while k < ls.len() {
        let l = ls[k];
        let b = shaped::<K>(l, k, &[S::CAP]);
        let u = prefix(&b, l);
        judge(if k % 2 == 0 { S::k_from_str_truncate(u) } else { S::from(u) }, l, |i| b[i]);
        k += 1;
    }
}

pub fn from_iter<S: Api, const K: usize, const M: usize>(collect: bool) {
    let p = Parts::<K, M>::any();
    let a = p.strs();
    let s = if collect { hinted(a[..p.n].iter().copied()).collect::<S>() } else { S::k_from_iterator_truncate(hinted(&a[..p.n])) };
    judge(s, p.total(), |i| p.at(i));
    witness!(p.n == K && p.t[0].len > 0 && p.t[0].len + p.t[1].len > S::CAP && p.t[2].len == 1, "a later item would still fit");
}

pub fn from_chars<S: Api, const K: usize>(collect: bool) {
    let p = Chars::<K>::any();
    let it = hinted(p.slice().iter().copied());
    let s = if collect { it.collect::<S>() } else { S::k_from_chars_truncate(it) };
    judge(s, p.total(), |i| p.at(i));
    witness!(p.n == K && enc(p.c[0]).1 + enc(p.c[1]).1 > S::CAP && (p.c[2] as u32) < 0x80, "a later character would still fit");
}

pub fn from_iter_big<S: Api>(item: usize, count: usize) {
    let b = shaped::<64>(item, 0, &[S::CAP % item]);
    let it = core::iter::repeat(prefix(&b, item)).take(count);
    let s = if count % 2 == 0 { it.collect::<S>() } else { S::k_from_iterator_truncate(it) };
    judge(s, item * count, |i| b[i % item]);
}

/// `count` one-byte characters, `then`, and two more (concrete: a symbolic width
/// at this capacity is out of the solver's reach).
pub fn from_chars_big<S: Api>(count: usize, lead: char, then: char, collect: bool) {
    let it = core::iter::repeat(lead).take(count).chain([then, 'y', 'z']);
    let (a, v) = enc(lead);
    let (e, w) = enc(then);
    let n = count * v;
    let s = if collect { it.collect::<S>() } else { S::k_from_chars_truncate(it) };
    judge(s, n + w + 2, |i| {
        if i < n {
            a[i % v]
        } else if i < n + w {
            e[i - n]
        } else if i == n + w {
            b'y'
        } else {
            b'z'
        }
    });
}

/// More items than any length, most of them empty.
pub fn from_many<S: Api>(last: usize, collect: bool) {
    let b = shaped::<3>(last, 0, &[]);
    let it = Late { i: 0, empty: 258, tail: [prefix(&b, 1), prefix(&b, last)] };
    let s = if collect { it.collect::<S>() } else { S::k_from_iterator_truncate(it) };
    judge(s, 1 + last, |i| b[i.saturating_sub(1)]);
}

harnesses! {
    q_str_n1 (8) = from_str::<A<1>, 5>();
    q_str_n3 (10) = from_str::<A<3>, 7>();
    q_str_n4 (10) = from_str::<A<4>, 8>();
    q_str_n8 (16) = from_str::<A<8>, 12>();
    q_str_n24 (40) = from_str::<A<24>, 29>();
    q_str_cache_n63 (80) = from_str_big::<Cs, 72>(&[62, 63, 64, 65, 66]);
    q_str_n255 (530) = from_str_big::<A<255>, 264>(&[128, 255, 256, 257, 258]);
    q_str_wide_n255 (610) = from_str_big::<A<255>, 520>(&[511, 512, 513]);
    q_iter_n1 (8) = from_iter::<A<1>, 6, 1>(false);
    q_iter_many_n2 (264) = from_many::<A<2>>(2, false);
    q_collect_many_n2 (264) = from_many::<A<2>>(1, true);
    q_iter_n4 (8) = from_iter::<A<4>, 3, 4>(false);
    q_collect_n5 (8) = from_iter::<A<5>, 3, 4>(true);
    q_iter_n255 (80) = { from_iter_big::<A<255>>(51, 5); from_iter_big::<A<255>>(64, 4); };
    q_chars_n4 (8) = from_chars::<A<4>, 3>(false);
    q_chars_collect_n5 (8) = from_chars::<A<5>, 3>(true);
    q_chars_lots_n24 (32) = from_chars_big::<A<24>>(22, 'x', nd::char(), false);
    q_chars_n255 (80) = from_chars_big::<A<255>>(63, '\u{1f914}', '\u{1f600}', false);
    q_chars_collect_n255 (80) = from_chars_big::<A<255>>(63, '\u{1f914}', '\u{e9}', true);
    t_chars_a_n255 (262) = from_chars_big::<A<255>>(253, 'x', '\u{20ac}', false);
    t_iter_n9 (12) = from_iter::<A<9>, 3, 5>(false);
    t_iter_b_n255 (300) = from_iter_big::<A<255>>(1, 257);
    t_iter_c_n255 (300) = from_iter_big::<A<255>>(60, 5);
    t_chars_n10 (12) = from_chars::<A<10>, 4>(false);
    t_chars_b_n255 (262) = from_chars_big::<A<255>>(251, 'x', '\u{1f914}', true);
    t_chars_c_n255 (262) = from_chars_big::<A<255>>(255, 'x', 'w', false);
    t_str_all_n255 (610) = from_str_big::<A<255>, 600>(&[0, 1, 127, 254, 259, 260, 261, 262, 263, 264, 265, 510, 600]);
    t_str_cache_all_n63 (330) = from_str_big::<Cs, 330>(&[0, 1, 31, 32, 67, 68, 69, 127, 128, 256, 319]);
    t_str_n16 (32) = from_str::<A<16>, 24>();
    t_str_n32 (70) = from_str::<A<32>, 40>();
    t_iter_n12 (14) = from_iter::<A<12>, 4, 5>(false);
    t_chars_n16 (12) = from_chars::<A<16>, 6>(false);
}

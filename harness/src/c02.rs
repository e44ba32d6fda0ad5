//! C02 fallible constructors.
use crate::common::*;
use crate::api::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};

#[inline(always)]
fn judge<S: Api>(r: Result<S, arraystring::error::OutOfBounds>, total: usize, at: impl Fn(usize) -> u8) {
    check!(r.is_ok() == (total <= S::CAP), "succeeds exactly when the text fits");
    if let Ok(s) = &r {
        is_exactly(text(s), total, at);
    }
    witness!(r.is_ok() && total == S::CAP, "fills the capacity exactly");
    witness!(r.is_err() && total == S::CAP + 1, "one byte too many");
}

pub fn from_str<S: Api, const M: usize>() {
    let u = Text::<M>::any();
    let r = if nd::bool() { S::k_try_from_str(u.as_str()) } else { S::k_parse(u.as_str()) };
    judge(r, u.len, |i| u.b[i]);
}

/// Large capacities: concrete lengths around every edge, symbolic bytes.
pub fn from_str_big<S: Api, const K: usize>(ls: &[usize]) {
    let mut k = 0;
    while k < ls.len() {
        let l = ls[k];
        let b = shaped::<K>(l, k, &[]);
        let u = prefix(&b, l);
        judge(if k % 2 == 0 { S::k_try_from_str(u) } else { S::k_parse(u) }, l, |i| b[i]);
        k += 1;
    }
}

pub fn from_iter<S: Api, const K: usize, const M: usize>() {
    let p = Parts::<K, M>::any();
    let a = p.strs();
    judge(S::k_try_from_iterator(hinted(&a[..p.n])), p.total(), |i| p.at(i));
}

pub fn from_chars<S: Api, const K: usize>() {
    let p = Chars::<K>::any();
    judge(S::k_try_from_chars(hinted(p.slice().iter().copied())), p.total(), |i| p.at(i));
}

/// Many items at a large capacity.
pub fn from_iter_big<S: Api>(item: usize, count: usize) {
    let b = shaped::<64>(item, 0, &[]);
    let it = core::iter::repeat(prefix(&b, item)).take(count);
    judge(S::k_try_from_iterator(it), item * count, |i| b[i % item]);
}

/// `count` one-byte characters, then `last` (concrete: a symbolic width at this
/// capacity is out of the solver's reach).
pub fn from_chars_big<S: Api>(count: usize, lead: char, last: char) {
    let it = core::iter::repeat(lead).take(count).chain(core::iter::once(last));
    let (a, v) = enc(lead);
    let (e, w) = enc(last);
    judge(S::k_try_from_chars(it), count * v + w, |i| if i < count * v { a[i % v] } else { e[i - count * v] });
}

/// More items than any length, most of them empty.
pub fn from_many<S: Api>(last: usize) {
    let b = shaped::<3>(last, 0, &[]);
    let it = Late { i: 0, empty: 258, tail: [prefix(&b, 1), prefix(&b, last)] };
    judge(S::k_try_from_iterator(it), 1 + last, |i| b[i.saturating_sub(1)]);
}

harnesses! {
    q_str_n1 (8) = from_str::<A<1>, 3>();
    q_str_n4 (10) = from_str::<A<4>, 6>();
    q_str_n8 (16) = from_str::<A<8>, 12>();
    q_str_n24 (40) = from_str::<A<24>, 28>();
    q_str_cache_n63 (80) = from_str_big::<Cs, 72>(&[61, 62, 63, 64, 66]);
    q_str_n255 (530) = from_str_big::<A<255>, 260>(&[128, 253, 254, 255, 256, 257]);
    q_str_wide_n255 (530) = from_str_big::<A<255>, 520>(&[511, 512, 513]);
    q_iter_n1 (8) = from_iter::<A<1>, 6, 1>();
    q_iter_many_n2 (264) = from_many::<A<2>>(2);
    q_iter_n4 (8) = from_iter::<A<4>, 3, 4>();
    q_iter_n255 (80) = { from_iter_big::<A<255>>(51, 5); from_iter_big::<A<255>>(64, 4); };
    q_chars_n4 (8) = from_chars::<A<4>, 3>();
    q_chars_b_n4 (8) = from_chars::<A<4>, 2>();
    q_chars_lots_n24 (32) = from_chars_big::<A<24>>(22, 'x', nd::char());
    q_chars_n255 (80) = from_chars_big::<A<255>>(63, '\u{1f914}', '\u{20ac}');
    q_chars_wide_n255 (80) = from_chars_big::<A<255>>(63, '\u{1f914}', '\u{1f600}');
    t_chars_a_n255 (262) = from_chars_big::<A<255>>(253, 'x', '\u{20ac}');
    t_iter_n9 (12) = from_iter::<A<9>, 3, 4>();
    t_iter_b_n255 (262) = from_iter_big::<A<255>>(1, 256);
    t_chars_n10 (12) = from_chars::<A<10>, 4>();
    t_chars_b_n255 (262) = from_chars_big::<A<255>>(251, 'x', '\u{1f914}');
    t_chars_c_n255 (262) = from_chars_big::<A<255>>(255, 'x', 'z');
    t_str_all_n255 (530) = from_str_big::<A<255>, 520>(&[0, 1, 127, 250, 251, 252, 258, 259, 300, 510, 514]);
    t_str_cache_all_n63 (330) = from_str_big::<Cs, 330>(&[0, 1, 31, 32, 60, 65, 127, 128, 256, 319]);
    t_str_n16 (32) = from_str::<A<16>, 24>();
    t_str_n32 (70) = from_str::<A<32>, 40>();
    t_iter_n12 (14) = from_iter::<A<12>, 4, 5>();
    t_chars_n16 (12) = from_chars::<A<16>, 6>();
}

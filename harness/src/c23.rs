//! C23 failure atomicity.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};

pub const OPS: u8 = 12;

/// Performs fallible operation `op` with the given arguments; did it fail?
#[inline(always)]
pub fn fails<S: Api>(s: &mut S, op: u8, i: usize, b: (core::ops::Bound<usize>, core::ops::Bound<usize>), u: &str, c: char) -> bool {
    match op {
        0 => s.k_try_push_str(u).is_err(),
        1 => s.k_try_push(c).is_err(),
        2 => s.write_str(u).is_err(),
        3 => s.write_char(c).is_err(),
        4 => s.k_truncate(i).is_err(),
        5 => s.k_remove(i).is_err(),
        6 => s.k_try_insert(i, c).is_err(),
        7 => s.k_try_insert_str(i, u).is_err(),
        8 => s.k_insert_str_truncate(i, u).is_err(),
        9 => s.k_split_off(i).is_err(),
        10 => s.k_drain(b).is_err(),
        _ => s.k_replace_range(b, u).is_err(),
    }
}

pub fn atomic<S: Api, const L: usize, const M: usize>(op: u8) {
    let (mut s, t) = state::<S, L>();
    let u = Text::<M>::any();
    let c = nd::char();
    let i = nd::usize();
    let b = any_bounds();
    if fails(&mut s, op, i, b, u.as_str(), c) {
        check!(s.k_len() == t.len, "length unchanged after a failure");
        same(text(&s), t.bytes());
        witness!(t.len > 1, "failed on a non-empty string");
    }
}

/// (operation, content length, index or start, end, argument length)
pub fn atomic_big<S: Api, const K: usize, const M: usize>(cases: &[(u8, usize, usize, usize, usize)]) {
    use core::ops::Bound::*;
    let mut k = 0;
    while k < cases.len() {
        let (op, l, i, e, m) = cases[k];
        let t = shaped::<K>(l, 0, &[i, e]);
        let u = shaped::<M>(m, 3, &[]);
        let mut s = fresh::<S>(prefix(&t, l));
        let f = fails(&mut s, op, i, (Included(i), Excluded(e)), prefix(&u, m), '\u{1f914}');
        check!(f, "fails");
        same(text(&s), &t[..l]);
        k += 1;
    }
    witness!(true, "large");
}

harnesses! {
    q_push_str_n4 (8) = atomic::<A<4>, 4, 5>(0);
    q_push_n4 (8) = atomic::<A<4>, 4, 1>(1);
    q_write_str_n4 (8) = atomic::<A<4>, 4, 5>(2);
    q_write_char_n4 (8) = atomic::<A<4>, 4, 1>(3);
    q_truncate_n4 (8) = atomic::<A<4>, 4, 1>(4);
    q_remove_n4 (6) = atomic::<A<4>, 4, 1>(5);
    q_insert_n4 (8) = atomic::<A<4>, 4, 1>(6);
    q_insert_str_n4 (8) = atomic::<A<4>, 4, 5>(7);
    q_insert_trunc_n4 (8) = atomic::<A<4>, 4, 6>(8);
    q_split_n4 (8) = atomic::<A<4>, 4, 1>(9);
    q_drain_n4 (8) = atomic::<A<4>, 4, 1>(10);
    q_replace_n4 (8) = atomic::<A<4>, 4, 5>(11);
    q_big_n255 (260) = atomic_big::<A<255>, 255, 260>(&[(0, 250, 0, 0, 6), (0, 0, 0, 0, 256), (1, 252, 0, 0, 0), (2, 128, 0, 0, 128), (3, 254, 0, 0, 0), (4, 255, 128, 0, 0), (5, 255, 255, 0, 0), (5, 255, 252, 0, 0), (6, 255, 10, 0, 0), (6, 251, 12, 0, 0)]);
    q_bigger_n255 (260) = atomic_big::<A<255>, 255, 260>(&[(7, 250, 10, 0, 6), (7, 128, 64, 0, 10), (8, 200, 12, 0, 3), (9, 255, 252, 0, 0), (9, 255, 256, 0, 0), (10, 255, 12, 20, 0), (10, 255, 10, 256, 0), (11, 255, 10, 20, 11), (11, 255, 12, 20, 1), (11, 10, 0, 10, 256)]);
    q_cache_n63 (70) = atomic_big::<Cs, 63, 66>(&[(0, 60, 0, 0, 4), (1, 60, 0, 0, 0), (2, 60, 0, 0, 4), (4, 63, 32, 0, 0), (5, 63, 63, 0, 0), (6, 60, 10, 0, 0), (7, 60, 10, 0, 4), (8, 60, 12, 0, 4), (9, 63, 62 - 20, 0, 0), (10, 63, 12, 20, 0), (11, 63, 10, 20, 11)]);
    t_remove_n8 (12) = atomic::<A<8>, 8, 1>(5);
    t_insert_str_n8 (14) = atomic::<A<8>, 8, 9>(7);
    t_insert_trunc_n8 (14) = atomic::<A<8>, 8, 9>(8);
    t_drain_n8 (12) = atomic::<A<8>, 8, 1>(10);
    t_replace_n8 (14) = atomic::<A<8>, 8, 9>(11);
    t_split_n16 (20) = atomic::<A<16>, 16, 1>(9);
}

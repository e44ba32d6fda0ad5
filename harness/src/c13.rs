//! C13 retain.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};

/// The predicate answers arbitrarily, call by call.
#[inline(always)]
fn run<S: Api, const L: usize>(s: &mut S, t: &[u8], answer: &[bool; L]) {
    let mut seen = ['\0'; L];
    let mut calls = 0;
    s.k_retain(|c| {
        let k = calls;
        calls += 1;
        if k < L {
            seen[k] = c;
            answer[k]
        } else {
            false
        }
    });
    // reference
    let mut want = [0u8; L];
    let mut n = 0;
    let mut k = 0;
    let mut keep = false;
    let mut i = 0;
    while i < L {
        if i < t.len() {
            if !is_cont(t[i]) {
                keep = answer[k];
                check!(calls > k && seen[k] as u32 == dec(t, i).0, "asked about each character in order");
                k += 1;
            }
            if keep {
                want[n] = t[i];
                n += 1;
            }
        }
        i += 1;
    }
    check!(calls == k, "asked exactly once per character");
    is_exactly(text(s), n, |i| want[i]);
    witness!(n > 0 && n < t.len(), "some kept, some dropped");
    witness!(n == 0 && t.len() > 0, "none kept");
    witness!(n == t.len() && n > 1, "all kept");
}

pub fn retain<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    let mut answer = [false; L];
    let mut i = 0;
    while i < L {
        answer[i] = nd::bool();
        i += 1;
    }
    run::<S, L>(&mut s, t.bytes(), &answer);
}

/// Concrete shape and answers by a fixed rule.
pub fn retain_big<S: Api, const L: usize>(l: usize, every: usize) {
    let t = pattern::<L>(l);
    let mut s = fresh::<S>(prefix(&t, l));
    let mut answer = [false; L];
    let mut i = 0;
    while i < L {
        answer[i] = i % every != 1;
        i += 1;
    }
    run::<S, L>(&mut s, &t[..l], &answer);
}

harnesses! {
    q_retain_n1 (4) = retain::<A<1>, 1>();
    q_retain_n3 (6) = retain::<A<3>, 3>();
    q_retain_n4 (7) = retain::<A<4>, 4>();
    q_retain_n24 (26) = { retain_big::<A<24>, 24>(24, 3); };
    q_cache_n63 (64) = retain_big::<Cs, 63>(63, 2);
    t_retain_n5 (8) = retain::<A<5>, 5>();
    t_retain_n6 (9) = retain::<A<6>, 6>();
    t_retain_big_n255 (258) = retain_big::<A<255>, 255>(255, 2);
}

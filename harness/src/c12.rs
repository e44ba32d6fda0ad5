//! C12 trim.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{harnesses, witness};

/// White_Space of the Unicode character database (own copy, not core's).
#[inline(always)]
fn white(v: u32) -> bool {
    (v >= 0x9 && v <= 0xD)
        || v == 0x20
        || v == 0x85
        || v == 0xA0
        || v == 0x1680
        || (v >= 0x2000 && v <= 0x200A)
        || v == 0x2028
        || v == 0x2029
        || v == 0x202F
        || v == 0x205F
        || v == 0x3000
}

#[inline(always)]
fn judge<S: Api, const K: usize>(s: &S, t: &[u8]) {
    // first and one past the last non-white character
    let mut a = t.len();
    let mut b = 0;
    let mut i = 0;
    while i < K {
        if i < t.len() && !is_cont(t[i]) {
            let (v, w) = dec(t, i);
            if !white(v) {
                if b == 0 {
                    a = i;
                }
                b = i + w;
            }
        }
        i += 1;
    }
    if b == 0 {
        a = 0;
    }
    is_exactly(text(s), b - a, |i| t[a + i]);
    witness!(a > 0 && b > a && b < t.len(), "both ends trimmed");
    witness!(b == 0 && t.len() > 1, "all white");
    witness!(a == 0 && b == t.len() && b > 0, "nothing to trim");
    witness!(a == 3, "three leading bytes");
}

pub fn trim<S: Api, const L: usize>() {
    let (mut s, t) = state::<S, L>();
    s.k_trim();
    judge::<S, L>(&s, t.bytes());
}

/// `lead` and `trail` white characters around a body; concrete shape, the body's
/// inner bytes are symbolic (and may be white).
pub fn trim_big<S: Api, const K: usize>(lead: &str, body: usize, trail: &str) {
    let mut t = [0u8; K];
    let (l, r) = (lead.as_bytes(), trail.as_bytes());
    let mut i = 0;
    while i < l.len() {
        t[i] = l[i];
        i += 1;
    }
    i = 0;
    while i < body {
        t[l.len() + i] = if i == 0 || i + 1 == body { b'#' } else { nd::u8() & 0x7F };
        i += 1;
    }
    i = 0;
    while i < r.len() {
        t[l.len() + body + i] = r[i];
        i += 1;
    }
    let n = l.len() + body + r.len();
    let mut s = fresh::<S>(prefix(&t, n));
    s.k_trim();
    is_exactly(text(&s), body, |i| t[l.len() + i]);
    witness!(body == 0 || body > 1, "trimmed");
}

harnesses! {
    q_trim_n3 (7) = trim::<A<3>, 3>();
    q_trim_n4 (8) = trim::<A<4>, 4>();
    q_trim_n5 (9) = trim::<A<5>, 5>();
    q_trim_cache_n63 (20) = { trim_big::<Cs, 63>("\u{3000} \u{85}", 50, " \t\u{2028}"); trim_big::<Cs, 63>(" \u{a0}", 0, "") };
    q_trim_big_n255 (20) = { trim_big::<A<255>, 255>(" \u{1680}\n", 240, "\u{2009}\u{202f} "); trim_big::<A<255>, 255>("", 254, "\r"); trim_big::<A<255>, 255>("\x0b", 254, ""); trim_big::<A<255>, 255>("", 255, "") };
    t_trim_n8 (12) = trim::<A<8>, 8>();
    t_trim_n10 (14) = trim::<A<10>, 10>();
}

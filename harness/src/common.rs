use crate::api::*;
use crate::check;
use crate::nd;
use crate::text::*;

pub type A<const N: usize> = arraystring::ArrayString<N>;
pub type Cs = arraystring::CacheString;

/// `a` is exactly `n` bytes long and byte `i` is `f(i)`, for every `i` (the
/// index is a symbolic variable: the solver covers them all).
#[inline(always)]
pub fn is_exactly(a: &[u8], n: usize, f: impl Fn(usize) -> u8) {
    check!(a.len() == n, "length is as specified");
    let i = nd::usize();
    if i < n {
        check!(a[i] == f(i), "every byte is as specified");
    }
}

#[inline(always)]
pub fn same(a: &[u8], b: &[u8]) {
    is_exactly(a, b.len(), |i| b[i])
}

/// Content of `s` (the view used by all bodies; C16 ties the others to it).
#[inline(always)]
pub fn text<S: Api>(s: &S) -> &[u8] {
    s.k_as_str().as_bytes()
}

/// An arbitrary string of type `S` whose content is an arbitrary text of at most
/// `L` bytes, followed by arbitrary stale leftovers: a longer text is stored,
/// then cut back. Returns the content.
#[inline(always)]
pub fn state<S: Api, const L: usize>() -> (S, Text<L>) {
    let mut t = Text::<L>::any();
    let keep = any_boundary(t.bytes());
    let mut s = fresh::<S>(t.as_str());
    let _ = s.k_truncate(keep);
    nd::assume(s.k_len() == keep);
    t.len = keep;
    (s, t)
}

/// As `state`, but the leftovers come from removing a prefix, so they may also
/// begin in the middle of a character.
#[inline(always)]
pub fn shifted<S: Api, const L: usize>() -> (S, Text<L>) {
    let t = Text::<L>::any();
    let k = any_boundary(t.bytes());
    let mut s = fresh::<S>(t.as_str());
    let ok = s.k_replace_range(..k, "").is_ok();
    nd::assume(ok);
    let mut r = Text::<L> { b: [0; L], len: t.len - k };
    let mut i = 0;
    while i < L {
        if i < r.len {
            r.b[i] = t.b[i + k];
        }
        i += 1;
    }
    nd::assume(s.k_len() == r.len);
    (s, r)
}

/// A string without leftovers.
#[inline(always)]
pub fn fresh<S: Api>(t: &str) -> S {
    let s = match S::k_try_from_str(t) {
        Ok(s) => s,
        Err(_) => {
            nd::assume(false);
            S::k_new()
        }
    };
    nd::assume(s.k_len() == t.len());
    s
}

/// A string of concrete shape for the large capacities: `full` bytes are stored,
/// then it is cut back to `l`.
#[inline(always)]
pub fn cutback<S: Api>(b: &[u8], l: usize, full: usize) -> S {
    let mut s = fresh::<S>(prefix(b, full));
    let _ = s.k_truncate(l);
    nd::assume(s.k_len() == l);
    s
}

/// Some pair of range ends: every combination of included, excluded and open.
#[inline(always)]
pub fn any_bounds() -> (core::ops::Bound<usize>, core::ops::Bound<usize>) {
    (any_bound(), any_bound())
}

#[inline(always)]
fn any_bound() -> core::ops::Bound<usize> {
    let v = nd::usize();
    match nd::u8() & 3 {
        0 => core::ops::Bound::Included(v),
        1 => core::ops::Bound::Excluded(v),
        _ => core::ops::Bound::Unbounded,
    }
}

/// The range that a pair of ends denotes on a text of `len` bytes; `None` for an
/// end beyond `usize` (hence past every string).
#[inline(always)]
pub fn resolve(b: (core::ops::Bound<usize>, core::ops::Bound<usize>), len: usize) -> (Option<usize>, Option<usize>) {
    use core::ops::Bound::*;
    let s = match b.0 {
        Included(v) => Some(v),
        Excluded(v) => v.checked_add(1),
        Unbounded => Some(0),
    };
    let e = match b.1 {
        Included(v) => v.checked_add(1),
        Excluded(v) => Some(v),
        Unbounded => Some(len),
    };
    (s, e)
}

/// Which verdicts a range admits: (valid: start, end), may be OutOfBounds, may be Utf8.
pub struct Verdict {
    pub start: usize,
    pub end: usize,
    pub ok: bool,
    pub oob: bool,
    pub utf8: bool,
}

#[inline(always)]
pub fn verdict(t: &[u8], s: Option<usize>, e: Option<usize>) -> Verdict {
    let inside = |v: Option<usize>| match v {
        Some(v) => v < t.len() && !boundary(t, v),
        None => false,
    };
    let oob = match (s, e) {
        (Some(s), Some(e)) => s > e || e > t.len(),
        _ => true,
    };
    let utf8 = inside(s) || inside(e);
    Verdict { start: s.unwrap_or(0), end: e.unwrap_or(0), ok: !oob && !utf8, oob, utf8 }
}

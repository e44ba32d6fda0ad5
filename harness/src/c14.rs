//! C14 equality, ordering, hashing.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use core::borrow::Borrow;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};

/// Records every call made to the hasher.
pub struct Rec {
    b: [u8; 16],
    n: usize,
    ends: [usize; 4],
    calls: usize,
    other: bool,
}

impl Rec {
    pub fn of<T: Hash + ?Sized>(t: &T) -> Self {
        let mut r = Rec { b: [0; 16], n: 0, ends: [0; 4], calls: 0, other: false };
        t.hash(&mut r);
        r
    }
    /// The same calls with the same bytes (of texts the recorder can hold).
    pub fn eq(&self, o: &Self) -> bool {
        let mut r = !self.other && !o.other && self.n == o.n && self.calls == o.calls;
        let mut i = 0;
        while i < 16 {
            r &= i >= self.n || self.b[i] == o.b[i];
            i += 1;
        }
        r
    }
}

impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < 12 {
            if i < bytes.len() && self.n + i < 16 {
                self.b[self.n + i] = bytes[i];
            }
            i += 1;
        }
        self.other |= bytes.len() > 12;
        self.n += bytes.len();
        if self.calls < 4 {
            self.ends[self.calls] = self.n;
        }
        self.calls += 1;
    }
}

#[inline(always)]
fn hashes_as(a: &Rec, b: &Rec) {
    check!(!a.other && !b.other && a.n == b.n && a.calls == b.calls, "as many bytes and calls are hashed");
    let i = nd::usize();
    if i < a.n && i < 16 {
        check!(a.b[i] == b.b[i], "the same bytes are hashed");
    }
    if i < a.calls && i < 4 {
        check!(a.ends[i] == b.ends[i], "in the same calls");
    }
}

/// Reference: lexicographic order of the bytes.
#[inline(always)]
fn order<const L: usize>(a: &[u8], b: &[u8]) -> Ordering {
    let mut r = Ordering::Equal;
    let mut i = 0;
    while i < L {
        if r == Ordering::Equal {
            let x = if i < a.len() { a[i] as i32 } else { -1 };
            let y = if i < b.len() { b[i] as i32 } else { -1 };
            if x < y {
                r = Ordering::Less
            } else if x > y {
                r = Ordering::Greater
            }
        }
        i += 1;
    }
    r
}

#[inline(always)]
fn ordered_as<T: Ord>(a: &T, b: &T, o: Ordering) {
    check!(a.cmp(b) == o, "orders as the text");
    check!(a.partial_cmp(b) == Some(o), "partial_cmp agrees");
    check!((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater), "strict comparisons agree");
    check!((a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less), "weak comparisons agree");
}

#[inline(always)]
fn seen(a: &[u8], b: &[u8], o: Ordering) {
    witness!(o == Ordering::Equal && a.len() > 1, "equal");
    witness!(o == Ordering::Less && b.len() > a.len() && a.len() > 0 && a[0] == b[0], "proper prefix or later difference");
    witness!(o == Ordering::Greater && a.len() < b.len() && a.len() > 0, "shorter but greater");
}

pub fn equal<S: Api, const L: usize>() {
    let (s, t) = state::<S, L>();
    let (z, u) = shifted::<S, L>();
    let o = order::<L>(t.bytes(), u.bytes());
    let e = o == Ordering::Equal;
    check!((s == z) == e && (z == s) == e, "equal exactly when the texts are");
    check!((s != z) == !e, "unequal exactly when the texts differ");
    check!(s == s && !(s != s), "equal to itself");
    check!((s == *u.as_str()) == e, "equality with str");
    check!((s == u.as_str()) == e, "equality with &str");
    check!((s != u.as_str()) == !e, "inequality with &str");
    seen(t.bytes(), u.bytes(), o);
}

pub fn compare<S: Api, const L: usize>() {
    let (s, t) = state::<S, L>();
    let (z, u) = shifted::<S, L>();
    let o = order::<L>(t.bytes(), u.bytes());
    ordered_as(&s, &z, o);
    let (p, q): (&str, &str) = (s.borrow(), z.borrow());
    check!(p.cmp(q) == o, "the borrowed strs order alike");
    seen(t.bytes(), u.bytes(), o);
}

pub fn hash<S: Api, const L: usize>() {
    let left = nd::bool();
    let (s, t) = if left { state::<S, L>() } else { shifted::<S, L>() };
    let a = Rec::of(&s);
    hashes_as(&a, &Rec::of(t.as_str()));
    let b: &str = s.borrow();
    hashes_as(&a, &Rec::of(b));
    witness!(a.calls == 2 && t.len == L, "text and terminator");
    witness!(t.len == 0, "empty");
}

/// A draining iterator with leftovers: `t` was stored, a prefix already yielded.
#[inline(always)]
fn drained<S: Api, const L: usize>() -> (S::D, Text<L>) {
    let (mut s, t) = shifted::<S, L>();
    let d = match s.k_drain(..) {
        Ok(d) => d,
        Err(_) => {
            nd::assume(false);
            S::D::default()
        }
    };
    nd::assume(d.k_str().len() == t.len);
    (d, t)
}

pub fn drain_compare<S: Api, const L: usize>() {
    let (mut d, t) = drained::<S, L>();
    let (e, u) = drained::<S, L>();
    // one step leaves a remainder with leftovers behind it
    let mut a = t;
    if nd::bool() && t.len > 0 {
        let _ = d.next_back();
        a.len = last_start(t.bytes());
    }
    let o = order::<L>(a.bytes(), u.bytes());
    check!((d == e) == (o == Ordering::Equal), "equal exactly when the remaining texts are");
    check!((d != e) == (o != Ordering::Equal), "unequal exactly when the remaining texts differ");
    ordered_as(&d, &e, o);
    seen(a.bytes(), u.bytes(), o);
    witness!(a.len < t.len && o == Ordering::Equal, "equal after a step");
}

pub fn drain_hash<S: Api, const L: usize>() {
    let (mut d, t) = drained::<S, L>();
    let mut a = t;
    if nd::bool() && t.len > 0 {
        let _ = d.next_back();
        a.len = last_start(t.bytes());
    }
    hashes_as(&Rec::of(&d), &Rec::of(a.as_str()));
    witness!(a.len < t.len, "after a step");
}

/// Long texts that differ in one place, and equal ones with different leftovers.
pub fn big<S: Api, const K: usize>(l: usize, full: usize) {
    let t = pattern::<K>(full);
    let mut u = [b'#'; K];
    let mut i = 0;
    while i < l {
        u[i] = t[i];
        i += 1;
    }
    let s = cutback::<S>(&t, l, full);
    let z = fresh::<S>(prefix(&u, l));
    check!(s == z && s.cmp(&z) == Ordering::Equal && s.partial_cmp(&z) == Some(Ordering::Equal), "leftovers do not matter");
    check!(s == *prefix(&u, l) && s == prefix(&u, l), "nor against a str");
    let c = nd::u8() & 0x7F;
    let mut w = u;
    w[l - 1] = c;
    nd::assume(u[l - 1] < 0x80);
    let y = fresh::<S>(prefix(&w, l));
    let o = u[l - 1].cmp(&c);
    check!((s == y) == (o == Ordering::Equal), "the last byte decides equality");
    ordered_as(&s, &y, o);
    let x = fresh::<S>(prefix(&u, l - 1));
    check!(s != x && x < s, "a proper prefix is smaller");
    witness!(c > u[l - 1], "greater");
}

harnesses! {
    q_equal_n4 (8) = equal::<A<4>, 4>();
    q_compare_n4 (8) = compare::<A<4>, 4>();
    q_hash_n4 (8) = hash::<A<4>, 4>();
    q_drain_compare_n3 (8) = drain_compare::<A<3>, 3>();
    q_drain_hash_n4 (8) = drain_hash::<A<4>, 4>();
    q_cache_equal_n63 (8) = equal::<Cs, 2>();
    q_cache_compare_n63 (8) = compare::<Cs, 2>();
    q_cache_hash_n63 (8) = hash::<Cs, 3>();
    q_big_n255 (260) = big::<A<255>, 255>(251, 255);
    q_big_cache_n63 (70) = big::<Cs, 63>(61, 63);
    t_equal_n8 (12) = equal::<A<8>, 8>();
    t_compare_n8 (12) = compare::<A<8>, 8>();
    t_hash_n8 (12) = hash::<A<8>, 8>();
    t_drain_compare_n5 (10) = drain_compare::<A<5>, 5>();
}

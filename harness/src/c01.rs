//! C01 safety: whatever the state and the arguments, memory is respected (every
//! pointer dereference, copy and index of the encoding is an assertion of CBMC) and
//! every string left behind is valid UTF-8 no longer than its capacity.
use crate::api::*;
use crate::c20::{perform, Args};
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use core::cell::Cell;
use core::ops::{Bound, RangeBounds};

/// The invariant; `M` bounds the capacity.
#[inline(always)]
fn sound<S: Api, const M: usize>(s: &S) {
    let b = s.k_as_str().as_bytes();
    check!(b.len() <= S::CAP, "no longer than its capacity");
    check!(utf8_slice::<M>(b), "valid UTF-8");
}
#[inline(always)]
fn sound_drain<D: DrainApi, const M: usize>(d: &D) {
    let b = d.k_str().as_bytes();
    check!(utf8_slice::<M>(b), "the draining iterator shows valid UTF-8");
}

/// Every operation, from a string with arbitrary leftovers (`cut`: a text cut back;
/// otherwise a text whose head was removed) and ordinary arguments.
pub fn closed<S: Api, const K: usize, const M: usize, const R: usize>(ops: &[u8], cut: bool) {
    let (s, t) = if cut { state::<S, K>() } else { shifted::<S, K>() };
    let u = Text::<M>::any();
    let w = Text::<1>::any();
    let x = [nd::u16(), nd::u16()];
    let a = Args { u: u.as_str(), w: w.as_str(), i: nd::usize(), b: any_bounds(), c: nd::char(), d: nd::char(), x: &x };
    let mut k = 0;
    while k < ops.len() {
        let p = perform(ops[k], s, &a);
        sound::<S, R>(&p.s);
        sound::<S, R>(&p.z);
        k += 1;
    }
    witness!(t.len > 0 && u.len > 0, "non-empty");
}

/// Two operations in a row.
pub fn chained<S: Api, const K: usize, const M: usize>(first: u8, then: &[u8]) {
    let (s, t) = state::<S, K>();
    let u = Text::<M>::any();
    let v = Text::<M>::any();
    let a = Args { u: u.as_str(), w: "", i: nd::usize(), b: any_bounds(), c: nd::char(), d: 'x', x: &[] };
    let b = Args { u: v.as_str(), w: "", i: nd::usize(), b: any_bounds(), c: nd::char(), d: 'y', x: &[] };
    let p = perform(first, s, &a);
    let mut k = 0;
    while k < then.len() {
        let q = perform(then[k], p.s, &b);
        sound::<S, K>(&q.s);
        sound::<S, K>(&q.z);
        k += 1;
    }
    witness!(t.len > 0 && p.s.k_len() > 0, "non-empty");
}

/// Answers differently each time it is asked.
pub struct Fickle<'a, T: ?Sized> {
    pub v: [&'a T; 3],
    pub n: Cell<usize>,
}
impl<'a, T: ?Sized> Fickle<'a, T> {
    pub fn new(a: &'a T, b: &'a T, c: &'a T) -> Self {
        Fickle { v: [a, b, c], n: Cell::new(0) }
    }
}
impl<T: ?Sized> AsRef<T> for Fickle<'_, T> {
    fn as_ref(&self) -> &T {
        let k = self.n.get();
        self.n.set(if k < 2 { k + 1 } else { 0 });
        self.v[k]
    }
}

/// A range that answers differently each time.
pub struct Shifty {
    v: [usize; 6],
    kinds: u8,
    n: Cell<usize>,
}
impl Shifty {
    fn any() -> Self {
        let v = [nd::usize(), nd::usize(), nd::usize(), nd::usize(), nd::usize(), nd::usize()];
        Shifty { v, kinds: nd::u8(), n: Cell::new(0) }
    }
    fn answer(&self) -> Bound<&usize> {
        let k = self.n.get();
        self.n.set(if k < 5 { k + 1 } else { 0 });
        match (self.kinds >> k) & 1 {
            0 => Bound::Included(&self.v[k]),
            _ => Bound::Excluded(&self.v[k]),
        }
    }
}
impl RangeBounds<usize> for Shifty {
    fn start_bound(&self) -> Bound<&usize> {
        self.answer()
    }
    fn end_bound(&self) -> Bound<&usize> {
        self.answer()
    }
}

/// An iterator that lies about its length and goes on after its end.
pub struct Liar<T: Copy> {
    v: [T; 2],
    k: usize,
    hint: (usize, Option<usize>),
}
impl<T: Copy> Liar<T> {
    fn new(a: T, b: T) -> Self {
        let h = nd::usize();
        let hint = if nd::bool() { (h, Some(nd::usize())) } else { (h, None) };
        Liar { v: [a, b], k: 0, hint }
    }
}
impl<T: Copy> Iterator for Liar<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let k = self.k;
        self.k += 1;
        match k {
            0 => Some(self.v[0]),
            1 => Some(self.v[1]),
            2 => None,
            _ => Some(self.v[0]),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// Inconsistent string arguments.
pub fn fickle<S: Api, const K: usize, const M: usize>(op: u8) {
    let (mut s, t) = state::<S, K>();
    let a = Text::<M>::any();
    let b = Text::<M>::any();
    let f = Fickle::new(a.as_str(), b.as_str(), "");
    let i = nd::usize();
    match op {
        0 => {
            if let Ok(z) = S::k_try_from_str(f) {
                s = z
            }
        }
        1 => s = S::k_from_str_truncate(f),
        2 => {
            let _ = s.k_try_push_str(f);
        }
        3 => s.k_push_str_truncate(f),
        4 => {
            let _ = s.k_try_insert_str(i, f);
        }
        5 => {
            let _ = s.k_insert_str_truncate(i, f);
        }
        6 => {
            let _ = s.k_replace_range(any_bounds(), f);
        }
        7 => {
            if let Ok(z) = S::k_try_from_iterator([f]) {
                s = z
            }
        }
        _ => s = S::k_from_iterator_truncate([f]),
    }
    sound::<S, K>(&s);
    witness!(t.len > 0 && a.len > b.len, "shrinks");
    witness!(t.len > 0 && a.len == 0 && b.len == M, "grows");
}

/// Inconsistent ranges.
pub fn shifty<S: Api, const K: usize, const M: usize>(replace: bool) {
    let (mut s, t) = state::<S, K>();
    if replace {
        let u = Text::<M>::any();
        let r = s.k_replace_range(Shifty::any(), u.as_str());
        witness!(r.is_ok() && t.len > 0, "replaced");
    } else if let Ok(mut d) = s.k_drain(Shifty::any()) {
        sound_drain::<_, K>(&d);
        let _ = d.next();
        sound_drain::<_, K>(&d);
        let _ = d.next_back();
        sound_drain::<_, K>(&d);
        witness!(t.len == K, "drained");
    }
    sound::<S, K>(&s);
    witness!(s.k_len() < t.len, "shorter");
}

/// Inconsistent u16 arguments.
pub fn fickle_utf16<const N: usize>(form: u8)
where
    A<N>: Api + Utf16Api,
{
    let a = [nd::u16(), nd::u16()];
    let b = [nd::u16()];
    let f = Fickle::<[u16]>::new(&a, &b, &[]);
    let s = match form {
        0 => <A<N> as Utf16Api>::strict(f),
        1 => <A<N> as Utf16Api>::truncating(f),
        _ => <A<N> as Utf16Api>::lossy(f),
    };
    sound::<A<N>, N>(&s);
    witness!(s.k_len() > 1, "decoded");
}

trait Utf16Api: Sized {
    fn strict(f: impl AsRef<[u16]>) -> Self;
    fn truncating(f: impl AsRef<[u16]>) -> Self;
    fn lossy(f: impl AsRef<[u16]>) -> Self;
}
macro_rules! utf16 {
    ($($n:literal)*) => { $(
        impl Utf16Api for A<$n> {
            fn strict(f: impl AsRef<[u16]>) -> Self {
                Self::try_from_utf16(f).unwrap_or(Self::new())
            }
            fn truncating(f: impl AsRef<[u16]>) -> Self {
                Self::from_utf16_truncate(f).unwrap_or(Self::new())
            }
            fn lossy(f: impl AsRef<[u16]>) -> Self {
                Self::from_utf16_lossy_truncate(f)
            }
        }
    )* };
}
utf16!(4);

/// Iterators whose size hints lie.
pub fn lying<S: Api, const K: usize, const M: usize>(op: u8) {
    let (mut s, t) = state::<S, K>();
    let (c, d) = (nd::char(), nd::char());
    let u = Text::<M>::any();
    let v = Text::<M>::any();
    let (u, v) = (u.as_str(), v.as_str());
    match op {
        0 => {
            if let Ok(z) = S::k_try_from_chars(Liar::new(c, d)) {
                s = z
            }
        }
        1 => s = S::k_from_chars_truncate(Liar::new(c, d)),
        2 => s = Liar::new(c, d).collect(),
        3 => s.extend(Liar::new(c, d)),
        4 => s.extend(Liar::new(&c, &d)),
        5 => {
            if let Ok(z) = S::k_try_from_iterator(Liar::new(u, v)) {
                s = z
            }
        }
        6 => s = S::k_from_iterator_truncate(Liar::new(u, v)),
        7 => s = Liar::new(u, v).collect(),
        _ => s.extend(Liar::new(u, v)),
    }
    sound::<S, K>(&s);
    witness!(t.len > 0 && s.k_len() == S::CAP, "filled");
}

/// A draining iterator taken from both ends.
pub fn drained<S: Api, const K: usize>(steps: usize) {
    let (mut s, t) = state::<S, K>();
    if let Ok(mut d) = s.k_drain(any_bounds()) {
        let mut k = 0;
        while k < steps {
            let _ = if nd::bool() { d.next() } else { d.next_back() };
            sound_drain::<_, K>(&d);
            k += 1;
        }
        witness!(t.len == K, "drained");
    }
    sound::<S, K>(&s);
}

/// In-place writes that keep the text valid, then every other operation.
pub fn written<S: Api, const K: usize>(ops: &[u8]) {
    let (mut s, t) = state::<S, K>();
    s.k_as_mut_str().make_ascii_uppercase();
    let (a, b) = (nd::u8(), nd::u8());
    if a <= b && b as usize <= t.len && boundary(t.bytes(), a as usize) && boundary(t.bytes(), b as usize) {
        (&mut s[a..b]).make_ascii_lowercase();
    }
    sound::<S, K>(&s);
    let g = Args { u: "\u{e9}", w: "", i: nd::usize(), b: any_bounds(), c: nd::char(), d: 'x', x: &[] };
    let mut k = 0;
    while k < ops.len() {
        let p = perform(ops[k], s, &g);
        sound::<S, K>(&p.s);
        k += 1;
    }
    witness!(t.len == K, "full");
}

/// Large capacities, concrete shapes: every operation, and inconsistent texts.
pub fn large<S: Api, const K: usize, const M: usize>(ops: &[u8], cases: &[(usize, usize, usize)]) {
    let mut k = 0;
    while k < cases.len() {
        let (l, m, i) = cases[k];
        let t = shaped::<K>(l, 0, &[0, i, i + 10]);
        let u = shaped::<M>(m, 3, &[0, S::CAP - l, S::CAP]);
        let mut x = [b'x' as u16; 64];
        x[1] = 0xE9;
        x[2] = 0xD83E;
        x[3] = 0xDD14;
        let a = Args {
            u: prefix(&u, m),
            w: "\u{20ac}",
            i,
            b: (Bound::Included(i), Bound::Excluded(i + 10)),
            c: '\u{20ac}',
            d: '\u{e9}',
            x: &x[..m.min(64)],
        };
        let mut j = 0;
        while j < ops.len() {
            let p = perform(ops[j], fresh::<S>(prefix(&t, l)), &a);
            sound_large(&p.s);
            sound_large(&p.z);
            j += 1;
        }
        k += 1;
    }
    witness!(true, "completed");
}

/// Long texts: their ends are where characters would be torn; the bytes between
/// are compared by the other properties.
#[inline(always)]
fn sound_large<S: Api>(s: &S) {
    let b = s.k_as_str().as_bytes();
    check!(b.len() <= S::CAP, "no longer than its capacity");
    check!(utf8_slice::<256>(b), "valid UTF-8");
}

pub fn fickle_large<S: Api, const K: usize, const M: usize>(l: usize, a: usize, b: usize, i: usize) {
    let t = shaped::<K>(l, 0, &[0, i, i + 10]);
    let u = shaped::<M>(a, 3, &[0, S::CAP - l, S::CAP]);
    let v = shaped::<M>(b, 1, &[0, S::CAP - l, S::CAP]);
    let mut op = 0;
    while op < 7 {
        let mut s = fresh::<S>(prefix(&t, l));
        let f = Fickle::new(prefix(&u, a), prefix(&v, b), "");
        match op {
            0 => {
                if let Ok(z) = S::k_try_from_str(f) {
                    s = z
                }
            }
            1 => s = S::k_from_str_truncate(f),
            2 => {
                let _ = s.k_try_push_str(f);
            }
            3 => s.k_push_str_truncate(f),
            4 => {
                let _ = s.k_try_insert_str(i, f);
            }
            5 => {
                let _ = s.k_insert_str_truncate(i, f);
            }
            _ => {
                let _ = s.k_replace_range(i..i + 10, f);
            }
        }
        sound_large(&s);
        op += 1;
    }
    witness!(true, "completed");
}

harnesses! {
    q_build_n4 (8) = closed::<A<4>, 4, 6, 4>(&[0, 1, 10], true);
    q_append_n4 (8) = closed::<A<4>, 4, 5, 4>(&[13, 14, 15, 28, 32, 33], true);
    q_cut_n4 (8) = closed::<A<4>, 4, 1, 4>(&[16, 17, 24, 25], true);
    q_remove_n4 (6) = closed::<A<4>, 4, 1, 4>(&[19], true);
    q_insert_n4 (8) = closed::<A<4>, 4, 5, 4>(&[21, 22, 23], true);
    q_range_n4 (8) = closed::<A<4>, 4, 5, 4>(&[26, 27], true);
    q_after_append_n4 (8) = closed::<A<4>, 4, 5, 4>(&[13, 14, 15], false);
    q_after_insert_n4 (8) = closed::<A<4>, 4, 5, 4>(&[22, 23, 27], false);
    q_after_cut_n4 (8) = closed::<A<4>, 4, 5, 4>(&[16, 17, 25, 26], false);
    q_trim_n4 (8) = closed::<A<4>, 4, 1, 4>(&[18], true);
    q_retain_n3 (6) = closed::<A<3>, 3, 1, 3>(&[20], true);
    q_extend_n3 (5) = closed::<A<3>, 3, 2, 3>(&[29], true);
    q_extend_strs_n3 (5) = closed::<A<3>, 3, 2, 3>(&[31], true);
    q_from_iter_n3 (6) = closed::<A<3>, 3, 3, 3>(&[2, 3], true);
    q_from_chars_n3 (5) = closed::<A<3>, 3, 1, 3>(&[4, 5], true);
    q_utf16_n4 (5) = closed::<A<4>, 4, 1, 4>(&[7, 8], true);
    q_utf16_strict_n4 (5) = closed::<A<4>, 4, 1, 4>(&[6], true);
    q_fickle_from_n4 (8) = { fickle::<A<4>, 4, 5>(0); fickle::<A<4>, 4, 5>(1) };
    q_fickle_append_n4 (8) = { fickle::<A<4>, 4, 5>(2); fickle::<A<4>, 4, 5>(3) };
    q_fickle_insert_n4 (8) = fickle::<A<4>, 4, 5>(4);
    q_fickle_insert_truncate_n4 (8) = fickle::<A<4>, 4, 5>(5);
    q_fickle_replace_n4 (8) = fickle::<A<4>, 4, 5>(6);
    q_fickle_iter_n4 (8) = { fickle::<A<4>, 4, 5>(7); fickle::<A<4>, 4, 5>(8) };
    q_shifty_replace_n4 (8) = shifty::<A<4>, 4, 4>(true);
    q_shifty_drain_n4 (8) = shifty::<A<4>, 4, 1>(false);
    q_fickle_utf16_n4 (5) = { fickle_utf16::<4>(0); fickle_utf16::<4>(1); fickle_utf16::<4>(2) };
    q_lying_chars_n3 (5) = { lying::<A<3>, 3, 1>(0); lying::<A<3>, 3, 1>(1) };
    q_lying_collect_n3 (5) = lying::<A<3>, 3, 1>(2);
    q_lying_extend_n3 (5) = lying::<A<3>, 3, 1>(3);
    q_lying_strs_n3 (5) = { lying::<A<3>, 3, 3>(5); lying::<A<3>, 3, 3>(6) };
    q_lying_extend_strs_n3 (5) = lying::<A<3>, 3, 3>(8);
    q_drained_n3 (5) = drained::<A<3>, 3>(3);
    q_written_n4 (8) = written::<A<4>, 4>(&[14, 17, 25, 27]);
    q_cache_n63 (8) = closed::<Cs, 3, 2, 6>(&[16, 25, 26], true);
    q_cache_append_n63 (8) = closed::<Cs, 2, 2, 5>(&[13, 14], true);
    q_cache_insert_n63 (8) = closed::<Cs, 2, 2, 5>(&[23, 27], true);
    q_large_append_n255 (12) = large::<A<255>, 255, 300>(&[1, 13, 14, 15, 28], &[(254, 3, 30), (200, 60, 30), (0, 257, 0)]);
    q_large_insert_n255 (12) = large::<A<255>, 255, 300>(&[19, 21, 23, 25, 26, 27], &[(253, 3, 30), (200, 60, 130)]);
    q_large_cache_n63 (12) = large::<Cs, 63, 70>(&[1, 14, 15, 19, 21, 23, 25, 26, 27], &[(62, 3, 30), (40, 26, 20)]);
    q_fickle_grows_n255 (12) = fickle_large::<A<255>, 255, 300>(250, 3, 290, 130);
    q_fickle_shrinks_n255 (12) = fickle_large::<A<255>, 255, 300>(200, 50, 1, 60);
    t_append_n8 (14) = closed::<A<8>, 8, 9, 8>(&[13, 14, 15, 28], true);
    t_insert_n8 (14) = closed::<A<8>, 8, 9, 8>(&[21, 22, 23], true);
    t_range_n8 (14) = closed::<A<8>, 8, 9, 8>(&[26, 27], true);
    t_cut_n8 (14) = closed::<A<8>, 8, 1, 8>(&[16, 17, 25], true);
    t_trim_n6 (10) = closed::<A<6>, 6, 1, 6>(&[18], true);
    t_remove_n8 (12) = closed::<A<8>, 8, 1, 8>(&[19], true);
    t_retain_n4 (7) = closed::<A<4>, 4, 1, 4>(&[20], true);
    t_fickle_replace_n8 (14) = fickle::<A<8>, 8, 9>(6);
    t_shifty_drain_n8 (14) = shifty::<A<8>, 8, 1>(false);
    t_drained_n5 (8) = drained::<A<5>, 5>(5);
    t_chain_replace_n4 (8) = chained::<A<4>, 4, 4>(27, &[13, 14, 16, 17, 23, 25, 26, 27]);
    t_chain_split_n4 (8) = chained::<A<4>, 4, 4>(25, &[13, 14, 23, 26, 27]);
    t_chain_drain_n4 (8) = chained::<A<4>, 4, 4>(26, &[13, 14, 17, 23, 25, 27]);
    t_chain_truncate_n4 (8) = chained::<A<4>, 4, 4>(16, &[13, 14, 15, 23, 27, 28]);
    t_chain_push_n4 (8) = chained::<A<4>, 4, 4>(14, &[16, 17, 19, 23, 25, 26, 27]);
    t_chain_pop_n4 (8) = chained::<A<4>, 4, 4>(17, &[13, 14, 23, 27]);
}

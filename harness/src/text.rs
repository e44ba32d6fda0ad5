//! Symbolic texts and the reference notions the properties are written in.
use crate::nd;

#[inline(always)]
pub fn is_cont(b: u8) -> bool {
    b & 0xC0 == 0x80
}

/// Byte `i` of `t` starts a character, or `i` is the end.
#[inline(always)]
pub fn boundary(t: &[u8], i: usize) -> bool {
    if i >= t.len() {
        i == t.len()
    } else {
        !is_cont(t[i])
    }
}

/// Well-formed UTF-8 (Unicode 15, table 3-7) over the first `len` bytes of `b`,
/// written as an automaton with a fixed stride so that it stays cheap to encode.
#[inline(always)]
pub fn utf8_prefix<const M: usize>(b: &[u8; M], len: usize) -> bool {
    let mut need = 0u8;
    let mut lo = 0x80u8;
    let mut hi = 0xBFu8;
    let mut ok = true;
    let mut i = 0;
    while i < M {
        if i < len {
            let x = b[i];
            if need == 0 {
                if x >= 0x80 {
                    ok &= x >= 0xC2 && x <= 0xF4;
                    need = if x >= 0xF0 {
                        3
                    } else if x >= 0xE0 {
                        2
                    } else {
                        1
                    };
                    lo = if x == 0xE0 {
                        0xA0
                    } else if x == 0xF0 {
                        0x90
                    } else {
                        0x80
                    };
                    hi = if x == 0xED {
                        0x9F
                    } else if x == 0xF4 {
                        0x8F
                    } else {
                        0xBF
                    };
                }
            } else {
                ok &= x >= lo && x <= hi;
                need -= 1;
                lo = 0x80;
                hi = 0xBF;
            }
        }
        i += 1;
    }
    ok && need == 0
}

/// The same automaton over a slice of at most `M` bytes.
#[inline(always)]
pub fn utf8_slice<const M: usize>(b: &[u8]) -> bool {
    if b.len() > M {
        return false;
    }
    let mut need = 0u8;
    let mut lo = 0x80u8;
    let mut hi = 0xBFu8;
    let mut ok = true;
    let mut i = 0;
    while i < M {
        if i < b.len() {
            let x = b[i];
            if need == 0 {
                if x >= 0x80 {
                    ok &= x >= 0xC2 && x <= 0xF4;
                    need = if x >= 0xF0 {
                        3
                    } else if x >= 0xE0 {
                        2
                    } else {
                        1
                    };
                    lo = if x == 0xE0 {
                        0xA0
                    } else if x == 0xF0 {
                        0x90
                    } else {
                        0x80
                    };
                    hi = if x == 0xED {
                        0x9F
                    } else if x == 0xF4 {
                        0x8F
                    } else {
                        0xBF
                    };
                }
            } else {
                ok &= x >= lo && x <= hi;
                need -= 1;
                lo = 0x80;
                hi = 0xBF;
            }
        }
        i += 1;
    }
    ok && need == 0
}

/// An arbitrary text of at most `M` bytes.
#[derive(Clone, Copy)]
pub struct Text<const M: usize> {
    pub b: [u8; M],
    pub len: usize,
}

impl<const M: usize> Text<M> {
    #[inline(always)]
    pub fn any() -> Self {
        let t = Text {
            b: nd::bytes::<M>(),
            len: nd::upto(M),
        };
        nd::assume(utf8_prefix(&t.b, t.len));
        t
    }
    #[inline(always)]
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.len]
    }
    #[inline(always)]
    pub fn as_str(&self) -> &str {
        // Safety: utf8_prefix was assumed
        unsafe { core::str::from_utf8_unchecked(&self.b[..self.len]) }
    }
}

/// Sub-slice of a str at positions assumed to be boundaries.
#[inline(always)]
pub fn cut(t: &str, a: usize, b: usize) -> &str {
    unsafe { core::str::from_utf8_unchecked(&t.as_bytes()[a..b]) }
}

/// A symbolic char boundary of `t`.
#[inline(always)]
pub fn any_boundary(t: &[u8]) -> usize {
    let i = nd::upto(t.len());
    nd::assume(boundary(t, i));
    i
}

/// Widths of the characters of the repeating pattern, in bytes: 1 2 3 4, so the
/// boundaries are at 0, 1, 3 and 6 modulo 10.
const UNIT: [u8; 10] = [b'k', 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0xA4, 0x94];
const START: [usize; 10] = [0, 1, 1, 3, 3, 3, 6, 6, 6, 6];
const WIDTH: [usize; 10] = [1, 2, 2, 3, 3, 3, 4, 4, 4, 4];

/// A text of exactly `l` bytes for the large capacities: all four character
/// widths in turn (`phase` shifts the pattern), ASCII where a character would
/// not fit. Its shape is concrete; every ASCII byte further than 4 bytes from
/// the positions `near` (and from the end) is symbolic.
#[inline(always)]
pub fn shaped<const K: usize>(l: usize, phase: usize, near: &[usize]) -> [u8; K] {
    let mut b = [b'#'; K];
    let mut i = 0;
    while i < l {
        let p = (i + phase) % 10;
        let off = p - START[p];
        if off <= i && i - off + WIDTH[p] <= l {
            b[i] = UNIT[p];
        }
        if b[i] < 0x80 {
            let mut far = l - i > 4;
            let mut j = 0;
            while j < near.len() {
                far &= near[j] > i + 4 || i > near[j] + 4;
                j += 1;
            }
            if far {
                b[i] = nd::u8() & 0x7F;
            }
        }
        i += 1;
    }
    b
}

/// As `shaped`, without symbolic bytes.
#[inline(always)]
pub fn pattern<const K: usize>(l: usize) -> [u8; K] {
    let mut b = [b'#'; K];
    let mut i = 0;
    while i < l {
        let p = i % 10;
        let off = p - START[p];
        if off <= i && i - off + WIDTH[p] <= l {
            b[i] = UNIT[p];
        }
        i += 1;
    }
    b
}

/// The str of the first `n` bytes (which are valid by construction).
#[inline(always)]
pub fn prefix(b: &[u8], n: usize) -> &str {
    unsafe { core::str::from_utf8_unchecked(&b[..n]) }
}

/// Length of the longest prefix of a text of `total` bytes that has at most
/// `room` bytes and ends on a character boundary. `byte(i)` is the text.
#[inline(always)]
pub fn fit(total: usize, room: usize, byte: impl Fn(usize) -> u8) -> usize {
    if total <= room {
        return total;
    }
    let mut p = room;
    let mut k = 0;
    while k < 3 {
        if p > 0 && is_cont(byte(p)) {
            p -= 1;
        }
        k += 1;
    }
    p
}

/// UTF-8 encoding of a character (own reference, not core's).
#[inline(always)]
pub fn enc(c: char) -> ([u8; 4], usize) {
    let v = c as u32;
    let lo = |s: u32| 0x80 | ((v >> s) & 0x3F) as u8;
    if v < 0x80 {
        ([v as u8, 0, 0, 0], 1)
    } else if v < 0x800 {
        ([0xC0 | (v >> 6) as u8, lo(0), 0, 0], 2)
    } else if v < 0x10000 {
        ([0xE0 | (v >> 12) as u8, lo(6), lo(0), 0], 3)
    } else {
        ([0xF0 | (v >> 18) as u8, lo(12), lo(6), lo(0)], 4)
    }
}

/// Decodes the character that starts at `i` of a valid text: (char code, width).
#[inline(always)]
pub fn dec(t: &[u8], i: usize) -> (u32, usize) {
    let g = |k: usize| if i + k < t.len() { (t[i + k] & 0x3F) as u32 } else { 0 };
    let b = t[i];
    if b < 0x80 {
        (b as u32, 1)
    } else if b < 0xE0 {
        (((b & 0x1F) as u32) << 6 | g(1), 2)
    } else if b < 0xF0 {
        (((b & 0x0F) as u32) << 12 | g(1) << 6 | g(2), 3)
    } else {
        (((b & 0x07) as u32) << 18 | g(1) << 12 | g(2) << 6 | g(3), 4)
    }
}

/// Start of the last character of a non-empty valid text.
#[inline(always)]
pub fn last_start(t: &[u8]) -> usize {
    let mut p = t.len() - 1;
    let mut k = 0;
    while k < 3 {
        if p > 0 && is_cont(t[p]) {
            p -= 1;
        }
        k += 1;
    }
    p
}

/// `K` texts of at most `M` bytes each (possibly empty) and their concatenation.
pub struct Parts<const K: usize, const M: usize> {
    pub t: [Text<M>; K],
    pub n: usize,
}

impl<const K: usize, const M: usize> Parts<K, M> {
    #[inline(always)]
    pub fn any() -> Self {
        let mut t = [Text { b: [0; M], len: 0 }; K];
        let mut i = 0;
        while i < K {
            t[i] = Text::<M>::any();
            i += 1;
        }
        Parts { t, n: K }
    }
    #[inline(always)]
    pub fn strs(&self) -> [&str; K] {
        core::array::from_fn(|i| self.t[i].as_str())
    }
    #[inline(always)]
    pub fn total(&self) -> usize {
        let mut s = 0;
        let mut i = 0;
        while i < K {
            if i < self.n {
                s += self.t[i].len;
            }
            i += 1;
        }
        s
    }
    /// Byte `i` of the concatenation.
    #[inline(always)]
    pub fn at(&self, mut i: usize) -> u8 {
        let mut r = 0;
        let mut found = false;
        let mut k = 0;
        while k < K {
            if !found && k < self.n {
                if i < self.t[k].len {
                    r = self.t[k].b[i];
                    found = true;
                } else {
                    i -= self.t[k].len;
                }
            }
            k += 1;
        }
        r
    }
}

/// `K` characters and their concatenated encoding.
pub struct Chars<const K: usize> {
    pub c: [char; K],
    pub n: usize,
    e: [([u8; 4], usize); K],
}

impl<const K: usize> Chars<K> {
    #[inline(always)]
    pub fn any() -> Self {
        let mut c = ['\0'; K];
        let mut e = [([0; 4], 0); K];
        let mut i = 0;
        while i < K {
            c[i] = nd::char();
            e[i] = enc(c[i]);
            i += 1;
        }
        Chars { c, n: K, e }
    }
    #[inline(always)]
    pub fn total(&self) -> usize {
        let mut s = 0;
        let mut i = 0;
        while i < K {
            if i < self.n {
                s += self.e[i].1;
            }
            i += 1;
        }
        s
    }
    #[inline(always)]
    pub fn at(&self, mut i: usize) -> u8 {
        let mut r = 0;
        let mut found = false;
        let mut k = 0;
        while k < K {
            if !found && k < self.n {
                if i < self.e[k].1 {
                    r = self.e[k].0[i];
                    found = true;
                } else {
                    i -= self.e[k].1;
                }
            }
            k += 1;
        }
        r
    }
    #[inline(always)]
    pub fn slice(&self) -> &[char] {
        &self.c[..self.n]
    }
}

/// An iterator with any truthful size hint.
pub struct Hinted<I> {
    it: I,
    lo: usize,
    hi: Option<usize>,
}
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    #[inline(always)]
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    #[inline(always)]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        (if self.lo < n { self.lo } else { n }, self.hi.map(|h| if h > n { h } else { n }))
    }
}
#[inline(always)]
pub fn hinted<I: IntoIterator>(it: I) -> Hinted<I::IntoIter>
where
    I::IntoIter: ExactSizeIterator,
{
    let lo = nd::usize();
    let hi = nd::usize();
    Hinted { it: it.into_iter(), lo, hi: if nd::bool() { Some(hi) } else { None } }
}

/// `empty` empty texts, then `tail` (a cheap iterator for the solver).
pub struct Late<'a> {
    pub i: usize,
    pub empty: usize,
    pub tail: [&'a str; 2],
}
impl<'a> Iterator for Late<'a> {
    type Item = &'a str;
    #[inline(always)]
    fn next(&mut self) -> Option<&'a str> {
        let i = self.i;
        self.i += 1;
        if i < self.empty {
            Some("")
        } else if i < self.empty + 2 {
            Some(self.tail[i - self.empty])
        } else {
            None
        }
    }
}

//! C24 error values.
use crate::c14::Rec;
use crate::nd;
use crate::{check, harnesses, witness};
use arraystring::error::{OutOfBounds, Utf16, Utf8};
use arraystring::Error;
use core::fmt::Write;

const NAMES: [&str; 3] = ["Utf8", "Utf16", "OutOfBounds"];

#[inline(always)]
fn nth(k: u8) -> Error {
    match k {
        0 => Error::Utf8,
        1 => Error::Utf16,
        _ => Error::OutOfBounds,
    }
}

#[inline(always)]
fn kind(e: Error) -> u8 {
    match e {
        Error::Utf8 => 0,
        Error::Utf16 => 1,
        Error::OutOfBounds => 2,
    }
}

fn pairs() {
    let (i, j) = (nd::u8() % 3, nd::u8() % 3);
    let (a, b) = (nth(i), nth(j));
    check!((a == b) == (i == j) && (a != b) == (i != j), "equal exactly to itself");
    let c = a;
    check!(c == a && kind(a.clone()) == i, "copies and clones are the same kind");
    witness!(i == j, "same kind");
    witness!(i != j, "different kinds");
}

fn hashes() {
    let (i, j) = (nd::u8() % 3, nd::u8() % 3);
    let same = Rec::of(&nth(i)).eq(&Rec::of(&nth(j)));
    check!(same == (i == j), "hashed alike exactly when equal");
    witness!(i == 0 && j == 2, "different kinds");
}

fn conversions() {
    check!(kind(Error::from(Utf8)) == 0, "Utf8 converts to Utf8");
    check!(kind(Error::from(Utf16)) == 1, "Utf16 converts to Utf16");
    check!(kind(Error::from(OutOfBounds)) == 2, "OutOfBounds converts to OutOfBounds");
    let b = nd::u8() | 0x80; // a lone byte that is not ASCII is never valid
    let bytes = [b];
    match core::str::from_utf8(&bytes) {
        Ok(_) => check!(false, "invalid UTF-8"),
        Err(e) => {
            check!(kind(Error::from(e)) == 0, "core's UTF-8 error converts to Utf8");
            check!(Utf8::from(e) == Utf8, "core's UTF-8 error converts to the Utf8 struct");
        }
    }
    let u = 0xD800 | (nd::u16() & 0x7FF);
    match core::char::decode_utf16([u]).next() {
        Some(Err(e)) => {
            check!(kind(Error::from(e.clone())) == 1, "core's UTF-16 error converts to Utf16");
            check!(Utf16::from(e) == Utf16, "core's UTF-16 error converts to the Utf16 struct");
        }
        _ => check!(false, "an unpaired surrogate"),
    }
    check!(kind(Error::from("x".encode_utf16())) == 1, "the UTF-16 encoder converts to Utf16");
    check!(Utf16::from("x".encode_utf16()) == Utf16, "the UTF-16 encoder converts to the Utf16 struct");
    check!(Utf8::default() == Utf8 && Utf16::default() == Utf16 && OutOfBounds::default() == OutOfBounds, "the structs equal themselves");
    witness!(b > 0xF0, "converted");
}

struct Out {
    b: [u8; 24],
    n: usize,
}

impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < 24 {
            if i < s.len() && self.n + i < 24 {
                self.b[self.n + i] = s[i];
            }
            i += 1;
        }
        self.n += s.len();
        Ok(())
    }
}

/// What was written ends in `name` (and is nothing else when `exact`).
#[inline(always)]
fn ends(o: &Out, name: &str, exact: bool) {
    let w = name.as_bytes();
    check!(o.n <= 24 && if exact { o.n == w.len() } else { o.n >= w.len() }, "as long as the name");
    let i = nd::usize();
    if i < w.len() && o.n <= 24 && o.n >= w.len() {
        check!(o.b[o.n - w.len() + i] == w[i], "its own name");
    }
}

fn prints() {
    let mut k = 0;
    while k < 3 {
        let mut o = Out { b: [0; 24], n: 0 };
        check!(write!(o, "{}", nth(k)).is_ok(), "printing succeeds");
        ends(&o, NAMES[k as usize], true);
        let mut o = Out { b: [0; 24], n: 0 };
        check!(write!(o, "{:?}", nth(k)).is_ok(), "debug printing succeeds");
        ends(&o, NAMES[k as usize], false);
        k += 1;
    }
    witness!(true, "all variants");
}

fn structs() {
    let mut o = Out { b: [0; 24], n: 0 };
    check!(write!(o, "{}", Utf8).is_ok(), "printing succeeds");
    ends(&o, NAMES[0], true);
    let mut o = Out { b: [0; 24], n: 0 };
    check!(write!(o, "{}", Utf16).is_ok(), "printing succeeds");
    ends(&o, NAMES[1], true);
    let mut o = Out { b: [0; 24], n: 0 };
    check!(write!(o, "{}", OutOfBounds).is_ok(), "printing succeeds");
    ends(&o, NAMES[2], true);
    let mut o = Out { b: [0; 24], n: 0 };
    check!(write!(o, "{:?}", Utf8).is_ok(), "printing succeeds");
    ends(&o, NAMES[0], false);
    let mut o = Out { b: [0; 24], n: 0 };
    check!(write!(o, "{:?}", Utf16).is_ok(), "printing succeeds");
    ends(&o, NAMES[1], false);
    let mut o = Out { b: [0; 24], n: 0 };
    check!(write!(o, "{:?}", OutOfBounds).is_ok(), "printing succeeds");
    ends(&o, NAMES[2], false);
    witness!(true, "all structs");
}

harnesses! {
    q_pairs (4) = pairs();
    q_hashes (30) = hashes();
    q_conversions (6) = conversions();
    q_prints (30) = prints();
    q_structs (30) = structs();
}

//! C21 serde.
use crate::api::*;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};

/// Errors of the format: raised by it (with a number), or by the visitor.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum E {
    Mine(u8),
    Visitor,
}
impl core::fmt::Display for E {
    fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        E::Visitor
    }
    // without formatting
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        E::Visitor
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        E::Visitor
    }
}
impl ser::Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        E::Visitor
    }
}

/// How the text is supplied.
pub const FORMS: u8 = 6;

/// Supplies one text in one form, when asked for a string (or for anything).
pub struct Source<'de> {
    text: &'de [u8],
    form: u8,
    fail: Option<u8>,
}

impl<'de> Source<'de> {
    fn supply<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if let Some(k) = self.fail {
            return Err(E::Mine(k));
        }
        let t = self.text;
        // Safety: the str forms are only used with valid texts
        let s: &'de str = unsafe { core::str::from_utf8_unchecked(t) };
        match self.form {
            0 => v.visit_borrowed_str(s),
            1 => {
                // transient: gone when the visitor returns
                let mut b = [0u8; 16];
                let mut i = 0;
                while i < 16 {
                    if i < t.len() {
                        b[i] = t[i];
                    }
                    i += 1;
                }
                v.visit_str(prefix(&b, t.len()))
            }
            2 => v.visit_string(String::from(s)),
            3 => v.visit_borrowed_bytes(t),
            4 => v.visit_bytes(t),
            5 => v.visit_byte_buf(Vec::from(t)),
            6 => v.visit_u64(7),
            7 => v.visit_unit(),
            _ => v.visit_bool(true),
        }
    }
}

macro_rules! refuse {
    ($($f:ident)*) => { $(
        fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
            Err(E::Mine(255))
        }
    )* };
}

impl<'de> Deserializer<'de> for Source<'de> {
    type Error = E;
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.supply(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.supply(v)
    }
    refuse!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char
        deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map
        deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> {
        Err(E::Mine(255))
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> {
        Err(E::Mine(255))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> {
        Err(E::Mine(255))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> {
        Err(E::Mine(255))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E::Mine(255))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> {
        Err(E::Mine(255))
    }
}

/// Receives exactly one str; what it is given, and its own verdict.
pub struct Target<'a> {
    b: &'a mut [u8],
    n: &'a mut usize,
    answer: Result<u8, u8>,
}

macro_rules! reject {
    ($($f:ident: $t:ty),*) => { $(
        fn $f(self, _: $t) -> Result<u8, E> {
            Err(E::Mine(255))
        }
    )* };
}

impl<'a> Serializer for Target<'a> {
    type Ok = u8;
    type Error = E;
    type SerializeSeq = Impossible<u8, E>;
    type SerializeTuple = Impossible<u8, E>;
    type SerializeTupleStruct = Impossible<u8, E>;
    type SerializeTupleVariant = Impossible<u8, E>;
    type SerializeMap = Impossible<u8, E>;
    type SerializeStruct = Impossible<u8, E>;
    type SerializeStructVariant = Impossible<u8, E>;
    fn serialize_str(self, v: &str) -> Result<u8, E> {
        let v = v.as_bytes();
        *self.n = v.len();
        let k = if v.len() < self.b.len() { v.len() } else { self.b.len() };
        self.b[..k].copy_from_slice(&v[..k]);
        self.answer.map_err(E::Mine)
    }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, v: &T) -> Result<u8, E> {
        struct W<'b>(&'b mut [u8], &'b mut usize);
        impl core::fmt::Write for W<'_> {
            fn write_str(&mut self, s: &str) -> core::fmt::Result {
                let s = s.as_bytes();
                let k = if *self.1 + s.len() <= self.0.len() { s.len() } else { 0 };
                self.0[*self.1..*self.1 + k].copy_from_slice(&s[..k]);
                *self.1 += s.len();
                Ok(())
            }
        }
        *self.n = 0;
        let _ = core::fmt::Write::write_fmt(&mut W(self.b, self.n), format_args!("{}", v));
        self.answer.map_err(E::Mine)
    }
    reject!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
        serialize_f64: f64, serialize_char: char, serialize_bytes: &[u8], serialize_unit_struct: &'static str);
    fn serialize_none(self) -> Result<u8, E> {
        Err(E::Mine(255))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<u8, E> {
        Err(E::Mine(255))
    }
    fn serialize_unit(self) -> Result<u8, E> {
        Err(E::Mine(255))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u8, E> {
        Err(E::Mine(255))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<u8, E> {
        Err(E::Mine(255))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u8, E> {
        Err(E::Mine(255))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E::Mine(255))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E::Mine(255))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E::Mine(255))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E::Mine(255))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E::Mine(255))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E::Mine(255))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E::Mine(255))
    }
}

#[inline(always)]
fn put<S: Api + Serialize>(s: &S, t: &[u8], answer: Result<u8, u8>) {
    let mut b = [0u8; 260];
    let mut n = 999;
    let r = s.serialize(Target { b: &mut b, n: &mut n, answer });
    check!(r == answer.map_err(E::Mine), "the serializer's verdict is passed on");
    check!(n == t.len(), "as many bytes as the content");
    is_exactly(&b[..if n <= 260 { n } else { 0 }], t.len(), |i| t[i]);
}

pub fn serialize<S: Api + Serialize, const L: usize>() {
    let (s, t) = state::<S, L>();
    let k = nd::u8();
    let answer = if nd::bool() { Ok(k) } else { Err(k) };
    put(&s, t.bytes(), answer);
    witness!(t.len == L && answer.is_ok(), "handed over");
    witness!(answer.is_err(), "refused by the format");
}

pub fn serialize_big<S: Api + Serialize, const K: usize>(l: usize) {
    let t = shaped::<K>(l, 0, &[]);
    let s = fresh::<S>(prefix(&t, l));
    put(&s, &t[..l], Ok(1));
    witness!(true, "large");
}

#[inline(always)]
fn got<S: Api>(r: Result<S, E>, m: usize, at: impl Fn(usize) -> u8) {
    let n = fit(m, S::CAP, &at);
    check!(r.is_ok(), "a string is accepted however it is supplied");
    if let Ok(s) = &r {
        is_exactly(text(s), n, &at);
    }
    witness!(m > S::CAP && n < S::CAP, "cut before a character that only partly fits");
    witness!(m <= S::CAP && m > 0, "kept whole");
}

/// Valid texts, in the given form.
pub fn accepts<S: Api + for<'d> Deserialize<'d>, const M: usize>(form: u8) {
    let u = Text::<M>::any();
    let r = S::deserialize(Source { text: u.bytes(), form, fail: None });
    got(r, u.len, |i| u.b[i]);
}

pub fn accepts_big<S: Api + for<'d> Deserialize<'d>, const K: usize>(ls: &[usize]) {
    let mut k = 0;
    while k < ls.len() {
        let l = ls[k];
        let b = shaped::<K>(l, k, &[S::CAP]);
        let r = S::deserialize(Source { text: &b[..l], form: 0, fail: None });
        got(r, l, |i| b[i]);
        k += 1;
    }
}

/// Arbitrary bytes (of each length up to M): accepted exactly when they are valid UTF-8.
pub fn bytes<S: Api + for<'d> Deserialize<'d>, const M: usize>(form: u8) {
    let b = nd::bytes::<M>();
    let mut n = 0;
    while n <= M {
        let ok = utf8_prefix(&b, n);
        let r = S::deserialize(Source { text: &b[..n], form, fail: None });
        check!(r.is_ok() == ok, "bytes are accepted exactly when they are valid UTF-8");
        if let Ok(s) = &r {
            let k = fit(n, S::CAP, |i| b[i]);
            is_exactly(text(s), k, |i| b[i]);
        }
        n += 1;
    }
    witness!(!utf8_prefix(&b, M) && b[0] < 0x80, "invalid further in");
    witness!(utf8_prefix(&b, M), "valid");
}

/// The longest only.
pub fn bytes_one<S: Api + for<'d> Deserialize<'d>, const M: usize>(form: u8) {
    let b = nd::bytes::<M>();
    let ok = utf8_prefix(&b, M);
    let r = S::deserialize(Source { text: &b, form, fail: None });
    check!(r.is_ok() == ok, "bytes are accepted exactly when they are valid UTF-8");
    if let Ok(s) = &r {
        let k = fit(M, S::CAP, |i| b[i]);
        is_exactly(text(s), k, |i| b[i]);
        witness!(k < S::CAP, "valid, too long and cut before a wide character");
    }
    witness!(!ok && b[0] < 0x80, "invalid further in");
}

pub fn errors<S: Api + for<'d> Deserialize<'d>>() {
    let k = nd::u8();
    let r = S::deserialize(Source { text: b"ab", form: 0, fail: Some(k) });
    check!(matches!(r, Err(E::Mine(x)) if x == k), "the format's error is passed on");
    let form = 6 + nd::u8() % 3;
    let r = S::deserialize(Source { text: b"ab", form, fail: None });
    check!(matches!(r, Err(E::Visitor)), "anything but a string is refused");
    witness!(k == 3 && form == 8, "refused");
}

/// There and back.
pub fn round<S: Api + Serialize + for<'d> Deserialize<'d>, const L: usize>(form: u8) {
    let (s, t) = state::<S, L>();
    let mut b = [0u8; L];
    let mut n = 0;
    let r = s.serialize(Target { b: &mut b, n: &mut n, answer: Ok(0) });
    nd::assume(r.is_ok() && n <= L);
    let z = S::deserialize(Source { text: &b[..n], form, fail: None });
    check!(z.is_ok(), "what was serialized can be deserialized");
    if let Ok(z) = &z {
        check!(*z == s, "equal after a round trip");
    }
    witness!(t.len == L, "full");
}

harnesses! {
    q_serialize_n4 (8) = serialize::<A<4>, 4>();
    q_cache_serialize_n63 (8) = serialize::<Cs, 3>();
    q_serialize_big_n255 (12) = { serialize_big::<A<255>, 255>(255); serialize_big::<A<255>, 255>(130) };
    q_serialize_big_cache_n63 (12) = serialize_big::<Cs, 63>(63);
    q_borrowed_n4 (9) = accepts::<A<4>, 7>(0);
    q_transient_n4 (9) = accepts::<A<4>, 7>(1);
    q_owned_n4 (9) = accepts::<A<4>, 6>(2);
    q_bytes_n4 (9) = bytes::<A<4>, 4>(4);
    q_bytes_long_n3 (9) = bytes_one::<A<3>, 5>(3);
    q_byte_buf_n2 (9) = bytes::<A<2>, 3>(5);
    q_errors_n4 (8) = errors::<A<4>>();
    q_cache_errors_n63 (8) = errors::<Cs>();
    q_cache_borrowed_n63 (8) = accepts_big::<Cs, 72>(&[5, 63, 64, 66]);
    q_cache_bytes_n63 (8) = bytes::<Cs, 3>(3);
    q_borrowed_big_n255 (12) = accepts_big::<A<255>, 264>(&[128, 255, 256, 258]);
    q_round_n4 (9) = round::<A<4>, 4>(0);
    q_round_copied_n4 (9) = round::<A<4>, 4>(1);
    t_borrowed_n16 (24) = accepts::<A<16>, 20>(0);
    t_owned_n8 (14) = accepts::<A<8>, 11>(2);
    t_bytes_n6 (12) = bytes::<A<6>, 7>(4);
    t_round_n8 (14) = round::<A<8>, 8>(0);
    t_wide_n255 (12) = accepts_big::<A<255>, 520>(&[0, 254, 257, 259, 511, 512, 513]);
}

//! One view of the public API, implemented for every string type under test, so
//! that the same property body is instantiated for each of them. Only public
//! items of the crate are used.
use arraystring::prelude::*;
use arraystring::Error;
use core::borrow::{Borrow, BorrowMut};
use core::fmt::{Display, Write};
use core::hash::Hash;
use core::ops::*;
use core::str::FromStr;

pub trait DrainApi: Copy + Eq + Ord + Hash + Default + DoubleEndedIterator<Item = char> {
    fn k_str(&self) -> &str;
}

pub trait Api:
    Copy
    + Default
    + Eq
    + Ord
    + Hash
    + Display
    + PartialEq<str>
    + for<'a> PartialEq<&'a str>
    + Borrow<str>
    + BorrowMut<str>
    + AsRef<str>
    + AsMut<str>
    + AsRef<[u8]>
    + FromStr
    + for<'a> From<&'a str>
    + for<'a> Add<&'a str, Output = Self>
    + Write
    + FromIterator<char>
    + for<'a> FromIterator<&'a str>
    + Extend<char>
    + for<'a> Extend<&'a char>
    + for<'a> Extend<&'a str>
    + Index<Range<u8>, Output = str>
    + Index<RangeFrom<u8>, Output = str>
    + Index<RangeTo<u8>, Output = str>
    + Index<RangeFull, Output = str>
    + Index<RangeInclusive<u8>, Output = str>
    + Index<RangeToInclusive<u8>, Output = str>
    + IndexMut<Range<u8>>
    + IndexMut<RangeFrom<u8>>
    + IndexMut<RangeTo<u8>>
    + IndexMut<RangeFull>
    + IndexMut<RangeInclusive<u8>>
    + IndexMut<RangeToInclusive<u8>>
{
    const CAP: usize;
    type D: DrainApi;
    fn k_parse(s: &str) -> Result<Self, OutOfBounds>;
    fn k_new() -> Self;
    fn k_capacity() -> usize;
    fn k_try_from_str(s: impl AsRef<str>) -> Result<Self, OutOfBounds>;
    fn k_from_str_truncate(s: impl AsRef<str>) -> Self;
    fn k_try_from_iterator<T: AsRef<str>>(i: impl IntoIterator<Item = T>) -> Result<Self, OutOfBounds>;
    fn k_from_iterator_truncate<T: AsRef<str>>(i: impl IntoIterator<Item = T>) -> Self;
    fn k_try_from_chars(i: impl IntoIterator<Item = char>) -> Result<Self, OutOfBounds>;
    fn k_from_chars_truncate(i: impl IntoIterator<Item = char>) -> Self;
    fn k_try_from_utf16(s: &[u16]) -> Result<Self, Error>;
    fn k_from_utf16_truncate(s: &[u16]) -> Result<Self, Utf16>;
    fn k_from_utf16_lossy_truncate(s: &[u16]) -> Self;
    fn k_as_str(&self) -> &str;
    fn k_as_mut_str(&mut self) -> &mut str;
    fn k_deref(&self) -> &str;
    fn k_deref_mut(&mut self) -> &mut str;
    fn k_try_push_str(&mut self, s: impl AsRef<str>) -> Result<(), OutOfBounds>;
    fn k_push_str_truncate(&mut self, s: impl AsRef<str>);
    fn k_try_push(&mut self, c: char) -> Result<(), OutOfBounds>;
    fn k_truncate(&mut self, n: usize) -> Result<(), Utf8>;
    fn k_pop(&mut self) -> Option<char>;
    fn k_trim(&mut self);
    fn k_remove(&mut self, i: usize) -> Result<char, Error>;
    fn k_retain(&mut self, f: impl FnMut(char) -> bool);
    fn k_try_insert(&mut self, i: usize, c: char) -> Result<(), Error>;
    fn k_try_insert_str(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error>;
    fn k_insert_str_truncate(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error>;
    fn k_len(&self) -> usize;
    fn k_is_empty(&self) -> bool;
    fn k_split_off(&mut self, i: usize) -> Result<Self, Error>;
    fn k_clear(&mut self);
    fn k_drain(&mut self, r: impl RangeBounds<usize>) -> Result<Self::D, Error>;
    fn k_replace_range(&mut self, r: impl RangeBounds<usize>, s: impl AsRef<str>) -> Result<(), Error>;
}

macro_rules! res {
    (plain $e:expr) => {
        $e
    };
    (logged $e:expr) => {
        $e.map_err(Plain::plain)
    };
}

macro_rules! api {
    ($t:ty, $cap:expr, $inner:ty, $drain:ty, $how:ident) => {
        impl Api for $t {
            const CAP: usize = $cap;
            type D = $drain;
            fn k_parse(s: &str) -> Result<Self, OutOfBounds> {
                res!($how s.parse::<$t>())
            }
            #[inline(always)]
            fn k_new() -> Self {
                <$t>::new()
            }
            fn k_capacity() -> usize {
                <$t>::capacity()
            }
            fn k_try_from_str(s: impl AsRef<str>) -> Result<Self, OutOfBounds> {
                res!($how <$t>::try_from_str(s))
            }
            fn k_from_str_truncate(s: impl AsRef<str>) -> Self {
                <$t>::from_str_truncate(s)
            }
            fn k_try_from_iterator<T: AsRef<str>>(i: impl IntoIterator<Item = T>) -> Result<Self, OutOfBounds> {
                res!($how <$t>::try_from_iterator(i))
            }
            fn k_from_iterator_truncate<T: AsRef<str>>(i: impl IntoIterator<Item = T>) -> Self {
                <$t>::from_iterator_truncate(i)
            }
            fn k_try_from_chars(i: impl IntoIterator<Item = char>) -> Result<Self, OutOfBounds> {
                res!($how <$t>::try_from_chars(i))
            }
            fn k_from_chars_truncate(i: impl IntoIterator<Item = char>) -> Self {
                <$t>::from_chars_truncate(i)
            }
            fn k_try_from_utf16(s: &[u16]) -> Result<Self, Error> {
                res!($how <$t>::try_from_utf16(s))
            }
            fn k_from_utf16_truncate(s: &[u16]) -> Result<Self, Utf16> {
                res!($how <$t>::from_utf16_truncate(s))
            }
            fn k_from_utf16_lossy_truncate(s: &[u16]) -> Self {
                <$t>::from_utf16_lossy_truncate(s)
            }
            #[inline(always)]
            fn k_as_str(&self) -> &str {
                self.as_str()
            }
            fn k_as_mut_str(&mut self) -> &mut str {
                self.as_mut_str()
            }
            fn k_deref(&self) -> &str {
                let d: &$inner = self;
                &**d
            }
            fn k_deref_mut(&mut self) -> &mut str {
                let d: &mut $inner = self;
                &mut **d
            }
            fn k_try_push_str(&mut self, s: impl AsRef<str>) -> Result<(), OutOfBounds> {
                res!($how self.try_push_str(s))
            }
            fn k_push_str_truncate(&mut self, s: impl AsRef<str>) {
                self.push_str_truncate(s)
            }
            fn k_try_push(&mut self, c: char) -> Result<(), OutOfBounds> {
                res!($how self.try_push(c))
            }
            fn k_truncate(&mut self, n: usize) -> Result<(), Utf8> {
                res!($how self.truncate(n))
            }
            fn k_pop(&mut self) -> Option<char> {
                self.pop()
            }
            fn k_trim(&mut self) {
                self.trim()
            }
            fn k_remove(&mut self, i: usize) -> Result<char, Error> {
                res!($how self.remove(i))
            }
            fn k_retain(&mut self, f: impl FnMut(char) -> bool) {
                self.retain(f)
            }
            fn k_try_insert(&mut self, i: usize, c: char) -> Result<(), Error> {
                res!($how self.try_insert(i, c))
            }
            fn k_try_insert_str(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error> {
                res!($how self.try_insert_str(i, s))
            }
            fn k_insert_str_truncate(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error> {
                res!($how self.insert_str_truncate(i, s))
            }
            #[inline(always)]
            fn k_len(&self) -> usize {
                self.len()
            }
            fn k_is_empty(&self) -> bool {
                self.is_empty()
            }
            fn k_split_off(&mut self, i: usize) -> Result<Self, Error> {
                res!($how self.split_off(i))
            }
            fn k_clear(&mut self) {
                self.clear()
            }
            fn k_drain(&mut self, r: impl RangeBounds<usize>) -> Result<$drain, Error> {
                res!($how self.drain(r))
            }
            fn k_replace_range(&mut self, r: impl RangeBounds<usize>, s: impl AsRef<str>) -> Result<(), Error> {
                res!($how self.replace_range(r, s))
            }
        }
    };
}

macro_rules! arrays {
    ($($n:literal)*) => { $(
        impl DrainApi for Drain<$n> {
            #[inline(always)]
            fn k_str(&self) -> &str { self.as_str() }
        }
        api!(ArrayString<$n>, $n, ArrayString<$n>, Drain<$n>, plain);
    )* };
}
arrays!(1 2 3 4 5 6 7 8 9 10 12 16 23 24 32 63 255);
api!(CacheString, 63, ArrayString<63>, Drain<63>, plain);

/// The same sources compiled with the logging feature (see ../logged/Cargo.toml).
#[cfg(feature = "logs")]
mod logged {
    use super::*;
    use arraystring_logged as lg;

    /// The same error of the variant without logging.
    trait Plain<T> {
        fn plain(self) -> T;
    }
    impl Plain<Error> for lg::Error {
        fn plain(self) -> Error {
            match self {
                lg::Error::Utf8 => Error::Utf8,
                lg::Error::Utf16 => Error::Utf16,
                lg::Error::OutOfBounds => Error::OutOfBounds,
            }
        }
    }
    impl Plain<OutOfBounds> for lg::prelude::OutOfBounds {
        fn plain(self) -> OutOfBounds {
            OutOfBounds
        }
    }
    impl Plain<Utf8> for lg::prelude::Utf8 {
        fn plain(self) -> Utf8 {
            Utf8
        }
    }
    impl Plain<Utf16> for lg::prelude::Utf16 {
        fn plain(self) -> Utf16 {
            Utf16
        }
    }
    macro_rules! arrays {
        ($($n:literal)*) => { $(
            impl DrainApi for lg::Drain<$n> {
                #[inline(always)]
                fn k_str(&self) -> &str { self.as_str() }
            }
            api!(lg::ArrayString<$n>, $n, lg::ArrayString<$n>, lg::Drain<$n>, logged);
        )* };
    }
    arrays!(1 2 3 4 8 63 255);
    api!(lg::CacheString, 63, lg::ArrayString<63>, lg::Drain<63>, logged);
}

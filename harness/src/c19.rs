//! C19 layout and capacity. Works on a crate that lacks some capacity, too: the
//! bound is detected, not required.
use crate::common::*;
use crate::{check, harnesses, witness};
use core::marker::PhantomData;

/// `Has::<T>::YES` is whether `T: Default`, which the crate promises for exactly
/// the usable capacities (an inherent constant is preferred when its bound holds).
struct Has<T>(PhantomData<T>);
impl<T: Default> Has<T> {
    const YES: bool = true;
}
trait HasNot {
    const YES: bool;
}
impl<T> HasNot for Has<T> {
    const YES: bool = false;
}

macro_rules! exists {
    ($($n:literal)*) => { $(
        check!(Has::<A<$n>>::YES, "every capacity from 1 to 255 exists");
    )* };
}
macro_rules! sized {
    ($($n:literal)*) => { $(
        check!(core::mem::size_of::<A<$n>>() == $n + 1, "occupies capacity + 1 bytes");
        check!(core::mem::align_of::<A<$n>>() == 1, "needs no alignment");
    )* };
}
macro_rules! absent {
    ($($n:literal)*) => { $(
        check!(!Has::<A<$n>>::YES, "no other capacity can be used");
    )* };
}
#[macro_export]
macro_rules! every_capacity {
    ($m:ident) => {
        $m!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64);
        $m!(65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128);
        $m!(129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192);
        $m!(193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255);
    };
}

fn existence() {
    every_capacity!(exists);
    absent!(0 256 257 258 300 384 511 512 513 1000 1024 4096 32767 32768 65535 65536 1000000 4294967296 18446744073709551615);
    witness!(true, "all capacities");
}

fn sizes() {
    every_capacity!(sized);
    witness!(true, "all sizes");
}

fn aliases() {
    use arraystring::{CacheString, MaxString, SmallString};
    use core::mem::{align_of, size_of};
    check!(size_of::<CacheString>() == 64 && align_of::<CacheString>() == 64, "the cache-line string is one cache line");
    check!(CacheString::capacity() == 63, "the cache-line string has capacity 63");
    check!(size_of::<SmallString>() == 3 * size_of::<usize>(), "the small string has the size of three words");
    check!(SmallString::capacity() == size_of::<SmallString>() - 1, "the small string holds all but one byte of it");
    check!(MaxString::capacity() == 255 && size_of::<MaxString>() == 256, "the biggest string holds 255 bytes");
    witness!(true, "aliases");
}

harnesses! {
    q_existence (2) = existence();
    q_sizes (2) = sizes();
    q_aliases (2) = aliases();
}

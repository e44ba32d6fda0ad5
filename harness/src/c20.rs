//! C20 the cache-line string against a 63-byte string.
use crate::api::*;
use crate::c14::Rec;
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring::Error;
use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::fmt::Write;
use core::ops::Bound;

type R = A<63>;

/// What a call shows: a verdict, a number and up to two strings.
pub struct Out<S> {
    pub code: u8,
    pub num: u32,
    pub s: S,
    pub z: S,
}

/// The arguments, shared by both sides.
pub struct Args<'a> {
    pub u: &'a str,
    pub w: &'a str,
    pub i: usize,
    pub b: (Bound<usize>, Bound<usize>),
    pub c: char,
    pub d: char,
    pub x: &'a [u16],
}

#[inline(always)]
fn of<T>(r: &Result<T, Error>) -> u8 {
    match r {
        Ok(_) => 0,
        Err(Error::Utf8) => 1,
        Err(Error::Utf16) => 2,
        Err(Error::OutOfBounds) => 3,
    }
}

/// Operation `op` on `s`.
#[inline(always)]
pub fn perform<S: Api>(op: u8, mut s: S, a: &Args) -> Out<S> {
    let mut code = 0;
    let mut num = 0;
    let mut z = S::k_new();
    match op {
        // constructors
        0 => match S::k_try_from_str(a.u) {
            Ok(v) => s = v,
            Err(_) => code = 3,
        },
        1 => s = S::k_from_str_truncate(a.u),
        2 => match S::k_try_from_iterator([a.u, a.w]) {
            Ok(v) => s = v,
            Err(_) => code = 3,
        },
        3 => s = S::k_from_iterator_truncate([a.u, a.w]),
        4 => match S::k_try_from_chars([a.c, a.d]) {
            Ok(v) => s = v,
            Err(_) => code = 3,
        },
        5 => s = S::k_from_chars_truncate([a.c, a.d]),
        6 => {
            let r = S::k_try_from_utf16(a.x);
            code = of(&r);
            if let Ok(v) = r {
                s = v
            }
        }
        7 => match S::k_from_utf16_truncate(a.x) {
            Ok(v) => s = v,
            Err(_) => code = 2,
        },
        8 => s = S::k_from_utf16_lossy_truncate(a.x),
        9 => match S::k_parse(a.u) {
            Ok(v) => s = v,
            Err(_) => code = 3,
        },
        10 => s = S::from(a.u),
        11 => s = [a.c, a.d].into_iter().collect(),
        12 => s = [a.u, a.w].into_iter().collect(),
        // mutators
        13 => code = 3 * s.k_try_push_str(a.u).is_err() as u8,
        14 => s.k_push_str_truncate(a.u),
        15 => code = 3 * s.k_try_push(a.c).is_err() as u8,
        16 => code = s.k_truncate(a.i).is_err() as u8,
        17 => {
            if let Some(c) = s.k_pop() {
                code = 9;
                num = c as u32;
            }
        }
        18 => s.k_trim(),
        19 => {
            let r = s.k_remove(a.i);
            code = of(&r);
            if let Ok(c) = r {
                num = c as u32
            }
        }
        20 => s.k_retain(|c| c != a.c),
        21 => code = of(&s.k_try_insert(a.i, a.c)),
        22 => code = of(&s.k_try_insert_str(a.i, a.u)),
        23 => code = of(&s.k_insert_str_truncate(a.i, a.u)),
        24 => s.k_clear(),
        25 => {
            let r = s.k_split_off(a.i);
            code = of(&r);
            if let Ok(v) = r {
                z = v
            }
        }
        26 => {
            let r = s.k_drain(a.b);
            code = of(&r);
            if let Ok(d) = r {
                z = S::k_from_str_truncate(d.k_str())
            }
        }
        27 => code = of(&s.k_replace_range(a.b, a.u)),
        // operators and conversions
        28 => s = s + a.u,
        29 => s.extend([a.c, a.d]),
        30 => s.extend([&a.c, &a.d]),
        31 => s.extend([a.u, a.w]),
        32 => code = s.write_str(a.u).is_err() as u8,
        33 => code = s.write_char(a.c).is_err() as u8,
        34 => {
            let r: S = fresh(a.u);
            code = match s.cmp(&r) {
                Ordering::Less => 0,
                Ordering::Equal => 1,
                Ordering::Greater => 2,
            };
            num = (s == r) as u32 | ((s == *a.u) as u32) << 1 | ((s == a.u) as u32) << 2 | ((s.partial_cmp(&r) == Some(Ordering::Less)) as u32) << 3;
        }
        35 => code = write!(z, "{}", s).is_err() as u8,
        36 => {
            let v: &str = s.borrow();
            z = fresh(v);
            let w: &str = s.as_ref();
            let y: &[u8] = s.as_ref();
            num = (w.len() << 8 | y.len()) as u32;
        }
        37 => {
            let v: &mut str = s.borrow_mut();
            v.make_ascii_uppercase();
        }
        38 => {
            let v: &mut str = s.as_mut();
            v.make_ascii_uppercase();
        }
        39 => {
            s = S::default();
            num = S::k_capacity() as u32;
        }
        _ => {
            num = s.k_len() as u32;
            code = s.k_is_empty() as u8;
        }
    }
    Out { code, num, s, z }
}

#[inline(always)]
pub fn agree<S: Api, T: Api>(x: &Out<S>, y: &Out<T>) {
    check!(x.code == y.code, "same verdict");
    check!(x.num == y.num, "same value");
    same(text(&x.s), text(&y.s));
    same(text(&x.z), text(&y.z));
}

/// Short symbolic content and arguments.
pub fn small<const L: usize>(op: u8) {
    let (s, t) = state::<Cs, L>();
    let r = fresh::<R>(t.as_str());
    let u = Text::<2>::any();
    let w = Text::<1>::any();
    let x = [nd::u16(), nd::u16()];
    let a = Args { u: u.as_str(), w: w.as_str(), i: nd::usize(), b: any_bounds(), c: nd::char(), d: nd::char(), x: &x };
    let p = perform(op, s, &a);
    let q = perform(op, r, &a);
    agree(&p, &q);
    witness!(t.len > 0 && u.len > 0, "non-empty");
}

/// At the brim: content of `l` bytes, concrete arguments around the capacity.
pub fn brim(ops: &[u8], l: usize, m: usize, i: usize) {
    let t = shaped::<63>(l, 0, &[0, i, i + 10]);
    let u = shaped::<66>(m, 3, &[0, 63 - l, 63]);
    // x, U+E9, U+1F914 and, for odd m, a lone surrogate
    let mut x = [b'x' as u16; 64];
    x[1] = 0xE9;
    x[2] = 0xD83E;
    x[3] = 0xDD14;
    if m % 2 == 1 {
        x[4] = 0xD83E;
    }
    let a = Args {
        u: prefix(&u, m),
        w: "\u{20ac}",
        i,
        b: (Bound::Included(i), Bound::Excluded(i + 10)),
        c: '\u{20ac}',
        d: '\u{e9}',
        x: &x[..m.min(64)],
    };
    let mut k = 0;
    while k < ops.len() {
        let s = fresh::<Cs>(prefix(&t, l));
        let r = fresh::<R>(prefix(&t, l));
        let p = perform(ops[k], s, &a);
        let q = perform(ops[k], r, &a);
        agree(&p, &q);
        k += 1;
    }
    witness!(true, "at the brim");
}

/// Conversion from the 63-byte string keeps the content.
pub fn convert() {
    let (r, t) = state::<R, 4>();
    let c = Cs::from(r);
    same(text(&c), t.bytes());
    let b = shaped::<63>(63, 0, &[]);
    let r = fresh::<R>(prefix(&b, 63));
    let c: Cs = r.into();
    same(text(&c), &b);
    witness!(t.len == 4, "converted");
}

/// Equal calls to the hasher.
pub fn hashes() {
    let (s, t) = state::<Cs, 3>();
    let r = fresh::<R>(t.as_str());
    check!(Rec::of(&s).eq(&Rec::of(&r)), "hashed alike");
    witness!(t.len == 3, "hashed");
}

/// Indexing, for ranges that are valid.
pub fn index() {
    let (mut s, t) = state::<Cs, 3>();
    let mut r = fresh::<R>(t.as_str());
    let (a, b) = (nd::u8(), nd::u8());
    let (i, j) = (a as usize, b as usize);
    nd::assume(i <= j && j <= t.len && boundary(t.bytes(), i) && boundary(t.bytes(), j));
    same(s[a..b].as_bytes(), r[a..b].as_bytes());
    same(s[a..].as_bytes(), r[a..].as_bytes());
    same(s[..b].as_bytes(), r[..b].as_bytes());
    same(s[..].as_bytes(), r[..].as_bytes());
    if j > i {
        same(s[a..=b - 1].as_bytes(), r[a..=b - 1].as_bytes());
        same(s[..=b - 1].as_bytes(), r[..=b - 1].as_bytes());
    }
    same((&mut s[a..b]).as_bytes(), (&mut r[a..b]).as_bytes());
    same((&mut s[a..]).as_bytes(), (&mut r[a..]).as_bytes());
    same((&mut s[..b]).as_bytes(), (&mut r[..b]).as_bytes());
    same((&mut s[..]).as_bytes(), (&mut r[..]).as_bytes());
    witness!(i > 0 && j < t.len, "inner range");
}

harnesses! {
    q_try_from_str_n63 (6) = small::<1>(0);
    q_from_truncate_n63 (6) = small::<1>(1);
    t_try_from_iter_n63 (6) = small::<1>(2);
    t_from_iter_n63 (6) = small::<1>(3);
    t_try_from_chars_n63 (6) = small::<1>(4);
    t_from_chars_n63 (6) = small::<1>(5);
    t_try_utf16_n63 (4) = small::<1>(6);
    t_utf16_n63 (4) = small::<1>(7);
    t_utf16_lossy_n63 (4) = small::<1>(8);
    q_parse_n63 (6) = small::<1>(9);
    q_from_n63 (6) = small::<1>(10);
    t_collect_chars_n63 (6) = small::<1>(11);
    t_collect_strs_n63 (6) = small::<1>(12);
    q_split_n63 (6) = small::<3>(25);
    q_cmp_n63 (6) = small::<3>(34);
    q_views_n63 (6) = small::<3>(36);
    q_borrow_mut_n63 (6) = small::<3>(37);
    q_as_mut_n63 (6) = small::<3>(38);
    q_default_n63 (6) = small::<3>(39);
    q_len_n63 (6) = small::<3>(40);
    q_display_n63 (6) = small::<3>(35);
    q_push_str_n63 (6) = small::<3>(13);
    t_add_n63 (6) = small::<3>(28);
    t_extend_chars_n63 (6) = small::<2>(29);
    t_extend_refs_n63 (6) = small::<2>(30);
    t_extend_strs_n63 (6) = small::<2>(31);
    t_write_str_n63 (6) = small::<3>(32);
    t_write_char_n63 (6) = small::<3>(33);
    q_convert_n63 (8) = convert();
    q_hashes_n63 (8) = hashes();
    q_index_n63 (8) = index();
    q_short_a_n63 (12) = brim(&[2, 3, 12, 28, 31, 32, 33], 6, 3, 1);
    q_short_b_n63 (12) = brim(&[4, 5, 11, 29, 30], 6, 3, 1);
    q_short_c_n63 (12) = brim(&[15, 16, 17, 18, 19, 20, 21, 22, 23, 27], 12, 2, 1);
    q_short_d_n63 (12) = brim(&[16, 19, 21, 22, 23, 25, 26, 27], 12, 2, 2);
    q_utf16_a_n63 (12) = brim(&[6, 7, 8], 0, 4, 0);
    q_utf16_b_n63 (12) = brim(&[6, 7, 8], 0, 5, 0);
    q_brim_a_n63 (70) = brim(&[0, 1, 2, 3, 9, 10], 5, 64, 0);
    q_brim_b_n63 (70) = brim(&[0, 1, 2, 9, 10, 12], 5, 63, 0);
    q_brim_c_n63 (70) = brim(&[13, 14, 15, 16, 17, 19, 21, 22, 23], 60, 4, 20);
    q_brim_d_n63 (70) = brim(&[24, 25, 26, 27, 28, 31, 32, 33], 61, 4, 20);
    q_brim_e_n63 (70) = brim(&[16, 19, 21, 22, 23, 25, 26, 27], 63, 0, 62);
    t_push_n63 (6) = small::<3>(15);
    t_push_truncate_n63 (6) = small::<3>(14);
    t_truncate_n63 (6) = small::<3>(16);
    t_pop_n63 (6) = small::<3>(17);
    t_trim_n63 (6) = small::<3>(18);
    t_remove_n63 (6) = small::<2>(19);
    t_retain_n63 (6) = small::<2>(20);
    t_insert_n63 (6) = small::<2>(21);
    t_insert_str_n63 (6) = small::<2>(22);
    t_insert_truncate_n63 (6) = small::<2>(23);
    t_drain_n63 (6) = small::<2>(26);
    t_replace_n63 (6) = small::<2>(27);
    t_brim_utf16_n63 (70) = { brim(&[6, 7, 8], 0, 64, 0); brim(&[6, 7, 8], 0, 63, 0) };
}

//! C25 the logging feature: each operation of the crate compiled with logging (and
//! a logger that accepts every level) against the same call without it.
use crate::api::*;
use crate::c20::{agree, perform, Args};
use crate::common::*;
use crate::nd;
use crate::text::*;
use crate::{check, harnesses, witness};
use arraystring_logged as lg;
use core::ops::Bound;

type L<const N: usize> = lg::ArrayString<N>;
type Lc = lg::CacheString;

/// Accepts every record and formats it (replays only).
#[cfg(not(kani))]
struct Logger;
#[cfg(not(kani))]
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = r.args().to_string();
    }
    fn flush(&self) {}
}

#[inline(always)]
fn listen() {
    #[cfg(not(kani))]
    {
        let _ = log::set_logger(&Logger);
        log::set_max_level(log::LevelFilter::Trace);
    }
}

/// Symbolic content, leftovers and arguments.
pub fn pair<S: Api, T: Api, const K: usize, const M: usize>(ops: &[u8]) {
    listen();
    let t = Text::<K>::any();
    let keep = any_boundary(t.bytes());
    let mut s = fresh::<S>(t.as_str());
    let _ = s.k_truncate(keep);
    let mut r = fresh::<T>(t.as_str());
    let _ = r.k_truncate(keep);
    let u = Text::<M>::any();
    let w = Text::<1>::any();
    let x = [nd::u16(), nd::u16()];
    let a = Args { u: u.as_str(), w: w.as_str(), i: nd::usize(), b: any_bounds(), c: nd::char(), d: nd::char(), x: &x };
    let mut k = 0;
    while k < ops.len() {
        let p = perform(ops[k], s, &a);
        let q = perform(ops[k], r, &a);
        agree(&p, &q);
        k += 1;
    }
    witness!(keep > 0 && keep < t.len && u.len > 0, "non-empty");
}

/// Concrete shape.
pub fn shaped_pair<S: Api, T: Api, const K: usize, const M: usize>(ops: &[u8], l: usize, m: usize, i: usize) {
    listen();
    let t = shaped::<K>(l, 0, &[0, i, i + 10]);
    let u = shaped::<M>(m, 3, &[0, S::CAP - l, S::CAP]);
    let mut x = [b'x' as u16; 64];
    x[1] = 0xE9;
    x[2] = 0xD83E;
    x[3] = 0xDD14;
    if m % 2 == 1 {
        x[4] = 0xD83E;
    }
    let a = Args {
        u: prefix(&u, m),
        w: "\u{20ac}",
        i,
        b: (Bound::Included(i), Bound::Excluded(i + 10)),
        c: '\u{20ac}',
        d: '\u{e9}',
        x: &x[..m.min(64)],
    };
    let mut k = 0;
    while k < ops.len() {
        let p = perform(ops[k], fresh::<S>(prefix(&t, l)), &a);
        let q = perform(ops[k], fresh::<T>(prefix(&t, l)), &a);
        agree(&p, &q);
        k += 1;
    }
    witness!(true, "completed");
}

/// Draining iterators, hashes and indexing.
pub fn rest<S: Api, T: Api, const K: usize>() {
    listen();
    let t = Text::<K>::any();
    let mut s = fresh::<S>(t.as_str());
    let mut r = fresh::<T>(t.as_str());
    check!(crate::c14::Rec::of(&s).eq(&crate::c14::Rec::of(&r)), "hashed alike");
    let (a, b) = (nd::u8(), nd::u8());
    if a <= b && b as usize <= t.len && boundary(t.bytes(), a as usize) && boundary(t.bytes(), b as usize) {
        same(s[a..b].as_bytes(), r[a..b].as_bytes());
        same((&mut s[a..]).as_bytes(), (&mut r[a..]).as_bytes());
    }
    let (d, e) = (s.k_drain(..), r.k_drain(..));
    check!(d.is_ok() == e.is_ok(), "the same verdict");
    if let (Ok(mut d), Ok(mut e)) = (d, e) {
        check!(d.next() == e.next(), "the same from the front");
        check!(d.next_back() == e.next_back(), "the same from the back");
        same(d.k_str().as_bytes(), e.k_str().as_bytes());
    }
    witness!(t.len == K, "full");
}

/// Replaces `log::__private_api::loc`, which asks for the caller's position: Kani
/// cannot encode that intrinsic, and a fixed position serves.
#[track_caller]
pub fn loc() -> &'static core::panic::Location<'static> {
    const HERE: &core::panic::Location<'static> = core::panic::Location::caller();
    HERE
}

/// The facade's outlet: a logger that accepts every record and drops it. The
/// arguments are evaluated; encoding the facade's record builder and atomics, or
/// the formatting, costs minutes per call.
pub fn discard<'a, K: 'a, L>(_: L, _: core::fmt::Arguments, _: log::Level, _: &(&str, &'static str, &'static core::panic::Location), _: K) {}
pub fn every_level() -> log::LevelFilter {
    log::LevelFilter::Trace
}

macro_rules! logged {
    ($($d:ident ($du:literal) = $db:expr;)*) => {
        harnesses! {
            $(
                #[kani::stub(log::__private_api::loc, crate::c25::loc)]
                #[kani::stub(log::__private_api::log, crate::c25::discard)]
                #[kani::stub(log::max_level, crate::c25::every_level)]
                $d ($du) = $db;
            )*
        }
    };
}

logged! {
    q_build_n3 (8) = pair::<A<3>, L<3>, 1, 4>(&[0, 1, 9, 10]);
    q_iters_n2 (5) = pair::<A<2>, L<2>, 1, 2>(&[2, 3]);
    q_collect_n2 (5) = pair::<A<2>, L<2>, 1, 2>(&[12]);
    q_chars_n2 (5) = pair::<A<2>, L<2>, 1, 1>(&[4, 5]);
    q_collect_chars_n2 (5) = pair::<A<2>, L<2>, 1, 1>(&[11]);
    q_utf16_strict_n3 (4) = pair::<A<3>, L<3>, 1, 1>(&[6]);
    q_utf16_truncate_n3 (4) = pair::<A<3>, L<3>, 1, 1>(&[7]);
    q_utf16_lossy_n3 (4) = pair::<A<3>, L<3>, 1, 1>(&[8]);
    q_append_n3 (8) = pair::<A<3>, L<3>, 3, 3>(&[13, 14, 15]);
    q_write_n2 (8) = pair::<A<2>, L<2>, 2, 2>(&[28, 32, 33]);
    q_extend_n1 (4) = pair::<A<1>, L<1>, 1, 1>(&[29, 30]);
    q_extend_strs_n2 (5) = pair::<A<2>, L<2>, 1, 1>(&[31]);
    q_cut_n3 (6) = pair::<A<3>, L<3>, 3, 1>(&[16, 17, 24, 25]);
    q_trim_n3 (6) = pair::<A<3>, L<3>, 3, 1>(&[18]);
    q_remove_n3 (5) = pair::<A<3>, L<3>, 3, 1>(&[19]);
    q_retain_n1 (3) = pair::<A<1>, L<1>, 1, 1>(&[20]);
    q_insert_n3 (8) = pair::<A<3>, L<3>, 3, 2>(&[21, 22, 23]);
    q_range_n3 (8) = pair::<A<3>, L<3>, 3, 2>(&[26, 27]);
    q_compare_n2 (8) = pair::<A<2>, L<2>, 2, 1>(&[34, 35, 36]);
    q_views_n3 (8) = pair::<A<3>, L<3>, 3, 1>(&[37, 38, 39, 40]);
    q_rest_n1 (4) = rest::<A<1>, L<1>, 1>();
    q_cache_build_n63 (8) = pair::<Cs, Lc, 1, 1>(&[0]);
    q_cache_append_n63 (8) = pair::<Cs, Lc, 2, 1>(&[13]);
    q_cache_cut_n63 (8) = pair::<Cs, Lc, 2, 1>(&[16]);
    q_cache_range_n63 (8) = pair::<Cs, Lc, 2, 1>(&[27]);
    q_big_a_n255 (12) = shaped_pair::<A<255>, L<255>, 255, 260>(&[0, 1, 13, 14, 16], 200, 60, 30);
    q_big_b_n255 (12) = shaped_pair::<A<255>, L<255>, 255, 260>(&[19, 22, 23], 200, 60, 30);
    q_big_c_n255 (12) = shaped_pair::<A<255>, L<255>, 255, 260>(&[25, 26, 27], 200, 60, 30);
    t_iters_n2 (5) = pair::<A<2>, L<2>, 1, 2>(&[2, 3, 12]);
    t_extend_n2 (5) = pair::<A<2>, L<2>, 2, 2>(&[29, 30]);
    t_retain_n2 (4) = pair::<A<2>, L<2>, 2, 1>(&[20]);
    t_rest_n2 (5) = rest::<A<2>, L<2>, 2>();
    t_write_n3 (8) = pair::<A<3>, L<3>, 3, 3>(&[28, 32, 33]);
    t_append_n8 (12) = pair::<A<8>, L<8>, 8, 8>(&[13, 14, 15]);
    t_range_n8 (12) = pair::<A<8>, L<8>, 8, 8>(&[26, 27]);
    t_insert_n8 (12) = pair::<A<8>, L<8>, 8, 8>(&[22, 23]);
}

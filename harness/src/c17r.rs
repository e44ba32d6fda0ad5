//! C17, the release configuration (no debug assertions, wrapping arithmetic).
use crate::c17::*;
use crate::common::*;
use crate::harnesses;

harnesses! {
    q_build_n3 (8) = calm::<A<3>, 1, 5>(&[0, 1, 9, 10]);
    q_from_iter_n2 (6) = calm::<A<2>, 1, 2>(&[2, 3, 12]);
    q_from_chars_n2 (5) = calm::<A<2>, 1, 1>(&[4, 5, 11]);
    q_utf16_n3 (5) = calm::<A<3>, 1, 1>(&[7, 8]);
    q_append_n4 (8) = calm::<A<4>, 4, 5>(&[13, 14, 15, 28, 32, 33]);
    q_extend_n2 (5) = calm::<A<2>, 2, 1>(&[29, 30]);
    q_cut_n4 (8) = calm::<A<4>, 4, 1>(&[16, 17, 18, 24, 25]);
    q_remove_n3 (8) = calm::<A<3>, 3, 1>(&[19]);
    q_retain_n2 (5) = calm::<A<2>, 2, 1>(&[20]);
    q_insert_n4 (8) = calm::<A<4>, 4, 5>(&[21, 22, 23]);
    q_range_n4 (8) = calm::<A<4>, 4, 5>(&[26, 27]);
    q_views_n4 (8) = calm::<A<4>, 4, 3>(&[34, 35, 36, 37, 38, 39, 40]);
    q_big_n255 (12) = calm_big::<A<255>, 255, 300>(&[0, 1, 13, 14, 15, 16, 17, 19, 21, 22, 23, 25, 26, 27, 28], &[(255, 1, 30), (200, 60, 130), (0, 256, 0)]);
}

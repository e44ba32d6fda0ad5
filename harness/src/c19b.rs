//! C19, the part that needs every capacity to exist: capacity() and what fits.
use crate::common::*;
use crate::nd;
use crate::{check, every_capacity, harnesses, witness};

macro_rules! reports {
    ($($n:literal)*) => { $(
        check!(A::<$n>::capacity() == $n, "reports its capacity");
    )* };
}

fn capacities() {
    every_capacity!(reports);
    witness!(true, "all capacities");
}

/// Exactly N bytes fit: in one piece, and byte by byte at the brim.
#[inline(always)]
fn one<const N: usize>(r: Result<A<N>, arraystring::prelude::OutOfBounds>, more: bool, c: u8, at: usize) {
    check!(r.is_ok() == !more, "holds exactly as many bytes as its capacity");
    let _ = (c, at);
}

macro_rules! holds {
    ($($n:literal)*) => { {
        let c = nd::u8() & 0x7F;
        let b = [c; 256];
        $(
            one::<$n>(A::<$n>::try_from_str(crate::text::prefix(&b, $n)), false, c, $n);
            one::<$n>(A::<$n>::try_from_str(crate::text::prefix(&b, $n + 1)), true, c, $n);
            if let Ok(mut s) = A::<$n>::try_from_str(crate::text::prefix(&b, $n - 1)) {
                check!(s.try_push('x').is_ok(), "the last byte can be used");
                check!(s.len() == $n, "and is counted");
                check!(s.try_push('x').is_err(), "and no more");
            }
        )*
        witness!(c == 0x41, "filled");
    } };
}

harnesses! {
    q_capacities (2) = capacities();
    q_holds_a_n40 (9) = holds!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40);
    q_holds_b_n80 (9) = holds!(41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80);
    q_holds_c_n120 (9) = holds!(81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120);
    q_holds_d_n150 (9) = holds!(121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150);
    q_holds_e_n180 (9) = holds!(151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180);
    q_holds_f_n210 (9) = holds!(181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210);
    q_holds_g_n235 (9) = holds!(211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235);
    q_holds_h_n255 (9) = holds!(236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255);
}

/// Declares the harnesses of one property: a Kani proof harness for each and an
/// entry in the table the native replayer uses.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident ($unw:literal) = $body:expr; )*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($unw)]
            $(#[$m])*
            pub fn $name() {
                { $body };
                kani::cover!(true, "harness completes");
            }
        )*
        pub const TABLE: &[(&str, fn(), u32)] = &[
            $( (stringify!($name), || { { $body }; println!("REPLAY-WITNESS: harness completes"); }, $unw), )*
        ];
    };
}

pub type Entry = (&'static str, fn(), u32);

pub const ALL: &[(&str, &[Entry])] = &[
    ("c01", crate::c01::TABLE),
    ("c02", crate::c02::TABLE),
    ("c03", crate::c03::TABLE),
    ("c04", crate::c04::TABLE),
    ("c05", crate::c05::TABLE),
    ("c06", crate::c06::TABLE),
    ("c07", crate::c07::TABLE),
    ("c08", crate::c08::TABLE),
    ("c09", crate::c09::TABLE),
    ("c10", crate::c10::TABLE),
    ("c11", crate::c11::TABLE),
    ("c12", crate::c12::TABLE),
    ("c13", crate::c13::TABLE),
    ("c14", crate::c14::TABLE),
    ("c15", crate::c15::TABLE),
    ("c16", crate::c16::TABLE),
    ("c17", crate::c17::TABLE),
    ("c17r", crate::c17r::TABLE),
    ("c18", crate::c18::TABLE),
    ("c19", crate::c19::TABLE),
    #[cfg(feature = "all-capacities")]
    ("c19b", crate::c19b::TABLE),
    ("c20", crate::c20::TABLE),
    #[cfg(feature = "serde-traits")]
    ("c21", crate::c21::TABLE),
    #[cfg(feature = "diesel-traits")]
    ("c22", crate::c22::TABLE),
    ("c23", crate::c23::TABLE),
    ("c24", crate::c24::TABLE),
    #[cfg(feature = "logs")]
    ("c25", crate::c25::TABLE),
];

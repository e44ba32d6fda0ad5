"""What each check encodes, and within which bounds."""

SMALL = ("Symbolic part: all contents up to the capacity of the named small types (n1, n4, n8, ... = ArrayString<1>, <4>, <8>), "
         "all leftovers behind the content, all arguments up to the stated lengths, all indices/range ends over the whole of usize. ")
LARGE = ("ArrayString<255> and CacheString (63): the listed lengths and positions (around 0, 63, 127/128, 255/256, 511/512) with "
         "characters of all widths; every ASCII byte away from a cut is symbolic, and the checked byte position is symbolic. ")
OUT = ("Contents longer than the small capacities in fully symbolic form; other capacities than the instantiated ones "
       "(the code is generic in N and has no capacity-dependent branch, but that is an argument, not a result); arguments longer than stated.")


def P(mod, bounds, outside=OUT, **kw):
    d = dict(builds=kw.pop("builds", [dict(mod=mod)]), bounds=bounds, outside=outside)
    d.update(kw)
    return d


PROPS = {
    "C02": P("c02", SMALL + "strs up to 12 (n8) / 28 (n24) bytes; iterators of 3 strs of up to 4 bytes or 3 chars. " + LARGE),
    "C03": P("c03", SMALL + "strs up to 12 (n8) / 29 (n24) bytes; iterators of 3 strs of up to 4 bytes or 3 chars. " + LARGE),
    "C04": P("c04", SMALL + "u16 slices of up to 3 units (2 for CacheString), all values; thorough up to 6 units."),
    "C05": P("c05", SMALL + "additions up to one byte more than the capacity, every char. " + LARGE),
    "C06": P("c06", SMALL + "additions up to 3 bytes more than the capacity, 3 chars, 2 strs of up to 5 bytes. " + LARGE),
    "C07": P("c07", SMALL + "insertions up to the capacity plus 1 byte, every char, every usize index. " + LARGE),
    "C08": P("c08", SMALL + "every usize index. " + LARGE),
    "C09": P("c09", SMALL + "every usize index. " + LARGE),
}

NOT_APPLICABLE = {
    "C26": "ffi/ does not compile against the current crate (it names generic parameters and modules that no longer exist), "
           "so there is no code that could be encoded.",
    "C27": "the behaviour lives in the database engines and in diesel's bundled C libraries (SQLite, libpq, mysql), reached over "
           "FFI and sockets: no symbolic encoding of them is within reach. The crate's own half (ToSql/FromSql) is C22.",
    "C28": "a property of rustc's optimiser and the linker, not of values: there is no formula over inputs to decide. "
           "That no panic is reachable is decided at the source level by C17.",
}

PROPS.update({
    "C10": P("c10", SMALL + "every pair of included/excluded/open ends over usize and the ordinary range types; iteration: 4 mixed steps over "
             "3 bytes, 3 over 4 (thorough 6 over 5, 4 over 8); provided iterator methods on 2 to 4 bytes. " + LARGE),
    "C11": P("c11", SMALL + "every pair of ends over usize, replacements up to 5 bytes (thorough 17). " + LARGE),
    "C12": P("c12", SMALL + "every text of up to 5 bytes (thorough 10), so every single whitespace character with every neighbour; "
             "CacheString and ArrayString<255>: all symbolic ASCII interior between wide whitespace runs."),
    "C13": P("c13", SMALL + "predicate: an arbitrary (symbolic) answer per call, up to 4 calls (thorough 6). "
             "n24, CacheString (thorough: n255): concrete shape and answers by a fixed rule, symbolic ASCII bytes."),
    "C14": P("c14", SMALL + "two arbitrary strings with arbitrary leftovers; CacheString with up to 3 symbolic bytes; hashes are compared as "
             "the sequences of writes made to a recording Hasher, which decides equality for every hasher. Lookups follow from that and Eq/Ord. " + LARGE),
    "C15": P("c15", SMALL + "every u8 for every end of all six range forms. " + LARGE),
    "C16": P("c16", SMALL + "in-place writes of any ASCII byte over any ASCII byte and arbitrary texts over the whole content. " + LARGE,
             OUT + " Display with width, precision, fill or other flags (the statement covers default formatting)."),
    "C19": P("c19", "All 255 capacities: size, reported capacity, and that one text of exactly that many bytes is kept and one byte more is refused; "
             "0, 256, 257, 258, 300, 384, 511..513, 1000, 1024, 4096, 32767, 32768, 65535, 65536, 10^6, 2^32 and usize::MAX: "
             "not usable (trait-resolution probe: the bound is decided at encoding time).",
             "Capacities of 259 and up other than the listed ones.",
             builds=[dict(mod="c19"), dict(mod="c19b", features=["all-capacities"])]),
    "C20": P("c20", "Each operation on a CacheString against the same call on ArrayString<63> in one formula: symbolic contents and leftovers of up to "
             "3 bytes with symbolic arguments (usize indices), and concrete fill levels at and around 60..=63 with symbolic ASCII bytes, positions and arguments.",
             OUT + " Debug formatting (the derived form names the type)."),
    "C21": P("c21", SMALL + "deserializers that lend, copy or give away any text of up to 7 bytes or any bytes of up to 5 "
             "(thorough 20), CacheString and n255 around the capacity with wide cut characters.",
             OUT + " Concrete data formats (JSON and so on): the Serializer/Deserializer here are the harness's own, one per way serde lets a format supply a string.",
             builds=[dict(mod="c21", features=["serde-traits"])]),
    "C22": P("c22", SMALL + "SQL texts of up to 7 bytes (thorough 20), CacheString and n255 around the capacity with wide cut characters.",
             OUT + " Real backends: the Backend here is the harness's own, with raw values as diesel's str conversion receives them.",
             builds=[dict(mod="c22", features=["diesel-traits"])]),
    "C23": P("c23", SMALL + "every fallible operation, every usize index/range end, arguments up to 2 bytes over the capacity. " + LARGE),
    "C24": P("c24", "All values: every pair of error kinds, every payload of core's Utf8Error and DecodeUtf16Error reachable from inputs of up to 4 bytes / 2 units; "
             "hashes compared as the writes made to a recording Hasher.", "Nothing of the stated property."),
})
PROPS["C25"] = P("c25", SMALL + "each operation of the crate compiled with logging and every level enabled against the same call without it, "
    "from the same content and leftovers. CacheString with up to 2 symbolic bytes; ArrayString<255> at concrete lengths around the capacity.",
    OUT + " What a logger does with a record: `log`'s dispatch is replaced by an accepting sink, so formatting the arguments is not encoded "
    "(rendering them is Debug/Display of strings and numbers, which C16/C20 and core cover). Replays of counterexamples use a real formatting logger.",
    builds=[dict(mod="c25", features=["logs"])])
PROPS["C17"] = P("c17", SMALL + "two encodings: with debug assertions and overflow checks, and without. A panic of any kind is an assertion. "
    "Endless string/char iterators with capacities 2, 3, 63 and 255: the loop bound is proved sufficient (unwinding assertions). "
    "CacheString and ArrayString<255>: concrete lengths and positions around the capacities with symbolic ASCII bytes.",
    OUT + " `core::str::from_utf8`, which the crate only calls in its debug assertions, is replaced by an equivalent automaton "
    "for up to 8 bytes, and by `Ok` for the large capacities.",
    builds=[dict(mod="c17", debug=True), dict(mod="c17r")])
PROPS["C18"] = P("c18", SMALL + "every operation, trait and error rendering with all heap entry points (Rust's global allocator functions, malloc and family) "
    "replaced by an assertion that the caller is not inside the crate. CacheString and ArrayString<255>: concrete lengths around the capacity, symbolic ASCII bytes.",
    OUT, builds=[dict(mod="c18", alloc=True)], focus="heap memory")
PROPS["C01"] = P("c01", SMALL + "every operation from a truncated and from a shifted pre-state, with arguments up to 6 bytes; ranges and AsRef values that answer "
    "differently at every question; iterators that lie about their length and continue past their end; every interleaving of 3 steps of draining. "
    "Memory accesses are the assertions CBMC generates for each dereference, index and copy. "
    "Thorough: two operations in a row from every pre-state of up to 4 bytes. " + LARGE)

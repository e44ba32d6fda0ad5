#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that the text is reviewable)."""
import json
AS, IM, DR, UT, ER, LI, IN = ("src/arraystring.rs", "src/implementations.rs", "src/drain.rs",
                              "src/utils.rs", "src/error.rs", "src/lib.rs", "src/integration.rs")
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

REP = [("array", "content bytes; bytes past the length are stale leftovers", AS),
       ("size", "length in bytes, one byte wide", AS)]

p("C01", "Safe calls never break UTF-8, exceed the capacity or touch foreign memory",
  "Whatever sequence of safe calls built a string, and whatever arguments the next safe call gets (including caller-supplied range, string-like and iterator types that answer differently each time they are asked), that call reads and writes only memory belonging to the string and its arguments. Afterwards every live string, every returned string and every draining iterator exposes text that is valid UTF-8 and no longer than its capacity.",
  ["inputs", "histories"], "every valid pre-state (content and stale bytes) x every mutating/constructing call x every argument",
  "Tests run fixed ASCII/emoji strings with index 2; they never see stale tails, 2/3-byte characters, boundary indices, near-full strings or inconsistent caller traits.",
  [AS, IM, DR, UT], [("bounds and char-boundary checks before unsafe copies", AS + " replace_range, drain"), ("unchecked slicing by stored length", IM + " AsRef/AsMut"), ("unchecked truncation", UT + " truncate_str")], REP,
  ["as_str", "as_bytes", "len", "returned values"])

p("C02", "Fallible constructors keep the whole text or report OutOfBounds",
  "Building a string from a str, from an iterator of strs, from an iterator of chars or by parsing succeeds exactly when the total UTF-8 length of the input is at most the capacity, and then the content is exactly the concatenation of the input. Otherwise it returns the OutOfBounds error.",
  ["inputs"], "every text (and every way of splitting it into pieces), every capacity",
  "Existing tests use capacity 255 with short strings; the exact-fit edge, multi-byte characters straddling the capacity and lengths around 256 are never reached.",
  [AS, IM], [("try_from_str / try_from_iterator / try_from_chars", AS), ("FromStr", IM)], REP)

p("C03", "Truncating constructors keep exactly the longest whole-character prefix",
  "Building a string with truncation, from a str, an iterator of strs, or an iterator of chars (named constructors, From<&str> and collect), yields the longest prefix of the concatenated input that fits in the capacity and ends on a character boundary. Input that fits is kept whole, and a later item is never taken once something before it was cut.",
  ["inputs"], "every text, every split into pieces, every capacity, including inputs far longer than 255 bytes",
  "Tests only truncate runs of '0' or seven emojis; the mixed-width character at the cut and pieces after the cut are not sampled.",
  [AS, IM, UT], [("truncate_str", UT), ("from_*_truncate", AS), ("From<&str>, FromIterator", IM)], REP)

p("C04", "UTF-16 constructors decode exactly as Unicode prescribes",
  "Decoding a u16 slice yields the characters UTF-16 defines: the strict constructor succeeds exactly when the slice is valid UTF-16 and the decoded text fits, and its error is one that applies (Utf16 for invalid data, OutOfBounds for text that does not fit). The truncating one returns the longest fitting prefix of valid input, and Utf16 when invalid data is met before the capacity is exhausted; the lossy one replaces each unpaired surrogate by U+FFFD and keeps the longest fitting prefix.",
  ["inputs"], "every u16 slice (all surrogate arrangements) and every capacity",
  "Tests use one hand-written invalid sequence and texts that fit; arrangements of lone/reversed surrogates and truncation in the middle of a pair are not reached.",
  [AS, ER], [("try_from_utf16 / from_utf16_truncate / from_utf16_lossy_truncate", AS), ("error conversion", ER)], REP)

p("C05", "Fallible append adds the whole text or nothing",
  "Appending a str or a char, directly or through the formatting Write interface, succeeds exactly when the current length plus the addition's UTF-8 length is at most the capacity; the content is then the old content followed by the addition. Otherwise an error (OutOfBounds, or fmt::Error through Write) is returned and the string is unchanged.",
  ["inputs", "histories"], "every string state, every addition",
  "Tests append the string to itself far below capacity.",
  [AS, IM], [("try_push_str / try_push", AS), ("Write::write_str", IM)], REP)

p("C06", "Truncating append keeps old text plus the longest fitting prefix",
  "Appending with truncation (push_str_truncate, the + operator, and Extend with chars, char references or strs) leaves the old content followed by the longest prefix of the concatenated addition that ends on a character boundary and fits in the remaining capacity. It never alters the old content and never adds text after the first cut.",
  ["inputs", "histories"], "every string state, every addition and split of it into items",
  "Extend has no test at all; truncating append is tested only with '0's.",
  [AS, IM, UT], [("push_str_truncate", AS), ("Add, Extend", IM), ("truncate_str", UT)], REP)

p("C07", "Insertion places the text at a char boundary or reports the right error",
  "Inserting a char or str at an index that is within the string and on a character boundary, when the result fits, yields the old prefix, the inserted text, then the old suffix; the truncating form inserts the longest whole-character prefix that fits and keeps all old text. An index past the end is reported as OutOfBounds, an index inside a character as Utf8 (also when the text to insert is empty), and, in the non-truncating form, a result that does not fit as OutOfBounds.",
  ["inputs", "histories"], "every string state, every index (up to usize::MAX), every inserted text",
  "Tests insert at index 2 only, with room to spare and non-empty text.",
  [AS, UT], [("try_insert / try_insert_str / insert_str_truncate", AS), ("replace_range", AS)], REP)

p("C08", "pop and remove take out exactly one character",
  "pop returns and removes the last character, or returns None on an empty string. remove(i) returns and removes the character starting at byte i, closing the gap; it reports OutOfBounds when i is at or past the end and Utf8 when i is inside a character.",
  ["inputs", "histories"], "every string state, every index",
  "Tests remove index 2 of eight fixed strings.",
  [AS], [("pop, remove", AS)], REP)

p("C09", "truncate, clear and split_off cut exactly at the requested boundary",
  "truncate(n) keeps the first n bytes when n is a character boundary, does nothing when n is at least the length, and reports Utf8 when n is inside a character; clear leaves the empty string. split_off(i) returns the text from byte i on and keeps the text before it, reporting OutOfBounds past the end and Utf8 inside a character.",
  ["inputs", "histories"], "every string state, every index",
  "Tests cut at index 2 only.",
  [AS], [("truncate, clear, split_off", AS)], REP)

p("C10", "drain removes exactly the range and its iterator yields exactly that text",
  "Draining a valid range removes exactly that range from the string at once, and the returned iterator yields exactly the removed characters, in order from the front and in reverse from the back, each once in any mix of both ends, then None forever; its string view always shows the characters not yet yielded. An inverted range or one past the end is OutOfBounds and an end inside a character is Utf8.",
  ["inputs", "histories"], "every string state, every range form and bound, every interleaving of next/next_back",
  "Tests drain ..2 and collect from the front only.",
  [AS, DR], [("drain", AS), ("Iterator/DoubleEndedIterator for Drain", DR)], REP)

p("C11", "replace_range substitutes exactly the range or reports the right error",
  "Replacing a range (any combination of included, excluded and unbounded ends) with a text of any length yields old prefix, new text, old suffix whenever the range is ordered, within the string and on character boundaries and the result fits in the capacity. Otherwise it reports OutOfBounds for an inverted range, a range past the end or a result that does not fit, and Utf8 for an end inside a character, and this holds for empty ranges and empty replacements too.",
  ["inputs", "histories"], "every string state, every range form and bound (up to usize::MAX), every replacement",
  "Tests replace ..2 with short strings; grow/shrink moves at the capacity edge, inclusive/excluded bounds and extreme indices are not sampled.",
  [AS, UT], [("replace_range", AS), ("is_inside_boundary, is_char_boundary", UT)], REP)

p("C12", "trim removes exactly the surrounding Unicode whitespace",
  "trim leaves exactly the text that remains after removing all leading and all trailing Unicode whitespace characters, as str::trim does; inner whitespace and everything else is unchanged, and an all-whitespace string becomes empty.",
  ["inputs", "histories"], "every string state, including multi-byte whitespace",
  "Tests trim ASCII spaces only.",
  [AS], [("trim", AS)], REP)

p("C13", "retain asks once per character in order and keeps exactly the accepted ones",
  "retain calls the predicate exactly once for each character, in order, and leaves exactly the characters for which it answered true, in their original order, whatever the (possibly stateful) predicate answers.",
  ["inputs", "histories"], "every string state, every sequence of predicate answers",
  "Tests use one stateless predicate.",
  [AS], [("retain", AS)], REP)

p("C14", "Equality, ordering and hashing depend only on the text, as for str",
  "Two strings compare equal, order and hash exactly as the strs they contain do, whatever operations produced them and whatever leftovers they hold beyond their length; the same holds between a string and a str, for the cache-line string and for the draining iterator (as of its remaining text). Hence lookups by borrowed str in hashed and ordered collections agree with lookups by the string itself.",
  ["inputs", "histories"], "every pair of strings, including equal texts reached by different histories",
  "No test compares strings with different histories or uses Hash/Ord at all.",
  [IM, DR, LI], [("PartialEq/Ord/Hash/Borrow impls", IM), ("same for Drain", DR), ("same for CacheString", LI)], REP)

p("C15", "Range indexing returns exactly the slice a str would, or panics",
  "Indexing (shared or mutable) with any u8 range form returns exactly the part of the text that the same range selects on a str. It panics for every range that is inverted, past the end or not on character boundaries, and for no other.",
  ["inputs", "histories"], "every string state, all six range forms, every bound",
  "Indexing has no test at all.",
  [IM, LI], [("Index/IndexMut impls", IM), ("delegation in CacheString", LI)], REP)

p("C16", "All views show the same text, and writes through a view are seen by all",
  "Every read view (as_str, Deref, Borrow<str>, AsRef<str>, AsRef<[u8]>, len, is_empty, default Display formatting, and copies or clones) shows exactly the current content. Changing text in place through a mutable view (as_mut_str, DerefMut, AsMut, BorrowMut) is seen by every view, changes no length, and never affects a copy made earlier.",
  ["inputs", "histories"], "every string state",
  "Only as_str is observed by the tests.",
  [AS, IM, LI], [("as_str/as_mut_str/len", AS), ("Deref, Borrow, AsRef, AsMut, Display", IM)], REP)

p("C17", "No call other than indexing ever panics or fails to return",
  "For every string state and every argument, every operation other than indexing returns normally: no panic, no arithmetic overflow, no failed internal assertion, and no endless loop on finite input, in both debug and release configurations. Truncating constructors and truncating append also return for infinite iterators of non-empty items.",
  ["inputs", "histories"], "every string state x every operation x every argument, extreme indices included",
  "Tests sample a handful of arguments; the release-mode no-panic link check covers no debug build and is not run.",
  [AS, IM, DR, UT, ER, LI], [("checked bounds and saturating range ends", AS), ("lossy length conversion", UT)], REP)

p("C18", "No operation allocates on the heap",
  "No constructor, mutator, view, comparison, hash, iterator step or error value of the string types allocates heap memory, whatever the state and arguments.",
  ["inputs", "histories"], "every operation, every state and argument within bounds",
  "No test observes the allocator.",
  [AS, IM, DR, UT, ER, LI], [("inline storage; no use of alloc", AS)], REP)

p("C19", "Layout and capacity are exactly as declared",
  "For every capacity from 1 to 255 the string type exists, reports that capacity, can hold exactly that many bytes and occupies exactly capacity + 1 bytes; the cache-line string has capacity 63 and is 64 bytes in size and alignment, the small string has the size of three words, and the biggest one holds 255 bytes. Other capacities (0, 256 and up) cannot be used.",
  ["configurations", "inputs"], "every capacity 1..=255 and the named aliases",
  "One test checks the cache-line string's size; no capacity but 255 and 23 is filled.",
  [AS, LI], [("capacity whitelist, one-byte length", AS), ("repr(align(64)), aliases", LI)], REP)

p("C20", "The cache-line string behaves exactly like a 63-byte string",
  "Every constructor, mutator, operator, comparison, formatting and conversion on the cache-line string gives the same results, errors and contents as the same call on a string of capacity 63, and conversion from such a string keeps its content.",
  ["inputs", "histories"], "every state and call within bounds, near-empty and near-full",
  "Its doc examples sample a few constructors; the trait implementations have no tests.",
  [LI], [("delegating impls", LI)], REP)

p("C21", "serde round-trips every string and truncates what does not fit",
  "Serializing hands the serializer exactly the content as a str. Deserializing accepts a string however the deserializer supplies it (borrowed, transient or owned str, or valid UTF-8 bytes) as String does, and yields the longest whole-character prefix that fits, so serializing then deserializing gives an equal string; errors of the format are passed on.",
  ["inputs"], "every content, every way a deserializer may present a string",
  "Tests use one ASCII text without escapes, which the JSON reader can lend out; transient strings are never presented.",
  [IN], [("Serialize/Deserialize impls", IN)], REP)

p("C22", "diesel conversions write the exact text and read back its fitting prefix",
  "Writing a string as SQL Text hands the backend exactly the content. Reading SQL text yields the longest whole-character prefix that fits, and a backend's conversion error is passed on unchanged in kind (never turned into a value).",
  ["inputs"], "every content, every text delivered by a backend",
  "Tests round-trip one ASCII word through SQLite.",
  [IN], [("ToSql/FromSql impls", IN)], REP)

p("C23", "A failed operation leaves the string exactly as it was",
  "Whenever an operation on an existing string returns an error, the string's content and length afterwards are exactly what they were before the call, for every fallible operation and every reason of failure.",
  ["inputs", "histories"], "every state, every fallible operation, every failing argument",
  "Tests check the returned error, not the content after it.",
  [AS, IM], [("all checks precede the first write", AS)], REP)

p("C24", "Error values convert, compare, hash and print consistently",
  "The three error kinds convert to the matching variant of the common error type (UTF-8 failures to Utf8, UTF-16 failures to Utf16, capacity and range failures to OutOfBounds); the variants are equal exactly to themselves, equal values hash equally, different kinds hash differently as written to the hasher, and each prints its own name.",
  ["inputs"], "all pairs of error values and every conversion",
  "Tests compare a few error values but never hash, print or convert them systematically.",
  [ER], [("From, PartialEq, Hash, Display impls", ER)])

p("C25", "Enabling the logging feature changes nothing but log output",
  "With the logging feature on and a logger accepting every level installed, every operation gives the same results, errors and contents as without it, and still never panics.",
  ["configurations", "inputs"], "every operation, state and argument; logging off vs. on at the most verbose level",
  "Tests enable the feature but leave the level below debug, so no logging argument is ever evaluated.",
  [AS, UT, ER], [("trace!/debug! statements", AS), ("mock macros when off", LI)], REP)

p("C26", "The C bindings mirror the library",
  "Every exported C function behaves as the library operation of the same name.",
  ["inputs"], "every exported function", "The bindings are not built or tested at all.",
  ["ffi/src/lib.rs"], [("extern functions", "ffi/src/lib.rs")])

p("C27", "Strings survive a round trip through a real database",
  "A string stored in a text column through the ORM integration (derives included) and read back is equal to the original, on every supported backend.",
  ["inputs", "configurations"], "every content, every backend",
  "One SQLite test with one word; the other backends are ignored tests.",
  [IN, AS, LI], [("derive(AsExpression, FromSqlRow)", AS)])

p("C28", "Release builds with the no-panic feature link on supported toolchains",
  "With the no-panic feature and full optimisation the crate links, proving that no panic path survived optimisation.",
  ["configurations", "programs"], "every client program and compiler version",
  "Depends on optimiser and linker, not on any input.",
  [AS, IM, UT, IN], [("no_panic attributes", AS)])

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))

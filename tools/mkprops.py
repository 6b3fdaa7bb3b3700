#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

RD, WR, LIB, CTX = "src/reader.rs", "src/writer.rs", "src/lib.rs", "src/ctx.rs"
PRIM = "src/impls/primitive.rs"
DR, DW, DS, DM, DL = ("deku-derive/src/macros/deku_read.rs", "deku-derive/src/macros/deku_write.rs",
  "deku-derive/src/macros/deku_size.rs", "deku-derive/src/macros/mod.rs", "deku-derive/src/lib.rs")

p("P01", "The bit reader delivers exactly the next bits of the input, in order",
  "Through any sequence of bit reads, byte reads, skips, end-of-input tests, remaining-bit queries and seeks, in either bit order, the reader returns exactly the bits that a plain bit-string model of the input gives: most-significant-first reads take from the top of the unread part of the current byte, least-significant-first reads from the bottom. Its count of consumed bits and its remaining bits of a partly read byte always match the model, testing for the end never changes what is read next, and a request beyond the input is reported as incomplete.",
  ["histories", "inputs"], "every input byte string and every finite sequence of reader operations (sizes, bit orders, seek targets, interleavings of bit, byte, end, skip and seek operations)",
  "Tests fix a handful of operation sequences; the interactions of a cached partial byte, a peeked byte, a changed bit order and a seek are combinatorial in the history.",
  [RD, LIB], [("leftover handling in read_bits_into / read_bits_uint_msb0", RD), ("byte reads through read_bytes / read_bytes_const(_into)", RD), ("end() peek, skip_bits, Seek impl, rest()", RD), ("BoundedBitVec", LIB)])

p("P02", "The bit writer emits exactly the bits written, in order",
  "Through any sequence of bit writes and byte writes in one bit order (or changing order only on byte boundaries), finished by finalising, the bytes produced are exactly those of a plain bit-string model: most-significant-first bits fill each byte from the top, least-significant-first bits from the bottom, and only the last byte is completed with zero bits. At every point the flushed bytes, the pending bits that can be queried and the count of written bits match the model, and reading the output back with the same operations returns what was written. A change of order inside a byte loses, invents and miscounts no bit.",
  ["histories", "inputs"], "every finite sequence of writer operations over all bit lengths, contents, bit orders and byte writes at any bit position",
  "Tests fix a handful of write sequences; carrying a pending partial byte across writes of every length and order is combinatorial.",
  [WR, LIB], [("write_bits_order and its per-order helpers", WR), ("write_bits_uint_msb0 fast path", WR), ("write_bytes with pending bits, finalize", WR), ("BoundedBitVec", LIB)])

p("P03", "Integers and floats decode to the value their bits denote",
  "For every integer type, floating-point type and boolean, every byte order, bit order, size in bits or bytes that fits the type, and every bit position in the stream, decoding yields the documented value: bits are grouped into bytes in bit order, bytes combined by byte order, unsigned values zero-extended and signed values sign-extended, and exactly the requested number of bits is consumed. A size larger than the type is refused with an error and consumes nothing, every way of stating the same size, order and byte order decodes alike, a byte order is named by 'little' or 'big' and nothing else, and a boolean accepts only 0 and 1.",
  ["inputs", "configurations"], "all primitive types x byte orders x bit orders x sizes x stream bit offsets x bit patterns x ways of passing the context",
  "Tests pick a few widths per type; fast paths are chosen by type, width, byte order, bit order and alignment, so a wrong combination hides between samples.",
  [PRIM, RD, "src/impls/bool.rs", CTX], [("ImplDekuReadBits / ImplDekuReadBytes / ImplDekuReadSignExtend", PRIM), ("ForwardDekuRead context forwarding", PRIM), ("read_bits_uint_msb0", RD), ("bool", "src/impls/bool.rs")])

p("P04", "Number encoding inverts decoding and rejects what does not fit",
  "For every integer type, floating-point type and boolean, byte order, bit order, size in bits and stream position, encoding a value either produces exactly the requested number of bits, which decode to that same value, or reports an error and writes nothing; it never silently alters a value given a size in bits. Every value that decoding can produce is encodable with the same parameters and gives back the same bits.",
  ["inputs", "configurations"], "all primitive types x byte orders x bit orders x sizes x values (in and out of range) x stream bit offsets",
  "Range checks and chunk selection differ per type, byte order, bit order and fast path; tests sample a few in-range values.",
  [PRIM, WR, "src/impls/bool.rs"], [("ImplDekuWrite / ImplDekuWriteDetails range checks and chunking", PRIM), ("u8 specialisation", PRIM), ("write_bits_uint_msb0", WR)])

p("P05", "A derived reader interprets its declared layout field by field",
  "For any struct or enum declared with the derive attributes and any input, the derived reader produces exactly the value, the consumed bit count and the success-or-error outcome that follow from interpreting the declaration field by field as documented: position adjustments, magic, padding, size, byte order, bit order, counts, conditions, assertions and nesting, with each attribute expression evaluated over the already read fields.",
  ["programs", "inputs"], "generated type declarations combining attributes across structs, tuple structs, enums and nested types, and generated inputs biased to satisfy or just miss their constraints",
  "Tests use fixed declarations mostly exercising one attribute at a time; code generation is a function of the whole declaration, and interactions between attributes are where it goes wrong.",
  [DR, DM, DL, "src/attributes.rs"], [("emit_struct / emit_enum / emit_field_read", DR), ("gen_ctx / field args / padding emitters", DM), ("attribute parsing into FieldData/VariantData", DL)])

p("P06", "A derived writer emits the declared layout and inverts the reader",
  "For any struct or enum declared with the derive attributes and any value, the derived writer produces exactly the bytes that follow from writing the declaration field by field as documented, or an error where the documentation requires one. Whenever reading an input succeeds for a type whose attributes are symmetric, writing the value succeeds and reading the result back gives an equal value, and writing is deterministic.",
  ["programs", "inputs"], "generated type declarations and generated values, both decoded from inputs and constructed directly",
  "Round trips are tested for fixed declarations and one or two values each; agreement of two separately generated code paths is a statement about all declarations and values.",
  [DW, DM, DL, "src/attributes.rs"], [("emit_struct / emit_enum / emit_field_write", DW), ("padding and magic writers", DM)])

p("P07", "All entry points agree, and leftovers chain",
  "For any type and input, decoding from a byte slice at a bit offset, from a stream at a bit offset, through the checked slice conversion and through a reader directly give the same value or the same kind of failure, report consistent consumed amounts and remaining input, and feeding the reported remainder and bit offset into the next decode reads the same sequence as one continuous reader. Encoding to a byte vector, to a bit vector, into a slice and through a writer produce the same bits; the slice form reports the exact length and refuses a slice that is too short, and the checked conversion refuses trailing whole bytes.",
  ["inputs", "programs"], "generated types, inputs, start offsets, trailing data, output slice lengths and chains of successive decodes",
  "Tests call one entry point per case; agreement is a relation over all inputs, offsets and remainders.",
  [DR, DW, LIB], [("from_bytes / from_reader / TryFrom emission", DR), ("to_bytes / to_slice / to_bits", LIB), ("DekuContainerRead / DekuContainerWrite", LIB)])

p("P08", "Truncated input is reported incomplete; trailing input is untouched",
  "If decoding an input succeeds and its outcome does not depend on where the input ends, then every strict prefix of the consumed part fails with an incomplete-input error and never yields a value, and appending arbitrary data after the consumed part changes neither the value nor the consumed amount. Where a collection reads to the end of the input, an input that ends within an element fails in the same way instead of dropping it. An incomplete-input error always asks for at least one bit.",
  ["inputs", "programs"], "generated types, accepted inputs, every byte truncation point of the consumed part and generated trailing data",
  "Tests truncate a few inputs at one point; cut points fall inside every kind of field, padding and nested container.",
  [RD, DR, "src/error.rs"], [("end-of-input mapping in every read primitive", RD), ("padding / skip at end of input", DM), ("NeedSize", "src/error.rs")])

p("P09", "Hostile input ends in a value or an error, within bounded memory",
  "Decoding any byte string with any derived or built-in type terminates without panicking, aborting or overflowing, and the memory it requests is bounded by a fixed constant plus a fixed multiple of the input actually present, whatever element counts, lengths, sizes, offsets or identifiers the input claims, as long as nesting is bounded by the declaration and elements of counted collections take at least one bit.",
  ["inputs", "programs"], "arbitrary and constraint-biased byte strings, including extreme counts and sizes, for types with input-controlled counts, sizes, padding, seeks and identifiers",
  "Tests decode well-formed inputs; hostile numeric fields reach arithmetic, preallocation and indexing that well-formed inputs never stress.",
  [RD, "src/impls/vec.rs", "src/impls/hashmap.rs", "src/impls/hashset.rs", PRIM, DR], [("preallocation from counts", "src/impls/vec.rs"), ("size arithmetic (bytes to bits)", "src/impls/vec.rs"), ("skip_bits and seek offsets", RD)])

p("P10", "Stream failures surface unchanged and chunking is invisible",
  "Splitting the same bytes into short reads or short writes, or interrupting and retrying, never changes any decoded value, encoded output or position. If the underlying stream fails with an error from some call on, the operation fails with that same kind of error: it never returns a value containing bytes the stream did not deliver, never reports success for bytes it did not hand over, and everything handed over before a write failure is a prefix of the correct output. Converted into a standard I/O error, a failure keeps its kind, its text and itself.",
  ["fault_sequences", "inputs", "programs"], "generated types and inputs x chunkings and interruptions x an injected error of each kind at each read, write or seek call",
  "No test injects stream failures or short transfers; the failure can land on any of the many separate stream calls.",
  [RD, WR, LIB], [("every inner read in read_bits_into, end, read_bytes*", RD), ("write_all sites", WR), ("error conversion", "src/error.rs")])

p("P11", "Collection limits select exactly the elements they describe",
  "A collection with an element count reads exactly that many elements; with a bit or byte budget it reads whole elements until the budget is exactly used; with a stop predicate it reads up to and including the first matching element; with read-to-end it reads until no input remains; in every case the elements are the successive decodings in input order and nothing beyond them is consumed. An impossible limit (a negative count) is an error. Writing a collection emits its elements in order with no additions, and equal limits behave equally for vectors, boxed and shared slices, sets and maps.",
  ["inputs", "programs"], "element types x limits x element sizes (including sub-byte and zero) x inputs x start offsets",
  "Tests use byte-aligned limits and short inputs; fast paths for bytes, off-by-one in budgets and element alignment need many shapes.",
  ["src/impls/vec.rs", "src/impls/hashmap.rs", "src/impls/hashset.rs", "src/impls/boxed.rs", "src/impls/arc.rs", CTX], [("reader_vec_with_predicate and read-to-end loop", "src/impls/vec.rs"), ("byte-vector fast path", "src/impls/vec.rs"), ("Limit", CTX)])

p("P12", "Enums read and write the variant their identifier selects",
  "Reading an enum selects the first declared variant whose identifier, pattern or discriminant matches the identifier read (or supplied by the caller), otherwise the declared default or catch-all, and otherwise fails with a no-such-variant or parse error; the identifier is read with exactly its declared type, size and byte order. Writing emits the identifier that selects the same variant again, a stored identifier is written as stored, and the identifier reported for a value of a variant declared with an explicit identifier is the one that was written.",
  ["inputs", "programs"], "generated enums (identifier literals, ranges, alternatives, discriminants, byte-string identifiers, stored identifiers, catch-alls, externally supplied identifiers, bit-sized identifiers) x all identifiers x payloads",
  "Tests cover a few identifiers per enum; dispatch order, gaps, boundaries of ranges and sizes need the whole identifier space.",
  [DR, DW, DL], [("emit_enum match arms and default handling", DR), ("variant id writing and deku_id", DW), ("VariantId and discriminant handling", DL)])

p("P13", "Magic and assertions gate every read and write",
  "A value is decoded only if every declared magic byte is present at its place and every declared assertion holds for the decoded fields, otherwise decoding fails with a parse or assertion error; a value is encoded only if its assertions hold, and the encoding contains every declared magic at its place. Neither gate changes what is consumed or produced when it passes.",
  ["inputs", "programs"], "generated types with magics and assertions at any depth x inputs that satisfy them, miss one, or are cut short",
  "Tests use one wrong byte; any byte of any magic or any assertion at any nesting level can be the one that is skipped.",
  [DR, DW, DM], [("emit_magic_read / emit_magic_write", DM), ("assert / assert_eq emission", DR), ("assert on write", DW)])

p("P14", "Padding skips exactly on read and writes exactly that many zero bits",
  "Padding declared before or after a field, in bits or bytes and with constant or computed amounts, makes the reader ignore exactly that many bits at that place, whatever their content and even when the field itself is skipped or conditional, and makes the writer emit exactly that many zero bits at the same place. A negative or too large amount is an error, not a wrong position.",
  ["inputs", "programs"], "generated types with bit and byte padding at every bit position x contents of the padding x computed amounts",
  "Tests use aligned constant padding; padding crosses partial bytes and both bit orders.",
  [DR, DW, DM, RD], [("emit_padding", DM), ("pad_bits", DM), ("skip_bits", RD)])

p("P15", "Seek attributes place reads and writes at the stated position",
  "A seek declared on a field or a struct makes the reader continue at exactly the stated byte position (relative to start, current position or end) and the writer place the following output there, with skipped bytes of the output zero and earlier output kept; data after the seek is decoded as if read from that position, partly read bytes are dropped, and an impossible target is an error rather than a wrong position.",
  ["inputs", "programs"], "generated types with seeks of each kind, constant and computed, forward and backward x inputs",
  "Tests seek a few fixed distances; the interaction with partly read or written bytes and nested readers is not explored.",
  [RD, WR, DR, DW], [("Seek impl of the reader", RD), ("Seek impl of the writer", WR), ("emit_seek", DM)])

p("P16", "Updating makes computed fields consistent and touches nothing else",
  "After updating a value, every field with an update expression equals that expression over the value as it stood when the field was reached, in declaration order, and every other field is unchanged; updating again changes nothing when the expressions do not depend on updated fields. A value with a count or length computed by update, written after updating, decodes back to an equal value; an update result that does not fit its field is an error rather than a wrapped value.",
  ["inputs", "programs"], "generated types with update expressions (lengths, sums, copies, out-of-range results) x values whose computed fields are stale",
  "Tests update one or two fixed values; overflow and ordering need generated values.",
  [DW, LIB], [("emit_field_update", DW), ("DekuUpdate", LIB)])

p("P17", "Temporary fields shape the encoding but never the value",
  "A temporary field is read at its place with its own attributes, is usable by later expressions exactly like a kept field, and is absent from the resulting type; on writing, the given temporary value is written at that place and size. The bytes accepted and produced are the same as for the type with the field kept and set to that value.",
  ["inputs", "programs"], "pairs of generated types, with temporary fields and with the same fields kept x inputs and values",
  "Tests have a few fixed types; equivalence with the kept-field type is a relation over all declarations and inputs.",
  [DR, DW, DL], [("temp field handling and remove_temp", DL), ("temp_value writing", DW)])

p("P18", "Context values reach exactly the declarations they are passed to",
  "Arguments a parent passes to a field arrive in the child in order and unchanged and govern the child's size, byte order, counts, conditions and identifiers exactly as if the same constants were written there; where no argument is passed the declared defaults apply, both through the default entry points and through a containing type. Byte order and bit order set on a type or field apply to exactly the fields that documented precedence gives them: field over type over default.",
  ["inputs", "programs"], "generated parent/child types with context lists, defaults and inherited byte and bit orders x inputs and values, compared with the specialised declaration",
  "Tests pass one or two fixed arguments; substitution equivalence needs many shapes of argument lists and inheritance.",
  [DR, DW, DM, DL, CTX], [("gen_ctx_types_and_arg / ctx_default", DM), ("gen_internal_field_ident / endian and order args", DM), ("gen_field_args", DM)])

p("P19", "Static sizes equal the encoded size",
  "For every type that declares a static size, the size in bits equals the number of bits every value of a fixed-layout type encodes to and decodes from, and for enums it is the identifier plus the largest variant, so no value encodes to more. The size in bytes is given exactly when the size in bits is whole bytes, and is then that many. (Fields that may be absent, custom conversions and temporary fields without a value have no static size.)",
  ["programs", "inputs"], "generated fixed-layout structs and enums (bit fields, byte fields, arrays, tuples, nested types, magics, identifiers) and built-in types x values",
  "Tests compare hand-computed constants for a few types; the sum over attributes is a function of the declaration.",
  [DS, LIB, PRIM], [("struct and enum size summation", DS), ("DekuSize impls", LIB), ("per-primitive sizes", PRIM)])

p("P20", "Wrapper and library types encode as their documented contents",
  "Boxed, shared, copy-on-write, reference, array and tuple forms decode and encode exactly as their contents in order would; non-zero integers refuse exactly zero; addresses use their octets in the given byte order; zero-terminated strings end at the first zero byte and round-trip, with a given length taken literally; unit consumes nothing; optional contents are present exactly when decoded. Writing any of them and reading it back returns an equal value.",
  ["inputs"], "all supported library types x element types x contexts x contents and bit offsets",
  "Tests use one value per type; tuple arities, array lengths and context forwarding multiply.",
  ["src/impls/boxed.rs", "src/impls/arc.rs", "src/impls/cow.rs", "src/impls/slice.rs", "src/impls/tuple.rs", "src/impls/nonzero.rs", "src/impls/ipaddr.rs", "src/impls/cstring.rs", "src/impls/option.rs", "src/impls/unit.rs"],
  [("per-type reader and writer impls", "src/impls/mod.rs")])

p("P21", "Non-seekable streams give the same results as seekable ones",
  "For any type that needs no backward seek, decoding from and encoding to a forward-only stream gives exactly the values, outputs, consumed amounts and kinds of error of the seekable stream with the same bytes; forward skips are honoured by consuming, and a seek the stream cannot do is reported as an error rather than a wrong position.",
  ["inputs", "programs"], "generated types without backward seeks x inputs x streams that only read or write forward",
  "One test covers the wrapper; equivalence is over all types and positions.",
  ["src/noseek.rs", RD, WR], [("NoSeek Seek emulation", "src/noseek.rs"), ("skip_bits seek path", RD), ("ReadExact", RD)])

p("P22", "Failed array reads neither leak, double-drop nor expose elements",
  "Decoding a fixed-size array of any element type either returns an array of the elements decoded in order or fails; when an element fails or its decoder panics, each element decoded before it is dropped exactly once, no other element is dropped, and nothing is leaked (when a decoder panics, elements already decoded may be left undropped, but none is dropped twice and nothing undecoded is dropped). The same accounting holds for every other container of decoded elements.",
  ["inputs", "fault_sequences"], "array lengths and nestings x element index at which decoding fails or panics x element types that own resources",
  "Tests never count drops on failure; undefined behaviour there is silent in a passing test.",
  ["src/impls/slice.rs", "src/impls/vec.rs"], [("uninitialised array fill and cleanup guard", "src/impls/slice.rs")])

p("P23", "Feature selections agree on everything they all support",
  "For declarations that need no more than a feature selection offers, every supported selection of the library decodes the same inputs to the same values, consumed amounts and kinds of error, and encodes the same values to the same bytes. Turning on logging or descriptive error texts changes no result.",
  ["configurations", "inputs", "programs"], "the feature selections of the project's CI x generated byte-level types x inputs and values",
  "Each configuration is tested alone on fixed cases; agreement between separately compiled implementations is never compared.",
  [RD, WR, PRIM, "src/impls/vec.rs", DR, DW], [("cfg(feature = bits / alloc / std) alternatives", RD), ("feature-gated code generation", DL)])

p("P24", "Skipped, conditional and defaulted fields consume and hold what is declared",
  "A field whose condition is false, or that is always skipped, consumes nothing and takes its declared default or else the type's default value; a field whose condition is true is read normally; conditions are evaluated on the fields read so far. Skipping for reading only or writing only affects only that direction, a field skipped for writing emits nothing, and a condition alone never suppresses writing.",
  ["inputs", "programs"], "generated types with skip, conditional and default combinations x inputs and values",
  "Tests fix one truth value at a time; combinations with padding, sizes and later references are not explored.",
  [DR, DW, DL], [("skip / cond / default emission", DR), ("skip / cond on write", DW)])

p("P25", "Custom conversions see and replace exactly one field or variant",
  "A mapped field holds exactly the mapping of the value decoded for its declared mapping input, and a failing mapping fails the decode with its error; a custom reader or writer is called once, at the field's position, with the stream positioned exactly there, and the following field continues exactly where it stopped; a variant's own reader runs once its identifier is read and yields the value, and its own writer emits the whole variant, identifier included. Offsets made available to expressions, defaults included, equal the number of bits or bytes consumed or produced so far.",
  ["inputs", "programs"], "generated types with mappings, custom readers and writers and position-dependent expressions x inputs and bit offsets",
  "Tests use one custom function per attribute; position and ordering guarantees quantify over everything around the field.",
  [DR, DW, DM], [("map / reader / writer emission", DR), ("byte and bit offset bindings", DM)])

p("P26", "Contradictory declarations are rejected at compile time",
  "A declaration whose attributes contradict each other or cannot be honoured (two limits or two seeks on one field, a bit and a byte size together, enum-only attributes on structs, an enum or variant without an identifier source, two identifiers or two default variants, a default for a field that is always read, attributes on a stored identifier, a static size with a seek, a default context that does not match, temporary fields without the helper, unknown or repeated attributes, internal names in expressions) is refused by the compiler with an error at that declaration, while the same declaration without the contradiction compiles: also when the library is known by another name, whatever names its types, parameters, lifetimes, variants, fields and arguments have, with type parameters, lifetimes and constant parameters, however its attributes are ordered and grouped, and in every edition of the language.",
  ["programs"], "generated declarations with one contradiction injected, each paired with its valid original",
  "The compile-fail tests list a few fixed declarations; the rule is about every declaration shape the contradiction can be placed in.",
  [DL, DR, DW], [("validation in FieldData / DekuData / VariantData", DL)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))

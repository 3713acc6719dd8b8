import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Integer encoding is exact and inverse to decoding",
"Every unsigned 64-bit value encodes to its minimal little-endian base-128 form (or, in the fixed-width form, to exactly ten bytes) and every byte string that decodes yields exactly the number it denotes, having consumed exactly the bytes of that encoding; so decoding inverts both encodings. Non-minimal encodings of up to 257 bytes are accepted, an encoding whose value exceeds 64 bits is always rejected as an overflow (never truncated), and a longer one is rejected as too wide. Zig-zag mapping between signed and unsigned 64-bit values is a bijection with 0,-1,1,-2,... going to 0,1,2,3,....",
["inputs"],"all 2^64 values, all byte strings (including arbitrarily long non-minimal encodings), readers that return short reads or errors",
"The unit tests encode about a dozen values and three malformed strings; the property ranges over 2^64 values and all encodings, where the interesting boundaries (bit 63/64, byte 10, byte 257) are single points.",
["src/wire.rs"],
[("decode_u64/encode_u64/encode_fixed_u64/zigzag/unzigzag","src/wire.rs")],
observe=["wire::decode_u64","wire::encode_u64","wire::encode_fixed_u64","wire::zigzag","wire::unzigzag"])

p("C02","Typed integer accessors and writers never change a value",
"Writing any value of any supported integer type, or a boolean or null, as a field and reading that field back through the accessor of the same type gives the same value. An accessor returns a value only when the field is an integer whose (signed or unsigned) decoded value lies within the requested type's range (0 or 1 for booleans, 0 for null) and returns an error otherwise - it never truncates, wraps or reinterprets - and fields of another kind are always rejected.",
["inputs"],"every 64-bit wire integer, every accessor and writer type, every kind of field value",
"Tests try a handful of values per type; the boundary on each side of every type's range is over 2^64 inputs times 13 accessors.",
["src/stream.rs","src/wire.rs"],
[("to_int! / to_null / to_bool accessors","src/stream.rs Value"),("write_int! / write_bool / write_null","src/stream.rs Stream")],
observe=["Value::to_u8..to_isize, to_bool, to_null","Stream::write_u8..write_isize"])

p("C03","Descriptor bytes and descriptors correspond one to one",
"Each of the 256 descriptor bytes parses to exactly one meaning: a zero tag is end-of-struct, end-of-document, exception or padding according to the top two bits, any other is a pair of that tag (1..63) and the type given by the top two bits. Rebuilding a descriptor from that meaning gives back the same byte, so no two meanings share a byte.",
["inputs"],"all 256 bytes and all (type, tag) pairs with tag in 1..63 plus the four specials",
"Tests cover the bytes that happen to occur in the sample streams.",
["src/wire.rs"],[("Descriptor::parse and From<ParsedDescriptor>","src/wire.rs")],observe=["wire::Descriptor::parse","wire::Descriptor::from"])

p("C04","Pull parsing yields exactly the elements the bytes encode",
"Reading a stream element by element yields, in order, exactly the elements that the fourleaf grammar assigns to the input bytes: each field's tag, byte offset, depth and value (integer, blob length and content, struct, enum discriminant), each end marker, exception and padding byte. After each element the reported position equals the number of bytes consumed and the underlying reader stands just behind it; reading fields instead of elements gives the same sequence without padding.",
["inputs","histories"],"all input byte strings, any interleaving of reading fields and elements and of partial blob consumption, readers that return short reads",
"Tests check some twenty literal streams with full reads; the claim is about all byte strings and all access patterns.",
["src/stream.rs","src/wire.rs"],
[("next_element_impl, next_field, next_element, next_value, next_blob","src/stream.rs"),("StreamTracker position tracking","src/stream.rs")],
[("pos","bytes consumed since the start","src/stream.rs Stream.pos"),("blob_end / commit","pending work on the last blob","src/stream.rs Stream")],
["Stream::next_field","Stream::next_element","Stream::pos"])

p("C05","Unread blob content is skipped exactly, never parsed as structure",
"Whatever part of a blob (or exception) the caller consumed - none, some by reads, buffered reads or seeks, or all - the next element read is the one that begins right after the blob's declared end, with the same content whether the stream skips by seeking or by reading and discarding. If the blob's declared length goes beyond the data available, moving on never produces an element from inside or beyond it.",
["inputs","histories"],"all streams with blobs, all sequences of read / buffered read / seek on the blob before moving on, seekable, non-seekable and seek-failing inputs (seeks on the handle stay within the data that exists)",
"Tests consume blobs in two or three ways on fixed streams; the pending-skip state interacts with every access pattern and with very large declared lengths.",
["src/stream.rs"],
[("commit / skip_blob / skip_by_seek / skip_by_discard","src/stream.rs"),("Blob Read/BufRead/Seek","src/stream.rs")],
[("blob_end","end offset of the current blob","src/stream.rs"),("commit","deferred skip","src/stream.rs")],
["Stream::next_field after a Blob","Stream::commit"])

p("C06","Nesting depth is tracked correctly and skipping skips exactly one value",
"The reported nesting depth always equals the number of struct and enum bodies currently open (the implicit top-level body counting from its first field), saturating at zero on surplus end markers, and a field's depth is that of its containing body. Skipping a field, or skipping up to a depth, leaves the stream exactly behind the skipped value's closing marker however deeply nested or wide its contents are, so the following sibling is read unchanged.",
["inputs","histories"],"all element sequences, all nestings, skip called at any point",
"Tests skip two small hand-written structures; depth arithmetic and skipping must hold for every nesting and interleaving.",
["src/stream.rs"],
[("struct_depth updates in next_element_impl / next_value","src/stream.rs"),("skip_up, Field::skip","src/stream.rs")],
[("struct_depth","open bodies","src/stream.rs Stream.struct_depth")],
["Stream::struct_depth","Field::depth","Stream::skip_up","Field::skip"])

p("C07","End of document stops reading; abrupt end of input is an error unless graceful",
"Once an end-of-document marker is read (or, in graceful mode, once the input ends exactly where a descriptor is due) the stream reports end of document, depth zero, and every further read returns no field and performs no input until the flag is cleared, after which reading continues with the following byte. Without graceful mode an input that ends where a descriptor is due is reported as an error and never as a normal end; in either mode an input ending anywhere else is an error.",
["inputs","histories"],"all inputs, both modes, any sequence of reads and flag clears after the end (no seek beyond the data that exists)",
"Tests look at one or two end situations; the rule must hold at every possible end offset and repeated calls.",
["src/stream.rs"],
[("eof flag, graceful_eof in StreamTracker::read and next_element_impl","src/stream.rs")],
[("eof","end-of-document seen","src/stream.rs Stream.eof"),("graceful_eof","mode","src/stream.rs")],
["Stream::eof","Stream::next_field","Stream::clear_eof"])

p("C08","Truncated input never yields a complete value",
"If the input stops before the end of an encoded value, reading that value - as an integer, a whole blob, a borrowed slice, or through high-level deserialisation, copying or zero-copy, from seekable or plain readers - reports an error; it never returns a shortened or made-up value as if complete. In particular, deserialising any proper prefix of a serialised value (other than cutting where only an implied end in graceful mode is missing) fails.",
["inputs","crash_points"],"every value and every cut point of its serialised form, copying and zero-copy, seekable and plain readers",
"Tests truncate at one or two points; every byte offset of every message is a distinct crash point.",
["src/stream.rs","src/de.rs","src/io.rs"],
[("read_exact in decoding; Blob::read_fully, slice, ext_slice, slice_mut length checks","src/stream.rs"),("deserialize_body requires closing element","src/de.rs")],
observe=["Blob::read_fully","Blob::slice","Blob::ext_slice","de::from_slice_copy","de::from_reader"])

p("C09","A blob handle shows exactly the blob's bytes and accounts for them",
"Reading through a blob handle - plain or buffered reads in any sizes, reading fully, reading up to a maximum, or taking slices - delivers exactly the bytes of that blob in order and then end-of-data, never a byte outside it. At every moment length, remaining, inner position, start, end and stream position agree with one another and with the bytes delivered so far; reading fully refuses (with nothing delivered) when more than the given maximum remains, and reading up to a maximum returns the first that many bytes, leaving the rest readable.",
["inputs","histories"],"all blobs, all sequences of handle operations and buffer sizes",
"Tests read a five-byte blob in a few ways; the property covers every operation sequence and size boundary.",
["src/stream.rs","src/io.rs"],
[("Blob accessors and Read/BufRead impls; slice family","src/stream.rs"),("TransparentCursor / AsExtBytes","src/io.rs")],
[("len, stream.pos, stream.blob_end","blob extent and cursor","src/stream.rs Blob/Stream")],
["Blob::read","Blob::fill_buf","Blob::read_fully","Blob::read_or_trunc","Blob::slice","Blob::ext_slice"])

p("C10","Seeking and writing through a blob handle stays inside the blob",
"A seek on a blob handle to any offset between its start and its end (at most 2^63-1 bytes away) moves both the handle and the underlying stream to exactly that byte; any target outside the blob is rejected with an error, moving nothing and never panicking. Writing through a handle changes only bytes inside the blob, at the current position, and never more than remain in it.",
["inputs","histories"],"all blob lengths, all seek requests of the three kinds including extreme offsets, all write sizes, any operation sequence",
"Tests seek a short blob to a few offsets; the boundary cases (end offsets, extreme negative values, large blobs) are not sampled.",
["src/stream.rs"],
[("Seek for Blob, Write for Blob","src/stream.rs")],
[("stream.pos/blob_end/len","bounds","src/stream.rs")],
["Blob::seek","Blob::write"])

p("C11","Each write operation emits exactly the bytes of its element",
"Each write call appends to the output exactly the encoding of its element - descriptor byte, then minimal integer, blob length and data, or discriminant as the element kind requires - and nothing else, and advances the reported position by exactly the number of bytes emitted, whatever short writes the underlying writer performs. Padding to an alignment emits the least number of padding bytes that makes the position a multiple of it, and none if it already is.",
["inputs","histories"],"all tags 1..63, values, blobs, discriminants, alignments, start positions, and all sequences of writes",
"Tests compare a few fixed outputs; the exact-bytes claim ranges over all arguments and sequences.",
["src/stream.rs","src/wire.rs"],
[("write_* family, write_desc, pad_to_align","src/stream.rs"),("encode_u64, encode_descriptor","src/wire.rs")],
observe=["Stream::write_*","Stream::pad_to_align","Stream::pos"])

p("C12","Blobs written piecemeal end up well-formed or are refused",
"After allocating a blob of a fixed length, the stream can be used further only if the position is exactly at the blob's end; otherwise the next operation or commit fails reporting how many bytes are missing and writes nothing. After committing a blob of unknown length, the output holds a ten-byte length field equal to the number of bytes written followed by exactly those bytes, all earlier and later bytes are untouched, and writing continues right behind the blob.",
["inputs","histories"],"all lengths, all sequences of writes and seeks within the blob, blobs at any position, one after another, in fields and exceptions",
"Tests write one short blob each way; the accounting must hold for every length and operation history.",
["src/stream.rs"],
[("write_desc_with_blob_alloc / check_at_end_of_blob; write_desc_with_blob_dynamic / finish_dynamic_blob; commit","src/stream.rs")],
[("blob_end, dynamic_blob_start, commit","pending obligations of the last blob","src/stream.rs")],
["Stream::commit","Stream::write_blob_alloc","Stream::write_blob_dynamic"])

p("C13","Copying elements between streams preserves the document",
"Reading every element (or field) from one stream and writing it to another yields a document that parses to the same sequence of tags, types, values, blob contents, exceptions, padding and end markers; for an input in minimal encoding the output is byte-for-byte identical. If a copied blob had been partly consumed or is truncated in the source, the output stream refuses to continue with an incomplete-blob error rather than silently becoming corrupt.",
["inputs"],"all well-formed documents, elementwise and fieldwise copying, any short-read/short-write behaviour",
"A single test copies one stream; the claim is for all documents.",
["src/stream.rs"],
[("write_element, write_field","src/stream.rs")],observe=["Stream::write_element","Stream::write_field"])

p("C14","Stream positions never overflow, wrap or panic",
"For every input, declared length and starting position, including ones near the 64-bit limit, no operation of a stream or blob handle wraps its position, blob end or depth or panics from arithmetic: an element or blob that would extend past the largest representable offset is refused with an error instead, and positions only move as the bytes processed dictate.",
["inputs","histories"],"all starting positions settable by the user, all declared blob lengths up to 2^64-1, all operation sequences with a tag in 1..63 and a power-of-two alignment; the position is set only while no blob is pending",
"Tests use positions below a thousand (plus two overflow cases); arithmetic at the 64-bit edge is not sampled.",
["src/stream.rs"],
[("check_advance_pos and its call sites; OverlongBlob","src/stream.rs")],
[("pos, blob_end, dynamic_blob_start","64-bit offsets","src/stream.rs")],
["Stream::set_pos/reset_pos followed by any operation"])

p("C15","In-band exceptions are reported once and reading resumes behind them",
"Reading a field when the next element (after padding) is an exception returns an error carrying the exception's message, converted lossily from at most its first 256 bytes, and the next read continues with the element immediately behind the whole exception, however long it is. Exceptions change neither depth nor the values of the surrounding fields, and element-level reading exposes the exception's exact content as a blob.",
["inputs"],"all exception payloads (any length and bytes) at any place in a stream",
"One test has one short ASCII exception; payloads around 256 bytes and non-UTF-8 data are not sampled.",
["src/stream.rs"],
[("next_field exception arm, read_or_trunc, commit","src/stream.rs")],observe=["Stream::next_field","Stream::next_element"])

p("C16","Serialise then deserialise returns the same value",
"For every supported type - integers, booleans, characters, strings, byte strings, options, all sequence, set, map and array kinds, tuples, boxed and shared pointers, network addresses, durations, results, and structs and enums declared through the macro, nested in any way - deserialising the serialised form gives back an equal value, provided the configured limits admit it. Several values serialised one after another to one output are read back one after another, each read leaving the input exactly at the start of the next.",
["inputs"],"all values of all supported types, nested arbitrarily, any number concatenated, copying and zero-copy, strict and lenient configuration",
"Each type has one or two example values in the tests; nesting and empty/boundary contents in every context (top level, field, element) are a product space.",
["src/ser.rs","src/de.rs","src/retrofit.rs","src/sugar.rs","src/adapt.rs"],
[("Serialize / Deserialize impl pairs","src/ser.rs, src/de.rs"),("fourleaf_retrofit! generated impls","src/sugar.rs")],
observe=["ser::to_vec, to_stream, to_writer","de::from_slice_copy, from_slice_borrow, from_stream_*, from_reader"])

p("C17","Configured resource limits are enforced exactly",
"During one deserialisation the total number of collection entries accumulated never exceeds the configured maximum, the total size of blobs copied into owned variable-length values never exceeds its configured maximum, and nesting never exceeds the recursion limit; input that would exceed a limit fails with that limit's error before the excess is allocated or recursed into. Input that stays within all three limits is never rejected because of them.",
["inputs","configurations"],"all inputs, all types, all limit settings (including 0 and exact-fit values), limits shared across nested values",
"Tests check one value above one limit; the accounting is cumulative over nested structure and must be exact at every boundary.",
["src/de.rs","src/unknown.rs"],
[("Context::push, collect, blob and their call sites","src/de.rs"),("read_fully(max_blob)","src/de.rs String/Vec<u8>")],
[("ContextStats.collected/total_blob, Context.depth","running totals","src/de.rs")],
["de::Error::MaxCollectExceeded / MaxBlobExceeded / RecursionLimitExceeded"])

p("C18","Arbitrary input never panics or hangs a reader",
"Parsing or deserialising any byte string with any supported target type and configuration, from a slice, a seekable or a plain reader, terminates and returns either a value or an error; it never panics, loops forever, overflows the stack or allocates in proportion to a declared length rather than to limits and actual data. This includes reading through every blob accessor in any order.",
["inputs","configurations"],"all byte strings, all target types (fixed arrays small enough for the stack), all configurations with a moderate recursion limit, any order of handle operations",
"There is no fuzzing in the suite; tests use well-formed input almost exclusively.",
["src/stream.rs","src/de.rs","src/io.rs","src/unknown.rs","src/sugar.rs"],
[("checked arithmetic, bounded reads, recursion limit","src/stream.rs, src/de.rs"),("cursor slicing","src/io.rs")],
observe=["all reading entry points"])

p("C19","Field multiplicity rules are enforced",
"A value that must occur exactly once is rejected with a too-many error when its field is repeated and with a missing-field error when absent; an optional value accepts zero or one occurrence and is rejected as too many at two; a fixed-size array accepts exactly its number of occurrences (or one blob of exactly that size for bytes); growable collections accept any number. The rules hold for built-in types and macro-declared types, at top level, inside structs and inside enum variants, and duplicates never silently overwrite.",
["inputs"],"all documents over a type's fields with every multiplicity of every field, for every single-valued, optional, array and collection type",
"Tests exercise a couple of types with 0, 1 and 2 occurrences; the rule spans every type and context.",
["src/de.rs","src/sugar.rs","src/unknown.rs"],
[("deserialize_field / finish of each Accum","src/de.rs"),("@_DESER_BOILERPLATE","src/sugar.rs")],
[("Accum types","occurrence bookkeeping","src/de.rs")],
["de::Error::FieldOccursTooManyTimes / FieldOccursTooFewTimes / RequiredFieldMissing"])

p("C20","Readers tolerate reordering, padding and unknown content, and can preserve it",
"Reordering the fields of a struct (keeping the relative order of equal tags), inserting padding before any descriptor, re-encoding integers and lengths non-minimally, or adding fields with unknown tags of any kind and nesting does not change the deserialised value when unknown fields are ignored. With unknown fields not ignored, an unknown field is an error naming its tag; a type with an unknown-field or unknown-variant catch-all keeps every unknown field (tag, kind, value, nested content, order) and re-serialises them unchanged.",
["inputs"],"all documents, all rewrites of these kinds at any depth, all unknown contents",
"Tests contain a few fixed unknown fields; compatibility must hold for every unknown content and placement.",
["src/de.rs","src/sugar.rs","src/unknown.rs","src/stream.rs"],
[("des_struct_body! field loop and unknown_field","src/de.rs"),("(?) handling in fourleaf_retrofit!","src/sugar.rs"),("UnknownFields","src/unknown.rs")],
observe=["de::from_slice_copy","unknown::UnknownFields"])

p("C21","Zero-copy and copying deserialisation agree, and borrow only the blob's bytes",
"For every input and every type supporting both styles, zero-copy and copying deserialisation succeed on the same inputs (limits on copied sizes aside) with equal values. Every borrowed byte slice or string of a zero-copy result is exactly the address range of its blob's content inside the original input slice.",
["inputs"],"all inputs and all types supporting both styles, blobs at any offset, after partial consumption",
"Tests compare one document in both styles; address identity is checked for one field.",
["src/de.rs","src/io.rs","src/stream.rs"],
[("&[u8] / &str / Cow impls","src/de.rs"),("as_ext_bytes, ext_slice","src/io.rs, src/stream.rs")],
observe=["de::from_slice_borrow","Blob::ext_slice"])

p("C22","Only valid values of the target type are ever produced",
"Deserialisation yields a value only when the encoded data is valid for the target: strings must be well-formed UTF-8, characters valid scalar values, integers in range, byte arrays of exact length, durations with less than a second of nanoseconds, enum discriminants among the declared variants (unless a catch-all exists), and every field of the expected kind; anything else yields an error. In particular a malformed value is never replaced by a default, truncated or partially filled one.",
["inputs"],"all encoded values for each validating type, in every context",
"Tests reject one bad example for a few types; validity boundaries (surrogates, 10FFFF/110000, lengths off by one, 999999999/1000000000) are not swept.",
["src/de.rs","src/retrofit.rs","src/sugar.rs","src/stream.rs"],
[("from_utf8 / from_u32 / length checks","src/de.rs"),("Duration, addresses","src/retrofit.rs"),("UnknownVariant","src/sugar.rs")],
observe=["de::Error::InvalidValue / InvalidValueMsg / UnknownVariant"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x)+"\n")

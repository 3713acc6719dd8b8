"""What each check consists of: verifier modules, bounded engine size, and the text that goes into the evidence."""

IO = ["std::io readers, writers and seekers behave as their documentation says (trait Dev and the I/O contracts of contracts/00_vio.vrs: a read delivers the next bytes of the input or an error, a write appends a prefix, a seek moves; a device its contract calls sound (slices, Cursor, Vec, Sink) fails only past its end or limit; read_exact, read_to_end, write_all, io::copy and Take::read follow std's documented behaviour)"]
ENC = ["rustc's own macro expansion of /repo/src is the code that runs; the extraction keeps its text and makes only the edits DESIGN.md lists"]
TOOL = ["Verus, vstd and Z3 are sound", "usize is 64 bits"]
PTR = ["a stored commit / seek function pointer is one of the functions it is ever set to, and calling it has the contract those functions were verified against (CommitOp::call, SeekOp::call)"]
DE = ['String::from_utf8, str::from_utf8 and char::from_u32 as documented; LinkedList / BinaryHeap push as multiset or sequence insertion; Cell get/set; no slice is longer than 2^62 bytes; Heap tokens of distinct Cells are distinct']
LOSSY = ["String::from_utf8_lossy is a function of its bytes"]
RULE = 'cases are generated from the seed by harness/src (documents, mutations, call histories, devices with short reads and faults); a case counts as distinct and non-trivial when its input bytes and the operations applied to it have not been seen before in the run'



def P(level, note, high, quick, bounded, extra_trusted=(), assumptions=(), thorough=None):
    return dict(safety=note.endswith('non-termination'), level=level, note=note, high=high, quick=quick, thorough=thorough or (quick[0] * 20, 150), seeds=3, bounded=bounded,
                trusted=TOOL + ENC + list(extra_trusted), assumptions=list(assumptions) or ['none beyond the trusted base'], rule=RULE)


PROPS = {
    'C01': P('proof', 'every function of wire.rs is under contract against a spec of the grammar; round trip, minimality, injectivity and zig-zag bijection are lemmas over those contracts', False, (40, 40), [], IO),
    'C02': P('proof', 'all accessors and writers under contract: exact range and exact value', False, (60, 40), [], IO),
    'C03': P('proof', 'Descriptor::parse and From under contract; one-to-one is a lemma over them, all 256 bytes', False, (200, 40), [], IO),
    'C04': P('proof', 'next_element/next_field/next_value/next_blob under contract against the grammar', False, (40, 40), [], IO + PTR),
    'C05': P('proof', 'commit, skip_blob, skip_by_seek, skip_by_discard, Blob read/seek under contract', False, (40, 40), [], IO + PTR),
    'C06': P('proof', 'struct_depth is part of the contract of every element read; skip_up and Field::skip', False, (40, 40), [], IO + PTR),
    'C07': P('proof', 'end-of-document state in the contracts of next_element_impl and of the eof accessors', False, (40, 40), [], IO + PTR),
    'C08': P('proof', 'truncation clauses of the stream and blob contracts; typed reads: the d_* contracts only hold of complete values; lemmas over the contracts (read_cut, read_cut_borrow, read_cut_reader) show that no proper prefix of what any value of the built-in types, nested to any depth, was written to is accepted', True, (40, 40), ['truncated documents of retrofitted and macro-declared types (engine sub-check "types", bounded)'], IO + PTR + DE),
    'C09': P('proof', 'Blob read, fill_buf, consume, read_fully, read_or_trunc, slice, ext_slice, slice_mut under contract', False, (60, 40), [], IO + PTR),
    'C10': P('proof', 'Blob seek and write under contract, for every offset and whence', False, (60, 40), [], IO + PTR),
    'C11': P('proof', 'every write operation under contract: exactly the bytes of its encoding', False, (60, 40), [], IO + PTR),
    'C12': P('proof', 'blob writing contracts: fixed and dynamic accounting', False, (60, 40), [], IO + PTR),
    'C13': P('proof', 'write_element, write_field and the copying loops under contract', False, (60, 40), ['that the written copy reads back as the same element (engine, bounded)'], IO + PTR),
    'C14': P('proof', 'every position computation under contract: no wrap, no panic', False, (60, 40), [], IO + PTR),
    'C15': P('proof', 'exception clauses of next_field, write_exception, commit', False, (60, 40), [], IO + PTR + LOSSY),
    'C16': P('proof', 'every Serialize impl (the bytes it writes) and every Deserialize impl (what a successful read returns, as a function of the document) of ser.rs, de.rs, adapt.rs, retrofit.rs, unknown.rs and of sample declarations in every form of the macro under contract; lemmas over those contracts show that the two compose to the identity (read_back, read_back_borrow, read_back_reader: reading the bytes x was written to gives a value equal to x, or an error) for every built-in type, nested to any depth; that the read succeeds, and the composition for retrofitted and macro-declared types, is bounded', True, (50, 40), ['that reading back succeeds within the limits; deserialise(serialise(x)) == x for retrofitted and macro-declared types (engine, bounded)'], IO + PTR + DE + ['a Vec and the slice of its elements have the same contents (ax_vec_slice)']),
    'C17': P('proof', 'Context::push, collect and blob exact; the counters never exceed the limits (invariant of every contract of de.rs); every element and owned blob is counted, every field and finish goes through push; a read fails for a limit only where that limit would be exceeded (why_*), the entry points included', True, (50, 40), [], IO + PTR + DE),
    'C18': P('proof', 'every function of wire, io, stream, ser, de, adapt, retrofit, unknown and of the sample macro declarations is verified free of overflow, out-of-range indexing, failing unwrap and non-termination', True, (60, 40), ['stack depth and allocation size (engine, bounded)'], IO + PTR + DE),
    'C19': P('proof', 'd_field / d_full / d_fin of each type: a successful read had the field exactly once (at most once, exactly N times, any number); why_field / why_fin: a refused occurrence or a missing field is reported as what it is', True, (50, 40), [], IO + PTR + DE),
    'C20': P('proof', 'the body contracts: fields in any order, padding, unknown fields skipped whole, refused (with their tag and position) or, with a catch-all, kept; halt: nothing else stops a body', True, (30, 40), ['compatible rewrites end to end (engine, bounded)'], IO + PTR + DE),
    'C21': P('proof', 'zero-copy reads return exactly the bytes of the blob inside the input, copying reads the same bytes', True, (50, 40), ['that both succeed on the same inputs (engine, bounded)'], IO + PTR + DE),
    'C22': P('proof', 'd_field of each validating type: the value read is the value encoded, and valid for the type; durations, addresses and macro-declared enums included; why_elem: data a type cannot represent is reported as the documented kind of error', True, (60, 40), [], IO + PTR + DE),
}
PROPS['C16']['rt'] = PROPS['C08']['rt'] = True

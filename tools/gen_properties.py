#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because one property per line is hard to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A byte value is exactly its bytes, whatever its storage and history",
  "Whether byte data is static, borrowed, inline, reference counted or backed by an external owner, every constructor, conversion, slice, split, take and shrink yields a value whose content, length, emptiness, indexing and byte iteration are exactly those of the same operation on a plain byte slice. Storage kind, alignment padding and earlier slicing are never observable, and an operation that does not mutate leaves its receiver unchanged.",
  ["inputs", "histories"],
  "All constructors and storage kinds x all contents/lengths around the inline, header and alignment thresholds x all sequences of slice/split/take/convert operations up to the bound.",
  "Tests cover a handful of literal values, one operation deep; the interaction of storage kinds, offsets and length thresholds under sequences of operations is never enumerated.",
  ["src/bytedata.rs", "src/shared_bytes.rs", "src/byte_chunk.rs", "src/external.rs", "src/stringdata.rs"],
  [("representation selection (inline / shared / external / borrowed)", "src/bytedata.rs ByteData::from_*"),
   ("offset and length arithmetic of reference-counted views", "src/shared_bytes.rs sliced/into_sliced/make_sliced"),
   ("inline chunk slicing", "src/byte_chunk.rs"), ("external sub-range views", "src/external.rs ExtBytesRef")],
  ["ByteData/SharedBytes as_slice, len, is_empty, index, iterator", "StringData as_str"],
  [("off/len", "window of a view into its backing storage", "src/shared_bytes.rs SharedBytes")])

p("C02", "A byte queue behaves as one flat byte sequence under any operation history",
  "After any history of pushes and pops at either end, consumption, draining, slicing, splitting off, appending, range replacement, extending and collecting, a queue holds exactly the bytes a flat growable byte string would hold after the same history, and pops return exactly the removed bytes in order. Its reported length equals the sum of its chunk lengths, it is empty exactly when that length is zero, no stored chunk is empty, and its chunk count equals the number of chunks it yields.",
  ["histories"],
  "All operation sequences up to the bound over a small alphabet of chunks and positions, including queues whose storage wraps around or spans several internal nodes, and the combination of two such queues.",
  "Tests run six fixed scripts on short queues; node-boundary, wrap-around and mixed head/tail states are reachable only through specific histories.",
  ["src/queue/byte_queue.rs", "src/queue/linked_root.rs", "src/queue/linked_node_data.rs", "src/queue/string_queue.rs", "src/queue/drain.rs"],
  [("linked nodes with a reserve chunk", "src/queue/linked_root.rs"), ("15-slot ring per node", "src/queue/linked_node_data.rs"),
   ("cached byte length", "src/queue/byte_queue.rs remain"), ("drain and range replacement", "src/queue/drain.rs, src/queue/byte_queue.rs do_drain/replace_range")],
  ["ByteQueue/StringQueue public methods", "chunks(), bytes(), len(), chunk_len()"],
  [("remain", "cached total number of bytes", "src/queue/byte_queue.rs"), ("count", "number of chunks in the list", "src/queue/linked_root.rs")])

p("C03", "Searching and splitting agree with a naive search over the flat bytes",
  "Prefix, suffix and position tests, byte and substring searches (with or without a start offset), and split-on/split-once/split-n/take-while/take-line operations on byte data, text and queues return what a naive scan over the flat content returns: the first match, the pieces between matches, and all content preserved. Every such operation terminates, regardless of where chunk boundaries fall relative to a match or partial match.",
  ["inputs"],
  "All haystacks and needles over a small alphabet up to the length bound x all ways to cut the haystack into chunks x all start offsets and piece limits.",
  "Tests search a few literals; self-overlapping needles straddling chunk boundaries are an enumeration problem.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs", "src/queue/split.rs"],
  [("cross-chunk substring search", "src/queue/byte_queue.rs find_slice*"), ("lazy splitting", "src/queue/split.rs, split_on in src/bytedata.rs and src/stringdata.rs"),
   ("cross-chunk prefix/suffix comparison", "src/queue/byte_queue.rs starts_with/ends_with/exists_at")],
  ["find_*/split_*/starts_with/ends_with/exists_at/take_while/take_line on ByteData, StringData, ByteQueue, StringQueue"])

p("C04", "Text types only ever hold valid UTF-8 and never cut a character",
  "No sequence of safe operations on a text value, text queue or text builder produces one whose content (or any of whose chunks) is not valid UTF-8. Constructing from bytes succeeds exactly when they are valid UTF-8, and every positional operation accepts exactly the positions a standard string accepts, giving the standard string's result, and panics (or reports failure) at any other position, leaving valid text behind.",
  ["inputs", "histories"],
  "All short byte strings for validation, and all operations x all byte positions over strings mixing 1- to 4-byte characters and all chunkings of them, up to the bound, including calls made after a rejected call.",
  "Tests use ASCII almost exclusively and never probe positions inside characters or continue after a panic.",
  ["src/stringdata.rs", "src/queue/string_queue.rs", "src/shared_str_builder.rs", "src/queue/char_iter.rs", "src/queue/drain.rs"],
  [("boundary checks in slicing", "src/stringdata.rs check_sliced, src/queue/string_queue.rs check_range*"),
   ("boundary checks in truncation", "src/shared_str_builder.rs truncate"), ("validation of input bytes", "src/stringdata.rs try_from_*")],
  ["StringData/StringQueue/SharedStrBuilder contents validated with core::str::from_utf8"])

p("C05", "Every allocation and external owner is released exactly once, as allocated",
  "Whatever sequence of operations, conversions, clones and drops is performed, in any drop order and including operations that panic or iterators abandoned half way, every heap block is freed exactly once with the size and alignment it was allocated with, every external owner is dropped exactly once and not before the last handle to it is gone, and nothing remains allocated once all handles are gone. No operation reads or writes outside the live storage.",
  ["histories", "fault_sequences"],
  "All operation sequences up to the bound over all owning types, all drop orders of the resulting handles, with panics injected at user callbacks and iterators dropped at every step.",
  "Tests observe values only; a leak, double free, wrong layout or use after free is invisible to them.",
  ["src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/external.rs", "src/queue/linked_root.rs", "src/queue/linked_node_data.rs", "src/queue/drain.rs", "src/bytes_1/shared_bytes.rs"],
  [("reference count and deallocation", "src/shared_bytes.rs Drop"), ("external owner block", "src/external.rs ExtBytes Drop/take_inner"),
   ("node ownership", "src/queue/linked_root.rs"), ("foreign reference-count vtable", "src/bytes_1/shared_bytes.rs")],
  ["global allocator calls", "drops of user-supplied external owners"])

p("C06", "Handles shared between threads stay valid and race free in every interleaving",
  "When several threads concurrently clone, read, slice, convert and drop handles to the same underlying data, every interleaving leaves each surviving handle with its original content, storage is released exactly once by the last owner, and exclusive ownership (in-place reuse, ownership extraction, uniqueness tests) is granted only when no other handle exists. Everything any thread did through its handle happens-before the release or exclusive reuse of the storage.",
  ["schedules"],
  "All interleavings (at atomic-operation granularity) of 2-3 threads performing every combination of up to a few handle operations on shared storage, judged under the language memory model's happens-before.",
  "No test uses threads at all.",
  ["src/shared_bytes.rs", "src/external.rs", "src/shared_bytes_builder.rs", "src/bytes_1/shared_bytes.rs"],
  [("atomic reference count", "src/shared_bytes.rs clone/Drop/is_unique"), ("external reference count and take", "src/external.rs"),
   ("foreign vtable over the same count", "src/bytes_1/shared_bytes.rs")],
  ["content of surviving handles, frees, granted uniqueness; atomic operations and their orderings"])

p("C07", "The byte and string builders behave as growable arrays, with honoured alignment",
  "After any sequence of appends, reservations, truncations, clears, in-place writes into spare capacity and conversions to and from shared data, a builder holds exactly what a plain growable byte array or string would hold, keeps capacity at least as large as its length and as any granted reservation, and stores its bytes at the requested alignment. Building yields exactly those bytes, and a failed or panicking growth or callback leaves earlier content intact.",
  ["histories", "fault_sequences"],
  "All operation sequences up to the bound with lengths and alignments around every growth threshold, with allocation failure and callback failure injected at every point.",
  "Tests do a few appends at default alignment; alignment, truncation extremes, partial fills and failed growth are untested.",
  ["src/shared_bytes_builder.rs", "src/shared_str_builder.rs", "src/shared_bytes.rs"],
  [("growth and alignment padding", "src/shared_bytes_builder.rs reserve/cap_check"), ("partial fill accounting", "src/shared_bytes_builder.rs apply_*"),
   ("take-over of a unique shared block", "From<SharedBytes> for SharedBytesBuilder")],
  ["as_slice, len, capacity, pointer alignment, build()"],
  [("off/len/align", "write position, capacity and alignment of the block", "src/shared_bytes_builder.rs")])

p("C08", "Handles that share storage are isolated from one another",
  "No operation on one handle - slicing, shrinking, consuming, appending, converting to a builder or to an owned vector and then mutating - changes the bytes or length seen through any other handle that shares its storage. A value that has been made shared/owned stays correct after the borrowed source it came from is gone or overwritten.",
  ["histories"],
  "All operation sequences up to the bound over a pool of up to three handles derived from one another, with every other handle re-read after each step, and with the borrowed source overwritten after conversion.",
  "Tests hold one handle at a time and never mutate after sharing.",
  ["src/shared_bytes.rs", "src/bytedata.rs", "src/external.rs", "src/shared_bytes_builder.rs", "src/stringdata.rs", "src/queue/byte_queue.rs"],
  [("uniqueness test before in-place reuse", "From<SharedBytes> for SharedBytesBuilder / Vec"), ("copy on into_shared of borrowed data", "src/bytedata.rs into_shared*")],
  ["as_slice of all live handles after each operation"])

p("C09", "Equality, ordering and hashing depend on content only and are consistent",
  "Equality and ordering between any two of the byte and text types (and standard slices, strings, vectors) equal the result of comparing their flat contents, whatever their storage or chunking, and are reflexive, symmetric and transitive. Two values of one type that compare equal hash equally, and a type that can be borrowed as a slice or string hashes as that slice or string does.",
  ["inputs"],
  "All pairs of contents over a small alphabet up to the bound x all storage kinds x all chunkings, for every comparison and hash implementation.",
  "Tests compare a few literals; chunking-dependent results need pairs of different chunkings of equal content.",
  ["src/bytedata.rs", "src/shared_bytes.rs", "src/stringdata.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs", "src/byte_chunk.rs"],
  [("chunk-wise comparison", "src/queue/byte_queue.rs PartialEq/PartialOrd"), ("hash implementations", "Hash impls of each type")],
  ["==, <, cmp, partial_cmp, Hash"])

p("C10", "Standard reader and writer implementations lose, duplicate or invent no byte",
  "Through the standard read, buffered-read and write traits, byte data and queues deliver exactly their content in order for every sequence of buffer sizes, including empty buffers, buffers larger than the data and vectored buffers; writers append exactly the bytes they report as accepted. Reading at end of data returns zero, exact reads that cannot be satisfied fail with the standard error, and none of these calls panics.",
  ["inputs", "histories"],
  "All contents up to the bound in all storage kinds and chunkings x all sequences of read/write calls with all buffer shapes up to the bound.",
  "No test covers the reader and writer implementations.",
  ["src/std.rs"],
  [("read/read_vectored/read_exact/read_to_end overrides", "src/std.rs"), ("write/write_vectored", "src/std.rs")],
  ["std::io::Read, BufRead, Write results compared with a byte slice / vector"])

p("C11", "Interoperation with the bytes crate preserves content, cursor and ownership",
  "Conversions to and from the bytes crate's buffer types preserve content in every storage kind and after any slicing; through that crate's cursor traits, remaining length, the current chunk and advancing agree with a plain slice cursor, copying out and writing in move exactly the right bytes, and over-advancing panics. Foreign buffers sharing the library's storage can be cloned, sliced, converted and dropped in any order without leak, double free or corruption.",
  ["histories", "inputs"],
  "All storage kinds x all sequences of convert/slice/clone/advance/drop/mutable-conversion operations up to the bound, with the allocation ledger checked at the end, in both the optimised and the safe interoperation configurations.",
  "Tests do a single round trip per kind and cannot see leaks or reference-count errors.",
  ["src/bytes_1/mod.rs", "src/bytes_1/bytedata.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/queue.rs", "src/bytes_1/shared_bytes_builder.rs"],
  [("foreign vtable over the library's reference count", "src/bytes_1/shared_bytes.rs"), ("cursor traits", "Buf/BufMut impls")],
  ["Bytes/BytesMut/Vec content, Buf/BufMut results, allocator ledger"])

p("C12", "HTTP bodies stream exactly the content, then end, with truthful size hints",
  "Polling byte data or a queue as an HTTP body yields, in order, non-empty data frames whose concatenation is exactly the content, then end of stream for ever after, with no trailers and no error. At every step the size hint is exact for the bytes not yet delivered and end-of-stream is reported exactly when none remain.",
  ["inputs", "histories"],
  "All storage kinds, chunkings and lengths around the frame limit, polled step by step to the end and beyond.",
  "No test polls a body.",
  ["src/http_body_04.rs", "src/http_body_1.rs"],
  [("frame production", "poll_data / poll_frame"), ("size hint and end of stream", "size_hint / is_end_stream")],
  ["http_body::Body results after every poll, both crate versions"])

p("C13", "Parser-input implementations match the parser crate's own slices and strings",
  "Used as input to the supported parser-combinator crate, byte data, text and both queues give, for every input operation and primitive combinator, the same outcome (consumed part, remainder, error or incomplete, and error kind) as that crate's own byte-slice or string input with the same content. Chunking is never observable.",
  ["inputs"],
  "All contents up to the bound (ASCII and multi-byte) x all chunkings x all trait operations with all arguments up to the bound, compared with the reference input types.",
  "Tests run two tiny parsers.",
  ["src/nom_7/bytedata.rs", "src/nom_7/bytequeue.rs", "src/nom_7/stringdata.rs", "src/nom_7/stringqueue.rs"],
  [("input trait implementations", "src/nom_7/*")],
  ["nom traits' results versus &[u8] / &str"])

p("C14", "Serialised values read back unchanged",
  "Serialising byte data, shared bytes or text produces the same document as serialising a plain byte buffer or string of that content, and deserialising it - from borrowed, owned or streaming input, in binary and textual formats - yields an equal value. Malformed text is rejected with an error, never with a panic or an invalid value.",
  ["inputs"],
  "All short contents (plus lengths at the inline threshold) x storage kinds x input modes (borrowed, owned, reader) x formats (compact binary, self-describing binary, JSON).",
  "No test serialises anything.",
  ["src/serde_1/mod.rs", "src/serde_1/bytedata.rs", "src/serde_1/shared_bytes.rs", "src/serde_1/stringdata.rs"],
  [("visitors", "src/serde_1/*")],
  ["serialised documents, deserialised values"])

p("C15", "Interned values equal their input and are canonical, also under concurrency",
  "Interning returns a value equal to its input, and as long as the entry is not cleared every request for the same content (longer than what a value holds inline) - by bytes or text, from any thread, however the threads interleave - returns a handle to the same storage, while lookups never invent entries. Clearing or dropping an interner never invalidates handles already given out, and the documented length limits decide acceptance.",
  ["histories", "schedules"],
  "All sequences of intern/look-up/clear operations up to the bound over contents around the inline and maximum lengths, and all interleavings of 2-3 threads performing them, including the first use of a lazily initialised interner.",
  "No test covers interning.",
  ["src/interning/static.rs", "src/interning/byte_interning.rs"],
  [("lazy initialisation", "src/interning/static.rs"), ("content map", "src/interning/static.rs")],
  ["returned values and their storage addresses"])

p("C16", "Constant helpers and UTF-8 decoding agree with the standard library",
  "The constant-evaluable helpers for comparing, slicing, searching and splitting bytes and strings, the compile-time concatenation macros, and the character decoders return exactly what the corresponding standard-library operation returns. Decoders report a character with its exact byte position for valid encodings, and reject truncated, overlong, surrogate, out-of-range and stray-continuation sequences, for every input.",
  ["inputs"],
  "All byte strings up to length three and every structurally distinct four-byte string, every Unicode scalar value in context, and all haystack/needle/range combinations up to the bound.",
  "Tests cover two macro literals; the decoder's rejection behaviour is a full-domain question.",
  ["src/lib.rs", "src/char_indicies.rs", "src/macros.rs"],
  [("constant helpers", "src/lib.rs const_*"), ("decoder", "src/char_indicies.rs, src/lib.rs const_utf8_char_next"), ("macros", "src/macros.rs")],
  ["return values"])

p("C17", "Every iterator yields the flat content exactly once, from either end",
  "For every byte, character, character-index and chunk iterator (borrowed, owned and draining), any mix of front and back stepping, skipping, nth, take, last and count yields exactly the elements a standard iterator over the flat content yields, each element once, with no repeats when the two ends meet. Reported remaining lengths and size hints are correct after every step and exhausted iterators stay exhausted.",
  ["histories", "inputs"],
  "All contents and chunkings up to the bound x all sequences of iterator calls up to the bound, including huge skip arguments.",
  "Tests drain iterators forward only.",
  ["src/queue/byte_iter.rs", "src/queue/char_iter.rs", "src/queue/chunk_iter.rs", "src/queue/linked_iter.rs", "src/queue/drain.rs", "src/char_indicies.rs"],
  [("two-ended cursors over chunks", "src/queue/byte_iter.rs, src/queue/linked_iter.rs"), ("character decoding across chunks", "src/queue/char_iter.rs")],
  ["iterator results versus standard iterators"])

p("C18", "Textual renderings describe the content faithfully, whatever the chunking",
  "Display and formatting macros produce exactly the text, honouring standard width, alignment and precision as for a plain string; hexadecimal renderings give exactly two digits per byte in order; debug and byte-string renderings of byte data, chunks, byte queues and text are valid literals that decode back to the content. Apart from the diagnostic debug listings of text queues, shared bytes and builders, output depends only on the content and format options, never on storage kind or chunk boundaries.",
  ["inputs"],
  "Every single byte and every pair of bytes, plus all short texts over an alphabet of escape-relevant and multi-byte characters, x all chunkings x the format-option combinations.",
  "Tests never check rendering beyond one or two literals.",
  ["src/byte_string_render.rs", "src/bytedata.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs", "src/stringdata.rs", "src/macros.rs"],
  [("byte-string literal renderer", "src/byte_string_render.rs"), ("Display/Debug/LowerHex/UpperHex impls", "each type"), ("format macros", "src/macros.rs")],
  ["formatted output"])

p("C19", "Invalid positions and ranges are rejected and never reach foreign memory",
  "Every operation taking a position, length or range - on byte data, shared bytes, text, queues, builders and drains - given bounds that are out of range, inverted or near the maximum integer, panics or reports failure exactly where the standard slice operation would, in builds with and without overflow checks. After a rejected call the receiver is unchanged and fully usable, and no call ever exposes bytes outside the value.",
  ["inputs", "configurations"],
  "All operations x all range forms (including inclusive, exclusive, unbounded and excluded-start) x all bounds from the set {0..len+2, half-word limits, maximum-1, maximum} x all storage kinds, in both build profiles.",
  "Tests pass only valid ranges and only run in the overflow-checked profile.",
  ["src/shared_bytes.rs", "src/bytedata.rs", "src/byte_chunk.rs", "src/external.rs", "src/stringdata.rs", "src/queue/byte_queue.rs", "src/shared_bytes_builder.rs"],
  [("range normalisation and checks", "sliced*/make_sliced*/into_sliced* in each type, check_range in queues"), ("truncate/advance checks", "src/shared_bytes_builder.rs")],
  ["panic or failure versus standard slice; content after the call"])

p("C20", "Generated arbitrary values are well formed and stay within their input",
  "For every entropy input, the fuzzing-input constructors return either an error or a well-formed value: text is valid UTF-8, queue lengths equal their content, borrowed values are sub-slices of the input, and the claimed size hint is never exceeded in the sense required by that trait. Construction never panics and is deterministic.",
  ["inputs"],
  "All entropy strings up to the length bound over an alphabet covering length markers and UTF-8 lead/continuation bytes.",
  "No test covers these constructors.",
  ["src/arbitrary_1/bytedata.rs", "src/arbitrary_1/shared_bytes.rs", "src/arbitrary_1/stringdata.rs", "src/arbitrary_1/byte_queue.rs", "src/arbitrary_1/string_queue.rs"],
  [("Arbitrary impls", "src/arbitrary_1/*")],
  ["constructed values"])

p("C21", "The allocation-free configuration keeps the same semantics within its capacity",
  "Built without allocation support, byte data, text and queues give the same results as the reference byte or character sequence for every operation available there, never allocating. A full fixed-capacity queue reports itself full and hands a rejected item back unchanged (or panics where documented) with its content intact.",
  ["histories", "configurations"],
  "All operation sequences up to the bound over queues filled to and around capacity, including every ring offset, in the reduced configuration.",
  "The reduced configuration is only compiled, never run, by the existing tests.",
  ["src/queue/byte_queue.rs", "src/queue/linked_root.rs", "src/queue/linked_node_data.rs", "src/bytedata.rs", "src/stringdata.rs"],
  [("fixed-capacity ring", "src/queue/linked_node_data.rs"), ("cfg-gated branches", "#[cfg(not(feature = \"alloc\"))] code")],
  ["queue contents, is_full, returned items"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
LAY=["src/layout/fixed_size_primitive.rs","src/layout/boolean.rs","src/layout/fixed_size_list.rs","src/layout/variable_size_list.rs"]
p("C01","Collecting items into an array and reading them back is lossless",
 "Building an array of any supported item type from a sequence of items, by any of the collecting or capacity-plus-append constructors, yields an array whose length is the number of items and whose elements read back in order equal those items. Nulls, nesting, empty lists, booleans and the exact bit pattern of every primitive are preserved, and the result is the same whichever constructor was used.",
 ["inputs","configurations"],"every item type composed from primitives, booleans, optionals, variable-size lists and fixed-size lists (N >= 1) to any nesting; every finite item sequence; every constructor",
 "The tests read back a few hand-written sequences, mostly shorter than one bitmap byte and never across the internal 1024-item chunk; the property ranges over all types, lengths and null patterns.",
 ["src/array.rs","src/validity.rs","src/offset.rs","src/bitmap/mod.rs","src/collection/flatten.rs"]+LAY,
 [("null items become default slots plus a cleared validity bit","src/validity.rs FromIterator/Extend"),("running offsets appended per row","src/offset.rs Extend"),("bit packing","src/bitmap/packed.rs")],
 ["Collection::view / owned / iter_views / into_iter_owned, Length::len of the built array"])
p("C02","All ways of reading an array agree, and out-of-range reads are None",
 "Viewing by index, taking an owned item by index, iterating views and consuming iteration all produce the same elements in the same order, at every nesting level, and lengths and iterator size hints are exact after every step (including skipping and early stopping). Reading any index at or beyond the length returns nothing, for every index up to the largest representable one, and never panics.",
 ["inputs","histories","configurations"],"every array reachable through the public API, every index in 0..=usize::MAX at every nesting level, every interleaving of next/nth/size_hint calls on its iterators",
 "Tests read a handful of in-range indices; they cannot try all indices, all nesting levels, and all partially consumed iterators.",
 ["src/collection/mod.rs","src/collection/flatten.rs","src/offset.rs","src/bitmap/mod.rs","src/bitmap/unpacked.rs","src/validity.rs","src/collection/slice.rs","src/collection/vec.rs"],
 [("bounds checks in view","src/offset.rs, src/collection/flatten.rs, src/bitmap/mod.rs, src/validity.rs"),("size_hint / ExactSizeIterator impls","src/bitmap/unpacked.rs, src/validity.rs, src/offset.rs, src/collection/flatten.rs")],
 ["return values of view/owned, iterator items and size_hint, equality of list views"])
p("C03","Any history of append, truncate and reserve behaves like a plain sequence",
 "After any sequence of append, fallible append, truncate and reserve calls starting from any constructor, an array holds exactly the items a plain growable sequence would hold after the same calls. Truncating beyond the length and reserving never change contents, and items removed by a truncation never reappear after later appends.",
 ["histories","inputs","configurations"],"all finite histories of extend/try_extend/truncate/reserve/try_reserve over every item type, with arbitrary batch sizes (across byte, 1024-item and row boundaries)",
 "Tests exercise one or two operations each; stale physical slots left behind by a truncation only matter for particular three-step histories and particular lengths modulo 8, N or 1024.",
 ["src/array.rs","src/validity.rs","src/offset.rs","src/bitmap/mod.rs","src/collection/flatten.rs","src/collection/vec.rs"]+LAY,
 [("uncommitted slots discarded at next extension","src/validity.rs Extend, src/offset.rs Extend"),("overwrite of stale bits","src/bitmap/mod.rs Extend")],
 ["contents through Collection reads after every call"],
 [("bits","committed bit length, may be shorter than the buffer","src/bitmap/mod.rs"),("last offset","committed child length","src/offset.rs"),("bitmap length","committed length of a nullable collection","src/validity.rs")])
p("C04","An append interrupted by a panic leaves a consistent prefix",
 "If the caller's item source panics part-way through an append, or the append itself panics because the offset type cannot represent the result, the array afterwards holds all items it held before followed by some prefix of the items the source had produced, every whole item intact and no partial row visible. Every later read, append, truncate, export or consuming iteration behaves exactly as if that prefix had been appended normally.",
 ["fault_sequences","histories","inputs"],"every item type, every prior history, every panic position in the source, row lengths reaching the limit of the offset type, including panics during several successive appends, followed by any further operations",
 "Tests inject at most one panic at one position into a few types; the property needs every position relative to byte, 1024-item and row boundaries and arbitrary continuations.",
 ["src/validity.rs","src/offset.rs","src/bitmap/mod.rs","src/collection/flatten.rs"],
 [("committed prefix defined by bitmap length / last offset","src/validity.rs, src/offset.rs"),("bit-length bump after bytes are written","src/bitmap/mod.rs Extend"),("row-boundary restoration","src/collection/flatten.rs Extend")],
 ["contents and physical buffers after catching the unwind, and after each later call"])
p("C05","Fallible operations are all-or-nothing and never abort",
 "When a fallible constructor, append or reservation reports failure, the collection still holds exactly what it held before (fallible constructors yield nothing), and it remains fully usable. Failure is reported only when memory was refused, a capacity computation overflowed or the offset type cannot represent the result, and refusal of memory at any point is reported as an error rather than aborting or panicking; success means every item was appended.",
 ["fault_sequences","inputs","histories"],"every allocation point of every fallible call failing, on every item type and prior history; row lengths reaching the limit of the 32- and 64-bit offset types; requested capacities up to usize::MAX",
 "Tests fail one or two chosen allocations; the property quantifies over every allocation point in every nested buffer and over offset overflow which needs more than 2^31 elements.",
 ["src/collection/mod.rs","src/collection/vec.rs","src/bitmap/mod.rs","src/validity.rs","src/offset.rs","src/collection/flatten.rs"]+LAY,
 [("rollback to the original length on error","src/validity.rs, src/offset.rs, src/bitmap/mod.rs, src/collection/vec.rs try_extend"),("checked capacity arithmetic","try_with_capacity_in / try_reserve")],
 ["Result of try_* calls and contents afterwards under an allocator that refuses the k-th request"])
p("C06","Physical buffers follow the Arrow columnar format and encode the contents",
 "At every observable moment the exposed buffers of an array are a valid Arrow encoding of its contents: offsets start at zero, never decrease, number one more than the rows and end within the child; fixed-size children hold the row width times the rows; packed bits are least-significant-first within each byte with enough bytes for every bit; validity has one bit per item with one meaning valid. Decoding those buffers by the Arrow rules alone gives exactly the items the array reports.",
 ["histories","inputs","configurations"],"every array reachable by the public API (all histories, item types, storages), at every nesting level",
 "Tests compare a few literal buffers; the property must hold for every contents and every history.",
 ["src/bitmap/mod.rs","src/bitmap/packed.rs","src/bitmap/unpacked.rs","src/validity.rs","src/offset.rs","src/collection/flatten.rs"]+LAY,
 [("bit packing order","src/bitmap/packed.rs"),("offset accumulation","src/offset.rs"),("child/validity co-growth","src/validity.rs")],
 ["buffer_ref / child_ref / bitmap_ref / into_parts of the public types"])
p("C07","Raw parts are accepted exactly when they form a valid collection",
 "Constructing a bitmap, list, fixed-size list or nullable collection from raw parts succeeds exactly when the parts satisfy the format's rules, and otherwise reports an error that truthfully describes a violated rule, without panicking for any lengths, offsets or values. An accepted collection reads back exactly what the parts encode, and taking it apart returns the same parts.",
 ["inputs"],"all buffers, bit offsets and lengths up to usize::MAX, all offset sequences (empty, negative, decreasing, non-zero first, out of bounds) of both widths, all row widths including zero, all length combinations",
 "Tests check one example per error; they cannot enumerate boundary combinations such as overflowing offset plus length or violations at each position.",
 ["src/bitmap/mod.rs","src/offset.rs","src/collection/flatten.rs","src/validity.rs"],
 [("validation in try_from_parts","src/bitmap/mod.rs, src/offset.rs, src/collection/flatten.rs, src/validity.rs")],
 ["Result of try_from_parts, reads of the accepted value, into_parts"])
p("C08","Validity queries agree with the items and ignore padding bits",
 "For every nullable collection the null count, valid count, per-index validity and nullness, and the any/all-null/valid queries agree exactly with which items read back as null; bits of the validity buffer outside the item range never influence any answer. A collection without an explicit validity bitmap answers exactly like one whose bitmap marks every item valid, and per-index queries out of range return nothing.",
 ["inputs","histories","configurations"],"every validity bitmap with any bit offset, length and padding content; implicit and explicit validity; every index; after any history",
 "Tests use a few short bitmaps with benign padding; the property ranges over all offsets, lengths and padding contents.",
 ["src/bitmap/validity.rs","src/bitmap/mod.rs","src/validity.rs"],
 [("masked population count","src/bitmap/mod.rs count_ones"),("queries derived from bitmap","src/bitmap/validity.rs")],
 ["ValidityBitmap methods versus items read through the collection"])
p("C09","A bitmap window over any bit offset behaves like the booleans it covers",
 "A bitmap built over existing bytes at any bit offset and length behaves exactly like the sequence of booleans its window covers, for reading, iterating and counting. Appending, fallible appending, reserving and truncating through such a window act on that sequence alone and never alter bits before the window's end that remain part of it or precede it.",
 ["inputs","histories"],"all byte contents, bit offsets (including beyond one byte) and lengths, followed by all histories of append/truncate/reserve",
 "Tests use one or two offsets; read, write and masking arithmetic depends on (offset, length, buffer slack) combinations that only a systematic enumeration covers.",
 ["src/bitmap/mod.rs","src/bitmap/unpacked.rs","src/bitmap/packed.rs"],
 [("offset-relative bit and byte indices","src/bitmap/mod.rs bit_index/byte_index"),("overwrite loop then append","src/bitmap/mod.rs Extend")],
 ["view/iter/into_iter/into_parts/buffer_ref of Bitmap"])
p("C10","The storage kind never changes what an array means",
 "The same logical contents held in growable, boxed, reference-counted, borrowed-slice, fixed-array or caller-supplied storage give identical results for every read, query and iteration, with the same error and bound behaviour. Arrays over borrowed or shared storage read exactly the bytes of that storage without altering or copying them.",
 ["inputs","configurations"],"every item type and contents, each supported storage kind at every nesting level",
 "Tests cover each storage with one tiny example; they do not compare storages over all item types and contents.",
 ["src/buffer.rs","src/collection/vec.rs","src/collection/box.rs","src/collection/rc.rs","src/collection/arc.rs","src/collection/slice.rs","src/collection/array.rs"],
 [("Collection impl per storage","src/collection/*.rs"),("storage-generic layouts","src/layout/*.rs")],
 ["reads of arrays rebuilt from the same parts in each storage"])
p("C11","Every buffer uses the allocator the caller supplied",
 "When an array is created with a caller-supplied allocator, every buffer at every nesting level, including validity bitmaps created lazily later, is obtained from that allocator, in construction and in every later growth. The allocator an array reports is the one it was created with.",
 ["histories","configurations"],"every item type, every allocator-aware constructor, every later history of growth operations",
 "Tests inspect allocator ids for a few shapes after a single operation; lazily created or nested buffers need particular multi-step histories.",
 ["src/collection/mod.rs","src/validity.rs","src/offset.rs","src/bitmap/mod.rs","src/collection/flatten.rs","tests/collection_alloc_in.rs"]+LAY,
 [("allocator cloned into each part","with_capacity_in/from_iter_in of Validity and Offsets"),("materialised bitmap takes collection's allocator","src/validity.rs materialize_bitmap")],
 ["allocator handle of every buffer of an array over caller-supplied storage"])
p("C12","Results depend only on the items a source yields, not on its hints",
 "Collecting from or appending from any well-behaved item source takes every item up to the first end-of-source and nothing after it, whatever its legal size hint says (zero lower bound, missing, loose or enormous upper bound) and whether or not the source would yield more if asked again after its end. No legal size hint causes failure, panic or abort.",
 ["inputs","programs"],"all sources with a size hint consistent with the iterator contract, all post-end behaviours, every item type, every collecting and appending entry point",
 "Tests feed vectors and ranges, whose hints are exact and which stay ended; sources with loose hints or restart after the end are never used.",
 ["src/validity.rs","src/offset.rs","src/bitmap/mod.rs","src/bitmap/packed.rs","src/collection/flatten.rs","src/collection/vec.rs"],
 [("fusing of sources","src/bitmap/mod.rs"),("preallocation from hints","src/validity.rs, src/offset.rs from_iter*"),("short chunk detects the end","src/validity.rs extend")],
 ["contents after collecting from instrumented sources"])
p("C13","Exported C structures describe the array exactly",
 "Exporting an array produces an Arrow C Data Interface array and schema whose formats, names, nullable flags, lengths, null counts, offsets, buffer and child counts and nesting describe exactly the array's type and contents. A consumer decoding the exported buffers by the Arrow rules alone recovers exactly the array's items, without any data having been copied.",
 ["inputs","configurations"],"every exportable item type (both list offset widths) and nesting, every contents, storage and history before export",
 "Tests export a few small arrays; correctness of pointers, counts and flags must hold for every type composition and contents.",
 ["narrow-ffi/src/export/mod.rs","narrow-ffi/src/export/fixed_size_primitive.rs","narrow-ffi/src/export/boolean.rs","narrow-ffi/src/export/fixed_size_list.rs","narrow-ffi/src/export/variable_size_list.rs"],
 [("buffers/children/null_count per layout","narrow-ffi/src/export/*.rs"),("schema construction","narrow-ffi/src/export/mod.rs ArrowSchema::flat and siblings")],
 ["fields of the exported structures read through their C layout"])
p("C14","Exported memory stays valid until release and is freed exactly once",
 "The memory behind an exported array or schema stays readable and unchanged, wherever the structures are moved, until its release is invoked or it is dropped; releasing marks the structure and all of its children released and frees everything exactly once. No order of moving, releasing or dropping the array, the schema and children moved out of them leaks, double-frees or invalidates another.",
 ["histories","configurations"],"all interleavings of read, move, move-child-out, release, drop and import on the exported structures, for every exportable type and storage",
 "Tests release in one order; leaks, double frees and dangling pointers depend on the order and on nesting, and tests do not observe memory being freed.",
 ["narrow-ffi/src/lib.rs","narrow-ffi/src/export/mod.rs","narrow-ffi/src/export/fixed_size_list.rs","narrow-ffi/src/export/variable_size_list.rs"],
 [("private data box owned by the release callback","narrow-ffi/src/export/mod.rs release_array/release_schema"),("Drop calls release when present","narrow-ffi/src/lib.rs")],
 ["release pointers, counting storage drops and live allocations per step"])
p("C15","Export refuses unsupported bit offsets cleanly",
 "Exporting an array in which any packed-bit buffer, validity or values, at any nesting depth starts at a non-zero bit offset fails with an error naming that offset, and an array without such a buffer always exports. A refused export frees the array's memory exactly once and leaks nothing.",
 ["inputs","configurations"],"every type and nesting, every position of the offset bitmap (validity or values), every offset, also when sibling levels were already processed",
 "Tests place an offset at one or two positions; the property needs each position at each depth, and observing that nothing leaks.",
 ["narrow-ffi/src/export/mod.rs","narrow-ffi/src/export/boolean.rs","narrow-ffi/src/export/fixed_size_list.rs","narrow-ffi/src/export/variable_size_list.rs"],
 [("offset checks","narrow-ffi/src/export/mod.rs export/child_array, boolean.rs offset")],
 ["Result of export, storage drop counts and live allocations"])
p("C16","Import accepts exactly well-formed structures of the requested type",
 "Importing succeeds exactly when the foreign array and schema are a well-formed, supported description of the requested type; otherwise it returns an error that truthfully describes a defect that is present, at whatever nesting depth it occurs. It never panics, never reads through missing or misaligned buffers, and leaves the foreign structures unreleased and unmodified whatever the outcome.",
 ["inputs","fault_sequences"],"every requested type and nesting; every single and paired defect of released state, format, flags, lengths, offsets, null counts, buffer/child counts, dictionaries, missing, misaligned or inconsistent buffers, at every depth",
 "Tests inject one defect at a time at the top level of a few types; combinations and depth are not covered.",
 ["narrow-ffi/src/import/mod.rs","narrow-ffi/src/import/fixed_size_primitive.rs","narrow-ffi/src/import/boolean.rs","narrow-ffi/src/import/fixed_size_list.rs","narrow-ffi/src/import/variable_size_list.rs"],
 [("common header validation","narrow-ffi/src/import/mod.rs import_layout"),("per-layout validation","narrow-ffi/src/import/*.rs")],
 ["Result of import on a foreign producer's structures; producer release counters"])
p("C17","Exporting then importing is the identity and copies nothing",
 "Importing an exported array as its own type always succeeds and gives an array with exactly the same items, validity answers and nesting, borrowing the exported buffers in place. The imported array remains correct for as long as the exported structure is alive, and importing repeatedly gives equal results.",
 ["inputs","histories","configurations"],"every exportable type, contents and prior history (including truncations and interrupted appends), every storage",
 "Tests round-trip a few literals; contents after truncation or interrupted appends, lengths around byte boundaries and deep nesting are not covered.",
 ["narrow-ffi/src/export/mod.rs","narrow-ffi/src/import/mod.rs","src/validity.rs","src/offset.rs","src/collection/flatten.rs"],
 [("export of committed lengths","narrow-ffi/src/export/*.rs"),("import validation","narrow-ffi/src/import/*.rs")],
 ["items and buffer addresses of the imported array versus the exported one"])
p("C18","Reserved capacity is really available",
 "After constructing with a capacity for n items or reserving room for n more items, appending up to n items (lists: up to n elements in total across at most n rows) performs no further growth request to the allocator, in any buffer at any nesting level. Reserving never changes length or contents, and reserving or constructing with zero always succeeds.",
 ["inputs","histories","configurations"],"every item type, every prior history (including truncations and window offsets), every n and every split of the appended items into calls",
 "Tests check a capacity on a few shapes; the arithmetic (bits to bytes, rows times width, the extra offset, slack from truncation) has to be right for every length modulo 8 and every nesting.",
 ["src/collection/mod.rs","src/bitmap/mod.rs","src/validity.rs","src/offset.rs","src/collection/flatten.rs","src/collection/vec.rs"]+LAY,
 [("capacity arithmetic","with_capacity_in / reserve / try_reserve of each collection")],
 ["growth log of caller-supplied storage"])
import sys
p("C19","Copies are independent and comparisons mean equality",
 "Comparing the view of a list row with any collection of the same item kind yields true exactly when both hold the same number of elements and the elements are pairwise equal in order, wherever the row sits in the array's shared buffers and whatever unreferenced data surrounds it. A cloned collection holds exactly the items, length and bit window of its original, and no later append, truncation or reservation on either one changes the other.",
 ["inputs","histories","configurations"],"every list row of every reachable array and every candidate collection; every cloneable collection over every storage, after any history, followed by any history on either copy",
 "Tests compare two literal rows with themselves; prefixes, extensions, equal windows at different positions, empty rows at the end of the buffers and copies that outlive mutations of their original are never tried.",
 ["src/offset.rs","src/bitmap/mod.rs","src/collection/flatten.rs","src/array.rs"],
 [("length comparison then element-wise comparison of the window","src/offset.rs PartialEq for OffsetView"),("field-wise clone of buffer, bit length and bit offset","src/bitmap/mod.rs Clone for Bitmap"),("derived clone","src/collection/flatten.rs Flatten")],
 ["OffsetView == collection, Clone of Bitmap and Flatten, contents of both copies after each later call"])

with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")

import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":("the statistics-cache lock and other sync points routed through a controllable seam" if hook else None)}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
VA="vortex-array/src/"
p("C01","Every encoding is lossless",
 "Encoding any array with any of the provided encodings (plain, dictionary, run-end, sparse, constant, chunked, bit-packed, frame-of-reference, delta, zig-zag, ALP, ALP-RD, FSST, roaring, byte-bool, run-end-bool, date-time-parts) and decoding it to its canonical form gives back an array of the same logical type, length and nullness, and of exactly the same values, bit for bit for floats. An encoder either encodes an input losslessly or refuses it with an error; it never panics on, or silently alters, a legal input.",
 ["inputs","configurations"],"all arrays over each logical type and nullability, all encodings and encoding parameters, nested encodings",
 "Each encoding has special positions (run boundaries, 1024-value blocks, patches, null slots, extreme values, signed zero, NaN) whose combinations are far more numerous than the handful of fixed arrays in the unit tests.",
 ["encodings/*/src/**","vortex-array/src/array/**","vortex-array/src/canonical.rs"],
 [("encode","encodings/*/src/**/compress.rs"),("decode","IntoCanonical impls")],"canonical buffers and validity of the decoded array")
p("C02","Random access returns the logical element",
 "Asking any array, in any encoding and after any slicing, for the scalar at position i returns exactly its i-th logical element, null included, with the array's logical type. Positions at or past the end are refused with an error.",
 ["inputs","configurations"],"all arrays, encodings, slices and positions",
 "Index arithmetic differs per encoding (run search, block offset, chunk lookup, patches), and is wrong only at particular offsets.",
 ["vortex-array/src/compute/unary/scalar_at.rs","encodings/*/src/**/compute*"],
 [("scalar_at",VA+"compute/unary/scalar_at.rs"),("per-encoding kernels","impl ScalarAtFn for *")],"returned scalar vs i-th element")
p("C03","Slicing is exact, for any nesting of slices",
 "Slicing any array in any encoding to a range gives an array of the same type holding exactly the elements of that range, and slicing a slice equals slicing once by the composed range. Ranges outside the array or reversed are refused with an error.",
 ["inputs","histories"],"all arrays, encodings and sequences of slices",
 "Encodings carry offsets (bit, block, run, patch, chunk) that only compose wrongly for particular pairs of ranges.",
 ["vortex-array/src/compute/slice.rs","encodings/*/src/**/compute*"],
 [("slice",VA+"compute/slice.rs"),("per-encoding kernels","impl SliceFn for *")],"canonical form of the sliced array")
p("C04","Take returns exactly the requested elements",
 "Taking any list of in-range positions (repeated, unordered, empty, of any integer type) from any array in any encoding, sliced or not, gives an array of the same type whose k-th element is the element at the k-th requested position.",
 ["inputs","configurations"],"all arrays, encodings, slices and index lists",
 "Take kernels choose between strategies by index count, order, chunk and block; tests visit few of the combinations.",
 ["vortex-array/src/compute/take.rs","encodings/*/src/**/compute*"],
 [("take",VA+"compute/take.rs"),("per-encoding kernels","impl TakeFn for *")],"canonical form of the taken array")
p("C05","Filter keeps exactly the selected elements",
 "Filtering any array in any encoding, sliced or not, by any non-nullable boolean mask of the same length (itself in any encoding, sliced or not) keeps exactly the elements whose mask is true, in order, with the type unchanged.",
 ["inputs","configurations"],"all arrays, masks, encodings and slices of both",
 "Kernels switch on selectivity and walk masks by bit slices, so errors depend on the exact mask shape and bit offset.",
 ["vortex-array/src/compute/filter.rs","vortex-array/src/array/*/compute/filter.rs","encodings/*/src/**"],
 [("filter",VA+"compute/filter.rs"),("mask iteration",VA+"array/bool/accessors.rs")],"canonical form of the filtered array")
p("C06","Comparison is element-wise and null-aware",
 "Comparing two arrays of equal length and type, in any encodings, with any of the six operators gives at each position the result of comparing the two elements, and null exactly where either element is null. The result does not depend on the encodings of the operands, on either being constant, or on cached statistics.",
 ["inputs","configurations"],"all pairs of arrays, operators, encodings of both operands",
 "Dispatch picks a kernel from the encoding of either side (constant, ALP, FSST, primitive, fallback), and swaps operands; only specific pairs hit a wrong path.",
 ["vortex-array/src/compute/compare.rs","vortex-array/src/array/*/compute/compare.rs","encodings/alp/src/alp/compute.rs","encodings/fsst/src/compute.rs"],
 [("compare",VA+"compute/compare.rs"),("kernels","impl MaybeCompareFn for *")],"canonical boolean result")
p("C07","Boolean and/or combine positions correctly",
 "And/or of two boolean arrays of equal length, in any encodings, gives at each position the logical conjunction/disjunction of two non-null operands and null where both are null; it is the same for every encoding of the operands and for either operand order.",
 ["inputs","configurations"],"all pairs of boolean arrays and encodings",
 "Dispatch depends on which side implements the kernel and on constants; nulls multiply the cases.",
 ["vortex-array/src/compute/boolean.rs","vortex-array/src/array/bool/compute/boolean.rs","vortex-array/src/array/constant/compute.rs"],
 [("and/or",VA+"compute/boolean.rs")],"canonical boolean result")
p("C08","Sorted search finds the correct insertion point",
 "On any sorted array (nulls last), in any encoding and after slicing, searching for a value returns 'found' exactly when the value occurs, at the first occurrence for the left side and one past the last for the right side, and otherwise its insertion point. Single, batched and unsigned-integer variants agree.",
 ["inputs","configurations"],"all sorted arrays, encodings, probe values and sides",
 "Search is re-implemented per encoding (bit-packed with patches, frame-of-reference, sparse, constant, run-end), each with own edge cases for values outside the representable range.",
 ["vortex-array/src/compute/search_sorted.rs","encodings/fastlanes/src/**/search_sorted.rs","encodings/fastlanes/src/for/compute.rs","vortex-array/src/array/sparse/compute/mod.rs"],
 [("search_sorted",VA+"compute/search_sorted.rs")],"returned search result")
p("C09","Statistics are never wrong",
 "Every statistic an array reports (min, max, sortedness, strict sortedness, constness, null count, true count, run count, bit-width and trailing-zero histograms), whether computed on demand, cached by its constructor, or carried over by an operation, agrees with the array's logical elements. Asking for statistics, in any order, never changes an array's contents.",
 ["inputs","histories"],"all arrays, encodings, operation sequences and orders of statistic requests",
 "Statistics are derived by shortcuts per encoding and cached; a wrong one only shows for particular null placements, orders of queries or operations, and silently misleads later operations.",
 ["vortex-array/src/stats/*","vortex-array/src/array/*/stats.rs","encodings/*/src/**/stats.rs"],
 [("compute",VA+"array/*/stats.rs"),("cache",VA+"data.rs"),("merge",VA+"stats/statsset.rs")],"values returned by the statistics API",state="cached statistics per array")
p("C10","Merged statistics describe the concatenation",
 "Merging the statistics of consecutive parts of a column gives statistics that hold for the whole column: every merged value present is correct for the concatenation (run count as an upper bound), whatever subset of statistics each part knew.",
 ["inputs","configurations"],"all sequences of parts and all subsets of known statistics per part",
 "The merge has per-statistic rules for unknown values and boundaries; tests merge a few hand-picked sets.",
 ["vortex-array/src/stats/statsset.rs","vortex-array/src/array/chunked/stats.rs"],
 [("merge",VA+"stats/statsset.rs"),("chunked",VA+"array/chunked/stats.rs")],"merged statistics vs the concatenated elements")
p("C11","Nullness is reported consistently",
 "For any array in any encoding, per-position validity, the whole-array logical validity, the null count and the nullness of the elements returned by random access and by decoding all agree, also after slicing, taking and filtering.",
 ["inputs","histories"],"all arrays, encodings, null placements and operation sequences",
 "Each encoding stores nullness elsewhere (own mask, child, patches, dictionary, fill value); disagreement needs a specific combination.",
 ["vortex-array/src/validity.rs","vortex-array/src/array/**","encodings/*/src/**"],
 [("validity",VA+"validity.rs"),("impl ArrayValidity","all encodings")],"is_valid / logical_validity / null_count / scalars")
p("C12","Casts and arithmetic preserve values and nulls",
 "Casting an integer array to another numeric type either yields element-wise the same numeric values with the same nulls or fails with an error; filling forward replaces each null by the last preceding non-null; subtracting a scalar subtracts it from every non-null element or fails on overflow, and keeps nulls.",
 ["inputs","configurations"],"all primitive arrays, target types and scalars",
 "Width, sign and null-slot garbage interact; few pairs of types are tested.",
 ["vortex-array/src/array/primitive/compute/*","vortex-array/src/compute/unary/*","vortex-array/src/array/bool/compute/fill.rs"],
 [("cast",VA+"array/primitive/compute/cast.rs"),("fill_forward",VA+"array/*/compute/fill.rs"),("subtract",VA+"array/primitive/compute/subtract_scalar.rs")],"canonical result")
p("C13","Iteration and building see every element once, in order",
 "Iterating over an array, by element or in vectorised batches, yields every element exactly once, in order, null where it is null; building an array from such a sequence through any builder or constructor gives an array with those elements.",
 ["inputs"],"all sequences, lengths around batch boundaries, encodings that provide iterators",
 "Batch and bitmap boundary handling is only visible at particular lengths and offsets.",
 ["vortex-array/src/iter/*","vortex-array/src/accessor.rs","vortex-array/src/array/*/accessor.rs","vortex-array/src/array/varbin/builder.rs"],
 [("batches",VA+"iter/mod.rs"),("accessors",VA+"array/*/accessor.rs"),("builder",VA+"array/varbin/builder.rs")],"sequence of yielded options")
p("C14","Chunking never changes what an array means",
 "A chunked array with any split of the same elements into chunks (empty chunks included, chunks in different encodings) behaves, under every operation, as the unchunked array; re-chunking preserves the elements and respects the requested limits.",
 ["inputs","configurations"],"all partitions into chunks, all operations",
 "Off-by-one errors at chunk edges appear only for specific partitions, with empty chunks at specific places.",
 ["vortex-array/src/array/chunked/**"],
 [("find chunk",VA+"array/chunked/mod.rs"),("kernels",VA+"array/chunked/compute/*"),("canonicalize",VA+"array/chunked/canonical.rs")],"results of operations, canonical form")
p("C15","A deserialized array behaves as the original",
 "Writing any array in any encoding to the wire format and reading it back gives an array with the same type, length, encoding and elements, and every operation on the read-back array gives the same result as on the original. Statistics carried along stay correct.",
 ["inputs","configurations","histories"],"all arrays, encodings, operations on the read-back form",
 "The read-back array is a lazily decoded view with its own child and buffer resolution; tests run operations almost only on in-memory arrays.",
 ["vortex-array/src/view.rs","vortex-serde/src/messages.rs","vortex-serde/src/message_reader.rs","vortex-serde/src/message_writer.rs"],
 [("view",VA+"view.rs"),("messages","vortex-serde/src/messages.rs")],"results on the view vs the reference elements")
p("C16","Stream format round-trips any batch sequence",
 "Writing any sequence of batches to the streaming format and reading it returns the same type and the same batches in order, however the underlying reader splits or delays the bytes.",
 ["inputs","fault_sequences"],"all batch sequences, all short-read and pending patterns",
 "Framing, padding and alignment interact with the sizes of batches and buffers and with how reads are split.",
 ["vortex-serde/src/stream_writer/*","vortex-serde/src/stream_reader/*","vortex-serde/src/message_reader.rs","vortex-serde/src/message_writer.rs"],
 [("writer","vortex-serde/src/stream_writer/mod.rs"),("reader","vortex-serde/src/message_reader.rs")],"batches read back")
p("C17","File format round-trips any table",
 "Writing any table, in any split into batches and any column encodings, to a file and reading it back, with any read batch size, yields the same schema and the same rows in order.",
 ["inputs","configurations"],"all tables, batchings, read batch sizes",
 "Row alignment across differently chunked columns and read batch sizes involves many boundary cases; tests fix one or two.",
 ["vortex-serde/src/layouts/**"],
 [("writer","vortex-serde/src/layouts/write/writer.rs"),("reader","vortex-serde/src/layouts/read/*")],"rows read back")
p("C18","Pushed-down projection and filter equal filtering rows",
 "Reading a file with a column projection and a row filter yields exactly the rows for which the filter is true (null counts as not true), in order, with exactly the projected columns in the requested order; this is independent of file batching, read batch size, and of whether filter columns are projected.",
 ["inputs","configurations"],"all tables, projections, filters, batchings and read batch sizes",
 "Pruning, column splitting of conjuncts, and batching interact; a wrong combination drops or duplicates rows silently.",
 ["vortex-serde/src/layouts/read/*","vortex-expr/src/*"],
 [("filter","vortex-serde/src/layouts/read/filtering.rs"),("stream","vortex-serde/src/layouts/read/stream.rs"),("batching","vortex-serde/src/layouts/read/batch.rs")],"rows read back")
p("C19","Reading selected rows returns exactly those rows",
 "Taking a sorted list of row indices from a chunked source (a chunked file or a stream of chunks) returns exactly those rows, in order, for every chunk layout and every index list.",
 ["inputs","configurations"],"all chunk layouts and sorted index lists",
 "Rows are located by binary search over chunk boundaries and read ranges; errors need an index on a particular boundary.",
 ["vortex-serde/src/chunked_reader/take_rows.rs","vortex-array/src/stream/take_rows.rs"],
 [("chunked reader","vortex-serde/src/chunked_reader/take_rows.rs"),("stream",VA+"stream/take_rows.rs")],"rows returned")
p("C20","Results do not depend on I/O timing; failures surface",
 "Reading a file or stream gives the same rows whatever the order of pending and short completions of the underlying reads, and an I/O error at any read or write is reported to the caller as an error: never a hang, a panic, or a silently shorter or different result.",
 ["schedules","fault_sequences"],"all pending/short-read/error placements up to a number of deviations",
 "Async readers are state machines whose rarely taken transitions (pending in the middle, error after partial data) tests on in-memory files never take.",
 ["vortex-serde/src/layouts/read/*","vortex-serde/src/io/*","vortex-serde/src/message_reader.rs","vortex-serde/src/layouts/write/writer.rs"],
 [("poll state machine","vortex-serde/src/layouts/read/stream.rs"),("io","vortex-serde/src/io/*")],"results and errors returned to the caller",state="reader state machine")
p("C21","Truncated files and streams are rejected",
 "If a written file or stream is cut short at any byte (as by a crash while writing), opening or reading it reports an error, or, for a stream cut exactly between batches, yields exactly the batches before the cut; it never panics and never yields rows that were not written.",
 ["crash_points"],"every truncation point of every written file and stream",
 "There is one test per format at most; the parser's assumptions fail only at particular lengths.",
 ["vortex-serde/src/layouts/read/builder.rs","vortex-serde/src/layouts/read/footer.rs","vortex-serde/src/message_reader.rs"],
 [("footer","vortex-serde/src/layouts/read/builder.rs"),("messages","vortex-serde/src/message_reader.rs")],"error or prefix of rows")
p("C22","The compressor is lossless whatever it chooses",
 "Compressing any array with the sampling compressor, with any subset of compressors enabled and any sampling outcome, preserves type, length, nulls and every value exactly, and compressing an array in the way that was chosen for a different array is equally lossless.",
 ["inputs","configurations"],"all arrays, compressor subsets, seeds, and reuse of an earlier choice",
 "The choice is driven by samples, so data outside the sample can violate what the chosen encoding assumes; fixed tests see one choice per array.",
 ["vortex-sampling-compressor/src/**"],
 [("choice","vortex-sampling-compressor/src/lib.rs"),("compressors","vortex-sampling-compressor/src/compressors/*")],"canonical form of the compressed array")
p("C23","Arrow conversion is faithful in both directions",
 "Converting any supported Arrow array (sliced, with or without nulls, any offset) to this library and back, and any array to Arrow, preserves type, length, nulls and values; record batches and schemas convert to and from tables with the same columns.",
 ["inputs"],"all Arrow arrays of supported types, offsets and null masks, and all arrays of this library",
 "Offsets of values and of null bitmaps are tracked separately; errors need a sliced input with nulls.",
 ["vortex-array/src/arrow/*","vortex-array/src/canonical.rs","vortex-datetime-dtype/src/arrow.rs"],
 [("import",VA+"arrow/array.rs"),("export",VA+"canonical.rs"),("types",VA+"arrow/dtype.rs")],"arrays after the round trip")
p("C24","Types survive serialization and projection",
 "Every data type (nested structs, lists, extension types with metadata, nullability at each level) is recovered unchanged from each of its serialized forms, and projecting a type, schema or struct array by any list of fields yields exactly those fields in that order or an error when one does not exist.",
 ["inputs"],"all data types up to a nesting depth and all projections",
 "The type grammar is recursive, each form has its own reader and writer, and projections resolve by name or index.",
 ["vortex-dtype/src/serde/*","vortex-schema/src/*","vortex-array/src/array/struct_/mod.rs"],
 [("flatbuffers","vortex-dtype/src/serde/flatbuffers/*"),("proto","vortex-dtype/src/serde/proto.rs"),("projection","vortex-schema/src/lib.rs")],"type after round trip / projection")
p("C25","Scalars: faithful serialization, lawful order, exact casts",
 "Every scalar is recovered unchanged from each of its serialized forms; equality and order of scalars follow the values (a total order on the non-NaN values of a type, consistent with equality and hashing); casting a scalar gives the same numeric value in the target type or an error.",
 ["inputs"],"all scalars over the edge values of every type, all pairs and all target types",
 "Width narrowing and sign changes hide in conversions between stored and requested widths, which tests sample by hand.",
 ["vortex-scalar/src/*"],
 [("value","vortex-scalar/src/value.rs"),("serde","vortex-scalar/src/serde/*"),("cast","vortex-scalar/src/primitive.rs")],"scalar after round trip / cast / comparison")
p("C26","Expressions evaluate to their row-wise meaning",
 "Evaluating any expression over a table gives, row by row, its meaning (column, literal, comparison, and/or, selection of columns); splitting a filter into conjuncts and re-joining them, or re-ordering it, does not change which rows it selects, and the columns it reports referencing are exactly those it reads.",
 ["inputs","programs"],"all expression trees up to a depth over small tables",
 "Trees combine operators, nulls and encodings in more ways than tests list.",
 ["vortex-expr/src/*","vortex-serde/src/layouts/read/filtering.rs"],
 [("evaluate","vortex-expr/src/*.rs"),("conjuncts","vortex-expr/src/lib.rs")],"evaluated array")
p("C27","Shared arrays are safe under concurrent use",
 "Threads sharing an array may compute statistics, read elements, and run operations on it in any interleaving: every call terminates, none deadlocks, and each returns what it would have returned alone.",
 ["schedules"],"all interleavings of two or three threads up to a preemption bound",
 "The statistics cache is behind a lock taken from inside computations; a deadlock or lost update needs a specific interleaving.",
 ["vortex-array/src/data.rs"],
 [("stats lock",VA+"data.rs")],"results of each thread, termination",state="statistics cache lock",hook=True)
p("C28","Query-engine answers equal direct evaluation",
 "Running a SQL query (projection, filter, ordering-free selection) through the query-engine integration over in-memory data, with filter push-down on or off, returns exactly the rows and columns that evaluating the query on the raw rows gives.",
 ["inputs","programs","configurations"],"all queries of a small grammar over small tables, all chunkings, push-down on and off",
 "Push-down rewrites the query into two plans; only particular combinations of filter, projection and chunking go wrong.",
 ["vortex-datafusion/src/*","vortex-expr/src/datafusion.rs"],
 [("plans","vortex-datafusion/src/plans.rs"),("memory table","vortex-datafusion/src/memory.rs"),("expr","vortex-expr/src/datafusion.rs")],"rows returned by the query")
p("C29","Buffers and views of bytes are exact",
 "A byte buffer, whichever memory it wraps, reports its length, slices to exactly the requested bytes, converts without altering them, and compares by content; partial views used for I/O expose exactly the requested window.",
 ["inputs","histories"],"all buffers, origins and sequences of slices",
 "Two memory representations times slicing times conversion are rarely all exercised.",
 ["vortex-buffer/src/*"],
 [("buffer","vortex-buffer/src/lib.rs"),("io slices","vortex-buffer/src/io_buf.rs")],"bytes observed")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))

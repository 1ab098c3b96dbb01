import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}}
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

p("C01","Variable-length integers survive a write and a read",
 "Every unsigned 64-bit integer written in the variable-length encoding, and every signed 64-bit integer written in the zig-zag variable-length encoding, reads back as itself. The encoding takes the minimal number of bytes (at most 10), and reading consumes exactly the bytes that were written, whatever bytes follow them.",
 ["inputs"],"all 2^64 unsigned and all 2^64 signed values, with arbitrary trailing bytes",
 "The unit tests encode a handful of constants; the interesting values sit at every 7-bit length boundary, at the sign boundary and at the tenth byte.",
 ["src/encoding/uleb128.rs","src/encoding/zigzag_leb128.rs"],
 [("7-bit group encoder/decoder","src/encoding/uleb128.rs"),("zig-zag mapping","src/encoding/zigzag_leb128.rs")])
p("C02","Bit-packed integers survive packing and unpacking at every width",
 "For each unsigned integer width (8, 16, 32, 64 bits) and each packing width from 1 up to that width, packing a sequence of values that fit and unpacking it with its count yields exactly those values, in order, once each, and reports the exact remaining length. The packed bytes are the least-significant-bit-first layout of the Parquet format, so value i occupies bits i*w to (i+1)*w-1.",
 ["inputs","configurations"],"all element types, all packing widths, all value sequences up to two-and-a-bit packed groups",
 "Each width is separate macro-expanded shift code; tests exercise one or two widths with sequential values, so a wrong shift or mask for one width, lane or partial group is not seen.",
 ["src/encoding/bitpacked/mod.rs","src/encoding/bitpacked/pack.rs","src/encoding/bitpacked/unpack.rs","src/encoding/bitpacked/decode.rs","src/encoding/bitpacked/encode.rs"],
 [("macro-unrolled pack","src/encoding/bitpacked/pack.rs"),("macro-unrolled unpack","src/encoding/bitpacked/unpack.rs"),("chunked decoder with remainder","src/encoding/bitpacked/decode.rs")])
p("C03","Hybrid RLE encoding of levels, indices and bitmaps is lossless",
 "Any sequence of unsigned integers that fit the chosen bit width, and any sequence of booleans, written by the hybrid run-length/bit-packed encoder is read back unchanged by the hybrid decoder given the same bit width and the number of values. The decoder yields exactly that number of values and then ends.",
 ["inputs","configurations"],"all bit widths 0..=32, all value sequences up to the bound, all boolean sequences up to the bound",
 "Tests use fixed sequences at a few widths; a defect in the run header, the padding of the last group of 8, or one width is only visible for particular lengths and widths.",
 ["src/encoding/hybrid_rle/encoder.rs","src/encoding/hybrid_rle/decoder.rs","src/encoding/hybrid_rle/mod.rs","src/encoding/hybrid_rle/bitmap.rs"],
 [("encode_u32/encode_bool","src/encoding/hybrid_rle/encoder.rs"),("run iterator","src/encoding/hybrid_rle/decoder.rs"),("value iterator","src/encoding/hybrid_rle/mod.rs")])
p("C04","Any well-formed hybrid RLE stream expands to what the format defines",
 "Reading any well-formed mix of run-length and bit-packed runs, in any order and of any lengths, yields the concatenation of the runs' values as the Parquet format defines them, cut at the requested number of values. This holds for streams written by other implementations, including runs longer than one group and a final bit-packed run with padding.",
 ["inputs","programs"],"all sequences of up to three runs with symbolic kinds, lengths and values, all bit widths 0..=32",
 "The crate's own encoder emits only bit-packed runs, so round-trip tests never exercise run-length runs or mixed streams; a few hand-written streams do.",
 ["src/encoding/hybrid_rle/decoder.rs","src/encoding/hybrid_rle/mod.rs","src/encoding/hybrid_rle/bitmap.rs"],
 [("run header parsing","src/encoding/hybrid_rle/decoder.rs"),("state machine over runs","src/encoding/hybrid_rle/mod.rs")])
p("C05","Delta binary packing of 64-bit integers is lossless",
 "Every sequence of signed 64-bit integers, including the extreme values and sequences spanning several blocks, written with delta binary packing reads back unchanged and in order. The decoder reports the original count up front, ends after it, and reports having consumed exactly the bytes written, so data following the encoded integers is found at the right place.",
 ["inputs"],"all i64 sequences up to the bound plus long sequences with symbolic values at symbolic positions around mini-block and block boundaries, with trailing data",
 "Delta arithmetic wraps at the extremes and widths change at mini-block and block boundaries; tests use small sequences with small deltas.",
 ["src/encoding/delta_bitpacked/encoder.rs","src/encoding/delta_bitpacked/decoder.rs"],
 [("block/mini-block encoder","src/encoding/delta_bitpacked/encoder.rs"),("Block and Decoder iterators","src/encoding/delta_bitpacked/decoder.rs")])
p("C06","Any conformant delta-packed stream decodes as the format defines",
 "For every conformant delta-binary-packed stream, with any valid block size and number of mini-blocks, any minimum delta and any per-mini-block bit width, the decoded values are the running wrap-around sum of first value, minimum delta and packed delta. Mini-blocks that are absent or padded at the end contribute nothing, and the reported consumed length is the encoded length.",
 ["inputs","programs"],"symbolic header, first value, minimum delta and packed deltas for several block geometries, widths 0..=64 and counts around mini-block boundaries",
 "The crate's encoder always writes one geometry (128/1); files by other writers use 4 mini-blocks of 32 and arbitrary minimum deltas, which only three literal test vectors cover.",
 ["src/encoding/delta_bitpacked/decoder.rs"],
 [("Block::advance_miniblock","src/encoding/delta_bitpacked/decoder.rs"),("consumed_bytes","src/encoding/delta_bitpacked/decoder.rs")])
p("C07","Delta byte-array encodings are lossless for every list of byte strings",
 "Every list of byte strings (including empty strings, repeats, and strings that are prefixes of one another) written with the delta-length encoding or the incremental prefix/suffix encoding decodes back to the same list. Lengths, prefix lengths and concatenated bytes are each delivered complete and in order, and decoding ends exactly at the last string.",
 ["inputs"],"all lists up to the bound of byte strings of all lengths up to the bound with symbolic contents, plus trailing data",
 "Tests use a couple of literal word lists; the failing lists have one item that is a strict prefix of its predecessor, or empty items.",
 ["src/encoding/delta_byte_array/encoder.rs","src/encoding/delta_byte_array/decoder.rs","src/encoding/delta_length_byte_array/encoder.rs","src/encoding/delta_length_byte_array/decoder.rs"],
 [("prefix computation","src/encoding/delta_byte_array/encoder.rs"),("lengths then values","src/encoding/delta_length_byte_array/decoder.rs")])
p("C08","Plain-encoded values decode to exactly what was written",
 "For each physical type, plain-encoded values decode to bit-for-bit the values that were written: little-endian integers and floats, 12-byte timestamps, length-prefixed byte strings, and fixed-length byte strings. The number of values yielded is the number encoded, and a byte string that is cut short is reported as an error rather than delivered shortened.",
 ["inputs"],"all values of each native type; all lists of byte strings up to the bound, and every truncation of them",
 "Tests decode a few literals; byte order, sign, NaN payloads and truncation points need all values and all cuts.",
 ["src/types.rs","src/encoding/plain_byte_array.rs","src/deserialize/utils.rs","src/deserialize/native.rs","src/deserialize/fixed_len.rs"],
 [("NativeType::to_le_bytes/from_le_bytes/decode","src/types.rs"),("length-prefixed iterator","src/encoding/plain_byte_array.rs")])
p("C09","Malformed encoded data is reported, never a crash or a hang",
 "Given arbitrary bytes in place of encoded values, and any declared count, the decoders of every value and level encoding terminate and either yield values or report an error. They never panic, never loop without consuming, and never yield more values than declared.",
 ["inputs"],"all byte strings up to the bound, for every encoding and a range of declared widths and counts",
 "Malformed inputs are unbounded in variety; tests contain two or three literal bad inputs while the reading side of files is exposed to untrusted data.",
 ["src/encoding/uleb128.rs","src/encoding/zigzag_leb128.rs","src/encoding/hybrid_rle/decoder.rs","src/encoding/hybrid_rle/mod.rs","src/encoding/bitpacked/decode.rs","src/encoding/delta_bitpacked/decoder.rs","src/encoding/delta_byte_array/decoder.rs","src/encoding/delta_length_byte_array/decoder.rs","src/encoding/plain_byte_array.rs"],
 [("length and width validation in each decoder's constructor and step","src/encoding")])
p("C10","Definition levels decide which positions are null, and align values",
 "For every definition-level stream of an optional column, the runs handed to the consumer cover exactly the page's values, and each position is reported present exactly when its level is the maximum. Combining the stream with the non-null values gives each present position the next value in order and every other position null, independent of how the levels were split into runs.",
 ["inputs","programs"],"all level sequences up to the bound in every run segmentation (bit-packed, run-length, mixed)",
 "Existing tests use a few literal bitmaps and run shapes; misalignment appears at particular run boundaries and offsets.",
 ["src/deserialize/hybrid_rle.rs","src/deserialize/utils.rs","src/encoding/hybrid_rle/bitmap.rs"],
 [("HybridDecoderBitmapIter/HybridRleIter/HybridRleBooleanIter","src/deserialize/hybrid_rle.rs"),("OptionalValues","src/deserialize/utils.rs")])
p("C11","Decoding selected rows equals decoding all rows and then selecting",
 "Decoding a page restricted to any ordered list of disjoint row intervals yields exactly the values and nulls that a full decode yields at those positions, in order. Nothing outside the intervals is delivered, nothing inside is missed, and the amounts to skip between them account for every non-null value outside.",
 ["inputs","configurations"],"all level streams and all interval lists up to the bound, in every run segmentation",
 "Interval boundaries interact with run boundaries; tests cover about six literal combinations.",
 ["src/deserialize/filtered_rle.rs","src/deserialize/utils.rs","src/deserialize/native.rs","src/deserialize/binary.rs","src/deserialize/fixed_len.rs","src/deserialize/boolean.rs"],
 [("FilteredHybridBitmapIter/FilteredHybridRleDecoderIter","src/deserialize/filtered_rle.rs"),("SliceFilteredIter","src/deserialize/utils.rs")])
p("C12","Typed page decoding returns the values stored in the page",
 "For each physical type, each supported combination of plain or dictionary encoding, required or optional nullability, and page version, opening a data page for decoding yields the stored values: plain values as written, dictionary-coded values as the dictionary entry at each index, nulls where levels say so. Unsupported combinations are reported as errors, never decoded as something else.",
 ["inputs","configurations"],"all encodings x types x nullability x page version, symbolic values, levels and indices up to the bound",
 "Tests drive one reader helper in the test tree over a few columns; the combinations and index widths are not covered.",
 ["src/deserialize/native.rs","src/deserialize/binary.rs","src/deserialize/fixed_len.rs","src/deserialize/boolean.rs","src/deserialize/utils.rs"],
 [("page state dispatch","src/deserialize/native.rs"),("dict_indices_decoder","src/deserialize/utils.rs")])
p("C13","A page body splits into levels and values without loss or overlap",
 "For both data page versions, splitting a page body yields the repetition levels, the definition levels and the values as consecutive, non-overlapping parts with exactly the declared lengths, levels being present exactly when the column can repeat or be null. Declared lengths that do not fit the body are reported as errors and never cause a panic.",
 ["inputs","configurations"],"all bodies up to the bound and all declared lengths, for all four nullability/repetition shapes and both versions",
 "Tests only read well-formed pages; the declared lengths come from the file and may be anything.",
 ["src/page/mod.rs","src/encoding/mod.rs"],
 [("split_buffer_v1/split_buffer_v2/split_buffer","src/page/mod.rs"),("get_length","src/encoding/mod.rs")])
p("C14","Reading a column chunk yields its pages, complete, in order, and stops",
 "Reading the pages of a column chunk delivers each page exactly once in file order with its header values and its body bytes unchanged, skips exactly the pages the caller's filter rejects, and ends once the chunk's declared number of values has been delivered. A page that is cut short, declares a negative or over-limit size, or has inconsistent header is reported as an error, and the reader never panics.",
 ["inputs","configurations"],"symbolic page bodies, sizes, counts, filters and corrupted page headers for chunks of up to three pages with and without a dictionary",
 "Tests read intact fixture files; corrupt sizes and filter combinations are not covered.",
 ["src/read/page/reader.rs","src/read/mod.rs"],
 [("next_page/build_page/finish_page","src/read/page/reader.rs")])
p("C15","Page selection by row ranges reads exactly the pages that matter",
 "Given a column's page locations and any list of row intervals, the selected pages are exactly those containing a requested row, and each carries the requested rows translated to positions within that page. Reading them through the index delivers the dictionary first (when there is one) and then those pages' bytes, in order; inconsistent locations are reported as errors.",
 ["inputs"],"all monotone page layouts up to the bound with all interval lists up to the bound; all location offsets and sizes",
 "One fixture with two pages and one interval is tested; off-by-one errors show at interval/page boundaries only.",
 ["src/indexes/intervals.rs","src/read/page/indexed_reader.rs","src/read/indexes/read.rs"],
 [("compute_page_row_intervals/compute_rows/select_pages","src/indexes/intervals.rs"),("IndexedPageReader","src/read/page/indexed_reader.rs")])
p("C16","Asynchronous reading returns what synchronous reading returns",
 "For the same bytes, asynchronously reading the file footer or the pages of a column chunk gives the same metadata, the same pages with the same contents and order, and fails on the same malformed inputs as synchronous reading. This holds however the underlying source splits its bytes into partial reads.",
 ["inputs","schedules"],"symbolic page headers/bodies and footers up to the bound, and symbolic partial-read schedules",
 "The two paths are separate code; async tests read one or two fixtures with a source that never returns partial data.",
 ["src/read/stream.rs","src/read/page/stream.rs","src/read/metadata.rs","src/read/page/reader.rs"],
 [("async footer reader","src/read/stream.rs"),("page stream","src/read/page/stream.rs")])
p("C17","Compressing and decompressing a page gives back the page",
 "For every page (data page of either version, or dictionary) and every codec, compressing and then decompressing restores the same header, values and levels, with the recorded uncompressed size right and level bytes of version-2 pages stored uncompressed. Reused buffers never leak bytes of one page into another, whatever sequence of pages, sizes and codecs passes through.",
 ["inputs","histories"],"symbolic page bodies and level lengths, sequences of up to three pages through one compressor/decompressor, codecs that are implemented in Rust source within reach (uncompressed, snappy, LZ4 raw)",
 "Tests compress one random buffer per codec; page-level level offsets and buffer recycling between pages of different sizes are not covered.",
 ["src/write/compression.rs","src/read/compression.rs","src/compression.rs"],
 [("compress_data/compress_dict/Compressor","src/write/compression.rs"),("decompress_v2/Decompressor","src/read/compression.rs")])
p("C18","Every compression codec is lossless on arbitrary data",
 "For each supported general-purpose codec at each accepted level, decompressing what was compressed restores the input bytes exactly, for every input. Damaged compressed data is reported as an error or yields an output of the requested length.",
 ["inputs","configurations"],"all inputs, all codecs (gzip, brotli, zstd, LZ4 framed), all levels",
 "Tests compress one random megabyte per codec and level.",
 ["src/compression.rs"],
 [("codec dispatch","src/compression.rs")])
p("C19","Page and column statistics survive a write and a read",
 "For each physical type, statistics (minimum, maximum, null count, distinct count, each present or absent) written to their stored form and read back are equal to the original. A stored minimum or maximum of the wrong length for the type is reported as an error rather than misread.",
 ["inputs","configurations"],"all values of every field and presence combination per physical type; stored byte strings of all lengths up to the bound",
 "Tests check one or two instances for two types.",
 ["src/statistics/mod.rs","src/statistics/primitive.rs","src/statistics/binary.rs","src/statistics/fixed_len_binary.rs","src/statistics/boolean.rs"],
 [("serialize_statistics/deserialize_statistics","src/statistics/mod.rs")])
p("C20","Column statistics bound every page's statistics and add up its counts",
 "When a column chunk is written, the recorded column minimum is the smallest page minimum and the recorded maximum the largest page maximum in the order of the column's type, for every physical type, and null counts are summed. Pages without a bound never make the recorded bound exclude values, so skipping data by these statistics is always sound.",
 ["inputs"],"all minima/maxima/null counts of up to three pages per physical type, any presence combination, byte strings up to the bound including prefix-related ones",
 "Tests reduce two literal pages of two types; prefix-related byte strings, signs, NaN and absent bounds are missed.",
 ["src/write/statistics.rs","src/types.rs"],
 [("reduce and its per-type variants","src/write/statistics.rs")])
p("C21","Page indexes written to a file read back as written",
 "For a file written with page statistics, the column index read back gives for each data page the minimum, maximum, null count and all-null marker that the page was written with, and the offset index gives each data page's position, total size and first row. This holds for each physical type, for pages that are entirely null, and for any number of pages; malformed stored indexes are errors.",
 ["inputs"],"symbolic statistics for up to three pages per physical type, symbolic row counts",
 "One file with two int32 pages is tested.",
 ["src/write/indexes/serialize.rs","src/write/indexes/write.rs","src/read/indexes/read.rs","src/read/indexes/deserialize.rs","src/indexes/index.rs"],
 [("serialize_column_index/serialize_offset_index","src/write/indexes/serialize.rs"),("index deserialization per type","src/indexes/index.rs")])
p("C23","The bloom filter never forgets an inserted value",
 "After any sequence of insertions of values into a bloom filter of any valid size, every inserted value tests as possibly present, and insertion never clears a bit set before. Insertion and lookup agree on the block and bits for each hash and stay inside the filter; a filter read from a file is the filter that was written.",
 ["inputs","histories"],"all 64-bit hashes, all filter contents for filters of 1..4 blocks; symbolic values for hashing",
 "Tests insert a thousand values in one filter; agreement of block selection for all hashes and sizes is not settled.",
 ["src/bloom_filter/split_block.rs","src/bloom_filter/hash.rs","src/bloom_filter/read.rs","src/bloom_filter/mod.rs"],
 [("block selection and mask","src/bloom_filter/split_block.rs")])
p("C24","A written file reads back with the same schema, rows, pages and values",
 "Any file produced by the writer, for any number of row groups, columns and pages including none, is accepted by the reader, which reports the same schema, row counts, creator and key-value metadata, and returns for each column exactly the pages written, with the same bytes, encodings and value counts. Trailing key-value and version settings are preserved.",
 ["inputs","programs"],"symbolic page bodies, counts, encodings; files of up to 2 row groups x 2 columns x 2 pages; dictionary or not; both page versions",
 "Tests write a fixed set of small files and read them with one configuration each.",
 ["src/write/file.rs","src/write/row_group.rs","src/write/column_chunk.rs","src/write/page.rs","src/read/metadata.rs","src/read/page/reader.rs"],
 [("file/row-group/column-chunk/page writers","src/write"),("footer and page readers","src/read")])
p("C25","Offsets, sizes and counts recorded in a file describe its bytes exactly",
 "In every file written, each recorded offset points at the first byte of the thing it names (page, dictionary, column or offset index), each recorded size spans exactly it, sizes and counts of chunks are the sums over their pages, those of row groups the sums over their chunks, and the file's row count the sum over its row groups. The returned file length is the number of bytes written, and listed encodings include every one used.",
 ["inputs","programs"],"symbolic page sizes, counts and structure up to 2 row groups x 2 columns x 3 pages, with and without dictionaries and statistics",
 "Errors in bookkeeping are invisible to readers that read sequentially; one test compares literal offsets of a two-page file.",
 ["src/write/file.rs","src/write/row_group.rs","src/write/column_chunk.rs","src/write/page.rs","src/write/indexes/write.rs"],
 [("offset accumulation","src/write/file.rs"),("build_column_chunk","src/write/column_chunk.rs")])
p("C26","The file writer enforces its protocol whatever the order of calls",
 "For every sequence of writer calls (write a row group, finish, ask for metadata), synchronous or asynchronous, the header is written exactly once, the footer at most once, a second finish is refused without changing the file, and metadata is available exactly after a successful finish. A row group whose data fails to be produced or written leads to an error, never to a file that claims rows it does not hold.",
 ["histories","fault_sequences"],"all call sequences up to length 4, with failures injected at each step",
 "Tests call write once and finish once.",
 ["src/write/file.rs","src/write/stream.rs","src/write/row_group.rs"],
 [("State","src/write/mod.rs"),("FileWriter::end","src/write/file.rs"),("FileStreamer::end","src/write/stream.rs")])
p("C27","Asynchronous writing produces the same bytes as synchronous writing",
 "For the same schema, options and pages, the asynchronous writer produces a file byte-identical to the synchronous writer's, reports the same total length and metadata, and fails on the same invalid inputs. This holds however the underlying sink splits writes.",
 ["inputs","schedules"],"symbolic pages up to the bound, symbolic partial-write schedules",
 "The two writers are separate code; one test writes one file asynchronously.",
 ["src/write/stream.rs","src/write/file.rs","src/write/row_group.rs","src/write/column_chunk.rs","src/write/page.rs"],
 [("FileStreamer","src/write/stream.rs")])
p("C28","I/O failures and partial transfers never corrupt or hide data",
 "If the underlying sink or source fails at any single operation, the writer or reader reports an error instead of succeeding with missing or altered data. If it transfers fewer bytes than asked at any point, the file written is byte-identical and the data read is the same as without the splits.",
 ["fault_sequences","schedules"],"a failure or a short transfer injected at every operation index (symbolic), for writing and reading a small file with its indexes and metadata",
 "Tests use in-memory cursors that never fail and never transfer partially.",
 ["src/write/file.rs","src/write/page.rs","src/read/metadata.rs","src/read/page/reader.rs","src/read/indexes/read.rs"],
 [("write_all/read_exact discipline","src/write, src/read")])
p("C29","Leaf columns carry the right nesting levels, paths and order",
 "For every schema tree, the listed columns are exactly its leaves in depth-first order, each with its full path of names, its maximum definition level equal to the number of optional or repeated ancestors-or-self, and its maximum repetition level equal to the number of repeated ancestors-or-self. The root itself contributes nothing.",
 ["inputs","programs"],"all schema trees up to the bound in size and depth with symbolic repetition at each node",
 "Tests check a few literal schemas; wrong levels silently misread nested data.",
 ["src/metadata/schema_descriptor.rs","src/metadata/column_descriptor.rs"],
 [("build_tree","src/metadata/schema_descriptor.rs")])
p("C30","A schema survives its stored form",
 "Every schema tree, with any names, repetition, field ids, physical, converted and logical types, turned into its stored flat form and read back is the same tree. Malformed flat forms (wrong child counts, missing types, negative sizes, inconsistent annotations, empty) are reported as errors, never as a panic or a different tree.",
 ["inputs","programs"],"all trees up to the bound with symbolic annotations; all flat element lists up to the bound with symbolic child counts and types",
 "Tests round-trip a few literal schemas; child-count errors need arbitrary lists.",
 ["src/schema/io_thrift/from_thrift.rs","src/schema/io_thrift/to_thrift.rs","src/schema/types/parquet_type.rs","src/parquet_bridge.rs"],
 [("from_thrift_helper","src/schema/io_thrift/from_thrift.rs"),("to_thrift_helper","src/schema/io_thrift/to_thrift.rs")])
p("C31","A type annotation is accepted exactly when the format allows it",
 "A column type is accepted exactly when its logical and legacy annotations are allowed by the Parquet format for its physical type: decimals only with a positive precision that fits the storage and a scale not above the precision, integers, dates, times and timestamps only on their storage type and unit, text, enum, JSON and BSON only on byte arrays, UUID only on 16 bytes, intervals only on 12 bytes.",
 ["inputs","configurations"],"all physical types and lengths, all logical and converted annotations, all precisions and scales",
 "The space is the product of types, annotations, precisions and scales; no test enumerates it.",
 ["src/schema/types/spec.rs","src/schema/types/parquet_type.rs"],
 [("check_converted_invariants/check_logical_invariants","src/schema/types/spec.rs")])
p("C32","File metadata survives its stored form and is found in the file footer",
 "Metadata written in a file footer is located and read back equal, whatever precedes it, and also when it is larger than the first read from the end. Row groups whose number of columns or whose columns' physical types disagree with the schema, negative counts, sizes or offsets of pages, and unknown codecs are refused.",
 ["inputs"],"symbolic metadata fields, footer lengths and preceding bytes; files with footers below, at and above the initial read size",
 "Tests read fixtures whose footers are all small and valid.",
 ["src/read/metadata.rs","src/metadata/file_metadata.rs","src/metadata/row_metadata.rs","src/metadata/column_chunk_metadata.rs"],
 [("read_metadata_with_size","src/read/metadata.rs"),("try_from_thrift/into_thrift","src/metadata")])
p("C33","Format enumerations map one to one to their stored codes",
 "Each encoding, codec, repetition, page type, physical type, converted and logical type, time unit and boundary order maps to its code in the Parquet format and back to itself, distinct members have distinct codes, and codes outside the format are refused with an error. Compression levels are accepted exactly within the range each codec documents.",
 ["inputs"],"all 2^32 stored codes; all members; all level integers",
 "A swapped pair of codes round-trips in the crate's own tests but corrupts files for every other reader.",
 ["src/parquet_bridge.rs","src/schema/types/converted_type.rs","src/schema/types/physical_type.rs","src/compression.rs"],
 [("TryFrom/From conversions","src/parquet_bridge.rs")])
p("C34","Arbitrary file contents never crash the reader",
 "Given arbitrary bytes as a file, a footer, a page or an index, opening it and reading its metadata, pages and indexes terminates with a result or an error. It never panics and never allocates more memory than proportional to the file or to the caller's page-size limit.",
 ["inputs"],"arbitrary byte strings up to the bound as footers, page headers and page index bytes; arbitrary numeric fields in otherwise valid metadata",
 "Fuzz-like malformed inputs are not in the test tree; metadata fields interact (offsets, sizes, counts).",
 ["src/read/metadata.rs","src/read/page/reader.rs","src/read/page/indexed_reader.rs","src/read/indexes/read.rs","src/read/compression.rs","src/compression.rs"],
 [("size checks, try_reserve","src/read")])
p("C35","Timestamps, decimals and orderings convert exactly",
 "Converting a 12-byte timestamp gives nanoseconds since the epoch equal to (day - 2440588) days plus the nanoseconds of the day whenever that fits, and each native type's ordering is the mathematical order of its values. Byte strings are ordered lexicographically as unsigned bytes with a prefix before its extensions.",
 ["inputs"],"all values of each type; all 96-bit timestamps; byte strings up to the bound",
 "Tests convert one timestamp and compare none.",
 ["src/types.rs"],
 [("int96_to_i64_ns","src/types.rs"),("NativeType::ord","src/types.rs")])
p("C36","Every type is compared in the sort order the format assigns to it",
 "For each combination of physical, converted and logical type, the sort order reported for a column's statistics is the one the Parquet format defines: signed for signed numbers, decimals, dates and times; unsigned for unsigned integers, text and other byte strings; undefined where the format leaves it undefined. Logical annotations take precedence over legacy ones, which take precedence over the physical type.",
 ["inputs","configurations"],"all physical x converted x logical types with all their parameters",
 "No test enumerates the table; a wrong entry makes readers prune wrongly.",
 ["src/metadata/sort.rs","src/metadata/column_order.rs","src/metadata/file_metadata.rs"],
 [("get_sort_order","src/metadata/sort.rs"),("parse_column_orders","src/metadata/file_metadata.rs")])
p("C37","Columns of a field are all read, each once, in schema order",
 "Iterating the columns of a field delivers, for every leaf of that field, that leaf's pages and descriptor exactly once in schema order and no other field's, and hands back its buffer at the end. Filtering row groups keeps exactly those the predicate accepts, in order, leaving everything else unchanged.",
 ["inputs","programs"],"all schemas up to the bound (flat and nested), all predicates over up to four row groups",
 "Tests iterate a single flat column.",
 ["src/read/column/mod.rs","src/read/mod.rs"],
 [("ColumnIterator/ReadColumnIterator","src/read/column/mod.rs"),("filter_row_groups/get_field_columns","src/read/mod.rs")])
p("C38","Schema text parses to the schema it describes",
 "Parsing the textual message form of a schema yields the tree it describes: names, nesting, repetition, physical types with lengths, annotations with their precision, scale, unit and time-zone flag, and field ids. Text that is malformed or describes an illegal type is reported as an error, never as a panic.",
 ["inputs","programs"],"all texts from a grammar with symbolic digits, keywords and ids; arbitrary texts up to the bound",
 "Tests parse a dozen literal messages.",
 ["src/schema/io_message/from_message.rs"],
 [("Tokenizer/Parser","src/schema/io_message/from_message.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

#!/usr/bin/env python3
"""One source for properties.jsonl, MANIFEST.json and the plans the driver runs. `python3 spec.py` rewrites the two files."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))


def both(n, b):
    """cases and seconds, for the build with run-time checks and for the release build"""
    return [("checked", n, b), ("release", n, b)]


CODECS = ["Uncompressed", "Rle", "Gorilla", "Chimp", "Chimp128", "Elf", "ElfOnChimp", "Zstd", "Gzip", "Snappy", "Buff", "Sprintz", "Alp"]
CODEC_FILES = ["ebi/src/compressor/*.rs", "ebi/src/decoder/chunk_reader/*.rs", "ebi/src/compression_common/*.rs", "ebi/src/io/*.rs"]


def codecs(n, names=CODECS):
    return {"codec " + c: n for c in names}


P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, rule, observe, quick=(30000, 25), thorough=(3000000, 420),
         level="exploration", assume=(), state=(), at=(), distinct=1000, variants=None, variants_thorough=None, **plan):
    P.append(dict(
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(at), hook_needed=None)),
        check=dict(property=id, quick_cmd="VERIF_TIER=quick python3 check.py run " + id,
                   thorough_cmd="VERIF_TIER=thorough python3 check.py run " + id, technique=technique, level=level, level_note=note),
        plan=dict(level=level, rule=rule, must_observe=observe, min_distinct=distinct, assumptions=list(assume),
                  quick=dict(variants=variants or both(*quick)), thorough=dict(variants=variants_thorough or both(*thorough)), **plan)))


ENC = "ebi/src/api/encoder.rs"
DEC = "ebi/src/api/decoder.rs"
QRY = "ebi/src/decoder/query.rs"
LIMIT = "Held on the executions of this run only: generated inputs, not all inputs."
MODEL = "Trusts the monitor's own model (the input vector, IEEE arithmetic) and the Rust toolchain."

prop("C01", "Lossless codecs reproduce every bit of the input",
     "For every codec except the two fixed-point ones, every input sequence of 64-bit floats and every chunking, decoding the encoded file yields exactly the input bit patterns, in order, for signed zeros, infinities, subnormals and NaN payloads too; the one exception is that the XOR-based codecs, which end a chunk with the quiet NaN 0x7ff8000000000000, may return that NaN as another NaN. "
     "All ways of reading (whole file, chunk by chunk, iterator, whole-chunk decompression) agree.",
     ["inputs", "configurations"], "all float sequences (any bit patterns, any length including 0), all eleven lossless codecs, all chunk options and capacity/level settings",
     "The repository's tests use a handful of random decimal series per codec; bit-level corner cases (NaN as a terminator, erased low bits, leading/trailing-zero windows, ring-buffer wrap) need specific bit patterns in specific positions.",
     CODEC_FILES + [ENC, DEC], [("per-codec compress / decompress pairs", "ebi/src/compressor, ebi/src/decoder/chunk_reader"), ("chunking of the input", "ebi/src/encoder.rs")],
     "runtime monitor: bit-exact comparison of all decode paths with the input, adversarial value families",
     "Bit-exact oracle on every decoded record, in builds with and without overflow checks. " + LIMIT,
     "Each case: a codec (round robin), a value family (19 families of bit-level and decimal patterns), a length (every 96th round a single chunk of more than 65536 records), a chunk option and a codec setting drawn from the seed; encoded and decoded four ways. Non-trivial: more than one record. Distinct: by encoded bytes, family and codec.",
     dict(codecs(50, CODECS[:10] + ["Alp"]), **{"values compared": 100000, "single chunks of more than 65536 records": 11}), quick=(60000, 30), assume=[MODEL])

prop("C02", "Fixed-point codecs reproduce decimal data",
     "For the two fixed-point codecs, any series whose values are decimals with at most as many places as the configured scale, within the codec's documented range, decodes to the same decimals: exactly after rounding to that number of places. "
     "All ways of reading agree with one another bit for bit.",
     ["inputs", "configurations"], "all decimal series inside the range the scale allows, all scales, chunkings",
     "Tests use scale 100 and small random values; carries between integer and fraction parts, bit-width boundaries of a chunk, negative bases and single-valued chunks are not sampled.",
     ["ebi/src/compressor/buff.rs", "ebi/src/compressor/sprintz.rs", "ebi/src/decoder/chunk_reader/buff/*.rs", "ebi/src/decoder/chunk_reader/sprintz.rs", "ebi/src/compression_common/buff.rs"],
     [("fixed-point conversion and bit packing", "ebi/src/compression_common/buff.rs"), ("delta + zigzag + bit packing", "ebi/src/compressor/sprintz.rs")],
     "runtime monitor: decoded records against the generating integers", "Exact up to the codec's grid. " + LIMIT,
     "Each case: integers on a decimal grid in one of twelve styles (widths, steps, outliers, constants, sign changes), scale 10^k, a chunk option. Non-trivial: more than one record.",
     dict(codecs(500, ["Buff", "Sprintz"]), **{"values compared": 100000}), quick=(150000, 25), assume=[MODEL, "values and scale inside the range in which the fixed-point representation is exact"])

prop("C03", "Materialising a selection writes exactly the selected records",
     "Writing out records under an optional bitmask and an optional chunk writes exactly the records that are in the mask and in the chunk, in file order, as consecutive little-endian 64-bit floats, for every codec and chunking; mask entries beyond the file are ignored.",
     ["inputs", "configurations"], "all files, masks (including empty, beyond the end, boundary-straddling), chunk choices, codecs",
     "Tests fix one data set and a few hand-made masks; interaction of masks with chunk boundaries and record offsets above 16 bits is not sampled.",
     [DEC, QRY, "ebi/src/decoder/chunk_reader.rs"], [("mask to chunk translation by logical offset", QRY), ("chunk selection", DEC)],
     "runtime monitor: every written byte against the reference selection", "Reference selection computed from the mask and the input. " + LIMIT,
     "Each case: a file (codec round robin) and four queries with masks from nine families, whole file or one chunk, plus chunk-reader level queries. Non-trivial: a query that writes some but not all records.",
     dict(codecs(50), **{"queries": 5000, "records compared": 100000, "mask beyond": 100, "mask boundary": 100}), quick=(60000, 25), assume=[MODEL])

prop("C04", "Filters return exactly the matching selected records",
     "Filtering with equality, inequality or range predicates returns the set of those records, among the selected ones and no others, whose value satisfies the predicate under IEEE comparison (under decimal comparison for the fixed-point codecs), whether or not the codec evaluates the predicate on compressed data.",
     ["inputs", "configurations"], "all files, predicates (including NaN, infinities, values out of range or equal to boundaries), masks, chunk choices, codecs",
     "Tests sample predicates taken from the data at one scale; in-situ evaluation branches on bit widths, byte columns and out-of-range operands that those never reach.",
     [QRY, "ebi/src/decoder/chunk_reader/buff/filter*.rs", "ebi/src/decoder/chunk_reader/sprintz.rs"],
     [("generic filter", QRY), ("in-situ filters on packed columns", "ebi/src/decoder/chunk_reader/buff"), ("in-situ filter on deltas", "ebi/src/decoder/chunk_reader/sprintz.rs")],
     "runtime monitor: per-record verdict of a reference predicate evaluator against the returned set", "Every selected record is judged individually; points within rounding of a fixed-point grid line are left open. " + LIMIT,
     "Each case: a file and six filters with predicates drawn from the data, its neighbours, bit-width boundaries, special values and out-of-range points. Non-trivial: some but not all selected records match.",
     dict(codecs(50), **{"queries": 5000, "records decided": 100000, "records matched": 10000}), quick=(60000, 25), assume=[MODEL])

prop("C05", "Filter-and-write equals filter followed by write",
     "Filtering and writing in one step produces exactly the values that filtering first and then writing the resulting selection produces, in file order, for every predicate, mask, chunk choice and codec.",
     ["inputs", "configurations"], "all files, predicates, masks, chunk choices, codecs",
     "Two separately optimised code paths must agree on all inputs; tests compare them on single samples.",
     [DEC, QRY, "ebi/src/decoder/chunk_reader/buff.rs"], [("fused filter-materialize", QRY), ("in-situ variants", "ebi/src/decoder/chunk_reader/buff.rs")],
     "runtime monitor: differential against the two-step form and a reference evaluator", "Differential and reference oracle. " + LIMIT,
     "Each case: a file and four queries, each executed fused and in two steps. Non-trivial: some but not all selected records are written.",
     dict(codecs(50), **{"queries": 3000, "values written": 50000}), quick=(45000, 25), assume=[MODEL])

prop("C06", "Sum, minimum and maximum are those of the selected records",
     "Sum, minimum and maximum over an optional mask and chunk equal those of exactly the selected records (sum up to floating-point rounding; NaN takes no part in a minimum or maximum and makes a sum NaN), for every codec whether it aggregates on compressed data or not; over an empty selection of a file they are 0, plus infinity and minus infinity.",
     ["inputs", "configurations"], "all data, masks, chunk choices, codecs, chunk sizes",
     "In-situ aggregation has its own arithmetic (wide accumulators, packed columns, offsets); tests sample small chunks at one scale.",
     [DEC, QRY, "ebi/src/decoder/chunk_reader/buff/sum.rs", "ebi/src/decoder/chunk_reader/buff/min_max.rs", "ebi/src/decoder/chunk_reader/sprintz.rs"],
     [("default aggregates", QRY), ("in-situ aggregates", "ebi/src/decoder/chunk_reader/buff, sprintz.rs")],
     "runtime monitor: aggregates against exact dyadic arithmetic over the reference selection", "Data chosen so that sums are exact (dyadic) or bounded; extremes compared exactly. " + LIMIT,
     "Each case: a file of dyadic or decimal data, of arbitrary floats with NaN and infinities, of whole numbers whose sum leaves 64 bits, or of few extremes in a long chunk, and four mask/chunk selections, each aggregated three ways, plus chunk readers; one case is a chunk of 17 million records. Non-trivial: at least two records selected.",
     dict(codecs(50), **{"queries": 5000, "records aggregated": 100000, "empty selections": 50, "arbitrary floats": 300, "sums beyond 64 bits": 20, "few extremes in long chunks": 20}), quick=(45000, 28), assume=[MODEL])

prop("C07", "Nearest-neighbour search finds the nearest vector",
     "The nearest-neighbour search returns a vector of the file whose squared Euclidean distance to the target is minimal, together with that distance, for every vector length, wherever vectors cross chunk boundaries; the answer does not depend on the chunking. "
     "Distances and dot products against part of a chunk use exactly the overlapping records.",
     ["inputs", "configurations"], "all files, target lengths (including those spanning several chunks and empty ones), chunkings, codecs",
     "Tests align vectors with chunks; straddling one or many chunk boundaries needs specific length/chunk combinations.",
     [DEC, QRY], [("cross-chunk accumulation of distances", DEC), ("chunk distance and dot product", QRY)],
     "runtime monitor: exhaustive reference search, same search under other chunkings", "Exact integer-valued data, so distances are compared exactly. " + LIMIT,
     "Each case: one data set under several chunkings and target lengths. Non-trivial: at least two candidate vectors.",
     dict(codecs(50), **{"searches": 3000, "searches with vectors across chunks": 500, "vectors compared": 20000}), quick=(60000, 25), assume=[MODEL])

prop("C08", "Matrix products equal the product of the stored matrix",
     "Multiplying the stored matrix by a given one yields the mathematical product (up to rounding) for every shape that fits the file, for every codec and admissible chunking, and requests whose shapes do not fit are refused with an error rather than answered or crashed on.",
     ["inputs", "configurations"], "all shapes, matrices, batch counts, chunkings, codecs",
     "Tests use one shape; shape/chunk mismatches and batches over several chunks are not sampled.",
     [DEC], [("shape checks and per-chunk products", DEC)],
     "runtime monitor: element-wise reference product; mis-shaped requests must fail", "Small-integer data: products are exact. " + LIMIT,
     "Each case: a file holding a batch of matrices, products with random right-hand sides, mis-shaped requests. Non-trivial: a product with more than one element.",
     dict(codecs(50), **{"products": 3000, "product elements": 20000, "mis-shaped requests": 1000}), quick=(150000, 25), assume=[MODEL])

prop("C09", "Column expressions aggregate what they denote",
     "Aggregating an arithmetic expression over several column files gives the value obtained by evaluating the expression on the selected rows (up to rounding) and then summing or taking the minimum or maximum, for every expression, mask, codec mix and chunking; computing several aggregations together gives the same results as one at a time, and aggregates of parts put together give that of the whole; columns whose chunks do not line up are refused (or combined correctly), never combined row by wrong row.",
     ["inputs", "programs", "configurations"], "all expressions over columns, literals and the four operators; all masks, codecs per column and chunkings, also ones that differ between columns",
     "Expression trees are programs; tests evaluate a few fixed ones without masks.",
     ["ebi/src/decoder/expr.rs", DEC], [("expression evaluation per chunk", "ebi/src/decoder/expr.rs"), ("single-column shortcut", DEC)],
     "runtime monitor: reference interpreter of the expression over the input columns", "Reference interpreter with error bounds. " + LIMIT,
     "Each case: one to four columns with random codecs, random expression trees, masks, three aggregations each, one at a time and together. Non-trivial: an expression with an operator over selected rows.",
     dict({"columns that do not line up": 300, "parts that do not belong together": 1000, "aggregations": 3000, "aggregations in compute_multiple": 3000, "records aggregated": 50000}), quick=(60000, 25), assume=[MODEL])

prop("C10", "A file describes itself correctly",
     "Every encoded file states its codec, chunk option, codec configuration, number of records and chunks, and the byte and record extents of every chunk, such that these agree with the bytes in the file, with the chunk option asked for, and with what the reader reports; limits of any size are honoured, and one that admits no record is refused rather than dropping the input; extents tile the data without gaps or overlaps.",
     ["inputs", "configurations"], "all inputs, codecs, chunk options and configurations",
     "Layout facts must hold for every combination of length and chunk option, including no records, partial last chunks and chunks of one record.",
     ["ebi/src/encoder.rs", "ebi/src/decoder.rs", "ebi/src/format.rs", "ebi/src/format/*.rs", DEC], [("header, chunk footers, footer offset back-patch", "ebi/src/encoder.rs"), ("format structs", "ebi/src/format.rs")],
     "runtime monitor: independent parser of the documented format against the bytes and the reader's answers", "Independent byte-level parser. " + LIMIT,
     "Each case: an encoded file parsed by the monitor's own parser and compared with the library's view; one case is a file of more than 4 GiB in a sparse stream. Non-trivial: more than one chunk.",
     dict(codecs(50), **{"chunks described": 10000, "files without chunks": 20, "limits of nothing": 200, "limits beyond any input": 200}), quick=(100000, 25), assume=[MODEL])

prop("C11", "Answers do not depend on earlier queries",
     "Any sequence of queries on one open file, or on one chunk of it, gives for each query the answer a freshly opened file gives, whatever queries, partial iterations or refused requests came before.",
     ["histories", "inputs"], "all sequences of queries, masks, predicates and chunk choices on a decoder or a chunk reader",
     "Tests open a fresh reader for each query; caches and stream positions only matter across a history.",
     [DEC, "ebi/src/decoder/chunk_reader.rs", "ebi/src/decoder/chunk_reader/*.rs"], [("cached decompression results", "ebi/src/decoder/chunk_reader"), ("stream rewinds", "ebi/src/decoder/chunk_reader")],
     "runtime monitor: every step of a query history compared with a fresh reader", "Differential against a fresh reader at every step. " + LIMIT,
     "Each case: a file and 3-10 queries in sequence (13 kinds at file level, 10 at chunk level), each also executed on a fresh reader. Non-trivial: a non-empty answer after at least one earlier query. Distinct: by case content.",
     dict(codecs(50), **{"queries in sequence": 20000, "query knn1": 200, "chunk reader sum": 200, "refused requests in between": 500}), quick=(60000, 28), assume=[MODEL])

prop("C12", "How bytes are delivered does not matter",
     "Short reads, short writes and interrupted system calls on the input, the output or the encoded file change neither the encoded file nor any answer; trailing bytes of the input that do not make up a record are ignored.",
     ["schedules", "inputs"], "all splittings of the byte streams into transfers, all placements of interruptions",
     "Tests read from memory, which always delivers everything at once.",
     ["ebi/src/encoder.rs", ENC, DEC, "ebi/src/decoder.rs"], [("read loop of the encoder input", "ebi/src/encoder.rs"), ("exact reads of headers, footers and chunks", "ebi/src/decoder.rs")],
     "runtime monitor with injected short transfers and interruptions: byte-identical files, identical answers", "Differential against undisturbed delivery. " + LIMIT,
     "Each case: one encoding and several queries under random transfer sizes and interruptions, against the undisturbed run. Non-trivial: at least one short transfer or interruption was delivered and the input is not empty.",
     dict(codecs(50), **{"interrupts delivered": 10000, "short transfers": 10000, "short reads of the file": 10000, "inputs with a partial last record": 200}), quick=(40000, 28), assume=[MODEL])

prop("C13", "I/O failures are reported and leave the reader usable",
     "If any read, write, seek or flush fails during encoding, opening or a query, that operation returns an error: it does not report success, panic or hang; after a failed query the same open file answers later queries correctly, and a chunk reader that could not read its chunk refuses later requests or answers them correctly.",
     ["fault_sequences"], "every I/O operation of an encode, open or query, failing once, permanently, or by delivering nothing",
     "Each operation has many I/O points, each must propagate; tests inject none.",
     ["ebi/src/encoder.rs", ENC, DEC, "ebi/src/decoder.rs", "ebi/src/decoder/chunk_reader/*.rs"], [("error propagation", "all I/O call sites")],
     "runtime monitor with enumerated I/O faults: every operation of every recorded run is failed once", "Within a case every I/O operation is failed in turn (enumerated when few, sampled beyond). " + LIMIT,
     "Each case: one small file; the I/O operations of encoding, opening and a query are counted and each is made to fail. Non-trivial: at least one fault was delivered. Distinct: by case content.",
     dict(codecs(50), **{"input faults reported": 5000, "output faults reported": 5000, "open faults reported": 2000, "query faults reported": 2000, "query output faults reported": 1000, "recoveries": 2000, "chunk reader faults reported": 1000, "chunk reader answers after a fault": 1000}),
     level="fault_enumeration", quick=(40000, 28), assume=[MODEL, "a failing operation transfers nothing"])

prop("C14", "An interrupted encoding is never mistaken for a complete file",
     "If encoding stops at any point, what has been written up to then is either rejected when opened or is a complete file from which every record can be read; it is never opened as a file with fewer or other records.",
     ["crash_points"], "every prefix of the sequence of write operations, with the last write torn",
     "Requires stopping the encoder between any two writes; tests only look at finished files.",
     ["ebi/src/encoder.rs", ENC, "ebi/src/decoder.rs"], [("footer offset is 0 until the file is complete", "ebi/src/encoder.rs"), ("rejection of files without footer", "ebi/src/decoder.rs")],
     "runtime monitor: crash-point enumeration over the recorded write log", "All operation boundaries of each recorded run plus torn last writes; writes reach the file in program order. " + LIMIT,
     "Each case: one encoding whose writes are recorded; the file is rebuilt for every prefix of the log (and torn writes) and opened. Non-trivial: more than four operations.",
     dict(codecs(50), **{"crash points": 20000, "rejected": 10000, "complete files accepted": 2000}), level="fault_enumeration", quick=(50000, 28),
     assume=[MODEL, "writes reach the file in the order they were made; fields of up to 16 bytes are written atomically"])

prop("C15", "Truncated, foreign or structurally damaged files are rejected",
     "Opening a file that is cut short anywhere, does not carry the format's magic number, names an unknown type, codec or chunk option, or whose footer location, chunk count, chunk extents or configuration size contradict the file, returns an error; opening never panics or aborts on such a file.",
     ["inputs"], "all truncations and all such inconsistencies of all valid files",
     "Needs every cut point and field value; tests contain no damaged file.",
     ["ebi/src/decoder.rs", "ebi/src/format/deserialize.rs"], [("validation while fetching header and footer", "ebi/src/decoder.rs"), ("identifier conversion", "ebi/src/format/deserialize.rs")],
     "runtime monitor: damaged files must be refused", "Sampled cut points and field values per file. " + LIMIT,
     "Each case: one valid file and about fifty damaged variants of it. Distinct: by the valid file's bytes.",
     dict(codecs(50), **{"rejected: truncated": 20000, "rejected: magic": 500, "rejected: chunk count": 500, "rejected: footer offset": 500, "rejected: chunk offset": 200}), quick=(100000, 25), assume=[MODEL])

prop("C16", "No file and no input makes the library touch memory that is not its own",
     "Encoding any input, and opening and querying any file, whatever its bytes and however they contradict one another, never reads or writes outside the memory the library owns, never uses freed memory and never trips an unsafe operation's precondition: every request ends in an answer, an error or an ordinary panic.",
     ["inputs", "histories"], "all files (valid, damaged, hostile) of all codecs, all queries on them, all encodings",
     "Tests contain no damaged file and run without a memory checker; unsafe code (raw buffers, vector instructions, unchecked conversions) is reached by particular sizes and alignments only.",
     ["ebi/src/compressor/*.rs", "ebi/src/decoder/chunk_reader/*.rs", "ebi/src/decoder/chunk_reader/buff/*.rs", "ebi/src/decoder/expr.rs", "ebi/src/io/*.rs"],
     [("raw buffers filled by decompressors", "ebi/src/decoder/chunk_reader/zstd.rs"), ("vector instructions", "ebi/src/decoder/chunk_reader/buff"), ("raw column buffers", "ebi/src/decoder/expr.rs"), ("uninitialised output of the delta encoder", "ebi/src/compressor/sprintz.rs")],
     "AddressSanitizer and checked builds (unsafe-precondition, overflow and bounds checks) over damaged files and ordinary workloads",
     "Memory errors only; answers on damaged files are not judged, nor are refused huge allocations or long computations. Uninitialised reads are outside what AddressSanitizer sees. " + LIMIT,
     "Each case: two thirds damaged files (bit flips, overwritten fields, record counts, chunk tables, other codecs) queried in every way, one third ordinary workloads of the other properties. Non-trivial: a damaged file that was opened, or a non-trivial ordinary case.",
     dict(codecs(100), **{"damaged files opened": 5000, "requests answered": 10000, "requests refused": 1000, "expressions over damaged columns": 500, "ordinary use as in C04": 100}),
     variants=[("asan", 300000, 40), ("checked", 300000, 25)], variants_thorough=[("asan", 6000000, 600), ("checked", 6000000, 600)],
     alloc_abort_ok=True, hang_ok=True, case_cpu=3, mem=3 << 30, assume=["the sanitizer runtime sees every access of the instrumented Rust code; the bundled C library of the zstd codec is not instrumented"])

prop("C17", "The bit streams under the codecs lose and invent nothing",
     "A bit writer appends exactly the bits it is given, in order, for every sequence of widths and values, and a bit reader over the result returns exactly those bits for every sequence of reads, peeks and skips, whatever the split into calls; at the end of the data it says so instead of returning bits that were never written.",
     ["histories", "inputs"], "all sequences of bit writes and of bit reads, peeks, skips",
     "Word boundaries, 64-bit wide fields and reads straddling several words depend on the sum of all widths before; doc tests show single calls.",
     ["ebi/src/io/bit_read.rs", "ebi/src/io/bit_write.rs"],
     [("bit readers and writers", "ebi/src/io")],
     "runtime monitor: a plain vector of bits as the model, every operation compared", "Model of one bool per bit. " + LIMIT,
     "Each case: a random program of writes, then random programs of reads, peeks and skips over the bytes. Non-trivial and distinct by the bits written.",
     {"writer steps checked": 50000, "bits written": 1000000, "read_bits": 50000, "peak_bits": 10000, "reads refused at the end": 1000, "skip": 5000}, quick=(600000, 20), thorough=(6000000, 240), assume=[MODEL])

prop("C18", "A compressor that is reset starts from scratch",
     "A compressor object used again after a reset produces for the next input the very bytes a new compressor object produces, whatever it compressed before; at every point the bytes it hands out, their announced total size and the number of input bytes it reports agree with one another.",
     ["histories"], "all sequences of compressions and resets on one compressor object of each codec",
     "State left over from earlier input shows only in later output; tests compress once per object.",
     ["ebi/src/compressor/*.rs", "ebi/src/compressor.rs"], [("reset", "ebi/src/compressor"), ("buffers and totals", "ebi/src/compressor")],
     "runtime monitor: every compression in a history compared byte for byte with a new compressor", "Differential against a new object. " + LIMIT,
     "Each case: a history of compressions on one compressor object. Non-trivial: at least two compressions. Distinct: by content.",
     dict(codecs(50), **{"compressions compared": 10000, "after reset": 3000, "without reset": 1000}), quick=(400000, 20), thorough=(3000000, 240), assume=[MODEL])

prop("C19", "Encoding is deterministic and chunks are independent",
     "Encoding the same input with the same settings gives the same bytes except for recorded times; the bytes of a chunk depend only on its own records and the settings, and reading a chunk depends only on that chunk's bytes and the file's description.",
     ["inputs", "configurations"], "all inputs, settings, chunkings; any content of the other chunks",
     "State leaking from one chunk to the next shows only for particular neighbouring chunks.",
     ["ebi/src/encoder.rs", "ebi/src/compressor/*.rs", "ebi/src/decoder/chunk_reader/*.rs"], [("compressor reset between chunks", "ebi/src/compressor"), ("chunk addressing", "ebi/src/decoder.rs")],
     "runtime monitor: re-encoding and stand-alone chunk encodings compared byte for byte; queries with all other chunks overwritten", "Differential. " + LIMIT,
     "Each case: a file encoded twice, some of its chunks encoded alone, and queries on one chunk while the others hold random bytes. Non-trivial: more than one chunk.",
     dict(codecs(50), **{"chunks compared with stand-alone encodings": 3000, "queries with the other chunks overwritten": 3000}), quick=(100000, 25), assume=[MODEL])

prop("C20", "Appending to and rewinding a compressor equals compressing what remains",
     "For the codecs that support it, appending records to a compressor and taking records back, in any order, leaves it holding exactly the remaining records: its bytes decode to them, and the counts of input and buffered bytes agree with them; a request to take back more than there is is refused and changes nothing.",
     ["histories"], "all sequences of appends (including of nothing) and rewinds",
     "Run splitting and merging depends on the history of appends and rewinds; no test rewinds.",
     ["ebi/src/compressor/run_length.rs", "ebi/src/compressor/uncompressed.rs", "ebi/src/compressor.rs"], [("append / rewind", "ebi/src/compressor/run_length.rs, uncompressed.rs")],
     "runtime monitor: bytes and counts after every step of a history compared with a plain vector of records", "Model is a vector of records. " + LIMIT,
     "Each case: a history of appends, rewinds and over-long rewinds. Non-trivial: at least one rewind after an append.",
     {"codec Rle": 500, "codec Uncompressed": 500, "appends": 5000, "appends of nothing": 200, "rewinds": 2000, "rewinds refused": 200, "states compared": 5000, "records compared": 50000}, quick=(2000000, 20), thorough=(6000000, 240), assume=[MODEL])

prop("C21", "Reduced precision stays within its bound",
     "Reading with a requested number of decimal places gives values within one unit of the last requested place of the stored ones, and exactly the stored ones if at least as many places as stored are requested or the codec has no such mode; the setting never changes which records are returned or the answers of filters and aggregates.",
     ["inputs", "configurations", "histories"], "all files, precisions (any 32-bit number), queries, and sequences of settings and reads on one chunk",
     "Depends on bit widths per precision and chunk, carries at zero and caching across settings; one test reads one chunk at one precision.",
     ["ebi/src/decoder/chunk_reader/buff/controlled_precision.rs", "ebi/src/decoder/chunk_reader/buff.rs", DEC], [("dropping low-order columns", "ebi/src/decoder/chunk_reader/buff/controlled_precision.rs"), ("propagation of the setting", DEC)],
     "runtime monitor: reduced-precision reads against full-precision reads, record by record", "Differential with an error bound. " + LIMIT,
     "Each case: a file (three in four of the codec with the mode), three queries at random precisions, and a history of settings and reads on one chunk. Non-trivial: a value actually came back at reduced precision.",
     {"values compared": 100000, "queries compared": 5000, "values at reduced precision": 50000, "reads with a history of settings": 5000, "codec Gorilla": 30}, quick=(400000, 20), thorough=(3000000, 300), assume=[MODEL])

prop("C22", "Settings, predicates, results and times survive their serialised forms",
     "Every codec configuration read back from its binary form or from JSON, and every chunk option, predicate, chunk id, query result and time record read back from JSON, equals the original; the header, footers and chunk entries of a file have the documented byte layout and read back field by field; configurations have the announced size; a predicate accepts exactly the values IEEE comparison says, also after its points are mapped.",
     ["inputs"], "all configurations, options, predicates, results and times (finite numbers)",
     "Every field of every type matters for every value, including extremes; no test serialises any.",
     ["ebi/src/compressor.rs", "ebi/src/format/*.rs", "ebi/src/decoder/query.rs", "ebi/src/time.rs", "ebi/src/encoder.rs"], [("binary configurations", "ebi/src/format"), ("serde derives", "several"), ("time conversions", "ebi/src/time.rs")],
     "runtime monitor: round trips of random values of every type", "Exact comparison. " + LIMIT,
     "Each case: one random value of every type. Distinct: by configuration, predicate and option.",
     dict(codecs(100), **{"configurations": 10000, "predicates": 10000, "segment times": 10000, "file parts": 10000}), quick=(1000000, 15), thorough=(6000000, 180), assume=[MODEL])

prop("C23", "Recorded and reported times account for the work and for waiting",
     "The compression time stored in a file and the times reported after a query never exceed the time that really went by, the separately reported segments add up to no more than the total, and time spent waiting for input, for the file or for output is contained in the reading and writing segments, for queries and for expressions over columns; the codecs' work shows in the segments it belongs to; every query reports its own times only.",
     ["histories", "schedules"], "all codecs, files and query sequences; any delay at any transfer",
     "Needs delays at chosen transfers and a history of queries; tests ignore times.",
     ["ebi/src/time.rs", "ebi/src/encoder.rs", DEC, "ebi/src/decoder/chunk_reader/*.rs", "ebi/src/compressor/*.rs"], [("stop watches", "ebi/src/time.rs"), ("measurement of transfers", "ebi/src/decoder/chunk_reader, ebi/src/encoder.rs")],
     "runtime monitor with injected delays: reported times bounded from both sides by the monitor's own clock", "One-sided bounds that scheduling noise cannot violate. " + LIMIT,
     "Each case: one encoding and several queries with delays at random transfers, and one stop-watch history. Non-trivial: a delay was delivered while encoding.",
     dict(codecs(50), **{"encodings timed": 2000, "queries timed": 3000, "delays injected": 5000, "stop watches": 2000, "expressions timed": 2000, "segments of work seen": 1000}), quick=(40000, 20), thorough=(600000, 180), assume=[MODEL, "the monotonic clock"])

prop("C24", "Compression pays, and never costs more than a few bits per record",
     "No input grows by more than a codec's fixed overhead per record; a repeated value costs a few bits only; the run-length codec stores one entry per run of up to 255 equal records; the erasing codecs keep of a decimal only the bits its places require, plus a few; the window codec finds repeated values; the fixed-point codecs use no more bits per record than the range (or the largest step) and the scale require.",
     ["inputs", "configurations"], "all inputs for the overhead, all inputs of the named kinds for the savings",
     "A codec that stops finding its savings still round-trips; no test looks at sizes.",
     ["ebi/src/compressor/*.rs", "ebi/src/compression_common/*.rs"], [("the codecs' decisions", "ebi/src/compressor")],
     "runtime monitor: encoded size against per-codec bounds derived from the format and the data", "Bounds with a margin over what the formats need. " + LIMIT,
     "Each case: one chunk of any values, one value, short decimals, repeated values or grid decimals. Non-trivial: more than one record. Distinct: by codec, length, size and content.",
     dict(codecs(100, CODECS[:12]), **{"sizes of any values": 3000, "sizes of decimals": 1000, "sizes of one value": 1000, "sizes of repeated values": 100, "sizes of short decimals": 200}), quick=(500000, 20), thorough=(3000000, 240), assume=[MODEL])

PROG = "Each case runs the real programs (built from the working tree) as processes in a scratch directory of their own. "
ONLY = "The programs are built with stand-ins for the two crates that act on the whole machine (dropping the page cache, memory sampling)."

prop("C25", "The preparation tools convert and describe the data as it is",
     "csv2bin turns every readable text file of comma- or line-separated decimal numbers into exactly those numbers as 64-bit floats, leaves nothing behind for a file that does not parse or whose output could not be written in full, and never touches its input; collect-stats reports the extremes, means and deviations of values, decimal places (as written, also with an exponent) and binary exponents, the XOR zero counts, the number of values and the share of repeated ones of each file; "
     "create-default-compressor-config writes one configuration per codec, the fixed-point ones with the scale of the largest number of decimal places that at least one in a hundred numbers has (the largest of all with --exact-precision), leaving them out beyond 19 places; create-filter-config writes the five percentile predicates of the data. One unusable file does not keep the other files from being handled.",
     ["inputs", "fault_sequences"], "all text files (layout, line ends, blank fields, signs, exponents, lengths; no NaN for statistics) and any limit on the output size",
     "No test runs these programs; number syntax, file layout, sizes and write failures have too many combinations to sample.",
     ["tools/src/csv2bin.rs", "tools/src/collect-stats.rs", "experimenter/src/lib.rs", "experimenter/src/main.rs"],
     [("conversion", "tools/src/csv2bin.rs"), ("statistics", "tools/src/collect-stats.rs"), ("decimal places", "experimenter/src/lib.rs"), ("configuration generators", "experimenter/src/main.rs")],
     "runtime monitor: the files the programs leave against own parsing, statistics and percentiles; file size limits as write faults", PROG + LIMIT,
     PROG + "One to four text files, a conversion (one in four under a size limit), then one of the three other programs. Non-trivial: more than one number.",
     {"files converted": 500, "numbers converted": 50000, "statistics compared": 1500, "configuration sets compared": 100, "filter sets compared": 70, "unparsable files": 100, "conversions refused for lack of space": 15, "large files": 1, "scales that leave out a few numbers": 5},
     variants=[("checked", 100000, 20)], variants_thorough=[("checked", 400000, 300)], distinct=200, programs=True, assume=[MODEL, ONLY])

prop("C26", "The experiment driver measures and reports what was asked",
     "Every command of the driver (compress, filter, filter-materialize, materialize, max, sum), in memory or on disk, leaves exactly one new result file with the next free number, never changes earlier results or the input, and that file names the input, the configuration, the selection and the predicate that were used, the right answer of the query, the real sizes and ratios, and times that fit into the time that went by; output files hold exactly the selected records; a result that could not be written in full is not silently lost. "
     "`all` reports, for every data set, codec and query, the requested number of measurements with the right answers; `all-patch` replaces exactly the measurements of the named codec or data set and keeps all others.",
     ["inputs", "histories", "fault_sequences"], "all data sets, configurations, sequences of commands, selections and predicates (points with at most 15 digits), size limits",
     "No test runs the driver; what counts is the relation between command line, configuration files, data and report over a sequence of runs.",
     ["experimenter/src/main.rs", "experimenter/src/lib.rs"], [("commands and reports", "experimenter/src/main.rs"), ("report types", "experimenter/src/lib.rs")],
     "runtime monitor: report and output files after every command of a sequence against the reference model of the queries; size limits as write faults", PROG + LIMIT,
     PROG + "Most: a sequence of three to seven commands on one file, some a command over several files; one in eight: a whole experiment, one in three of those patched. Non-trivial: a query that selects a record, or a whole experiment.",
     dict(codecs(10), **{"results checked": 1000, "command compress": 300, "command filter": 150, "command filter-materialize": 150, "command materialize": 150, "command max": 60, "command sum": 60, "complete experiments": 15, "experiments patched": 3, "runs without room": 30, "longer files in the way": 50, "selections out of order": 50, "commands over several files": 5, "measurements checked": 3000}),
     variants=[("checked", 100000, 35)], variants_thorough=[("checked", 1000000, 400)], distinct=200, programs=True, assume=[MODEL, ONLY])

prop("C27", "The experiment reports state what the data says",
     "The TPC-H reports hold, per codec, the aggregates of queries 1 (also simplified) and 6 over the stored columns, in the order of the query's select list and of the reported names, the sizes of the columns and a total time that is the sum of the parts; the 1-NN reports hold the share of test series whose nearest training series (Euclidean, missing values as 0, values rounded to the data set's decimal places) has their label, and the first values as stored, within one unit of the last place at reduced precision; "
     "the embedding reports hold, per codec that supports the precision, the sizes and the first record of every measurement. Every run gets a directory with the next free number.",
     ["inputs", "configurations"], "all tables, data sets and embeddings in the documented file formats",
     "No test runs these experiments; the reports' fields are right only if columns, order, rounding and scales agree for all data.",
     ["experimenter/src/tpch.rs", "experimenter/src/main.rs", "experimenter/src/lib.rs"], [("TPC-H queries", "experimenter/src/tpch.rs"), ("1-NN and embedding experiments", "experimenter/src")],
     "runtime monitor: reported aggregates, accuracies, sizes and read-backs against own evaluation over the input data", PROG + LIMIT,
     PROG + "One of the three experiments on generated tables, data sets or embeddings. Every case is non-trivial.",
     {"tpch reports": 15, "1-NN reports": 15, "embedding reports": 10, "accuracies compared": 150, "accuracies between 0 and 1": 50, "aggregates compared": 1000, "read-backs compared": 1000},
     variants=[("checked", 100000, 35)], variants_thorough=[("checked", 1000000, 300)], distinct=40, programs=True, assume=[MODEL, ONLY])

prop("C28", "Step-by-step interface and file endpoints agree with the one-call interface",
     "A file written step by step (header, chunk after chunk with new, kept or previously used compressors, footer, then footer offset and elapsed time in either order) equals the one the encoder writes in one call, holds the times it was given, does not open before its footer offset is written, and chunk writers end exactly with the input; encoding and queries between real files give the same bytes and answers as in memory, buffered or not, replace what the output file held before, have everything in the file when encoding returns, and leave their input as it was; "
     "header, footer and chunk handles read step by step agree with the decoder, are refused out of order and are read once only; a chunk can be read through its handle from its own bytes alone, and a copied reader answers like the original.",
     ["inputs", "configurations", "histories"], "all inputs, codecs, chunk options, sequences of steps, kinds of endpoints",
     "One unit test writes one file step by step; the equivalence must hold for every codec, compressor history and chunk.",
     ["ebi/src/encoder.rs", "ebi/src/decoder.rs", ENC, DEC, "ebi/src/decoder/chunk_reader.rs"], [("FileWriter and ChunkWriter", "ebi/src/encoder.rs"), ("FileReader and chunk handles", "ebi/src/decoder.rs"), ("endpoints", "ebi/src/api")],
     "runtime monitor: byte equality of the two ways of writing, answer equality of the ways of reading, real files in a scratch directory", "Differential between two interfaces of the code, on top of the round-trip properties. " + LIMIT,
     "Each case: one input (codec round robin) written both ways and read step by step; one in three also through files. Non-trivial: more than one chunk.",
     dict(codecs(50), **{"files written step by step": 2000, "chunks written step by step": 50000, "compressors used elsewhere before": 5000, "chunk writers given up": 5000, "files encoded to disk": 500, "existing files replaced": 200, "queries from file to file": 1000, "chunk queries step by step": 5000, "queries on copied readers": 1500}), quick=(60000, 25), assume=[MODEL])

prop("C29", "Memory is bounded by a chunk and given back",
     "Encoding, and querying a file, keep no more in memory at a time than a few chunks, a few bytes per chunk and the answer, however large the file is, and opening a file reads its description only; every operation, whether it succeeds or fails at any point, has given back all memory and file descriptors once its objects are dropped.",
     ["inputs", "fault_sequences", "histories"], "all codecs, chunk options with a limit, queries and expressions; any failing transfer",
     "Tests use small inputs and never look at memory; leaks sit on error paths.",
     ["ebi/src/encoder.rs", DEC, "ebi/src/decoder/*.rs", "ebi/src/decoder/chunk_reader/*.rs", "ebi/src/compressor/*.rs"], [("chunk-wise processing", "ebi/src/encoder.rs, ebi/src/api/decoder.rs"), ("buffers of the readers and compressors", "ebi/src/compressor, ebi/src/decoder/chunk_reader")],
     "runtime monitor: counting allocator (bytes and blocks in use, peak), C heap statistics and open descriptors around repeated scenarios with injected faults", "Exact balance of the Rust heap; the C heap must not grow over repeated windows. " + LIMIT,
     "Each case: seven in eight a scenario (encoding, queries, expressions, damaged file, files on disk; three in four with a failing transfer) repeated 27 times; one in eight a file of 300,000 to 400,000 records in small chunks whose peaks are measured. Every case is non-trivial.",
     dict(codecs(20), **{"scenarios repeated": 1000, "scenarios with a failing operation": 200, "peaks measured": 400, "expressions": 100, "queries": 100, "files on disk": 100, "encodings, output": 100, "encodings, input": 100, "damaged files": 100}), quick=(60000, 25), distinct=500, assume=[MODEL, "glibc's heap statistics for the parts in C and C++"])

prop("C30", "Files and settings stay exchangeable with earlier releases",
     "A file written by the current release at this format version, with any codec, setting and chunking, is read now with the same contents, description and answers as by that release, and a file written now is read by that release with the same contents; settings, chunk options and predicates stored as JSON by either mean the same to the other.",
     ["inputs", "configurations"], "all inputs, codecs, settings, chunk options, predicates; both directions",
     "Tests write and read with the same build, so a change made on both sides at once passes all of them and makes every existing file unreadable.",
     ["ebi/src/format.rs", "ebi/src/format/*.rs"] + CODEC_FILES, [("container layout", "ebi/src/format"), ("bit layouts of the codecs", "ebi/src/compressor, ebi/src/decoder/chunk_reader"), ("serde representations", "ebi/src/compressor.rs, ebi/src/encoder.rs, ebi/src/decoder/query.rs")],
     "runtime monitor: cross-reading of every generated file by the code under test and by an archived copy of the library", "The archived library (archive/, the pinned tree with its fixes) is the reference for the format. " + LIMIT,
     "Each case: one input (codec round robin) encoded by both releases, each file read and queried by both; settings exchanged as JSON. Non-trivial: more than one record.",
     dict(codecs(50), **{"archived files read": 3000, "new files read by the archived release": 3000, "values compared": 1000000, "queries compared": 10000, "settings exchanged": 3000, "predicates exchanged": 2000}), quick=(60000, 25), assume=[MODEL, "the archived copy of the library defines the format"])

NOT_CLAIMED = [
]

PLAN = {p["line"]["id"]: p["plan"] for p in P}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P + [dict(line=n["line"]) for n in NOT_CLAIMED]:
            f.write(json.dumps(p["line"]) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py build", checks=[p["check"] for p in P],
             not_applicable=[dict(property=n["line"]["id"], reason=n["reason"]) for n in NOT_CLAIMED],
             notes="No hooks: the monitors observe the code through its public interface, wrapped I/O streams, sanitizer builds and overflow-checked builds.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a}, tech, note))

ENC = "ebi/src/encoder.rs"; DEC = "ebi/src/decoder.rs"; CR = "ebi/src/decoder/chunk_reader.rs"; Q = "ebi/src/decoder/query.rs"
LOSSLESS_FILES = ["ebi/src/compressor/%s.rs" % s for s in ("uncompressed run_length gzip snappy zstd ffi_alp gorilla chimp chimp_n elf general_xor").split()]
LOSSLESS_R = ["ebi/src/decoder/chunk_reader/%s.rs" % s for s in ("uncompressed run_length gzip snappy zstd ffi_alp gorilla chimp chimp_n elf general_xor").split()]

p("C01", "Lossless schemes give back every double bit for bit",
  "For every sequence of doubles (including an empty one, infinities, subnormals and both zeros) and every way of cutting it into chunks, encoding it with a lossless scheme and decoding the file yields the same number of values with exactly the same bits in the same order, both for the whole file and for each chunk on its own. Schemes that store raw values also keep the bits of every NaN.",
  ["inputs", "configurations"], "every finite sequence of doubles x the lossless schemes and their settings x every chunking by record count, byte size or whole input",
  "The round-trip tests use a few fixed arrays and some random floats; the schemes branch on leading/trailing zero counts, runs, repeats in a window, decimal digits and chunk boundaries that no fixed set samples.",
  LOSSLESS_FILES + LOSSLESS_R + [ENC, "ebi/src/io/bit_read.rs", "ebi/src/io/bit_write.rs", "ebi/src/compression_common/elf.rs"],
  [("XOR windows and control codes", "ebi/src/compressor/{gorilla,chimp,chimp_n}.rs and the readers"), ("decimal erasure and restore", "ebi/src/compressor/elf.rs, ebi/src/compression_common/elf.rs"), ("runs", "ebi/src/compressor/run_length.rs"), ("bit cursor", "ebi/src/io")],
  ["Decoder::materialize", "Decoder::footer"],
  "generated round-trip search (structured random streams of 14 shapes), two build profiles",
  "Random exploration of a structured input space against the identity oracle; ALP is exercised through a pure-Rust stand-in for its missing C++ library.")

p("C02", "Bounded-precision schemes keep every value within their stated precision",
  "A value that is a multiple of the configured decimal unit is recovered exactly by the delta scheme, and by the fixed-point scheme as a value that rounds back to it; any other value in range comes back as the nearest multiple (delta scheme) or less than one unit too small in magnitude (fixed-point scheme). The number and order of values are kept, comparisons between neighbours never flip, and a scale the file cannot represent is refused instead of being cut off.",
  ["inputs", "configurations"], "every sequence of doubles in range x every power-of-ten scale (and any integer scale for the delta scheme) x every chunking",
  "Existing tests use scales of 10 or 100 and a handful of values; widths of deltas, block remainders and integer/fraction splits depend on the whole chunk.",
  ["ebi/src/compressor/buff.rs", "ebi/src/compressor/sprintz.rs", "ebi/src/compression_common/buff.rs", "ebi/src/decoder/chunk_reader/buff/decode.rs", "ebi/src/decoder/chunk_reader/sprintz.rs"],
  [("fixed-point split and sub-columns", "ebi/src/compressor/buff.rs"), ("delta, zigzag and bit packing", "ebi/src/compressor/sprintz.rs")],
  ["Decoder::materialize"],
  "generated round-trip search with an arithmetic precision oracle",
  "Random exploration; values with |value*scale| <= 2^50, scales 10^0..10^12.")

p("C03", "A filter selects exactly the records that satisfy the predicate",
  "For every file, predicate (equal, not equal, or a range with inclusive, exclusive or absent ends), selection mask and chunk choice, the returned set holds exactly the selected records whose value satisfies the predicate (the fixed-point scheme compares at the precision it stores); shortcuts taken on compressed data never add or lose a record.",
  ["inputs", "configurations"], "every file of every scheme x every predicate and constant x every mask (including positions past the end) x every chunk choice",
  "Query tests sample a few predicates on one array per scheme; the fixed-point and run-length schemes evaluate predicates on compressed digits with per-chunk base, sign and width cases.",
  ["ebi/src/decoder/chunk_reader/buff/filter_eq.rs", "ebi/src/decoder/chunk_reader/buff/filter_cmp.rs", "ebi/src/decoder/chunk_reader/buff/filter.rs", "ebi/src/decoder/chunk_reader/run_length.rs", Q, DEC],
  [("digit-wise predicate evaluation", "ebi/src/decoder/chunk_reader/buff/filter*.rs"), ("default scan", Q), ("mask restriction per chunk", DEC)],
  ["Decoder::filter"],
  "generated queries against a reference evaluator",
  "Random exploration; values on the scale's grid for the bounded-precision schemes; for the fixed-point scheme a constant off the grid is judged only for records 1.5 units away from it.")

p("C04", "Reading a selection returns exactly the selected records in order",
  "Materialising under a mask and optional chunk returns the selected records, in file order, bit-identical to the corresponding records of a full scan; materialising with a predicate returns exactly those of them that satisfy it.",
  ["inputs", "configurations"], "every file of every scheme x every mask x every predicate x every chunk choice, several reads on one open file",
  "Tests use few masks; skipping over unselected records is scheme specific and depends on mask position relative to chunk, byte and block borders.",
  [DEC, CR, Q, "ebi/src/decoder/chunk_reader/buff/decode.rs", "ebi/src/decoder/chunk_reader/run_length.rs"],
  [("mask iteration and skipping", Q), ("sub-column gather", "ebi/src/decoder/chunk_reader/buff/decode.rs")],
  ["Decoder::materialize", "Decoder::filter_materialize"],
  "generated queries against a reference evaluator",
  "Random exploration.")

p("C05", "Sum, minimum and maximum equal those of the selected records",
  "For every file, mask and chunk choice, minimum and maximum equal those of the selected decoded values and the sum equals theirs up to the rounding of the additions; an empty selection has sum zero and the neutral extremes.",
  ["inputs", "configurations"], "every file of every scheme x every mask x every chunk choice",
  "Tests aggregate a few arrays with one or two masks; aggregates are computed on compressed digits, run lengths and deltas with carries, signs and chunk-constant special cases.",
  ["ebi/src/decoder/chunk_reader/buff/sum.rs", "ebi/src/decoder/chunk_reader/buff/min_max.rs", "ebi/src/decoder/chunk_reader/run_length.rs", "ebi/src/decoder/chunk_reader/sprintz.rs", Q, DEC],
  [("aggregation over sub-columns", "ebi/src/decoder/chunk_reader/buff/{sum,min_max}.rs"), ("aggregation over runs and deltas", "ebi/src/decoder/chunk_reader/{run_length,sprintz}.rs"), ("combination of chunks", DEC)],
  ["Decoder::sum", "Decoder::min", "Decoder::max"],
  "generated aggregates against a fold over a plain scan",
  "Random exploration; sums compared up to a rounding bound.")

p("C06", "Nearest-neighbour search returns a nearest stored vector and its distance",
  "For every file read as consecutive vectors of the target's dimension, the search reports the index of a vector at minimal Euclidean distance together with that distance, however the vectors lie across chunks, and reports none when the file holds no complete vector; distances to parts of a target add up to the whole.",
  ["inputs", "configurations"], "every file of every scheme and chunking x every target dimension (also not dividing the record count or the chunk size)",
  "The ML tests use dimensions that divide the chunks and one scheme each; early abandoning and vectors across chunks are not reached.",
  [DEC, CR, Q, "ebi/src/decoder/chunk_reader/uncompressed.rs"],
  [("vector reassembly and early abandoning", DEC), ("partial squared distance", Q)],
  ["Decoder::knn1", "distance_squared on a chunk"],
  "generated searches against brute force",
  "Random exploration; finite values of moderate magnitude; ties may go either way.")

p("C07", "Matrix product equals the schoolbook product of the stored matrices",
  "For every file read as a batch of equally shaped matrices and every target matrix of matching shape, the result holds every product in order, equal to the schoolbook product up to rounding, however rows and matrices lie across chunks; shapes that are empty or do not fit are refused with an error.",
  ["inputs", "configurations"], "every file, chunking, matrix shape and target",
  "The tests multiply two or three shapes in a single chunk.",
  [DEC, CR, Q], [("row reassembly across chunks", DEC), ("partial dot products", Q)],
  ["Decoder::matmul", "dot product on a chunk"],
  "generated products against a reference implementation",
  "Random exploration; CPU implementation only (no GPU here).")

p("C08", "Aggregates of expressions over columns equal row-by-row evaluation",
  "For every set of columns of the same length and chunking, every arithmetic expression over them and constants, and every selection, the sum, minimum, maximum or plain values equal those of evaluating the expression on each selected row; evaluating several expressions together gives the same as one by one.",
  ["inputs", "configurations", "programs"], "every list of columns (schemes may differ) x every expression tree x every aggregate x every mask",
  "The aggregation tests use a few fixed TPC-H-like expressions.",
  ["ebi/src/decoder/expr.rs", Q, DEC], [("expression trees and binary operators", "ebi/src/decoder/expr.rs"), ("chunk-wise evaluation", "ebi/src/decoder/expr.rs")],
  ["Expr evaluation entry points"],
  "generated expression programs against a row interpreter",
  "Random exploration; expression depth up to 3, up to 4 columns.")

p("C09", "An encoded file describes itself correctly",
  "For every input and configuration, the file records the scheme and its configuration, the chunking option, the number of records and chunks, and for every chunk its first record and position; these agree with what was encoded and with each other, chunk sizes follow the chunking option (a size of zero is refused), and trailing bytes that do not form a record are ignored.",
  ["inputs", "configurations"], "every byte input x scheme x configuration x chunking option",
  "Unit tests check one header; agreement over all chunks, configurations and sizes is a relation over the whole file.",
  [ENC, "ebi/src/format.rs", "ebi/src/format/native.rs", "ebi/src/format/serialize.rs", "ebi/src/format/deserialize.rs", DEC],
  [("header, chunk footers, file footer", "ebi/src/format"), ("chunk cutting", ENC)],
  ["Decoder::header", "Decoder::footer", "Decoder::chunk_footers", "FileFormat layout"],
  "generated files against a layout model",
  "Random exploration.")

p("C10", "Bits are read back exactly as written, for every history of operations",
  "For every history of bit and byte writes with arbitrary widths, cursor moves and clears, the produced bytes are those of a plain list of bits written most significant first, and every history of reads, skips and byte reads over any bytes returns the bits at the cursor, moves the cursor by exactly what was asked, and fails without a panic when it asks for more than there is.",
  ["histories", "inputs"], "every sequence of writer operations and every sequence of reader operations over every buffer, widths 0..64 and beyond",
  "The doctests run a dozen fixed calls from fresh cursors; correctness depends on the cursor's bit offset and the words left, which only histories reach.",
  ["ebi/src/io/bit_read.rs", "ebi/src/io/bit_write.rs", "ebi/src/io/as_bytes_mut.rs"],
  [("shift-and-mask over a byte cursor", "ebi/src/io/bit_read.rs, bit_write.rs")],
  ["ebi::io::bit_read", "ebi::io::bit_write"],
  "model-based histories against a list of bits",
  "Random exploration of histories; forward moves of the write cursor past the end are modelled as the code documents them.")

p("C11", "Results do not depend on the queries made before",
  "On one open file or one chunk's reader, every operation gives the result it gives on a fresh one, whatever sequence of scans, partial iterations, decompressions, filters and aggregates came before; iterating, decompressing and scanning agree.",
  ["histories", "inputs"], "every sequence of operations on one decoder or chunk reader, every scheme",
  "Tests open a fresh reader for each query; readers cache decompressed data and cursors, so only sequences can show stale state.",
  [CR, DEC, "ebi/src/decoder/chunk_reader/"],
  [("decompression caches and cursors", "ebi/src/decoder/chunk_reader/*"), ("stream repositioning per chunk", DEC)],
  ["Decoder methods", "GeneralChunkReader methods"],
  "stateful model-based histories",
  "Random exploration of histories of up to ~20 operations.")

p("C12", "Compression is deterministic and a compressor can be reused",
  "Compressing the same values with the same configuration always yields the same bytes, also on a compressor that was used, reset, copied or abandoned before, and the same bytes the encoder stores; its counters report exactly the bytes fed in and put out.",
  ["histories", "inputs"], "every history of compress, reset, clone and abandon on one compressor x every scheme",
  "Each test builds a fresh compressor.",
  ["ebi/src/compressor.rs", "ebi/src/compressor/"],
  [("reset and state carried between chunks", "ebi/src/compressor/*")],
  ["GenericCompressor", "Encoder"],
  "stateful histories against a fresh object",
  "Random exploration of histories of up to 6 rounds.")

p("C13", "Results do not depend on how streams transfer their bytes",
  "Whatever number of bytes each read and write call transfers, and wherever calls are interrupted and must be retried, the encoder writes the same file and the decoder returns the same results as from memory; this holds for plain streams, buffers and files.",
  ["schedules", "inputs"], "every transfer pattern of every input and output stream x every file",
  "Tests use in-memory cursors, which transfer everything at once.",
  [ENC, DEC, "ebi/src/api/encoder.rs", "ebi/src/api/decoder.rs", CR],
  [("full reads and writes, retry on interruption", "ebi/src/encoder.rs, ebi/src/decoder.rs")],
  ["Encoder", "Decoder"],
  "generated transfer schedules against in-memory runs (metamorphic)",
  "Random exploration; streams obey the standard contracts.")

p("C14", "Reduced-precision reads are within the requested precision",
  "For every file of the fixed-point scheme and every requested number of decimals, a reduced-precision read returns the same records as a full read, each within half a unit of the requested decimal place (one unit for zero decimals) of the original; other schemes return full values, and changing the precision back and forth gives the same as asking afresh.",
  ["inputs", "configurations", "histories"], "every file x every precision x every mask x every sequence of precision changes",
  "There is one example test; the number of sub-columns read depends on range, scale and precision.",
  ["ebi/src/decoder/chunk_reader/buff/controlled_precision.rs", "ebi/src/decoder/chunk_reader/buff/decode.rs", DEC],
  [("sub-column cut-off", "ebi/src/decoder/chunk_reader/buff/controlled_precision.rs")],
  ["Decoder::with_controlled_precision and the queries on it"],
  "generated reads with an arithmetic error bound",
  "Random exploration; 0..12 decimals.")

p("C15", "Files stay readable across versions of the library",
  "A file written by the released library is decoded by the current one to the same values, record and chunk counts and configuration, and a file written by the current library is decoded by the released one likewise.",
  ["inputs", "configurations"], "every input x scheme x configuration x chunking",
  "Every existing test writes and reads with the same build, so a change made to both sides goes unnoticed.",
  ["ebi/src/format", "ebi/src/compressor/", "ebi/src/decoder/chunk_reader/", "ebi/src/io"],
  [("stable byte layout", "ebi/src/format, ebi/src/compressor/*")],
  ["Encoder", "Decoder"],
  "differential testing against a frozen copy of the library",
  "The frozen copy is the current release with the repairs of this work (reference/ebi-ref/COMMIT).")

p("C16", "Decimal digit analysis agrees with the value's decimal notation",
  "For every double that is the nearest one to a decimal of at most 15 significant digits, the analysis reports the number of decimal places and significant digits of that decimal (or gives up), whatever it analysed before; erasing the bits it calls redundant and rounding up again restores the double.",
  ["inputs", "histories"], "every short decimal of every sign and magnitude x every cached state",
  "No test looks at the analysis; a wrong digit count shows only as a lossy or larger encoding of particular decimals.",
  ["ebi/src/compression_common/elf.rs", "ebi/src/compressor/elf.rs"],
  [("digit search and lookup tables", "ebi/src/compression_common/elf.rs")],
  ["ebi::compression_common::elf"],
  "generated decimals against their decimal strings and exact integer arithmetic",
  "Random exploration; at most 18 decimal places.")

p("C17", "Damaged, incomplete and foreign files are refused with an error",
  "Opening a file that was cut off anywhere, whose encoding was not finished, or whose header or footer names an unknown magic number, type, scheme, chunk option or impossible position is reported as an error, without a panic, an endless loop or an absurd allocation.",
  ["fault_sequences", "inputs"], "every file x every cut position and every structural damage listed",
  "No test opens a broken file.",
  [DEC, "ebi/src/format/deserialize.rs", "ebi/src/format/native.rs", "ebi/src/decoder/error.rs"],
  [("checked conversion of header and footer", "ebi/src/format, ebi/src/decoder.rs")],
  ["Decoder::new"],
  "generated damage against an expected-refusal oracle",
  "Damage inside chunk data is not claimed: the format has no checksum.")

p("C18", "Appending and rewinding keep exactly the records that were kept",
  "After every history of appends, rewinds, fresh compressions and resets on a compressor that supports them, its output decodes to exactly the records that were appended and not rewound, and its counters agree; a rewind beyond what is there is refused and changes nothing.",
  ["histories", "inputs"], "every history of append, rewind, compress, reset and close x every run structure",
  "The tests append and rewind once or twice with short runs; run splitting at the length limit and rewinding across runs need histories.",
  ["ebi/src/compressor/run_length.rs", "ebi/src/compressor/uncompressed.rs", "ebi/src/compressor.rs", "ebi/src/format/run_length.rs"],
  [("run bookkeeping", "ebi/src/compressor/run_length.rs")],
  ["AppendableCompressor", "RewindableCompressor"],
  "stateful model-based histories against a list of records",
  "Random exploration of histories of up to 14 steps.")

p("C19", "Bit packing and fixed-point conversion are exact",
  "For every history of packing fields of 1 to 32 bits, bytes and byte runs, unpacking the same widths (or skipping them) returns the packed fields, a full buffer or an exhausted input is reported, and the bytes are those of a plain list of bits; converting a double to fixed point yields exactly its scaled value truncated toward zero, for every supported precision.",
  ["histories", "inputs"], "every history of pack/unpack/skip calls x every double in range x every precision",
  "Only files that happen to use a width are tested; several operations and offsets are not reached by any test.",
  ["ebi/src/compression_common/buff.rs"],
  [("bit packer", "ebi/src/compression_common/buff.rs"), ("precision tables", "ebi/src/compression_common/buff.rs")],
  ["compression_common::buff", "BUFF files"],
  "model-based histories against a list of bits; exact arithmetic",
  "Random exploration; whole bytes at byte boundaries only.")

p("C20", "Compression is as effective as in the released version",
  "For every input and configuration, the encoded file is not noticeably larger than the one the released library writes for the same input.",
  ["inputs", "configurations"], "every input x scheme x configuration x chunking",
  "No test looks at sizes; a scheme that stops exploiting redundancy still round-trips.",
  ["ebi/src/compressor/", "ebi/src/compression_common/"],
  [("each scheme's choice of codes", "ebi/src/compressor/*")],
  ["Encoder output size"],
  "differential testing of sizes against a frozen copy of the library",
  "Threshold: 0.5 % plus 4 bytes per chunk above the frozen copy.")

p("C21", "I/O failures surface as errors and never leave a wrong file or wrong results",
  "When any one read, write, seek or flush fails while encoding or querying, the operation that met it reports an error and does not panic; what a failed encoding leaves behind is refused when opened or holds every record. After a failed query the same open file answers the repeated query correctly.",
  ["fault_sequences", "crash_points", "inputs"], "every call on every stream as the failing one, once or permanently x every file and query",
  "Tests use in-memory buffers, which never fail.",
  [ENC, DEC, CR, "ebi/src/encoder/error.rs", "ebi/src/decoder/error.rs"],
  [("error propagation", "ebi/src/encoder.rs, ebi/src/decoder.rs"), ("footer offset written last", ENC)],
  ["Encoder::encode", "Decoder::new", "Decoder queries"],
  "fault injection at a generated call, oracle over outcome and remains",
  "A failing call transfers nothing; writes of at most 64 bytes are atomic.")

extra = os.path.join(V, "tools", "more_properties.py")
if os.path.exists(extra):
    exec(open(extra).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q, _, _ in P:
        f.write(json.dumps(q) + "\n")
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [{"property": q["id"], "quick_cmd": "./check.sh " + q["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + q["id"],
                 "technique": "property-based testing: " + t, "level": "exploration", "level_note": n} for q, t, n in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: every check uses public items (C19 includes one source file of /repo by path; C22-C28 build the programs of /repo and run them in a scratch directory). KNOWN_FINDINGS.txt lists the repaired defects and one open finding (C25). reference/ebi-ref is a frozen copy of the library used as oracle by C15 and C20."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")

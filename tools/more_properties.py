# The command-line programs around the library (exec'd by gen_properties.py).
EL = "experimenter/src/lib.rs"; EM = "experimenter/src/main.rs"

p("C22", "csv2bin turns text into exactly its numbers or leaves no output",
  "For every directory of comma-separated text files, csv2bin writes for each well-formed file a binary file holding exactly its numbers, correctly rounded, in order, as 64-bit little-endian doubles, replacing any older output; empty fields, blanks around fields, blank lines and CRLF do not matter. A file with a field that is not a number, or whose output cannot be written completely, is reported and leaves no output file; the other files and all inputs are unaffected.",
  ["inputs", "fault_sequences"], "every set of text files x every spelling of a number x older outputs x file size limits",
  "The program has no tests; number spellings, layouts and failing writes are unbounded.",
  ["tools/src/csv2bin.rs"],
  [("parsing and writing", "tools/src/csv2bin.rs")],
  ["csv2bin program: files under binary/"],
  "generated text files through the real program, exact parse as oracle, injected write limits",
  "The program is built from /repo and run in a scratch directory.")

p("C23", "The decimal precision and scale of a dataset are those of its text",
  "For every delimited text of decimal literals, the precision detected is the largest number of decimals written (digits after the point, shifted by an exponent of either case) when the exact one is asked for, and otherwise the largest number of decimals that at least one field in a hundred has or exceeds; the scale is ten to that power; and the compressor configurations created for the dataset carry that scale for the bounded-precision methods, so that data of that precision survives compression with them.",
  ["inputs", "configurations"], "every text of numbers x separator x layout x exact or tolerant detection",
  "The doc tests use four texts; ties at the threshold, exponents and layouts are unbounded.",
  [EL, EM],
  [("decimals of a literal", EL), ("threshold over the histogram", EL), ("default configurations", EM)],
  ["get_decimal_precision", "get_appropriate_precision", "get_appropriate_scale", "create-default-compressor-config"],
  "generated texts against a counting oracle",
  "Random exploration; part of the cases go through the program and a compression round trip.")

p("C24", "TPC-H queries over compressed columns give the answers of the query",
  "For every line-item table stored as Parquet, and every compression method, the grouped averages, sums and counts of query 1, its simplified form and the revenue of query 6, computed on the compressed columns, are those of the query over the plain rows, in the order the query lists them, up to rounding; every query run is reported with its name and its time, and the total is their sum.",
  ["inputs", "configurations"], "every table x compression method x number of rows and row groups",
  "No test runs the queries; they combine filters, masks and expressions over several columns with dates and groups.",
  ["experimenter/src/tpch.rs", "ebi/src/api/decoder.rs"],
  [("query plans over compressed columns", "experimenter/src/tpch.rs")],
  ["tpch::tpch_command results"],
  "generated tables against a row interpreter",
  "Random exploration; results compared within rounding bounds.")

p("C25", "The experiment commands report and write what the data says",
  "For every dataset, compression configuration and command (compress, filter, filter-materialize, materialize, max, sum, create-filter-config) with any predicate, mask and chunk, in memory or through files, the result reported and the file written are those of the same operation on the plain values; each run adds exactly one result file under the next free number and changes neither earlier results, nor the dataset, nor the compressed file; a command whose result or output cannot be written completely is not reported as finished.",
  ["inputs", "configurations", "histories", "fault_sequences"], "every dataset x configuration x command x in-memory flag x file size limit",
  "The program has no tests; its configuration files, result numbering and modes combine freely.",
  [EM, EL],
  [("commands", EM), ("configuration and result files", EL)],
  ["experimenter program: result/*.json, *.ebi, *.materialized, *.filter_materialized"],
  "generated command histories through the real program against a reference evaluator",
  "Constants that JSON does not give back exactly are avoided (known finding).")

p("C26", "The full experiment measures exactly what was asked, and patching only that",
  "For every set of datasets, methods and filters, `all` yields a result for exactly those datasets and methods with exactly the requested number of runs of every experiment, each agreeing with the data it was measured on (a bounded-precision method that cannot hold a dataset is left empty); `all-patch` on such a result replaces exactly the named datasets and methods with fresh runs, adds new ones, and keeps every other result and its input file as they were.",
  ["inputs", "configurations", "histories"], "every set of datasets and configurations x history of measuring and patching",
  "The program has no tests; stale, doubled or missing runs show only over histories of results.",
  [EM, EL],
  [("measuring and patching", EM), ("result tables", EL)],
  ["experimenter all, all-patch: result/all/*.json, result/all_patch/*.json"],
  "generated histories of runs through the real program against a model of the result table",
  "Random exploration of up to two patches after a run.")

p("C27", "collect-stats reports the statistics of the numbers in each file",
  "For every set of text files, the statistics written are, for exactly the well-formed files, the count, the extremes, averages and deviations of the values, of their written decimals and of their binary exponents, the average leading and trailing zero bits of consecutive XORs, and the share of repeated values, however many numbers a file has.",
  ["inputs"], "every set of text files of numbers other than NaN",
  "The program has no tests; overflow, single values and layouts need generated files.",
  ["tools/src/collect-stats.rs"],
  [("statistics", "tools/src/collect-stats.rs")],
  ["collect-stats program: stats.json"],
  "generated text files through the real program against recomputed statistics",
  "Averages and deviations within rounding.")

p("C28", "Classification and embedding experiments report the true accuracy and sizes",
  "For every collection of labelled series, `ucr2018` reports for each method that can hold the data the share of test series whose nearest training series has their label (also at the reduced precisions, within their error), with the dataset's detected scale, its stored size and the stored values; `embedding` reports for each dataset and method able to hold it the sizes and the decompressed data of every run.",
  ["inputs", "configurations"], "every collection of series x labels x decimals; every set of binary datasets x precision file",
  "The program has no tests; scales, rounding, ties and reduced precision need generated collections.",
  [EM, EL, "ebi/src/api/decoder.rs"],
  [("series parsing and rounding", EM), ("nearest neighbour on compressed data", "ebi/src/api/decoder.rs")],
  ["experimenter ucr2018, embedding: result files"],
  "generated collections through the real program against brute force",
  "Ties and values within the scheme's error may go either way.")

p("C29", "Size does not matter: long chunks and files beyond 4 GiB",
  "Records, selections, filters, extremes and sums of a chunk of millions of records, and of a file beyond 4 GiB, are those the same values give in small chunks and files: no counter, run, bit position or byte position that the format stores or the code keeps is too narrow, up to 2^32 records and the default chunk of 2^24 records.",
  ["inputs", "configurations"], "every scheme x number of records up to 17 million per chunk x order of values; plain files just beyond 4 GiB; chunks just beyond 2^32 bits",
  "The existing tests stay below a few thousand records; overflow of counters and positions shows only beyond 2^16, 2^24 or 2^32.",
  ["ebi/src/encoder.rs", "ebi/src/decoder.rs", "ebi/src/api/decoder.rs", "ebi/src/compressor", "ebi/src/decoder/chunk_reader"],
  [("counts and positions in the footer", "ebi/src/encoder.rs"), ("positions when reading", "ebi/src/decoder.rs"), ("run lengths", "ebi/src/compressor/run_length.rs")],
  ["Encoder::encode", "Decoder::{materialize, filter, sum, min, max}"],
  "generated long sequences over small pools; metamorphic relation to a small file, sparse in-memory files for the large ones",
  "Files beyond 4 GiB only for the plain scheme, chunks beyond 2^32 bits only for the XOR schemes; fewer than 2^32 records.")

p("C30", "Reported times are the time spent",
  "The time an encoded file records for its encoding, and its parts (reading, writing, computing phases), and the times reported after every query or aggregate, cover all the time its input and, for record data, its output took, and together never exceed the time that operation really took; they are those of that operation alone (a caller's own timer accumulates). Stop watches add, replace, store and restore exactly.",
  ["inputs", "configurations", "histories"], "every scheme x query x duration of every read and write call; every history of measurements",
  "The tests discard the times; the experiments this library exists for report them.",
  ["ebi/src/time.rs", "ebi/src/api/encoder.rs", "ebi/src/encoder.rs", "ebi/src/api/decoder.rs", "ebi/src/decoder"],
  [("stop watches", "ebi/src/time.rs"), ("accounting of queries", "ebi/src/api/decoder.rs"), ("accounting of encoding", "ebi/src/encoder.rs")],
  ["Decoder::segmented_execution_times", "footer().{segmented_execution_times, compression_elapsed_time}", "Aggregation::{compute, compute_multiple}"],
  "injected delays as lower bounds and the time measured outside as upper bound; model of durations for stop watches",
  "How time is divided among the computing phases is not claimed; opening a file and flushing are not counted.")

p("C31", "Configuration and result documents keep their meaning",
  "Every configuration document in the released JSON format is read as exactly what it states (scheme and parameters, chunking, predicate, chunk, mask; an absent optional field means none), and encodes to the same bytes as the configuration built directly; every result document of any command is read completely, and reading and writing either kind again gives the same document, field for field; documents that lack a required field or name an unknown scheme are refused. Saving never replaces a document, and the tables drawn from a full experiment (data sets, methods, transposition, average ratio and throughput) are those of its entries.",
  ["inputs", "configurations"], "every configuration and result document x spelling (pretty, compact) x missing fields; every table of data sets x methods x runs",
  "No test reads a document; the experiments hand configurations and results from one command to the next, and to later versions, only as documents.",
  [EL, "ebi/src/compressor.rs", "ebi/src/encoder.rs", "ebi/src/decoder/query.rs", "ebi/src/time.rs", "experimenter/src/tpch.rs"],
  [("result and configuration types, tables", EL), ("scheme configurations", "ebi/src/compressor.rs"), ("predicates", "ebi/src/decoder/query.rs"), ("recorded times", "ebi/src/time.rs")],
  ["serde_json of the public types", "experimenter::{save_json_safely, AllOutput}"],
  "documents from an independent writer with the meaning they were made from; round trip; model of the tables",
  "Numbers of at most 15 digits and times below 2^64 ns; throughput with as many reading as compressing runs.")

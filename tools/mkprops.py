#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})

V1, V2, BL = "poppy/src/bloom/v1.rs", "poppy/src/bloom/v2.rs", "poppy/src/bloom.rs"
HA, FNV, WY = "poppy/src/hash.rs", "poppy/src/hash/fnv.rs", "poppy/src/hash/wyhash.rs"
BA, BV, UT, BU = "poppy/src/bitset/array.rs", "poppy/src/bitset/vec.rs", "poppy/src/utils.rs", "poppy/src/bloom/utils.rs"
CLI, PY = "poppy/src/bin/poppy.rs", "python/src/lib.rs"

prop("C01", "No false negatives",
 "Every entry whose insertion into a filter was reported successful is reported as contained by that filter from then on, until the filter is cleared or intersected. This holds in both formats, at every capacity, probability and optimisation level, and through any later insertions (refused ones included), unions in either direction, copies, saves and reloads.",
 ["inputs", "histories", "configurations"],
 "for every filter configuration, every byte string, and every history of create/insert/union/clone/save/load operations",
 "The tests insert a handful of words into one or two configurations; they cannot range over histories, entry lengths, bucket counts, cache configurations, or degenerate sizes where a successful insertion leaves nothing behind.",
 [V1, V2, BL, BA, BV, HA],
 [("same index walk for insert and contains", V1 + ":Fingerprint, " + V2 + ":IndexIterator"), ("bits are only ever set by insert/union", V2 + ":insert_iter, union_merge"), ("lookup cache updated on every accepted insertion", V2 + ":insert_iter")],
 ["BloomFilter::insert_bytes / contains_bytes", "v1/v2 insert, contains", "union_merge", "write/from_reader", "poppy insert/check"],
 [("buckets/bitset", "set bits", V1 + ", " + V2), ("index_cache", "lookup cache bits", V2)])
prop("C02", "Insertion result and element count agree with what happened",
 "An insertion reports 'new' only for an entry that the filter did not report as contained before, and, in filters without lookup cache, for every accepted one of those. The element count is zero for a fresh or cleared filter, grows by exactly one with each insertion reported 'new', and is changed by no other insertion and no query.",
 ["inputs", "histories", "configurations"],
 "for every configuration, entry (colliding and duplicate entries included) and history of operations",
 "Existing tests look at the count after one or two insertions of distinct words; collisions, duplicates, insertion at capacity and counting after unions or reloads are not sampled.",
 [V1, V2, BL],
 [("new-bit detection and count increment", V1 + ":insert_bytes, " + V2 + ":insert_iter")],
 ["insert result", "count_estimate()", "contains"],
 [("count", "estimated number of entries", V1 + ", " + V2)])
prop("C03", "Capacity is enforced",
 "Once the element count has reached capacity (or passed it through a union) the filter reports itself full and every insertion that would add information is refused with the too-many-entries error, while entries already contained are still accepted. While the count is below capacity no insertion is refused, and a filter that has no capacity or no storage accepts no entry and contains none.",
 ["inputs", "histories", "configurations"],
 "for every configuration, capacity (zero included) and history, in particular unions that overshoot the capacity and reloads of full filters",
 "One test fills a 5-entry DCSO filter and one a 10-entry Poppy filter; no test inserts after a union overshoots, inserts duplicates when full, or uses the optimised layouts at capacity.",
 [V1, V2, BL, CLI],
 [("capacity test before setting a new bit", V1 + ":insert_bytes, " + V2 + ":insert_iter"), ("is_full", V1 + ", " + V2)],
 ["insert result / error kind", "is_full()", "count_estimate()", "capacity()"],
 [("capacity", "maximum number of entries", V1 + ", " + V2), ("count", "estimated number of entries", V1 + ", " + V2)])
prop("C04", "Refused operations and queries change nothing",
 "An operation that returns an error leaves every filter involved bit for bit as it was, whatever part of it had already been carried out. Queries, comparisons, copies and saves never change a filter, and the second operand of a union, intersection or comparison is never changed.",
 ["inputs", "histories", "fault_sequences"],
 "for every operation that can be refused (insertion when full, merge or comparison of incompatible filters, unprepared hash, failing writer) at every reachable state, including insertions that collide with the filter in all but the last of their bits",
 "Tests only assert that an error is returned; none compares the filter before and after, and partial application needs colliding entries that tests do not construct.",
 [V1, V2, BL],
 [("check-before-set in the insertion loop", V1 + ":insert_bytes, " + V2 + ":insert_iter"), ("parameter check before merging", BL + ":union_merge, " + V2 + ":has_same_params")],
 ["serialised image before/after", "contains over a pool of entries before/after"])
prop("C05", "Union is exact",
 "The union of two filters with the same parameters holds exactly the bits set in either, so it contains everything either contained; doing it in the other order, again, or with the filter itself gives the same contents. A union is refused exactly when format, capacity, probability or layout differ.",
 ["inputs", "histories", "configurations"],
 "for every pair of filters reachable by any history, including full, empty, saturated, reloaded and cache-equipped ones",
 "The tests union two two-word filters of one configuration; bit-exactness, caches, several buckets, saturated filters and order independence are not observed.",
 [V1, V2, BL, BA, BV],
 [("bitwise or of buckets and cache", V1 + ":union_merge, " + V2 + ":union_merge, " + BA + ":union, " + BV + ":union"), ("parameter comparison", "has_same_params")],
 ["serialised image of both operands and of the result", "contains"])
prop("C06", "Intersection is exact",
 "The intersection of two filters with the same parameters holds exactly the bits set in both, so it contains precisely the entries that both operands contained (false positives included), and in particular every entry inserted into both. An intersection is refused exactly when the parameters differ.",
 ["inputs", "histories", "configurations"],
 "for every pair of Poppy-format filters reachable by any history, with and without lookup cache, several buckets, and intersections of unions and reloads",
 "One test intersects two five-word filters of one configuration without cache and looks at two words.",
 [V2, BA, BV],
 [("bitwise and of buckets and cache", V2 + ":intersection_merge, " + BA + ":intersection, " + BV + ":intersection")],
 ["serialised image", "contains"])
prop("C07", "A cleared filter is as good as new",
 "Clearing a filter leaves it indistinguishable, in behaviour and when saved, from a newly created filter with the same parameters (attached data aside): it contains nothing, counts zero, is not full, and accepts up to its capacity again with its stated false positive probability.",
 ["histories", "configurations"],
 "for every configuration and every history before the clear and after it (union, save/load, refill to capacity)",
 "One test clears a two-word DCSO filter; the Poppy format and its lookup cache are never cleared in a test.",
 [V1, V2, BL, BA, BV],
 [("clear", V1 + ":clear, " + V2 + ":clear")],
 ["serialised image compared with a fresh filter's", "contains", "count_estimate", "is_full"])
prop("C08", "Saving and loading preserves the filter",
 "Loading what was saved gives a filter with the same format, parameters, count, size, attached data and set bits, which answers every query alike, takes part in unions alike, and saves again to the same bytes; the metadata-only load reports the same metadata and data. None of this depends on how the reader or writer splits the bytes.",
 ["inputs", "histories", "configurations"],
 "for every filter reachable by any history, every attached data blob, both the generic and the format-specific loaders, and every chunking of reads and writes",
 "The tests round-trip one small filter per format through an in-memory buffer and ask four words; counts, caches, several buckets, large data blobs, short reads/writes and partial loads of other layouts are not covered.",
 [V1, V2, BL, UT],
 [("write", V1 + ":write, " + V2 + ":write"), ("from_reader_with_flags", V1 + ", " + V2), ("partial load seeks over bits", V1 + ", " + V2)],
 ["write / from_reader / partial_from_reader through chunking readers and writers"])
prop("C09", "On-disk format and bit positions are fixed",
 "The bytes saved for a filter are a fixed function of its format, parameters, attached data and the entries inserted: little-endian header fields, bit arrays in a fixed order, and bit positions determined by the published hash of each entry. Hence files are interchangeable between builds and, for the DCSO format, with DCSO's tools.",
 ["inputs", "histories", "configurations"],
 "for every entry length and content and every configuration",
 "A few hash values, one DCSO fingerprint and one DCSO file are checked; other entry lengths (wyhash has different code per length class), bucket selection, caches, hash counts and layouts could change while a round trip in one build still works.",
 [V1, V2, BL, HA, FNV, WY, BU, BA, BV],
 [("FNV-1 walk", V1 + ":Fingerprint"), ("wyhash double hashing, xorshift bucket choice", V2 + ":IndexIterator"), ("sizing formulas", BU), ("serialisation", V1 + ":write, " + V2 + ":write")],
 ["bytes of write", "bytes of files made by the command line tool"])
prop("C10", "Damaged or foreign input is refused, not trusted",
 "Loading a filter from any byte string ends in success or in an error, never in a panic, abort or runaway allocation. A file of unknown format version or optimisation level, a Poppy-format file with an impossible probability, and, when the bits are loaded, a file that ends before the bits its header announces are always refused, while a complete well-formed file is always accepted.",
 ["inputs", "fault_sequences"],
 "for every truncation point of every kind of file and every corruption of its header fields",
 "No test feeds a truncated or corrupt file.",
 [V1, V2, BL, UT, BV],
 [("read_exact on every field", UT + ", " + V1 + ", " + V2), ("version / opt-level / fpp checks", BL + ":from_reader, Flags::from_bytes, " + V2 + ":from_reader_with_flags")],
 ["from_reader, partial_from_reader, v1/v2::from_reader", "poppy check/show on damaged files"])
prop("C11", "I/O failures are reported, not swallowed",
 "If saving a filter reports success then every byte of it has been handed to the writer, in order; if the writer fails at any point, saving reports an error. If the reader fails at any point while loading, loading reports an error; interrupted and partial reads and writes are retried and do no harm.",
 ["fault_sequences", "crash_points"],
 "for every byte offset at which the writer or reader fails, every short read/write pattern, and every layout",
 "No test injects an I/O error; with buffered writers the last failing flush is invisible unless looked for.",
 [V1, V2, BL, CLI],
 [("write_all / read_exact error propagation", V1 + ":write, " + V2 + ":write"), ("flush of the buffered writer", V1 + ":write, " + V2 + ":write")],
 ["write/from_reader with a fault-injecting Write/Read", "poppy create/insert on a size-limited file"])
prop("C12", "The promised false positive probability is kept",
 "A Poppy-format filter holding no more distinct entries than its capacity reports entries that were never inserted as contained at a rate no higher than its stated false positive probability (within the tool's own 20% tolerance and sampling error), at every optimisation level, also after clear and refill, union of parts, or save and reload.",
 ["inputs", "configurations"],
 "for every capacity and probability; over hashed entries (longer than 8 bytes), the regime of the hashes the tool is made for",
 "The test that measures the rate does nothing in a debug build, lacks its data, and covers one probability and the unoptimised layout only.",
 [V2, BU, HA, WY],
 [("bucket count and hash count", V2 + ":make, " + BU), ("double hashing", V2 + ":IndexIterator")],
 ["contains over never-inserted entries of a filter filled to capacity"])
prop("C13", "Creation honours and validates its parameters",
 "A filter is created exactly when the format version is known, the probability is in ]0;1] and (where given) the optimisation level is valid; it then reports the requested version, capacity and probability and starts empty. Its reported size is the number of bytes its bits take when saved, also for metadata-only loads.",
 ["inputs", "configurations"],
 "for every version byte, capacity, floating point probability (NaN, infinities, subnormals, negative values included) and optimisation level, through every constructor",
 "Constructors are tested with a few sensible parameters only and sizes are never compared with anything.",
 [V1, V2, BL, BU, PY, CLI],
 [("fpp range check", V1 + ":with_capacity, " + V2 + ":make"), ("version dispatch", BL + ":with_version_capacity_opt"), ("size_in_bytes", V1 + ", " + V2)],
 ["constructors, Params, getters, size_in_bytes", "length of write output"])
prop("C14", "Command line insertion is complete and independent of the number of jobs",
 "After a successful `create` from a dataset or `insert`, the saved filter holds exactly what it held before plus every line of every given file and of stdin when read, whatever the number of jobs, files, lines or their distribution; a filter created from a dataset has the number of lines as capacity. If any input cannot be read the command fails, and so it does for a dataset that cannot be read twice.",
 ["schedules", "inputs", "configurations"],
 "for every number of jobs (0 and more jobs than files included), every partition of lines into files, every thread schedule, both formats and all layouts",
 "The command line tool has no tests at all; batching arithmetic and the merge of per-thread copies are not exercised.",
 [CLI, V1, V2],
 [("batching of files over threads, clone per batch, union of results", CLI + ":parallel_insert"), ("parallel line count", CLI + ":count_lines_parallel")],
 ["exit status and bytes of the filter file"])
prop("C15", "Command line check prints exactly the right lines",
 "`check` prints each input line (from stdin and/or all given files) that the filter contains, as often as it occurs and unaltered, and no other line; with --verify it prints instead exactly the lines not contained, marked NOK; with --silent it prints nothing. The set of printed lines is independent of the number of jobs, 0 (automatic) included. If lines cannot be printed the command fails.",
 ["schedules", "inputs", "configurations"],
 "for every number of jobs, files and lines, and every thread schedule",
 "No tests of the command line tool.",
 [CLI],
 [("check loops, batching over threads sharing a read lock", CLI + ":main (Check)")],
 ["stdout and exit status of poppy check"])
prop("C16", "A failing or read-only command does not damage files",
 "`create` never overwrites an existing file that is not a valid filter. A `create` or `insert` that fails leaves the target file as it was, and `check`, `show` and `bench` never modify any file; input files are never modified.",
 ["fault_sequences", "inputs", "histories"],
 "for every kind of failure (missing or unreadable input in any position, input that is not text, full filter, bad parameters, invalid target) and every pre-existing target",
 "No tests of the command line tool.",
 [CLI],
 [("validity check of the existing target before creating", CLI + ":main (Create)"), ("file is opened for writing only after all work succeeded", CLI + ":main (Create, Insert)")],
 ["bytes of every file before and after a command, exit status"])
prop("C17", "The Python bindings behave exactly like the library",
 "Any sequence of operations carried out through the Python module gives the same results, errors (as ValueError, or OSError for files), counts and saved bytes as the same sequence through the Rust library, and filters saved by one load in the other with the same contents.",
 ["histories", "inputs", "configurations"],
 "for every history of operations and every version/capacity/probability/optimisation level",
 "The bindings have no tests; they are only compiled.",
 [PY, BL],
 [("thin wrappers", PY)],
 ["return values, exceptions, dumps()/save() bytes of the Python module"])
prop("C18", "Bit sets behave as sets of indices",
 "For both bit set types, setting a bit makes it and only it a member, unsetting removes it and only it, both return whether it was a member before, and get, counts of ones and zeros, union, intersection, common count, clear and bytes written through the slice agree with the corresponding operations on sets of indices. An index beyond the capacity panics rather than touching anything.",
 ["inputs", "histories"],
 "for every sequence of operations and every index and size (sizes that are no multiple of 8 included)",
 "One test sets all bits of one array bit set; unset, counts and the set operations are never called by a test.",
 [BA, BV],
 [("mask arithmetic per byte", BA + ", " + BV)],
 ["public methods of bitset::array::BitSet and bitset::vec::VecBitSet"])
prop("C19", "Estimates are those of the bits",
 "The estimated number of common entries of two filters and the count after a union or intersection are the standard Bloom estimate of the number of set bits in common (respectively in the result), summed over buckets; they are zero exactly when the estimate is below one, symmetric in the operands, saturate instead of overflowing, the reported numbers of set and unset bits are exact, and comparison is refused exactly when the parameters differ.",
 ["inputs", "histories", "configurations"],
 "for every pair of filters reachable by any history, including disjoint, identical, nearly full and saturated ones",
 "Two tests look at one estimate each of a five-word filter.",
 [V1, V2, BL, BA, BV],
 [("estimate formula per bucket", V1 + ":update_count, count_common_entries, " + V2 + ":update_count, count_common_entries")],
 ["count_common_entries, count_estimate after union/intersection"])
prop("C20", "All ways to insert and query the same value agree",
 "Inserting or querying the same value as bytes, string, owned or borrowed, through the generic or the format-specific filter, in bulk or via a hash prepared in advance (used any number of times, on any filters) has the same effect and result. A typed value is found exactly by queries for the same value of the same type's hash, and a prepared hash that was never initialised is refused.",
 ["inputs", "histories"],
 "for every byte string length and content, every supported integer type, optional and user-defined hashable types",
 "Compatibility is tested with three strings.",
 [V2, HA, BL],
 [("PoppyHash impls", HA), ("prepared index iterator", V2 + ":build_index_iter, insert_iter, contains_iter")],
 ["serialised image after each way of inserting", "contains* results"])
prop("C21", "Command line show and bench tell the truth",
 "`show` prints the version, capacity, element count, probability, data length and size of the filter in the file. `bench` fails if the filter lacks any of the entries given or if its measured false positive rate exceeds the stated probability by more than the tolerance, and succeeds on a sound filter; what it prints of the entries, the filter, the conditions and the rates is what it used and found.",
 ["inputs", "configurations"],
 "for every filter file and every set of entries and size limit",
 "No tests of the command line tool.",
 [CLI, UT, BL],
 [("show_bf_properties on a partially loaded filter", CLI), ("membership pre-check and rate comparison", CLI + ":main (Bench)"), ("size formatting", UT + ":ByteSize")],
 ["stdout and exit status of poppy show / bench"])
prop("C22", "Command line options mean what is documented",
 "`create` without options makes a filter in Poppy format for 10000 entries with probability 0.01 and without optimisation, and `bench` without a file measures one in Poppy format with probability 0.001 on at most 100 MB. Every option, in any of its forms and positions, decides about its own parameter only; with a dataset the capacity is the number of its lines whatever was given. Wrong values and wrong use are refused and write no file, help is given without touching anything, and verbose output changes no result.",
 ["inputs", "configurations"],
 "for every subset of the options, every form and order of them, right and wrong values",
 "No tests of the command line tool.",
 [CLI, BL],
 [("clap declarations with their defaults", CLI + ":Args, Create, Benchmark"), ("Params built from the options", CLI + ":main (Create, Bench)")],
 ["header of the file created, exit status, files changed, what bench prints"])
prop("C23", "A DCSO filter describes itself correctly",
 "A DCSO filter reports the number of bits, of positions per entry and of words that it saves, lists exactly its bits, and estimates a false positive probability that is zero without entries, never more than one, and follows from the number of entries and bits; all of it stays the same when only the metadata is loaded.",
 ["histories", "inputs", "configurations"],
 "after every history of insertions up to capacity, unions beyond it, clearing and loading, for every capacity and probability",
 "No test calls these accessors.",
 [V1, "poppy/src/bloom/utils.rs"],
 [("accessors and bits()", V1 + ":n_bits, n_hash_fn, bits, size_in_u64, estimated_p"), ("formula of the estimate", "poppy/src/bloom/utils.rs:estimate_p")],
 ["public methods of v1::BloomFilter, compared with the saved bytes"])
prop("C24", "Sizes, counters and time measurement are right",
 "A size made from bytes, bits or megabytes keeps its number of bytes, is shown in the largest unit not above it rounded to one decimal, and sizes are ordered, equal and hashed by their bytes. Counters count every answer once and their false positive rate is that of the wrong among all answers for what is not contained. A measurement runs its function exactly as often as asked, and its result lies between the shortest run and the time of all.",
 ["inputs", "histories"],
 "for every size up to 2^64 bytes, every sequence of answers and every number of runs",
 "The module has no tests; other tests only print sizes and rates with it.",
 [UT],
 [("units by thresholds", UT + ":ByteSize"), ("counters as floating point numbers", UT + ":Stats"), ("outliers left out of the mean", UT + ":benchmark")],
 ["public functions of the module utils"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

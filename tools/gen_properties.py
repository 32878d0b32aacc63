#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays one valid JSON object per line)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

S = "include/surf.hpp"; D = "include/louds_dense.hpp"; L = "include/louds_sparse.hpp"; B = "include/surf_builder.hpp"
X = "include/suffix.hpp"; V = "include/bitvector.hpp"; R = "include/rank.hpp"; E = "include/select.hpp"; A = "include/label_vector.hpp"; C = "include/config.hpp"

ANYKEYS = "every sorted list of non-empty byte-string keys (any bytes including 0x00 and 0xFF, keys that are prefixes of other keys, repeated keys), every suffix configuration (none; hash 1-64 bits; real 1-64 bits; mixed with both parts >= 1 and sum <= 64) and every layout (dense part on or off, any sparse-dense ratio)"

add("C01", "Point lookups never miss a stored key",
    "A filter built from a sorted key list answers true to the point lookup of every key in that list. This holds for every suffix type and length and for every dense/sparse layout.",
    ["inputs", "configurations"], ANYKEYS,
    "The tests look up one English word list and one arithmetic progression of integers under the default layout and suffix lengths 1,3,7,8,13,26; no 0xFF/0x00 branch bytes, no single-key, all-dense or sparse-only tries, no suffix longer than 26 bits.",
    [S, D, L, B, X, A, V, R, E],
    [("trie walk through the dense levels, hand-over to the sparse levels", "include/louds_dense.hpp LoudsDense::lookupKey; include/louds_sparse.hpp LoudsSparse::lookupKey"),
     ("suffix stored at build time equals the suffix computed at query time", "include/suffix.hpp constructSuffix/read/checkEquality; include/surf_builder.hpp storeSuffix"),
     ("terminator label for keys that are prefixes of other keys", "include/surf_builder.hpp insertKeyBytesToTrieUntilUnique")],
    observe=["SuRF::lookupKey"])

add("C02", "Range lookups never miss a stored key",
    "Whenever at least one stored key lies in the queried interval (each end inclusive or exclusive as requested), the range lookup answers true. Neither bound needs to be stored, related to a stored key, or non-empty.",
    ["inputs", "configurations"], ANYKEYS + "; every pair of bound strings and every combination of inclusive/exclusive ends",
    "The tests query ranges between adjacent stored words and between integers of equal length; bounds that leave the trie inside a node, that are longer or shorter than the stored suffix, or that fall after 0xFF labels are never used.",
    [S, D, L, X, A],
    [("seek to the first candidate then compare it with the right bound", "include/surf.hpp SuRF::lookupRange"),
     ("suffix comparison that must stay conservative when bits are missing", "include/suffix.hpp BitvectorSuffix::compare"),
     ("search for the next greater label inside a node", "include/louds_sparse.hpp moveToLeftInNextSubtrie; include/label_vector.hpp searchGreaterThan")],
    observe=["SuRF::lookupRange"])

add("C03", "Point lookups reject whatever the stored information excludes",
    "A point lookup answers true for a string that is not stored only if the string continues the shortest prefix that tells some stored key apart from its neighbours (a stored key that is itself a prefix of another stored key matches only itself) and agrees with the real suffix bits kept for that key (no such bits are kept when the key is too short to supply them all, and all-zero bits count as none). With n hash bits the strings that pass this test but are not stored are accepted with frequency about 2^-n (n up to 25).",
    ["inputs", "configurations"], ANYKEYS + "; every query string, stored or not",
    "The tests only check that queries with an upper-case byte are rejected; they never check precision at suffix boundaries, in the sparse-only layout, for empty or truncated queries, nor the hash false-positive rate.",
    [S, D, L, B, X],
    [("label, child-indicator and prefix-key tests along the walk", "include/louds_dense.hpp lookupKey; include/louds_sparse.hpp lookupKey"),
     ("suffix equality check", "include/suffix.hpp BitvectorSuffix::checkEquality, constructHashSuffix"),
     ("dense-to-sparse hand-over", "include/surf.hpp SuRF::lookupKey")],
    observe=["SuRF::lookupKey"])

add("C04", "Range lookups reject ranges that cannot hold a stored key",
    "A range lookup answers false whenever the stored information about every key (distinguishing prefix plus available real suffix bits; the whole key if it is a prefix of another stored key) proves that key to lie outside the closed interval between the bounds.",
    ["inputs", "configurations"], ANYKEYS + "; every pair of bounds",
    "Only integer ranges with both bounds of the keys' own length are checked for false answers; for strings the tests only expect true.",
    [S, D, L, X],
    [("comparison of the landing position with the right bound", "include/surf.hpp SuRF::lookupRange, SuRF::Iter::compare; include/louds_dense.hpp Iter::compare; include/louds_sparse.hpp Iter::compare"),
     ("suffix comparison", "include/suffix.hpp BitvectorSuffix::compare")],
    observe=["SuRF::lookupRange"])

add("C05", "Scans visit every distinct key exactly once in order",
    "Starting at the first position and stepping forward, an iterator visits exactly one position per distinct stored key in ascending key order and then becomes invalid; starting at the last position and stepping backward it visits the same positions in reverse. A forward step followed by a backward step (or the reverse) returns to the same position, and stepping a copy of an iterator does not move the original.",
    ["inputs", "configurations", "histories"], ANYKEYS + "; every interleaving of forward and backward steps that stays inside the key sequence, from every starting position",
    "The tests step once from end to end over two fixed key sets in one direction at a time, accept any prefix of the expected key, and never mix directions or cross between dense and sparse leaves of hostile shape.",
    [S, D, L, A, V],
    [("two-level iterator increment/decrement", "include/surf.hpp SuRF::Iter::operator++/--; incrementDenseIter, decrementSparseIter"),
     ("next/previous set bit", "include/bitvector.hpp distanceToNextSetBit, distanceToPrevSetBit"),
     ("first/last positioning", "include/surf.hpp moveToFirst, moveToLast")],
    observe=["SuRF::moveToFirst", "SuRF::moveToLast", "SuRF::Iter::operator++", "SuRF::Iter::operator--", "SuRF::Iter::getKey"])

add("C06", "Forward seek lands on the successor and flags only real doubt",
    "Seeking to the first key greater than (or equal to, if inclusive) a query string lands on the position of that key, or is invalid if there is none; the only exception is a position whose stored prefix and suffix bits leave undecided whether it precedes the query, which is reported with the possible-false-positive flag set. An unflagged landing is exactly the successor, no landing is ever beyond the successor, and stepping on from any landing continues the ordered scan.",
    ["inputs", "configurations"], ANYKEYS + "; every query string and both inclusive settings",
    "The tests seek to stored words and to integers of the keys' own length only, and accept the flag without checking that it was justified.",
    [S, D, L, A, X],
    [("dense seek and hand-over to the sparse seek", "include/surf.hpp SuRF::moveToKeyGreaterThan; include/louds_dense.hpp moveToKeyGreaterThan; include/louds_sparse.hpp moveToKeyGreaterThan"),
     ("left-most descent", "include/louds_dense.hpp Iter::moveToLeftMostKey; include/louds_sparse.hpp Iter::moveToLeftMostKey")],
    observe=["SuRF::moveToKeyGreaterThan", "SuRF::Iter::getFpFlag", "SuRF::Iter::isValid", "SuRF::Iter::getKey"])

add("C07", "Backward seek lands on the predecessor and flags only real doubt",
    "Seeking to the last key less than (or equal to, if inclusive) a query string lands on the position of that key, or is invalid if there is none; the only exceptions are flagged as possible false positives and are positions whose stored information leaves undecided how they compare with the query, or the exactly matching key of an inclusive seek. An unflagged landing is exactly the predecessor, and stepping back from any landing continues the ordered scan.",
    ["inputs", "configurations"], ANYKEYS + "; every query string and both inclusive settings",
    "The tests seek below stored words and integers of equal length under one suffix type; queries beyond the last key, before the first key, on prefix keys or between suffix values are not covered.",
    [S, D, L, X],
    [("backward seek built on the forward seek", "include/surf.hpp SuRF::moveToKeyLessThan"),
     ("decrement", "include/surf.hpp SuRF::Iter::operator--; include/louds_dense.hpp Iter::operator--; include/louds_sparse.hpp Iter::operator--")],
    observe=["SuRF::moveToKeyLessThan", "SuRF::Iter::getFpFlag"])

add("C08", "Iterators report true key bytes, suffix bits and comparisons",
    "At a valid position an iterator reports exactly the shortest prefix of its key that tells the key apart from its neighbours (the whole key if it is a prefix of another stored key), and the suffix bits it reports, alone or appended to the prefix together with their odd-bit count, are the next real bits of that key, or none when the key cannot supply them all. Comparing the position with a string never contradicts the order of the stored key and that string, and says undecided only when the stored bits do not settle it.",
    ["inputs", "configurations"], ANYKEYS + "; every valid position and every comparison string",
    "The tests accept any prefix (even an empty one) of the expected key, use suffix lengths up to 26 and never call compare directly.",
    [S, D, L, X],
    [("key bytes collected during the walk", "include/louds_dense.hpp Iter::append/set/getKey; include/louds_sparse.hpp Iter::append/set/getKey"),
     ("suffix extraction", "include/suffix.hpp readReal, extractRealSuffix; Iter::getSuffix, Iter::getKeyWithSuffix"),
     ("ordering test", "SuRF::Iter::compare")],
    observe=["SuRF::Iter::getKey", "SuRF::Iter::getSuffix", "SuRF::Iter::getKeyWithSuffix", "SuRF::Iter::compare"])

add("C09", "Approximate counts never overcount and undercount by at most two",
    "The approximate count between two bounds with left <= right, given as strings or as iterators positioned on stored keys, never exceeds the number of distinct stored keys in the closed interval and falls short of it by at most two.",
    ["inputs", "configurations"], ANYKEYS + "; every ordered pair of bounds, stored or not, and every ordered pair of positions",
    "The tests count from five fixed starting indexes to stored keys for one suffix type and two ratios, and only through iterators.",
    [S, D, L, R, E],
    [("per-level leaf counting between two root-to-leaf paths", "include/louds_dense.hpp approxCount, extendPosList; include/louds_sparse.hpp approxCount, extendPosList, appendToPosList")],
    observe=["SuRF::approxCount"])

add("C10", "A restored filter answers exactly like the original",
    "Serializing a filter and deserializing the bytes, from any 8-byte-aligned copy of them and any number of times over, yields a filter that gives the original's answer to every lookup, range, seek, scan, count, size and height query, and that no longer depends on the bytes it was restored from.",
    ["inputs", "configurations", "histories"], ANYKEYS + "; every query; every repetition of serialize/deserialize and every 8-byte-aligned placement of the image",
    "The tests only repeat stored-key lookups after one round trip on one key set; seeks, scans, ranges and counts on a restored filter, and reads near the end of the restored buffers, are not observed.",
    [S, D, L, A, R, E, X],
    [("component-wise copy out and copy in", "serialize/deSerialize in surf.hpp, louds_dense.hpp, louds_sparse.hpp, label_vector.hpp, rank.hpp, select.hpp, suffix.hpp"),
     ("8-byte alignment of each component", "include/config.hpp align, sizeAlign")],
    observe=["SuRF::serialize", "SuRF::deSerialize"])

add("C11", "The serialized image is exact in size and fully determined",
    "Serializing writes exactly the announced number of bytes, and every byte is determined by the keys and the configuration alone: two filters built the same way, the same filter serialized twice or after any queries, and a restored filter all produce byte-identical images. Restoring reads nothing outside the image.",
    ["inputs", "configurations", "histories"], ANYKEYS + "; every history of queries before serializing",
    "No test compares images or checks the size against the bytes written (the only check is an assert compiled out of release builds); uninitialised padding cannot be seen by comparing answers.",
    [S, D, L, A, R, E, X, C],
    [("size computation mirrored by the writers", "serializedSize and serialize of each component"),
     ("padding between components", "include/config.hpp align, sizeAlign; include/surf.hpp serialize")],
    observe=["SuRF::serialize", "SuRF::serializedSize"])

add("C12", "In-contract use is free of memory errors and undefined behaviour",
    "Building, querying, iterating, counting, serializing, restoring and destroying a filter never reads or writes memory outside live objects, never executes undefined behaviour and never trips an internal assertion, for any non-empty sorted list of non-empty keys, any query string and any legal configuration.",
    ["inputs", "configurations", "histories"], ANYKEYS + "; every sequence of public calls",
    "The unit tests run without sanitizers on two benign key sets; out-of-bounds reads past bit-vector or label-array ends and bad shifts return right-looking values by luck.",
    [S, D, L, B, X, A, V, R, E, "include/popcount.h", "include/hash.hpp", C],
    [("bounds implied by node and level arithmetic", "include/bitvector.hpp, rank.hpp, select.hpp, label_vector.hpp"),
     ("shift amounts derived from suffix lengths", "include/suffix.hpp, include/surf_builder.hpp storeSuffix"),
     ("assertions", "assert() throughout include/")],
    observe=["AddressSanitizer, UndefinedBehaviorSanitizer, assert, valgrind memcheck"])

add("C13", "Answers do not depend on the dense/sparse layout",
    "Filters built from the same keys and suffix settings but with the dense part on or off, or with different sparse-dense ratios, give identical answers to every point lookup, range lookup, seek (landing, validity and flag), scan and comparison, and report the same height.",
    ["inputs", "configurations"], ANYKEYS + "; every pair of layouts",
    "The tests never build the sparse-only layout through the filter API and use at most two ratios; no test compares layouts with each other.",
    [S, D, L, B],
    [("cut-off level choice", "include/surf_builder.hpp determineCutoffLevel, buildDense"),
     ("two encodings of the same trie", "include/louds_dense.hpp, include/louds_sparse.hpp")],
    state=[{"name": "sparse_start_level_", "meaning": "first level encoded sparsely", "where": B}],
    observe=["all SuRF queries on filters with different layouts"])

add("C14", "Repeated keys and construction path do not change the filter",
    "A sorted list with repeated keys builds the same filter as the list without the repetitions, and all constructors and the create call (also on the object of a destroyed filter) build the same filter from the same keys and settings; 'same' means byte-identical images and identical answers.",
    ["inputs", "configurations"], "every sorted list with any pattern of repetitions (first key, last key, prefix keys, long runs), every constructor",
    "One builder test repeats every word five times and inspects builder vectors for that one list; filters from different constructors are never compared.",
    [S, B],
    [("duplicate skipping", "include/surf_builder.hpp buildSparse"), ("constructors", "include/surf.hpp SuRF::SuRF, create")],
    observe=["SuRF::serialize", "all queries"])

add("C15", "Queries leave no trace",
    "The answer to a query depends only on the filter's keys and configuration: it is the same whatever queries ran before on this or any other filter and whatever iterators are alive, and no query, not even one cut short by an allocation failure, changes the filter's image.",
    ["histories"], "every history of lookups, ranges, seeks, scans, counts and serializations interleaved over one or more filters",
    "Each test issues one kind of query in one fixed order on one filter; state kept between calls (the filter holds cached iterators) is not exercised by mixed histories.",
    [S, D, L],
    [("iterators cached inside the filter", "include/surf.hpp iter_, iter2_; SuRF::lookupRange, SuRF::approxCount")],
    state=[{"name": "iter_, iter2_", "meaning": "scratch iterators reused by range lookups and counts", "where": S}],
    observe=["all SuRF queries"])

add("C16", "Concurrent queries on a shared filter are race-free and correct",
    "Any number of threads may query one filter at the same time (point and range lookups, seeks, scans, counts, serialization), as the multi-threaded benchmark does; there are no data races and every thread gets the answers a single-threaded run gives. Building and destroying separate filters in parallel is equally safe.",
    ["schedules", "histories"], "every schedule of concurrent queries by any number of threads",
    "All unit tests are single-threaded; the multi-threaded benchmark is built but never run by the tests and checks nothing.",
    [S, D, L, "bench/workload_multi_thread.cpp"],
    [("const queries on immutable state; scratch state for ranges and counts", "include/surf.hpp lookupRange, approxCount")],
    observe=["ThreadSanitizer and answer comparison over threads sharing a filter"])

add("C17", "Destroying a filter releases everything it allocated",
    "After destroy and delete of a built or restored filter, all memory obtained by building, restoring, querying (also by queries cut short by an allocation failure) and iterating has been returned, each block exactly once; the serialized image belongs to the caller alone.",
    ["inputs", "configurations", "histories"], ANYKEYS + "; every history of queries, round trips and destruction order of several filters",
    "No test measures allocations; leaks and wrong-form deletes are invisible to functional assertions.",
    [S, D, L, A, R, E, X],
    [("manual ownership", "destroy() in surf.hpp, louds_dense.hpp, louds_sparse.hpp, label_vector.hpp, rank.hpp, select.hpp, suffix.hpp")],
    observe=["allocation ledger (operator new/delete) and AddressSanitizer"])

add("C18", "Memory use is compact and truthfully reported",
    "The heap a built or restored filter retains is at most its reported memory usage plus a small amount per trie level, and the reported usage is not more than the retained heap plus the same allowance. Both the reported usage and the image size stay within the encoding's budget: about 10 bits per sparse label and 64 bytes plus one bit per dense node, plus lookup tables, plus the configured suffix bits per key.",
    ["inputs", "configurations"], ANYKEYS,
    "No test checks memory; a wasteful allocation is invisible until a large key set exhausts memory.",
    [S, D, L, A, R, E, X],
    [("size accounting", "getMemoryUsage, size, serializedSize"), ("allocation of label and bit arrays", "include/label_vector.hpp, include/bitvector.hpp, include/rank.hpp, include/select.hpp")],
    observe=["allocation ledger, SuRF::getMemoryUsage, SuRF::serializedSize"])

add("C19", "The integer key codec is an order-preserving bijection",
    "Converting a 64-bit unsigned integer to a key string gives 8 bytes that convert back to the same integer, and string order equals integer order, so filters over integers answer integer range and point queries correctly.",
    ["inputs"], "all 64-bit integers and pairs of them",
    "The test checks the round trip for the first million integers only (at most 3 significant bytes) and never the order.",
    [C], [("byte-swapped big-endian encoding", "include/config.hpp uint64ToString, stringToUint64")],
    observe=["uint64ToString", "stringToUint64", "SuRF lookups over encoded integers"])

add("C20", "The succinct building blocks match their naive definitions",
    "For every bit pattern split over any number of levels (any sub-range of levels, any lengths): reading a bit, counting ones up to a position, finding the position of the k-th one, and the distance to the next or previous one agree with the naive computation over the concatenated bits, before and after serialization. Label searches return the position of the label (or of the next greater label) in the node and report failure exactly when there is none, and stored suffixes read back as written.",
    ["inputs"], "every bit pattern, level split, block boundary, position, rank, node size 1-256, label set and suffix length 1-64",
    "The tests use the vectors of two key sets; bit vectors ending on word or block boundaries, long zero runs, other node sizes and failing searches at node ends are not covered.",
    [V, R, E, A, X, "include/popcount.h"],
    [("rank and select lookup tables", "include/rank.hpp, include/select.hpp"), ("next/previous set bit", V), ("linear, binary and SIMD label search", A), ("suffix packing", X)],
    observe=["BitvectorRank::rank", "BitvectorSelect::select", "Bitvector::distanceToNextSetBit/PrevSetBit", "LabelVector::search*", "BitvectorSuffix::read/checkEquality"])

add("C21", "The benchmark's filters never miss an inserted key",
    "Every filter the benchmark factory can create (Bloom and the SuRF variants at every documented suffix length) answers true to the lookup of every inserted key, the SuRF variants also to every range that holds an inserted key, and the Bloom filter, for string and integer keys and at any density, accepts absent keys at about its design rate, also keys that differ from an inserted one in a single byte.",
    ["inputs", "configurations"], "every filter type and suffix length the benchmark documents, every key set",
    "Nothing under bench/ is run by the tests.",
    ["bench/bloom.hpp", "bench/filter_bloom.hpp", "bench/filter_surf.hpp", "bench/filter_factory.hpp", "bench/MurmurHash3.h"],
    [("Bloom filter build and probe", "bench/bloom.hpp"), ("adapter", "bench/filter_surf.hpp")],
    observe=["bench::Filter::lookup, lookupRange, approxCount"])

add("C22", "The benchmark program's report is truthful",
    "For any workload files, the benchmark program executes each listed query exactly once and its report adds up: true positives equal the number of queries whose key (or half-open range) is really present, positives equal true plus false positives, positives plus true negatives equal the number of queries, a count query reports the sum of the per-query approximate counts, and the reported throughput is no lower than the whole run's and no higher than the time spent in the queries allows. Arguments outside the documented values are refused with a message and an error status before anything is built.",
    ["inputs", "configurations"], "every workload file and every documented combination of filter, key type and query type",
    "The benchmark is built but never run by the tests.",
    ["bench/workload.cpp", "bench/bench.hpp", "bench/filter.hpp"],
    [("loading, querying and accounting", "bench/workload.cpp, bench/bench.hpp")],
    observe=["standard output of the workload program"])

add("C23", "Answers and images do not depend on compiler or optimization",
    "The same keys, configuration and queries give the same answers and the same serialized bytes whether the headers are compiled by gcc or clang, with or without optimization, with or without assertions, with plain char signed or unsigned; images written by one build are readable by another.",
    ["inputs", "configurations"], ANYKEYS + "; gcc and clang at -O0 to -O3, assertions on and off, signed and unsigned char",
    "The test suite is run in a single build mode (the baseline notes 12 tests fail at -O2 because of undefined behaviour).",
    [X, B, S, D, L],
    [("absence of undefined behaviour and of side effects in assertions", "include/suffix.hpp read, include/surf_builder.hpp storeSuffix, assert() uses")],
    observe=["digest of all answers and images per build"])

add("C24", "The builder's level vectors are exactly the pruned trie of the keys",
    "For every sorted key list the builder produces, level by level, exactly the trie of the shortest distinguishing prefixes: the labels of all nodes in order (a terminator first in the node where a key that is a prefix of another key ends), node-start and child marks on exactly the labels that have them, the node count, and one suffix per key in label order holding its hash and real bits; the bitmaps of the dense levels describe the same nodes. No level is dense unless asked for, a larger sparse-dense ratio never makes more levels dense, and the ratio is respected: all dense levels but the last together take at most 1/ratio of the bytes of the levels below, and levels that would take far less are dense (at ratio 0, every level).",
    ["inputs", "configurations"], ANYKEYS,
    "The builder tests compare two key sets in two layouts; repeated keys, prefix keys in every position, terminators next to real 0xff labels, suffixes straddling words and every cut are not covered.",
    [B, X, C],
    [("single scan over the sorted keys", "include/surf_builder.hpp buildSparse, skipCommonPrefix, insertKeyBytesToTrieUntilUnique"), ("suffix packing", "include/surf_builder.hpp storeSuffix"), ("dense bitmaps and cut", "include/surf_builder.hpp buildDense, determineCutoffLevel")],
    observe=["SuRFBuilder accessors: labels, child, LOUDS, bitmap and suffix vectors, counts, sparse start level"])

add("C25", "Point, range, seek and count answers agree with each other",
    "On one filter: a string whose point lookup is true also makes the closed range from it to itself true; widening a range never turns true into false; a range lookup is true exactly when the forward seek from its left bound lands on a position that compares not beyond (or undecided with) the right bound; a greater query never seeks to an earlier position, forward or backward; a positive count implies that the closed range lookup is true, and widening the bounds never lowers the count.",
    ["inputs", "configurations"], ANYKEYS + "; every pair of nested intervals, stored or not",
    "The tests compare each query with stored keys only; contradictions between two answers about strings that are not stored are never looked for.",
    [S, D, L, X],
    [("range lookup through the forward seek", "include/surf.hpp lookupRange, moveToKeyGreaterThan"), ("suffix comparison", "include/suffix.hpp compare, checkEquality")],
    observe=["pairs of answers of SuRF::lookupKey, lookupRange, moveToKeyGreaterThan/LessThan, approxCount, Iter::compare"])

add("C26", "Query cost is bounded by key length and trie height",
    "A point lookup does work proportional to the number of trie levels its string can reach, and a range lookup, seek, iterator step or count does work proportional to the trie height, whatever the number of stored keys; no query allocates more memory than in proportion to height and string length. Rank, select and neighbouring-set-bit queries take bounded work however long the vector. Building, serializing and restoring take work linear in the size of the keys or the image.",
    ["inputs", "configurations"], ANYKEYS + "; key counts up to 700000, vectors up to 3 million bits",
    "No test looks at cost: an answer that is right but found by scanning the whole structure passes all of them.",
    [S, D, L, V, R, E, A, B],
    [("rank and select lookup tables", "include/rank.hpp, include/select.hpp"), ("single-pass traversals", "include/louds_dense.hpp, include/louds_sparse.hpp"), ("single-scan build", "include/surf_builder.hpp")],
    observe=["basic blocks executed (compiler coverage callback) and bytes allocated, per call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P))

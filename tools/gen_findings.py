#!/usr/bin/env python3
"""Writes /verif/known_findings.json (open findings: none; fixed ones are a record and suppress nothing)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("62f88a9", "C20", "distanceToNextSetBit read words past the end and counted padding bits when no further bit is set"),
 ("67aab93", "C12", "readBit read one bit past the bit vector for the one-past-the-end position seeks and steps use"),
 ("92ccbb4", "C12", "16-byte label loads read past the label array of restored filters; built ones wasted quadratic padding (also C18)"),
 ("8a8c2ae", "C12", "suffix construction and reading shifted by negative or full-word amounts (suffix lengths 64, short keys)"),
 ("b4a5a75", "C12", "storing a suffix shifted by 64 bits when no suffix is configured"),
 ("cff108a", "C02", "range lookups rejected ranges holding keys without suffix bits, and ranges whose bound ends inside the suffix"),
 ("149be68", "C12", "building touched the word past the bit vector when the levels fill the last word exactly"),
 ("3232b00", "C12", "rank and select read past the lookup table for one-past-the-end arguments"),
 ("cb4f0c2", "C11", "alignment padding bytes of the serialized image were uninitialized"),
 ("89908fa", "C17", "destroy() leaked the trie objects, their vectors and the dense level cuts"),
 ("7f6607e", "C16", "lookupRange and approxCount used iterators stored in the filter: concurrent queries raced and answered wrongly"),
 ("57f0b56", "C05", "stepping backward never reached a key whose label is bit 0 of the dense bitmap"),
 ("62044b2", "C06", "a dense seek whose query is exhausted lost the unfinished descent, the exclusive bound and the empty query"),
 ("b9d05fd", "C07", "backward seeks stopped on keys that their suffix bits prove greater"),
 ("96f1336", "C06", "a sparse seek past a terminator landed in the wrong node"),
 ("18e4e5b", "C08", "comparing a position at a prefix key ignored the bytes; a length difference could read as 'undecided'"),
 ("3dd9685", "C07", "inclusive backward seek skipped an exactly matching prefix key"),
 ("2461aa9", "C12", "filters whose trie is entirely dense read past the per-level node counts"),
 ("45d0380", "C03", "filters built without the dense part answered true to everything and could not be iterated or counted"),
 ("ece12fc", "C01", "a single stored key starting with byte 0xff was stored as the empty key"),
 ("4df5396", "C09", "approximate counts over dense levels miscounted (byte 0, prefix keys, level ends, unfinished descents)"),
 ("71a4ed4", "C09", "stepping back to an earlier sparse key left a stale level that a count then subtracted"),
 ("bd8898e", "C22", "benchmark filters returned counts as bool, so count queries summed only ones"),
 ("d4dc69a", "C22", "loading a workload file appended a record that is not in the file"),
 ("2a3b2fe", "C22", "the documented alterByte workload type was rejected"),
 ("041878a", "C22", "the multi-threaded benchmark skipped the transactions left over by the division"),
 ("923e39a", "C22", "the multi-threaded benchmark's report did not match the queries it runs (find instead of lower_bound, no true negatives)"),
 ("f5c9c6e", "C22", "the benchmarks accepted the undocumented percentage 0 (or text) and failed on an empty key set"),
 ("de83747", "C22", "the multi-threaded benchmark divided by a thread count of 0"),
 ("aea2084", "C12", "default-constructed iterators had uninitialized flags"),
 ("9fef9dd", "C18", "memory usage counted a pointer instead of the sparse trie object"),
 ("6d7d3ee", "C20", "label search computed its midpoint as (l + r) / 2: it overflowed past 2^31 labels"),
]
out = {"findings": [], "fixed": ["fixed: property=%s %s %s" % (p, c, w) for c, p, w in F]}
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
open(os.path.join(HERE, "known_findings.json"), "a").write("\n")

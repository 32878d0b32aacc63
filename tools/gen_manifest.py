#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential run-time monitor over seeded builds", "every stored key of every generated filter is looked up"),
 "C02": ("differential run-time monitor over seeded builds", "ranges whose true content is known from the sorted key list"),
 "C03": ("run-time monitor against an executable model of the stored information, plus a statistical monitor for the hash bits", "absent strings next to stored prefixes and suffix bits; acceptance rates for 1..25 hash bits"),
 "C04": ("run-time monitor against an executable model of the stored information", "intervals that the stored bits prove empty must be rejected"),
 "C05": ("online order/exactly-once monitor over iterator histories", "full scans both ways, random walks, copies"),
 "C06": ("run-time monitor against an executable successor model", "landing, flag and onward walk of every seek"),
 "C07": ("run-time monitor against an executable predecessor model", "landing, flag and backward walk of every seek"),
 "C08": ("run-time monitor against an executable model of prefixes and suffix bits", "every position's key, suffix, appended suffix and comparisons"),
 "C09": ("run-time monitor with exact counts as oracle", "string and iterator counts against the sorted key list"),
 "C10": ("differential run-time monitor (original vs restored filter), allocation poisoning, AddressSanitizer", "round trips, repeated round trips, source buffer overwritten and freed"),
 "C11": ("byte-comparison monitor with poisoned fresh memory, guard-page restores, MemorySanitizer", "images of twins, re-serializations and restored filters"),
 "C12": ("AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, integer checks, assertions, allocator canaries (valgrind in thorough)", "all public operations on in-contract workloads"),
 "C13": ("differential run-time monitor across layouts", "one key set, all dense/sparse cuts, identical query traces"),
 "C14": ("differential run-time monitor across construction paths", "images and answers with repeats, all constructors and create"),
 "C15": ("history-independence monitor (replayed queries, twins, image comparison)", "query traces in different orders and with live iterators"),
 "C16": ("ThreadSanitizer (gcc and clang) plus sequential-equivalence monitor over recorded concurrent answers", "2-8 query threads on one fresh filter, parallel builds, and the multi-threaded benchmark itself"),
 "C17": ("allocation-ledger monitor (conservation of blocks, double frees, mismatches)", "blocks obtained and returned around every life cycle"),
 "C18": ("allocation-ledger measurement against reported usage and an independent size model", "heap, reported usage and image size of every generated filter"),
 "C19": ("run-time monitor of the codec and of integer filters against std::set", "round trips, order, point and range queries over integers"),
 "C20": ("run-time monitor of the building blocks against naive definitions, with sanitizers", "every position of generated multi-level vectors, before and after a round trip"),
 "C21": ("run-time monitor of the factory's filters plus a statistical monitor of the Bloom filter, with sanitizers", "every inserted key, ranges, absent probes, all documented suffix lengths"),
 "C22": ("recorded-history checker (exactly-once, conservation) on the real benchmark programs, with sanitizers and ThreadSanitizer", "event log at the filter interface and printed report against an independent recomputation"),
 "C23": ("differential trace digests across eight compiler/optimization builds", "same workload files replayed by gcc and clang builds, images exchanged between them"),
 "C24": ("run-time monitor against a trie computed from the key list", "every label, mark, bitmap and suffix bit of the builder's vectors on every level"),
 "C25": ("metamorphic run-time monitor: answers of different queries on one filter must agree", "nested intervals, point/closed-range pairs, seeks from ordered queries, counts"),
 "C26": ("cost monitor: basic blocks executed (coverage instrumentation) and bytes allocated per call, against bounds in key length and height", "every kind of query, from one key to 700000 keys and heights over 65536"),
}
LEVEL = ("Exploration: the oracle judges every observation of the executions that were run; nothing is claimed about inputs not generated. "
         "Workloads are seeded and bounded by case count, so a run is reproducible. Observed: %s.")
checks = []
for p, (tech, obs) in sorted(T.items()):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "exploration", "level_note": LEVEL % obs})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the monitors observe the public interface, the allocator, the sanitizers and the benchmark's filter interface. Each check compiles its monitors from /repo's working tree."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

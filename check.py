#!/usr/bin/env python3
"""Run one run-time-monitoring check against /repo's current working tree.

usage: check.py <property> [--thorough] [--seed N] [--replay FILE] [--scale X]

Builds the monitors with the repository's headers, runs them over seeded
workloads in parallel workers, turns oracle verdicts, sanitizer reports,
assertion failures, crashes and hangs into VIOLATION lines, and writes
/verif/evidence/<property>.json.   exit 0 held / 1 violated / 2 no answer.
"""
import argparse, array, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, os.path.join(HERE, "tools"))
JOBS = max(2, min(8, os.cpu_count() or 8))

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DMON_NO_LEDGER"]
CINT = ["-fsanitize=integer", "-fno-sanitize=unsigned-integer-overflow,implicit-conversion,unsigned-shift-base"]
BASE = ["-w", "-g1", "-mpopcnt", "-pthread"]
# name -> (compiler, flags, what it is)
VARIANTS = {
    "plain":  ("g++", ["-std=c++14", "-O1"], "gcc -O1, assertions on, allocation ledger (fresh memory poisoned)"),
    "rel":    ("g++", ["-std=c++14", "-O2", "-DNDEBUG"], "gcc -O2 -DNDEBUG, allocation ledger"),
    "crel":   ("clang++", ["-std=c++14", "-O2", "-DNDEBUG"], "clang -O2 -DNDEBUG, allocation ledger"),
    "gasan":  ("g++", ["-std=c++14", "-O1"] + ASAN, "gcc AddressSanitizer + UndefinedBehaviorSanitizer, assertions on"),
    "gasanr": ("g++", ["-std=c++14", "-O2", "-DNDEBUG"] + ASAN, "gcc AddressSanitizer + UndefinedBehaviorSanitizer, -O2 -DNDEBUG"),
    "casan":  ("clang++", ["-std=c++14", "-O1"] + ASAN + CINT, "clang AddressSanitizer + UndefinedBehaviorSanitizer + integer checks"),
    "msan":   ("clang++", ["-std=c++14", "-O1", "-fsanitize=memory", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DMON_NO_LEDGER"], "clang MemorySanitizer (uninitialised reads)"),
    "gtsan":  ("g++", ["-std=c++14", "-O1", "-fsanitize=thread", "-DMON_NO_LEDGER"], "gcc ThreadSanitizer"),
    "ctsan":  ("clang++", ["-std=c++14", "-O2", "-fsanitize=thread", "-DMON_NO_LEDGER"], "clang ThreadSanitizer"),
    "cost":   ("g++", ["-std=c++14", "-O1", "-DMON_COST", "-fsanitize-coverage=trace-pc"], "gcc -O1 counting executed basic blocks, allocation ledger"),
    "vg":     ("g++", ["-std=c++14", "-O1", "-DMON_NO_LEDGER"], "valgrind memcheck"),
    # C23 builds
    "g-O0":   ("g++", ["-std=c++11", "-O0"], "gcc -O0"),
    "g-O2":   ("g++", ["-std=c++11", "-O2"], "gcc -O2"),
    "g-O3n":  ("g++", ["-std=c++11", "-O3", "-DNDEBUG"], "gcc -O3 -DNDEBUG"),
    "g-Osn":  ("g++", ["-std=c++14", "-Os", "-DNDEBUG", "-mno-popcnt"], "gcc -Os -DNDEBUG without popcnt"),
    "c-O0":   ("clang++", ["-std=c++14", "-O0"], "clang -O0"),
    "c-O2n":  ("clang++", ["-std=c++14", "-O2", "-DNDEBUG"], "clang -O2 -DNDEBUG"),
    "c-O3":   ("clang++", ["-std=c++11", "-O3"], "clang -O3"),
    "g-fill": ("g++", ["-std=c++14", "-O1", "-ftrivial-auto-var-init=pattern"], "gcc -O1, uninitialised locals filled with a pattern"),
    "g-uchar": ("g++", ["-std=c++17", "-O2", "-funsigned-char"], "gcc -O2, char unsigned as on ARM, C++17"),
    "c-uchar": ("clang++", ["-std=c++14", "-O1", "-funsigned-char", "-mno-popcnt"], "clang -O1, char unsigned, without popcnt"),
    "c-zero": ("clang++", ["-std=c++14", "-O2", "-ftrivial-auto-var-init=zero"], "clang -O2, uninitialised locals zeroed"),
    "g-nat":  ("g++", ["-std=c++14", "-O3", "-DNDEBUG", "-mavx2", "-fno-strict-aliasing"], "gcc -O3 -mavx2 -DNDEBUG"),
}

def job(variant, quick, thorough, offset=0, **kw):
    return dict(variant=variant, quick=quick, thorough=thorough, offset=offset, **kw)

BIG = {"MON_LARGE_EVERY": "251", "MON_HUGE_AT": "0", "MON_GIANT_AT": "1900"}
HUGE = {"MON_LARGE_EVERY": "251", "MON_HUGE_AT": "3000", "MON_GIANT_AT": "1900"}
TITAN = dict(HUGE, MON_TITAN_AT="2900")
COST = {"MON_LARGE_EVERY": "151", "MON_HUGE_AT": "450", "MON_GIANT_AT": "1900"}
PLAN = {
    "C01": [job("plain", 9000, 60000, env=TITAN), job("rel", 12000, 120000, 1000000, env=HUGE), job("crel", 4500, 30000, 2000000)],
    "C02": [job("plain", 9000, 50000, env=TITAN), job("rel", 12000, 100000, 1000000, env=BIG)],
    "C03": [job("plain", 9000, 50000, env=TITAN), job("rel", 12000, 100000, 1000000, env=BIG)],
    "C04": [job("plain", 9000, 50000, env=TITAN), job("rel", 12000, 100000, 1000000, env=BIG)],
    "C05": [job("plain", 6000, 40000, env=TITAN), job("rel", 9000, 80000, 1000000, env=BIG)],
    "C06": [job("plain", 6000, 40000, env=TITAN), job("rel", 9000, 80000, 1000000, env=BIG)],
    "C07": [job("plain", 6000, 40000, env=TITAN), job("rel", 9000, 80000, 1000000, env=BIG)],
    "C08": [job("plain", 6000, 40000, env=TITAN), job("rel", 9000, 80000, 1000000, env=BIG)],
    "C09": [job("plain", 6000, 40000, env=TITAN), job("rel", 9000, 80000, 1000000, env=BIG)],
    "C10": [job("plain", 6000, 40000, env=TITAN), job("rel", 6000, 60000, 1000000, env=HUGE), job("gasan", 900, 6000, 2000000)],
    "C11": [job("plain", 7500, 40000, env=TITAN), job("rel", 7500, 60000, 1000000, env=BIG), job("gasan", 900, 6000, 2000000), job("msan", 900, 6000, 3000000)],
    "C12": [job("gasan", 2100, 16000, env=BIG), job("casan", 2100, 16000, 1000000, env=BIG), job("msan", 2100, 16000, 2000000, env=BIG),
            job("gasanr", 1500, 12000, 3000000), job("plain", 3600, 30000, 4000000, env=TITAN), job("vg", 0, 300, 5000000, wrap=["valgrind", "-q", "--error-exitcode=68", "--leak-check=no"])],
    "C13": [job("plain", 4500, 30000, env=HUGE), job("rel", 6000, 60000, 1000000, env=BIG)],
    "C14": [job("plain", 4500, 30000, env=TITAN), job("rel", 6000, 60000, 1000000, env=BIG)],
    "C15": [job("plain", 4500, 30000, env=TITAN), job("rel", 6000, 60000, 1000000, env=BIG), job("msan", 600, 4000, 2000000)],
    "C16": [job("plain", 4500, 30000, workers=2), job("rel", 6000, 40000, 1000000, workers=2), job("gtsan", 900, 8000, 2000000, workers=2), job("ctsan", 1200, 10000, 3000000, workers=2)],
    "C17": [job("plain", 7500, 50000, env=TITAN), job("rel", 7500, 60000, 1000000, env=BIG)],
    "C18": [job("plain", 7500, 50000, env=TITAN), job("rel", 7500, 60000, 1000000, env=BIG)],
    "C19": [job("plain", 3000, 20000), job("rel", 4500, 40000, 1000000), job("gasan", 450, 3000, 2000000)],
    "C20": [job("plain", 24000, 200000, env={"MON_LARGE_EVERY": "61", "MON_HUGE_AT": "3000"}), job("rel", 36000, 400000, 1000000, env={"MON_LARGE_EVERY": "61"}), job("gasan", 3600, 30000, 2000000, env={"MON_LARGE_EVERY": "151"}), job("casan", 3600, 30000, 3000000, env={"MON_LARGE_EVERY": "151"})],
    "C21": [job("plain", 1800, 15000), job("rel", 4500, 40000, 1000000), job("gasan", 300, 2500, 2000000)],
    "C22": [], "C23": [],
    "C24": [job("plain", 6000, 60000, env=TITAN), job("rel", 9000, 90000, 1000000, env=BIG)],
    "C25": [job("plain", 4000, 50000, env=TITAN), job("rel", 8000, 100000, 1000000, env=BIG)],
    "C26": [job("cost", 5000, 60000, env=COST)],
}
SOURCES = {p: "filter_mon.cpp" for p in PLAN}
SOURCES["C20"] = "prims_mon.cpp"
SOURCES["C21"] = "bench_mon.cpp"
FALLBACK = {"C20": ["-DMON_PRIMS_MIN"]}

ASKS = ["lookupKey", "lookupRange", "moveToKeyGreaterThan", "moveToKeyLessThan", "approxCount_strings", "approxCount_iterators", "compare", "seek_then_forward",
        "seek_then_backward", "moveToFirst", "moveToLast", "sizes", "full_forward_scan", "full_backward_scan"]
ASKMAP = {i: "observed_" + a for i, a in enumerate(ASKS)}
TYPES = {4: "filters_none", 5: "filters_hash", 6: "filters_real", 7: "filters_mixed"}
AUX = {
    "C01": {**TYPES, 0: "filters_sparse_only", 1: "filters_dense_only", 2: "filters_both_parts"},
    "C02": {**TYPES, 0: "filters_sparse_only"}, "C04": {**TYPES, 0: "filters_sparse_only"},
    "C03": {**TYPES, 0: "lookups_true", 8: "hash_trials", 9: "hash_accepted", 10: "hash_expected"},
    "C05": {0: "filters_sparse_only", 1: "entangled_iterator_operations"},
    "C06": {0: "flagged_landings", 1: "query_stored"}, "C07": {0: "flagged_landings", 1: "query_stored"},
    "C08": {**TYPES, 1: "undecided_comparisons"},
    "C09": {0: "string_counts_exact", 1: "string_counts_short_by_1", 2: "string_counts_short_by_2", 3: "iterator_counts_exact", 4: "iterator_counts_short_by_1", 5: "iterator_counts_short_by_2"},
    "C10": ASKMAP, "C11": {0: "image_bytes_compared"}, "C12": ASKMAP,
    "C13": {**ASKMAP, 20: "cases_with_different_cut", 21: "distinct_cuts"}, "C14": ASKMAP, "C15": {**ASKMAP, 20: "queries_cut_short_by_allocation_failure", 21: "histories_of_70000_queries"},
    "C16": {**ASKMAP, 16: "concurrent_full_scans", 17: "parallel_builders", 18: "query_threads", 19: "observed_thread_switches", 20: "interleaved_operations", 21: "cases_really_interleaved", 22: "reads_of_shared_iterators", 23: "parallel_builders_of_other_filters", 24: "parallel_restores_from_one_image"},
    "C17": {0: "blocks_of_one_filter_summed", 1: "blocks_tracked", 2: "queries_cut_short_by_allocation_failure"},
    "C18": {0: "heap_bytes_measured", 1: "bytes_reported", 2: "sparse_labels", 3: "dense_nodes"},
    "C20": {0: "bit_positions", 1: "ranks", 2: "selects", 3: "label_nodes", 4: "suffixes", 6: "round_trips", 8: "positions_in_large_vectors", 9: "large_vectors", 10: "vectors_beyond_2_31"},
    "C24": {0: "labels_compared", 1: "nodes_compared", 2: "dense_nodes_compared"},
    "C25": {0: "true_point_lookups", 1: "true_ranges_widened", 2: "positive_counts"},
    "C26": {i: "measured_" + n for i, n in enumerate(["builds", "lookupKey", "lookupRange", "seek_forward", "step_forward", "seek_backward", "step_backward", "approxCount", "moveToFirst", "moveToLast", "rank", "select", "next_set_bit", "previous_set_bit", "serialize", "deSerialize"])},
    "C21": {0: "ranges_holding_a_key", 1: "ranges_without", 2: "bloom_absent_probes", 3: "bloom_accepted", 4: "bloom_rate_judgements", 8: "built_SuRF", 9: "built_SuRFHash", 10: "built_SuRFReal", 11: "built_SuRFMixed", 12: "built_Bloom"},
}
RULE = {
    "default": "A case is a generated sorted key list (random strings over small and full alphabets, prefix chains, complete tries, wide nodes, grids around 64/512 multiples, tall tries, integers, words, large sets; "
               "with and without repeats) together with one filter configuration (type, hash/real bits, dense/sparse ratio), built by the real code and judged by the oracle over queries derived from the keys. "
               "It is non-trivial when at least one observation could have gone either way for the property (for a rejection property: a query that must be rejected). Distinct by digest of (key list, configuration).",
    "C16": "A case is a key list, a configuration, and 2-8 threads issuing their own query mix against one shared fresh filter while 0-2 threads build, restore and destroy others; every answer is compared with a sequential twin. Distinct by digest of (keys, configuration).",
    "C20": "A case is a bit pattern, label node set or suffix set split over levels (or a word), checked at every position against the naive computation, before and after serialization. Distinct by digest of the contents.",
    "C21": "A case is (key list, filter type, suffix length) given to the benchmark's factory; every inserted key, 250 ranges and (Bloom) 1000-6000 absent keys are probed. Distinct by digest.",
    "C22": "A case is a generated pair of workload files and a command line for the real benchmark program; the recorded history of inserted keys and executed queries and the printed report are compared with an independent recomputation. Distinct by (files, arguments); non-trivial when it executes at least one query.",
    "C23": "A case is a key list, configuration and query list replayed by every build; the digest of the image and of the answers to each kind of query must agree. Distinct by digest; non-trivial when at least two different builds replayed it.",
}


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def compile_one(prop, variant, scratch):
    comp, flags, _ = VARIANTS[variant]
    src = os.path.join(HARNESS, SOURCES[prop])
    exe = os.path.join(scratch, "mon-" + variant)
    base = [comp] + flags[:1] + BASE + flags[1:] + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "bench"), "-I" + HARNESS]
    if SOURCES[prop] == "filter_mon.cpp":
        base.append("-DMON_ONLY=%d" % int(prop[1:]))
    last = ""
    for extra in ([], FALLBACK.get(prop)):
        if extra is None:
            continue
        p = subprocess.run(base + extra + ["-o", exe, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return exe
        last = p.stdout
    raise Inconclusive("the monitor does not compile against %s (%s):\n%s" % (REPO, variant, last[-3000:]))


ENV = {
    "ASAN_OPTIONS": "exitcode=68:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=68",
    "MSAN_OPTIONS": "exitcode=68", "TSAN_OPTIONS": "halt_on_error=1:exitcode=68:second_deadlock_stack=1",
}
SANI = re.compile(r"(ERROR: (Address|Leak|Thread|Memory)Sanitizer.*|WARNING: (Thread|Memory)Sanitizer.*|[^\n]*runtime error:.*|==\d+== (Invalid|Conditional|Use of).*)")
SANI_FATAL = re.compile(r"(FATAL: \w+Sanitizer|Shadow memory range|failed to (allocate|mmap)|out of memory|personality)")


def read_status(path):
    try:
        b = open(path, "rb").read()
        cur, cases, evals, nontriv = struct.unpack_from("<4Q", b, 0)
        off = 32 + 24 * 8
        ph = b[off:off + 128].split(b"\0")[0].decode("latin1")
        gen = b[off + 128:off + 384].split(b"\0")[0].decode("latin1")
        return cur, cases, ph, gen
    except Exception:
        return None, 0, "", ""


def limits(sanitized):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not sanitized:
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    return f


def classify(rc, out, err):
    """verdict of one worker: ok / violation(kind, text) / inconclusive(text) / hang"""
    tail = err[-6000:]
    if rc == 0:
        return ("ok", "")
    if rc == 66:
        m = re.search(r"MON-VIOLATION (\S+)", out)
        return ("violation", m.group(1) if m else "oracle")
    if rc == 67 or "MON-LEDGER" in out:
        m = re.search(r"MON-LEDGER (.*)", out + err)
        return ("violation", "allocator: " + (m.group(1) if m else "?"))
    m = SANI.search(err)
    if rc == 68 or m:
        if m:
            return ("violation", "sanitizer: " + m.group(1).strip()[:300])
        return ("inconclusive", "sanitizer run-time failed: " + tail[-800:])
    if rc == 97:
        return ("hang", "")
    if rc in (-signal.SIGABRT, 134):
        m = re.search(r"[^\n]*Assertion[^\n]*", err)
        return ("violation", "abort: " + (m.group(0)[-300:] if m else tail[-300:]))
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
        return ("violation", "crash: signal %d" % -rc)
    return ("inconclusive", "worker ended with %s: %s" % (rc, tail[-800:] + out[-300:]))


class Run:
    def __init__(self, prop, seed, thorough, scale):
        self.prop, self.seed, self.thorough, self.scale = prop, seed, thorough, scale
        self.t0 = time.time()
        self.out = os.path.join(HERE, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix="mon-%s-" % prop)
        self.violations, self.inconclusive, self.known_hits = [], [], []
        self.cases = self.evals = self.nontriv = self.noted = 0
        self.digests, self.samples, self.aux, self.per_variant = set(), [], {}, {}
        self.lock = threading.Lock()
        self.stop = False
        self.budget = float(os.environ.get("MON_BUDGET", "3000" if thorough else "420"))
        self.extra = {}
        kf = os.path.join(HERE, "known_findings.json")
        self.known = {}
        if os.path.exists(kf):
            for e in json.load(open(kf)).get("findings", []):
                if e["property"] == prop:
                    self.known[e["signature"]] = e

    def deadline(self):
        return int(self.t0 + self.budget)

    def add_violation(self, kind, text, case, variant, env, detail):
        with self.lock:
            n = len(self.violations)
            path = os.path.join(self.out, "replay-%d.txt" % n)
            comp, flags, what = VARIANTS.get(variant, ("", [], variant))
            with open(path, "w") as f:
                f.write("property: %s\nviolation: %s\nseed: %d\ncase: %s\nvariant: %s\nbuild: %s\nenv: %s\n" % (self.prop, kind, self.seed, case, variant, what, json.dumps(env or {})))
                f.write("replay: cd %s && ./check.py %s --replay %s\n\n%s\n" % (HERE, self.prop, path, text))
                if detail:
                    f.write("\n" + detail)
            self.violations.append((kind, path, text))
            self.stop = True
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            log("  " + kind)
            for l in text.strip().splitlines()[:6]:
                log("  " + l[:400])

    # one worker process over cases lo, lo+step, ... < hi
    def worker(self, exe, j, lo, hi, step, shard):
        if self.stop:
            return
        variant = j["variant"]
        sanit = not variant.startswith(("plain", "rel", "crel", "cost", "g-", "c-"))
        st = os.path.join(self.scratch, "status-%s-%d" % (variant, shard))
        dg = os.path.join(self.scratch, "digest-%s-%d" % (variant, shard))
        tag = "%s-%d" % (variant, shard)
        env = dict(os.environ, **ENV)
        env.update(j.get("env", {}))
        def args(a, b, cap, s):
            return j.get("wrap", []) + [exe, "--mon", self.prop, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--step", str(s), "--out", self.scratch,
                    "--status", st, "--variant", tag, "--cpu-cap", str(cap), "--deadline", str(self.deadline()), "--digests", dg] + (["--known", ",".join(self.known)] if self.known else [])
        cap = 600 if j.get("wrap") else (240 if self.thorough else 170) if sanit else 120
        again = 3 if self.thorough or not sanit else 2
        rc, out, err = self.spawn(args(lo, hi, cap, step), env, sanit)
        verdict, what = classify(rc, out, err)
        cur, done, ph, gen = read_status(st)
        if verdict == "hang":
            # again from there and with a larger budget before believing it
            more = max(60, min(cap * again, int(self.t0 + self.budget + 430 - time.time())))
            rc, out, err = self.spawn(args(cur, hi, more, step), env, sanit)
            v2, what = classify(rc, out, err)
            late, _, ph, gen = read_status(st)
            if v2 == "hang":
                if more < cap * 2:
                    verdict, what = "inconclusive", "case %d was slow and there was no time left to try it longer" % late
                else:
                    verdict, what = "violation", "no answer: case %d used more than %d s of CPU in phase '%s'" % (late, more, ph)
                    cur = late
            elif v2 == "ok":
                verdict = "ok"
                self.slow = getattr(self, "slow", 0) + 1
                log("  case %d took more than %d s of CPU" % (cur, cap))
            else:
                verdict, cur = v2, late
        if verdict == "violation":
            if self.stop:
                return
            m = re.search(r"witness=(\S+)", out)
            detail = ""
            if m and os.path.exists(m.group(1)):
                detail = open(m.group(1), errors="replace").read()
            text = "\n".join(l for l in out.splitlines() if l.startswith(("MON-VIOLATION", "  "))) or err[-4000:]
            self.add_violation(what, "phase: %s\ngenerator: %s\n%s" % (ph, gen, text), cur, variant, j.get("env"), detail + ("\n--- stderr\n" + err[-12000:] if err.strip() else ""))
            return
        if verdict == "inconclusive":
            with self.lock:
                self.inconclusive.append("%s: %s" % (tag, what))
            return
        self.absorb(variant, out, dg)

    def absorb(self, variant, out, dg=None):
        with self.lock:
            m = re.search(r"MON-DONE cases=(\d+) evals=(\d+) nontrivial=(\d+) noted=(\d+) distinct=(\d+)(.*)", out)
            if not m:
                self.inconclusive.append("%s: no summary line" % variant)
                return
            c, e, n, noted = (int(x) for x in m.groups()[:4])
            self.cases += c; self.evals += e; self.nontriv += n; self.noted += noted
            pv = self.per_variant.setdefault(variant, {"cases": 0, "observations": 0})
            pv["cases"] += c; pv["observations"] += e
            for k, v in re.findall(r"a(\d+)=(\d+)", m.group(6)):
                self.aux[int(k)] = self.aux.get(int(k), 0) + int(v)
            for s in re.findall(r"^MON-SAMPLE (.*)$", out, re.M):
                if len(self.samples) < 6 and s not in self.samples:
                    self.samples.append(s[:900])
            for s in re.findall(r"^MON-KNOWN (\S+)$", out, re.M):
                self.known_hits.append(s)
            if dg and os.path.exists(dg):
                a = array.array("Q")
                a.frombytes(open(dg, "rb").read())
                self.digests.update(a)
                os.unlink(dg)

    def spawn(self, cmd, env, sanit, cwd=None):
        wall = self.budget + 900
        p = subprocess.Popen(cmd, env=env, cwd=cwd or self.scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(sanit))
        with self.lock:
            self.procs = getattr(self, "procs", [])
            self.procs.append(p)
        try:
            o, e = p.communicate(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")

    def count(self, j):
        return int((j["thorough"] if self.thorough else j["quick"]) * self.scale)

    def standard(self):
        jobs = [j for j in PLAN[self.prop] if self.count(j) > 0]
        with ThreadPoolExecutor(JOBS) as ex:
            comp = {ex.submit(compile_one, self.prop, j["variant"], self.scratch): j for j in jobs}
            tasks = []
            for f in as_completed(comp):
                j = comp[f]
                try:
                    exe = f.result()
                except Inconclusive as e:
                    self.inconclusive.append(str(e))
                    continue
                n = self.count(j)
                w = j.get("workers", JOBS)
                w = max(1, min(w, n))
                for s in range(w):
                    tasks.append(ex.submit(self.worker, exe, j, j["offset"] + s, j["offset"] + n, w, s))
            for t in tasks:
                t.result()

    def finish(self):
        wall = time.time() - self.t0
        aux = {AUX.get(self.prop, {}).get(k, "counter_%d" % k): v for k, v in sorted(self.aux.items()) if v}
        cov = {
            "evaluations": self.noted, "distinct_nontrivial": len(self.digests), "rule": RULE.get(self.prop, RULE["default"]),
            "samples": self.samples or ["(no case small enough to print)"],
            "oracle_observations": self.evals, "nontrivial_observations": self.nontriv, "generated_cases": self.cases,
            "per_build": {k: dict(v, build=VARIANTS.get(k, ("", "", k))[2]) for k, v in self.per_variant.items()},
            "monitor_counters": aux,
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": ["workloads stay in contract: sorted, non-empty keys and a non-empty key list; legal suffix lengths; 8-byte-aligned images",
                              "the reference model in harness/common.hpp and the compilers/sanitizers of this sandbox are trusted"],
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for s in sorted(set(self.known_hits)):
            log("KNOWN-FINDING: property=%s %s" % (self.prop, self.known.get(s, {}).get("what", s)))
        shutil.rmtree(self.scratch, ignore_errors=True)
        log("%s: %d cases, %d distinct, %d observations, %d violations, %.1f s" % (self.prop, self.noted, len(self.digests), self.evals, len(self.violations), wall))
        if self.violations:
            return 1
        if self.inconclusive:
            for i in self.inconclusive[:5]:
                log("NO ANSWER: " + i)
            return 2
        if self.noted == 0 or not self.digests:
            log("NO ANSWER: nothing was observed")
            return 2
        return 0

    # ------------------------------------------------------------------ C23
    def c23(self):
        n = int((6000 if self.thorough else 800) * self.scale)
        ref = "g-O2"
        others = ["g-O0", "g-O3n", "c-O2n", "c-O3"] + ["c-O0", "g-Osn", "g-nat", "g-fill", "c-zero", "g-uchar", "c-uchar"]
        wl = os.path.join(self.scratch, "wl")
        img = {v: os.path.join(self.scratch, "img-" + v) for v in [ref] + others}
        for d in [wl] + list(img.values()):
            os.makedirs(d)
        res = {}
        def digests(out):
            r = {}
            for line in re.findall(r"^MON-DIGEST (.*)$", out, re.M):
                f = line.split()
                r[int(f[0])] = dict(x.split("=") for x in f[1:])
            return r
        def go(exe, variant, lo, hi, step, shard, mode, envx):
            """one pass of one build; remembers its digests under (variant, mode)"""
            if self.stop:
                return
            env = dict(os.environ, **ENV)
            env.update({"MON_LARGE_EVERY": "151"})
            env.update(envx)
            st = os.path.join(self.scratch, "status-%s-%s-%d" % (variant, mode, shard))
            dg = os.path.join(self.scratch, "dg-%s-%s-%d" % (variant, mode, shard))
            cmd = [exe, "--mon", "C23", "--seed", str(self.seed), "--from", str(lo), "--to", str(hi), "--step", str(step), "--out", self.scratch, "--status", st,
                   "--variant", "%s-%s-%d" % (variant, mode, shard), "--cpu-cap", "240", "--digests", dg]
            rc, out, err = self.spawn(cmd, env, False)
            verdict, what = classify(rc, out, err)
            cur, done, ph, gen = read_status(st)
            if verdict == "ok":
                self.absorb(variant, out, dg if variant == ref else None)
                with self.lock:
                    res.setdefault((variant, mode), {}).update(digests(out))
            elif verdict == "violation" or verdict == "hang":
                if mode == "ref":
                    # the reference build itself misbehaves: other builds decide whether that is build-dependent
                    with self.lock:
                        self.refcrash = (cur, what, ph, gen, err[-3000:])
                else:
                    self.add_violation("build '%s' (%s): %s" % (variant, mode, what or "no answer"), "phase: %s\ngenerator: %s\n%s\n%s" % (ph, gen, out[-800:], err[-3000:]), cur, variant, {}, "")
            else:
                with self.lock:
                    self.inconclusive.append("%s: %s" % (variant, what))
        self.refcrash = None
        with ThreadPoolExecutor(JOBS) as ex:
            exes = {}
            fs = {ex.submit(compile_one, "C23", v, self.scratch): v for v in [ref] + others}
            for f in as_completed(fs):
                exes[fs[f]] = f.result()
            list(ex.map(lambda s: go(exes[ref], ref, s, n, JOBS, s, "ref", {"MON_WORKLOAD_OUT": wl, "MON_IMAGE_OUT": img[ref]}), range(JOBS)))
            if self.refcrash:
                cur, what, ph, gen, err = self.refcrash
                self.add_violation("build '%s': %s" % (ref, what or "no answer"), "phase: %s\ngenerator: %s\n%s" % (ph, gen, err), cur, ref, {}, "")
                return
            def split(v, mode, envx, k=2):
                return [ex.submit(go, exes[v], v, s, n, k, s, mode, envx) for s in range(k)]
            t = []
            for v in others:   # own build and own images
                t += split(v, "own", {"MON_WORKLOAD_IN": wl, "MON_IMAGE_OUT": img[v]})
            for x in t: x.result()
            t = []
            for v in others:   # every build reads the reference build's images; the reference reads theirs
                t += split(v, "reads-" + ref, {"MON_WORKLOAD_IN": wl, "MON_IMAGE_IN": img[ref]})
                t += split(ref, "reads-" + v, {"MON_WORKLOAD_IN": wl, "MON_IMAGE_IN": img[v]})
            for x in t: x.result()
        want = res.get((ref, "ref"), {})
        compared = 0
        for (v, mode), d in sorted(res.items()):
            for c, dd in sorted(d.items()):
                w = want.get(c)
                if w is None:
                    continue
                compared += len(dd)
                diff = [k for k in sorted(set(w) | set(dd)) if w.get(k) != dd.get(k)]
                if diff and not self.stop:
                    names = [("image" if k == "image" else ASKS[int(k)]) for k in diff]
                    keep = os.path.join(self.out, "case-%d.wl" % c)
                    shutil.copy(os.path.join(wl, "%d.wl" % c), keep)
                    self.add_violation("builds '%s' and '%s' (%s) disagree on: %s" % (ref, v, mode, ", ".join(names)), "case %d; workload kept in %s" % (c, keep), c, v, {}, "")
        self.extra = {"builds": {v: VARIANTS[v][2] for v in [ref] + others}, "digests_compared": compared, "passes": sorted("%s %s" % k for k in res)}
        self.noted = len(want)

    # ------------------------------------------------------------------ C22
    def bench_bins(self, which):
        """compile the real benchmark programs: 'rec' against the recording factory, 'plain' as they are"""
        bins = {"single": [], "multi": []}
        specs = []
        for kind, src in (("single", "workload.cpp"), ("multi", "workload_multi_thread.cpp")):
            for w in which:
                if kind == "multi" or not w.endswith("terse"):
                    specs.append((kind, src, w))
        def comp(spec):
            kind, src, w = spec
            d = os.path.join(self.scratch, "b-%s-%s" % (kind, w))
            os.makedirs(d)
            shutil.copy(os.path.join(REPO, "bench", src), d)
            exe = os.path.join(d, "prog")
            cmd = ["g++", "-w", "-std=c++11", "-g1", "-mpopcnt", "-pthread", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "bench")]
            if not w.endswith("terse"): # the short report, as the program is delivered
                cmd.append("-DVERBOSE")
            rec = w.startswith("rec")
            if rec:
                shutil.copy(os.path.join(HARNESS, "benchrec", "filter_factory.hpp"), d)
                cmd.append('-DMON_REAL_FACTORY="%s"' % os.path.join(REPO, "bench", "filter_factory.hpp"))
            if w.endswith("asan"):
                cmd += ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
            elif w.endswith("tsan"):
                cmd += ["-O1", "-fsanitize=thread", "-include", os.path.join(HARNESS, "benchrec", "tsan_exit.hpp")]
            elif w.endswith("ndebug"):
                cmd += ["-O2", "-DNDEBUG"]
            else:
                cmd += ["-O2"]
            p = subprocess.run(cmd + ["-o", exe, os.path.join(d, src)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return spec, (exe if p.returncode == 0 else None), p.stdout
        with ThreadPoolExecutor(JOBS) as ex:
            for (kind, src, w), exe, out in ex.map(comp, specs):
                if exe is None:
                    if w.startswith("rec"):
                        self.extra.setdefault("notes", []).append("%s: recording build not possible, judged by the report alone" % kind)
                        continue
                    raise Inconclusive("bench/%s does not compile: %s" % (src, out[-2000:]))
                bins[kind].append((w, exe, w.startswith("rec")))
        return bins

    def c22(self, only=None):
        import bench_driver as bd
        n = int((20000 if self.thorough else 900) * self.scale)
        bins = self.bench_bins(["rec", "ndebug", "rec-asan", "tsan", "rec-terse"])
        stats = {}
        def go(no):
            if self.stop or time.time() > self.deadline():
                return
            c = bd.gen_case(no, self.seed)
            pick = {}
            for kind in bins:
                b = {w: x for w, *x in bins[kind]}
                names = ["rec"]
                if no % 5 == 0: names = ["rec-asan"]
                if no % 7 == 1 and c["percent"] == 100: names.append("ndebug")
                if kind == "multi" and no % 4 == 3: names.append("rec-terse")
                if kind == "multi" and no % 9 == 2: names.append("tsan")
                if not any(x in b for x in names): names = ["ndebug"]
                pick[kind] = [(w, b[w][0], b[w][1]) for w in names if w in b]
            bad, st = bd.run_case(c, pick, self.scratch)
            if not bad and no % 2 == 1:
                bad = bd.run_reject(no, self.seed, pick, self.scratch)
                st["refused"] = st.get("refused", 0) + (not bad)
            with self.lock:
                for k, v in st.items():
                    stats[k] = stats.get(k, 0) + v
                self.cases += 1; self.noted += 1
                used = [w for w, _, _ in pick["multi" if c["multi"] else "single"]]
                for w in used:
                    pv = self.per_variant.setdefault("bench-" + w, {"cases": 0})
                    pv["cases"] += 1
                self.evals += st["queries"]; self.nontriv += st["queries"]
                if st["queries"]:
                    self.digests.add(hash((tuple(c["load"]), tuple(c["txn"]), tuple(bd.args_of(c)))))
                if len(self.samples) < 4 and len(c["load"]) < 9 and len(c["txn"]) < 20:
                    self.samples.append("%s %s | load %s | txn %s" % ("workload_multi_thread" if c["multi"] else "workload", " ".join(bd.args_of(c)), " ".join(c["load"]), " ".join(c["txn"])))
            if bad:
                kind, text, inc = bad
                if inc:
                    # slow machine or a hang: once more, alone
                    bad2, _ = bd.run_case(c, pick, self.scratch)
                    if bad2 and bad2[0] == "timeout":
                        inc = False
                    elif bad2 and not bad2[2]:
                        kind, text, inc = bad2
                if inc:
                    with self.lock:
                        self.inconclusive.append(text)
                elif not self.stop:
                    self.add_violation(kind, text, no, "bench-" + text.split(":")[0], {}, "arguments: %s\nload file:\n%s\n\ntransaction file:\n%s\n" % (" ".join(bd.args_of(c)), "\n".join(c["load"]), "\n".join(c["txn"])))
        cases = [only] if only is not None else range(n)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(go, cases))
        self.extra["history"] = stats

    # the multi-threaded benchmark itself under ThreadSanitizer
    def c16_bench(self):
        import bench_driver as bd
        bins = self.bench_bins(["tsan"])
        multi = {"multi": bins["multi"], "single": bins["single"]}
        done = [0]
        nos = [i for i in range(3 * int((400 if self.thorough else 30) * self.scale)) if i % 3 == 2]
        def go(no):
            if self.stop or time.time() > self.deadline():
                return
            c = bd.gen_case(no, self.seed + 77)
            c["threads"] = max(2, min(8, c["threads"]))
            bad, st = bd.run_case(c, multi, self.scratch)
            with self.lock:
                done[0] += 1
            if bad and not bad[2] and bad[0] in ("exit", "missed", "positives", "report-sum", "true-positives"):
                if not self.stop:
                    self.add_violation("multi-threaded benchmark: " + bad[0], bad[1], no, "bench-tsan", {}, "arguments: %s\nload file:\n%s\n\ntransaction file:\n%s\n" % (" ".join(bd.args_of(c)), "\n".join(c["load"]), "\n".join(c["txn"])))
            elif bad and bad[2]:
                with self.lock:
                    self.inconclusive.append(bad[1])
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(go, nos))
        self.extra["benchmark_runs_under_tsan"] = done[0]

    def replay(self, path):
        t = open(path).read()
        case = int(re.search(r"^case: (\d+)", t, re.M).group(1))
        self.seed = int(re.search(r"^seed: (\d+)", t, re.M).group(1))
        variant = re.search(r"^variant: (\S+)", t, re.M).group(1)
        env = json.loads(re.search(r"^env: (.*)$", t, re.M).group(1))
        if self.prop == "C22" or variant.startswith("bench-"):
            self.c22(only=case)
        elif self.prop == "C23":
            self.c23()
        else:
            exe = compile_one(self.prop, variant, self.scratch)
            j = [x for x in PLAN[self.prop] if x["variant"] == variant][0]
            self.worker(exe, dict(j, env=env), case, case + 1, 1, 0)

    def main(self, replay=None):
        try:
            if replay:
                text = open(replay).read()
                keep = os.path.join(self.scratch, "replay.txt")
                open(keep, "w").write(text)
                self.replay(keep)
            elif self.prop == "C22":
                self.c22()
            elif self.prop == "C23":
                self.c23()
            else:
                self.standard()
                if self.prop == "C16" and not self.stop:
                    self.c16_bench()
        except Inconclusive as e:
            self.inconclusive.append(str(e))
        return self.finish()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.prop not in PLAN:
        log("unknown property", a.prop)
        return 2
    text = open(a.replay).read() if a.replay else None
    if text is not None:      # Run() clears the output folder the file may live in
        fd, p = tempfile.mkstemp(prefix="mon-replay-")
        os.write(fd, text.encode())
        os.close(fd)
        a.replay = p
    try:
        return Run(a.prop, a.seed, a.thorough or os.environ.get("VERIF_TIER") == "thorough", a.scale).main(a.replay)
    finally:
        if a.replay:
            os.unlink(a.replay)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

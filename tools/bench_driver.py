"""C22: run the real benchmark programs on generated workload files, record every
inserted key and executed query at the filter interface, and check the recorded
history and the printed report against an independent recomputation."""
import time, bisect, os, random, re, shutil, subprocess

INT_RANGE = 92233697311      # documented in bench.hpp: size of an integer range query
EMAIL_RANGE = 128            # documented in bench.hpp: added to the last character of an e-mail key
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def be(v):
    return (v & (2 ** 64 - 1)).to_bytes(8, "big")


def upper(key, key_type):
    if key_type == "email":
        return key[:-1] + bytes([(key[-1] + EMAIL_RANGE) & 255])
    return be(int.from_bytes(key, "big") + INT_RANGE)


def gen_email(rng):
    dom = rng.choice(["com.gmail@", "com.yahoo@", "org.x@", "com.hotmail@", "net.a.b@", "edu.cs@", "x@"])
    alpha = rng.choice(["ab", "abcdefghijklmnopqrstuvwxyz0123456789._", "az", "~!{"])
    return dom + "".join(rng.choice(alpha) for _ in range(rng.randint(1, rng.choice([2, 5, 12]))))


def gen_case(no, seed):
    rng = random.Random(seed * 1000003 + no)
    multi = no % 3 == 2
    key_type = rng.choice(["randint", "timestamp", "email"])
    query = rng.choice(["point", "range"]) if multi else ["point", "range", "mix", "count-long", "count-short"][(no // 3 * 2 + no % 3) % 5]
    if query == "point":
        filt = rng.choice(["SuRF", "SuRFHash", "SuRFReal", "Bloom"] + ([] if multi else ["SuRFMixed"]))
    else:
        filt = rng.choice(["SuRF", "SuRFHash", "SuRFReal"] + ([] if multi else ["SuRFMixed"]))
    slen = rng.choice([1, 2, 3, 4, 7, 8, 12, 16, 31, 32]) if filt == "SuRFMixed" else rng.choice([1, 2, 4, 7, 8, 9, 16, 31, 32, 33, 48, 57, 63, 64])
    wl = "alterByte" if key_type == "email" and rng.random() < 0.35 else "mixed"
    dist = rng.choice(["uniform", "zipfian", "latest"])
    nload = rng.choice([1, 2, 3, 7, 50, 333, 1000, 2500])
    ntxn = rng.choice([1, 2, 3, 5, 16, 17, 100, 101, 999, 1000, 1501])
    percent = rng.choice([100, 100, 50, 1, 99, 33, 10, 75])
    if nload * percent // 100 == 0:
        percent = 100
    threads = rng.choice([1, 2, 3, 4, 5, 7, 8, 13, 16])
    load = set()
    if key_type == "email":
        for _ in range(nload * 3):
            if len(load) < nload:
                load.add(gen_email(rng))
        load = list(load)
        rng.shuffle(load)
        txn = []
        for _ in range(ntxn):
            m = rng.random()
            k = rng.choice(load)
            if m < 0.45:
                txn.append(k)
            elif m < 0.65:
                txn.append(k + rng.choice("abz09"))
            elif m < 0.8 and len(k) > 1:
                txn.append(k[:-1])
            elif m < 0.9:
                txn.append(k[:-1] + rng.choice("aAz~!0"))
            else:
                txn.append(gen_email(rng))
    else:
        top = 2 ** 64 - 1
        style = rng.choice(["random", "cluster", "stamps", "dense"])
        base = rng.randint(0, 2 ** 63)
        for _ in range(nload * 3):
            if len(load) < nload:
                load.add({"random": lambda: rng.randint(0, top), "cluster": lambda: base + rng.randint(0, nload * INT_RANGE // 2),
                          "stamps": lambda: 1400000000000000000 + rng.randint(0, 10 ** 15), "dense": lambda: base + rng.randint(0, nload * 4)}[style]())
        load = list(load)
        rng.shuffle(load)
        txn = []
        for _ in range(ntxn):
            m = rng.random()
            k = rng.choice(load)
            if m < 0.45:
                txn.append(k)
            elif m < 0.6:
                txn.append(max(0, k - INT_RANGE + rng.choice([-1, 0, 1])))   # range ends just around a stored key
            elif m < 0.75:
                txn.append(max(0, min(top, k + rng.choice([-1, 1, 255, -256]))))
            elif m < 0.85:
                txn.append(max(0, k - rng.randint(1, INT_RANGE)))
            else:
                txn.append(rng.randint(0, top))
        if query in ("count-short",):
            txn = [min(t, top - INT_RANGE) for t in txn]
        if query == "range" and rng.random() < 0.8:
            txn = [min(t, top - INT_RANGE) for t in txn]
    if rng.random() < 0.15:
        load += [rng.choice(load) for _ in range(3)]      # repeated records
    if rng.random() < 0.3 and len(txn) > 1:
        txn += [rng.choice(txn) for _ in range(2)]
    byte_pos = rng.choice([0, 0, 1, 2, 5, 11, 40]) if wl == "alterByte" else 0
    return dict(no=no, multi=multi, key_type=key_type, query=query, filt=filt, slen=slen, wl=wl, dist=dist, percent=percent,
                threads=threads, load=[str(x) for x in load], txn=[str(x) for x in txn], byte_pos=byte_pos,
                trailing=rng.choice(["\n", "", "\n\n"]))


def args_of(c):
    a = [c["filt"], str(c["slen"]), c["wl"], str(c["percent"]), str(c["byte_pos"]), c["key_type"], c["query"], c["dist"]]
    return a + [str(c["threads"])] if c["multi"] else a


def raw_key(tok, key_type):
    return tok.encode() if key_type == "email" else be(int(tok))


def run_case(c, bins, scratch, keep=None):
    """returns (kind, detail) of a violation or None, plus statistics"""
    d = os.path.join(scratch, "c%d" % c["no"])
    wd = os.path.join(d, "workloads")
    os.makedirs(wd, exist_ok=True)
    st = dict(queries=0, positives=0, tp=0, fp=0, threads=c["threads"] if c["multi"] else 0)
    try:
        def put(name, toks):
            with open(os.path.join(wd, name), "w") as f:
                f.write("\n".join(toks) + c["trailing"])
        put("load_" + c["key_type"], c["load"])
        for kt in ("randint", "timestamp", "email"):        # decoys: reading the wrong file must show
            if kt != c["key_type"]:
                put("load_" + kt, ["424242"])
            for dist in ("uniform", "zipfian", "latest"):
                put("txn_%s_%s" % (kt, dist), c["txn"] if (kt == c["key_type"] and dist == c["dist"]) else ["424242", "77"])
        log = os.path.join(d, "log")
        env = dict(os.environ, MON_LOG=log, ASAN_OPTIONS="detect_leaks=0:exitcode=68:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=68",
                   TSAN_OPTIONS="halt_on_error=1:exitcode=68")
        runs = []
        for name, exe, recorded in bins["multi" if c["multi"] else "single"]:
            if os.path.exists(log):
                os.unlink(log)
            t0 = time.time()
            try:
                p = subprocess.run([exe] + args_of(c), cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            except subprocess.TimeoutExpired:
                return ("timeout", "%s: no end after 120 s" % name, True), st
            wall = time.time() - t0
            out = ANSI.sub("", p.stdout.decode("utf8", "replace"))
            err = p.stderr.decode("utf8", "replace")
            if p.returncode == -9:
                return ("killed", "%s was killed (memory?)" % name, True), st
            if p.returncode != 0:
                return ("exit", "%s ended with status %d: %s %s" % (name, p.returncode, out[-300:], err[-1500:]), False), st
            ev = None
            if recorded and os.path.exists(log):
                ev = parse_log(open(log).read())
            bad = judge(c, name, out, ev, st)
            # no query phase lasts longer than the process
            t = re.search(r"^Throughput = (\S+)", out, re.M)
            if name.endswith("terse"): # one line per thread, then the total
                t = re.search(r"(?:^|\n)(\S+)\s*\Z", out)
                if not t and not bad:
                    bad = ("report", "no throughput: %r" % out[-300:])
            if not bad and t and wall < 100 and len(c["txn"]) > 2 * c["threads"] + 2: # a share of 0 queries has no rate
                try: v = float(t.group(1))
                except ValueError: v = -1.0
                least = (len(c["txn"]) - 1) / (wall + 0.01) / 1e6
                if not v >= 0.9 * least - 1e-6:
                    bad = ("throughput", "%d queries in a run of %.3f s, reported %s million per second" % (len(c["txn"]), wall, t.group(1)))
            # nor is a thread done before its last query has ended
            if not bad and t and ev and ev["span"] and c["query"] != "count-long" and len(c["txn"]) >= max(1, c["threads"]):
                most = sum(n / max(1, e - b) for n, b, e in ev["span"].values())
                try: v = float(t.group(1))
                except ValueError: v = float("nan")
                if not v <= 1.25 * most:
                    bad = ("throughput", "reported %s million queries per second; %s" % (t.group(1), ", ".join("a thread's %d queries took %d us" % (n, e - b) for n, b, e in ev["span"].values())))
            if bad:
                return (bad[0], "%s: %s" % (name, bad[1]), False), st
        return None, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_reject(no, seed, bins, scratch):
    """one documented rule of the arguments is broken: the program must refuse to run"""
    import random
    rng = random.Random("reject-%d-%d" % (seed, no))
    c = gen_case(no, seed)
    a = args_of(c)
    rules = {1: ["0", "65", "1000", "-1", "x", "100000"], 3: ["0", "101", "-1", "1000", "100000", "x"]}
    known = {0: ["SuRF", "SuRFHash", "SuRFReal", "SuRFMixed", "Bloom"], 2: ["mixed", "alterByte"], 5: ["randint", "timestamp", "email"],
             6: ["point", "range", "mix", "count-long", "count-short"], 7: ["uniform", "zipfian", "latest"]}
    for i, words in known.items():
        w = rng.choice(words)
        f = [w + rng.choice(["s", "ly", "x", "0", " ", "-" + rng.choice(words)]), w[:-1], w[:rng.randrange(1, len(w))], w[0].swapcase() + w[1:], w.upper() if w != w.upper() else w.lower(),
             rng.choice("xsS ") + w, w + w, w[1:], "", rng.choice(known[0] + known[5])]
        rules[i] = [x for x in f if x not in words + ["ARF"]]
    if c["multi"]:
        rules[0].append("SuRFMixed")
        rules[6] += ["mix", "count-long", "count-short"]
    if c["multi"]:
        rules[8] = ["0", "-1", "x"]
    kinds = sorted(rules) + ["less", "more", "none"]
    k = kinds[rng.randrange(len(kinds))]
    if k == "less":
        a = a[:rng.randrange(1, len(a))]
    elif k == "more":
        a = a + ["1"]
    elif k == "none":
        a = []
    else:
        a[k] = rng.choice(rules[k])
    d = os.path.join(scratch, "r%d" % no)
    wd = os.path.join(d, "workloads")
    os.makedirs(wd, exist_ok=True)
    what = "%s with arguments %r" % ("workload_multi_thread" if c["multi"] else "workload", a)
    try:
        for kt in ("randint", "timestamp", "email"):
            with open(os.path.join(wd, "load_" + kt), "w") as f:
                f.write("\n".join(str(1000 + i) for i in range(200)))
            for dist in ("uniform", "zipfian", "latest"):
                with open(os.path.join(wd, "txn_%s_%s" % (kt, dist)), "w") as f:
                    f.write("\n".join(str(1000 + i) for i in range(20)))
        log = os.path.join(d, "log")
        env = dict(os.environ, MON_LOG=log, ASAN_OPTIONS="detect_leaks=0:exitcode=68:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=68")
        for name, exe, recorded in bins["multi" if c["multi"] else "single"]:
            try:
                p = subprocess.run([exe] + a, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            except subprocess.TimeoutExpired:
                return ("timeout", "%s: no end after 120 s: %s" % (name, what), True)
            out = ANSI.sub("", p.stdout.decode("utf8", "replace"))
            if p.returncode == -9:
                return ("killed", "%s was killed (memory?)" % name, True)
            if p.returncode == 0:
                return ("accepted", "%s: %s ended with success: %s" % (name, what, out[-300:]), False)
            if p.returncode in (66, 67, 68) or p.returncode < 0:
                return ("accepted", "%s: %s was not refused but crashed (%d): %s" % (name, what, p.returncode, p.stderr.decode("utf8", "replace")[-800:]), False)
            if recorded and os.path.exists(log) and os.path.getsize(log):
                return ("accepted", "%s: %s was refused only after a filter had been built" % (name, what), False)
            if not out.strip() and not p.stderr.strip():
                return ("silent", "%s: %s was refused without a word" % (name, what), False)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parse_log(text):
    ev = dict(keys=[], q=[], created=0, mem=[], span={})
    for line in text.splitlines():
        f = line.split(" ")
        if f[0] == "F":
            ev["created"] += 1
            ev["what"] = (f[1], int(f[2]))
        elif f[0] == "K":
            ev["keys"].append(bytes.fromhex(f[1][1:]))
        elif f[0] == "L":
            ev["q"].append(("L", bytes.fromhex(f[1][1:]), b"", int(f[2])))
        elif f[0] in "RC":
            ev["q"].append((f[0], bytes.fromhex(f[1][1:]), bytes.fromhex(f[2][1:]), int(f[3])))
        if f[0] in "LRC" and len(f) >= 6:
            tid, b, e = (int(x) for x in f[-3:])
            n, b0, e0 = ev["span"].get(tid, (0, b, e))
            ev["span"][tid] = (n + 1, min(b, b0), max(e, e0))
        elif f[0] == "M":
            ev["mem"].append(int(f[1]))
    return ev


def field(out, name):
    m = re.search(r"^%s = ([-0-9.e+]+)\s*$" % re.escape(name), out, re.M)
    return m.group(1) if m else None


def judge(c, name, out, ev, st):
    kt = c["key_type"]
    load = sorted(raw_key(t, kt) for t in c["load"])
    txn = [raw_key(t, kt) for t in c["txn"]]
    if c["wl"] == "alterByte":
        def alter(k):
            pos = len(k) - 1 - c["byte_pos"]
            pos = max(pos, 0)
            return k[:pos] + b"+" + k[pos + 1:]
        txn = [alter(k) for k in txn]
    want = []
    if c["query"] == "point":
        want = [("L", k, b"") for k in txn]
    elif c["query"] == "range":
        want = [("R", k, upper(k, kt)) for k in txn]
    elif c["query"] == "mix":
        want = [("L", k, b"") if i % 2 == 0 else ("R", k, upper(k, kt)) for i, k in enumerate(txn)]
    elif c["query"] == "count-long":
        want = [("C", min(a, b), max(a, b)) for a, b in zip(txn, txn[1:])]
    else:
        want = [("C", k, upper(k, kt)) for k in txn]
    is_count = c["query"].startswith("count")
    st["queries"] += len(want)

    # the recorded history
    inserted = None
    if ev is not None and ev["created"]:
        if ev["created"] != 1:
            return "factory", "%d filters were created" % ev["created"]
        if ev["what"] != (c["filt"], c["slen"]):
            return "factory", "asked for %s/%d, built %s/%d" % (c["filt"], c["slen"], ev["what"][0], ev["what"][1])
        inserted = ev["keys"]
        if inserted != sorted(inserted):
            return "insert-order", "keys were inserted out of order"
        need = len(load) * c["percent"] // 100
        if len(inserted) != need:
            return "insert-count", "%d of %d loaded keys inserted, %d%% asked for" % (len(inserted), len(load), c["percent"])
        pool = {}
        for k in load:
            pool[k] = pool.get(k, 0) + 1
        for k in inserted:
            if pool.get(k, 0) == 0:
                return "insert-foreign", "inserted key %s is not (or not that often) in the load file" % k.hex()
            pool[k] -= 1
        got = [(a, b, d) for a, b, d, _ in ev["q"]]
        if sorted(got) != sorted(want):
            extra, miss = {}, {}
            for x in got:
                extra[x] = extra.get(x, 0) + 1
            for x in want:
                extra[x] = extra.get(x, 0) - 1
            diff = [(k, v) for k, v in extra.items() if v][:4]
            return "queries", "executed %d queries, the file lists %d; differences (executed minus listed): %s" % (
                len(got), len(want), "; ".join("%s %s %s: %+d" % (k[0], k[1].hex(), k[2].hex(), v) for k, v in diff))
        st["logged"] = st.get("logged", 0) + len(got)
    elif c["percent"] == 100:
        inserted = load

    present = sorted(set(inserted)) if inserted is not None else None

    def truth(q):
        if q[0] == "L":
            i = bisect.bisect_left(present, q[1])
            return i < len(present) and present[i] == q[1]
        i = bisect.bisect_left(present, q[1])
        return i < len(present) and present[i] < q[2]

    if name.endswith("terse"):
        for kind, a, b, v in ev["q"] if ev else []:
            if not v and truth((kind, a, b)):
                return "missed", "query %s %s %s is present but was answered false" % (kind, a.hex(), b.hex())
        return None

    # the report
    if is_count:
        s = field(out, "count")
        if s is None:
            return "report", "no count in the report: %r" % out[-300:]
        if ev is not None and ev["created"]:
            tot = 0
            for kind, a, b, v in ev["q"]:
                tot += v
                exact = bisect.bisect_right(present, b) - bisect.bisect_left(present, a)
                if c["filt"] != "Bloom" and not (exact - 2 <= v <= exact):
                    return "count-value", "count of [%s, %s] is %d, exact %d" % (a.hex(), b.hex(), v, exact)
            if int(s) != tot:
                return "count-sum", "reported count %s, the executed queries sum to %d" % (s, tot)
        elif present is not None:
            ex = [bisect.bisect_right(present, b) - bisect.bisect_left(present, a) for _, a, b in want]
            if not (sum(max(0, e - 2) for e in ex) <= int(s) <= sum(ex)):
                return "count-sum", "reported count %s, exact counts sum to %d" % (s, sum(ex))
        st["counted"] = st.get("counted", 0) + int(s)
        return None
    vals = {}
    for f in ("positives", "true positives", "false positives", "true negatives", "False Positive Rate"):
        v = field(out, f)
        if v is None:
            return "report", "the report lacks '%s': %r" % (f, out[-400:])
        vals[f] = float(v) if "Rate" in f else int(v)
    P, TP, FP, TN = vals["positives"], vals["true positives"], vals["false positives"], vals["true negatives"]
    if P != TP + FP:
        return "report-sum", "positives %d != true %d + false %d" % (P, TP, FP)
    if P + TN != len(want):
        return "report-sum", "positives %d + true negatives %d != %d queries" % (P, TN, len(want))
    if FP < 0 or TN < 0:
        return "report-sum", "negative counts: %s" % vals
    if present is not None:
        tp = sum(1 for q in want if truth(q))
        if TP != tp:
            return "true-positives", "reported true positives %d, %d queries are really present" % (TP, tp)
        if P < tp:
            return "positives", "positives %d < %d present queries" % (P, tp)
        st["tp"] += tp
    if ev is not None and ev["created"]:
        p = sum(v for _, _, _, v in ev["q"])
        if P != p:
            return "positives", "reported positives %d, the executed queries answered true %d times" % (P, p)
        for kind, a, b, v in ev["q"]:
            if not v and truth((kind, a, b)):
                return "missed", "query %s %s %s is present but was answered false" % (kind, a.hex(), b.hex())
    rate = FP / (TN + FP) if FP > 0 else 0.0
    if abs(vals["False Positive Rate"] - rate) > 1e-4 * max(rate, 1e-3):
        return "rate", "reported false positive rate %g, counts give %g" % (vals["False Positive Rate"], rate)
    mem = field(out, "Memory")
    if mem is not None and ev is not None and ev["mem"] and int(mem) not in ev["mem"]:
        return "memory", "reported memory %s, the filter said %s" % (mem, ev["mem"])
    st["positives"] += P
    st["fp"] += FP
    return None

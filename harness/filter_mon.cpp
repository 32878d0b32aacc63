// Run-time monitors over the public SuRF interface: C01-C15, C17-C19, C23.
#include "common.hpp"

// -DMON_ONLY=<n> builds a single monitor (the others are dropped as unused)
#ifdef MON_ONLY
#define WANT(n) (MON_ONLY == n)
#pragma GCC diagnostic ignored "-Wunused-function"
#else
#define WANT(n) 1
#endif
#include "ledger.hpp"

#include <cmath>
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include <sched.h>

#include "surf.hpp"

using namespace mon;
using surf::SuRF;
typedef SuRF::Iter Iter;

// ------------------------------------------------------------------- filters
static SuRF* makeFilter(const Strs& list, const Config& c) {
    ledger::Scope s;
    return new SuRF(list, c.dense, c.ratio, (surf::SuffixType)c.type, c.hlen, c.rlen);
}
static void dropFilter(SuRF* f) {
    f->destroy();
    delete f;
}
struct Owned {
    SuRF* f;
    explicit Owned(SuRF* x) : f(x) {}
    ~Owned() { if (f) dropFilter(f); }
    Owned(const Owned&) = delete;
    SuRF* operator->() { return f; }
};

// ----------------------------------------------------------- textual answers
enum AskKind { A_LOOKUP, A_RANGE, A_SEEK_G, A_SEEK_L, A_COUNT, A_COUNT_IT, A_CMP, A_STEP_F, A_STEP_B, A_FIRST, A_LAST, A_SIZES, A_SCAN_F, A_SCAN_B, A_KINDS };
static const char* kAskName[] = {"lookupKey", "lookupRange", "moveToKeyGreaterThan", "moveToKeyLessThan", "approxCount(strings)", "approxCount(iterators)",
                                 "compare", "seek then ++", "seek then --", "moveToFirst", "moveToLast", "sizes", "full forward scan", "full backward scan"};
struct Ask {
    int kind;
    Str a, b;
    bool ia, ib;
    Str str() const {
        return Str(kAskName[kind]) + "(" + hexShort(a) + (ia ? ",incl" : ",excl") + " ; " + hexShort(b) + (ib ? ",incl" : ",excl") + ")";
    }
};
static int sgn(int x) { return x == surf::kCouldBePositive ? 2018 : (x > 0) - (x < 0); }
static void iterText(const Iter& it, Str& o, bool withFlag) {
    o += it.isValid() ? 'V' : '-';
    if (withFlag) o += it.getFpFlag() ? 'f' : 'u';
    if (!it.isValid()) return;
    Str k = it.getKey();
    o += std::to_string(k.size()) + ":" + k;
    surf::word_t suf = 0;
    int len = it.getSuffix(&suf);
    o += "/" + std::to_string(len) + "=" + std::to_string((unsigned long long)suf);
    unsigned bl = 0;
    Str kw = it.getKeyWithSuffix(&bl);
    o += "/" + std::to_string(bl) + "=" + kw;
}
static Str ask(SuRF* f, const Ask& q) {
    Str o;
    switch (q.kind) {
    case A_LOOKUP: o = f->lookupKey(q.a) ? "1" : "0"; break;
    case A_RANGE: o = f->lookupRange(q.a, q.ia, q.b, q.ib) ? "1" : "0"; break;
    case A_SEEK_G: { Iter i = f->moveToKeyGreaterThan(q.a, q.ia); iterText(i, o, true); break; }
    case A_SEEK_L: { Iter i = f->moveToKeyLessThan(q.a, q.ia); iterText(i, o, true); break; }
    case A_COUNT: o = std::to_string((unsigned long long)f->approxCount(q.a, q.b)); break;
    case A_COUNT_IT: {
        Iter i = f->moveToKeyGreaterThan(q.a, true), j = f->moveToKeyGreaterThan(q.b, true);
        if (!j.isValid()) j = f->moveToLast();
        o = std::to_string((unsigned long long)f->approxCount(&i, &j));
        break;
    }
    case A_CMP: { Iter i = f->moveToKeyGreaterThan(q.a, q.ia); o = i.isValid() ? std::to_string(sgn(i.compare(q.b))) : "-"; break; }
    case A_STEP_F: {
        Iter i = f->moveToKeyGreaterThan(q.a, q.ia);
        for (int k = 0; k < 4 && i.isValid(); k++) { i++; iterText(i, o, false); }
        break;
    }
    case A_STEP_B: {
        Iter i = f->moveToKeyLessThan(q.a, q.ia);
        for (int k = 0; k < 4 && i.isValid(); k++) { i--; iterText(i, o, false); }
        break;
    }
    case A_FIRST: { Iter i = f->moveToFirst(); iterText(i, o, true); break; }
    case A_LAST: { Iter i = f->moveToLast(); iterText(i, o, true); break; }
    case A_SIZES:
        o = std::to_string((unsigned long long)f->serializedSize()) + "," + std::to_string((unsigned long long)f->getMemoryUsage()) + "," +
            std::to_string(f->getHeight()) + "," + std::to_string(f->getSparseStartLevel());
        break;
    case A_SCAN_F: case A_SCAN_B: {
        Iter i = q.kind == A_SCAN_F ? f->moveToFirst() : f->moveToLast();
        uint64_t h = 7, n = 0;
        while (i.isValid() && n < 2000000) {
            Str t;
            iterText(i, t, false);
            h = fnv(t, h);
            n++;
            if (q.kind == A_SCAN_F) i++; else i--;
        }
        o = std::to_string((unsigned long long)n) + "#" + std::to_string((unsigned long long)h);
        break;
    }
    }
    return o;
}
static std::vector<Ask> genAsks(Rng& r, const KeySet& ks, const Model& m, size_t n, bool scans, unsigned mask = ~0u) {
    std::vector<Ask> v;
    auto push = [&](int k, const Str& a, const Str& b, bool ia, bool ib) { if (mask & (1u << k)) v.push_back(Ask{k, a, b, ia, ib}); };
    push(A_SIZES, "", "", 0, 0);
    push(A_FIRST, "", "", 0, 0);
    push(A_LAST, "", "", 0, 0);
    if (scans) { push(A_SCAN_F, "", "", 0, 0); push(A_SCAN_B, "", "", 0, 0); }
    Strs near;
    for (size_t i = 0; i < n; i++) {
        Str a = oneQuery(r, ks, m), b = oneQuery(r, ks, m);
        int k = r.below(9);
        bool ordered = r.chance(15, 16);
        if ((k == A_RANGE || k == A_COUNT || k == A_COUNT_IT)) {
            if (ordered && b < a) std::swap(a, b);
            if (k != A_RANGE && b < a) std::swap(a, b);
        }
        push(k, a, b, r.chance(1, 2), r.chance(1, 2));
    }
    return v;
}
#ifndef MON_NO_LEDGER
// the same query with the n-th allocation failing; true when it was cut short
static bool askFailing(SuRF* f, const Ask& q, uint64_t nth) {
    ledger::Scope s;
    ledger::failAt() = nth;
    bool cut = false;
    try { Str x = ask(f, q); } catch (const std::bad_alloc&) { cut = true; }
    ledger::failAt() = 0;
    return cut;
}
#endif
static size_t fullScanLimit() { return 3000; }

static Str imageOf(SuRF* f) {
    uint64_t n = f->serializedSize();
    char* p = f->serialize();
    Str s(p, n);
    delete[] p;
    return s;
}
// restore from an exactly sized 8-byte-aligned private copy
struct Restored {
    char* buf; size_t n; SuRF* f;
    explicit Restored(const Str& img) {
        n = img.size();
        buf = (char*)malloc(n);
        memcpy(buf, img.data(), n);
        ledger::Scope s;
        f = SuRF::deSerialize(buf);
    }
    void loseBuffer() { if (buf) { memset(buf, 0xA5, n); free(buf); buf = nullptr; } }
    ~Restored() { loseBuffer(); if (f) dropFilter(f); }
    Restored(const Restored&) = delete;
};

static void setCtx(const KeySet& ks, const Config& c) { ctx().ks = &ks; ctx().cfg = c; ctx().haveCfg = true; strncpy(status()->gen, ks.gen.c_str(), sizeof(status()->gen) - 1); }
static Str num(uint64_t x) { return std::to_string((unsigned long long)x); }

static uint64_t gLargeEvery = 0, gHugeAt = 0;
static KeySet caseKeys(uint64_t c, Rng& r) { return genKeys(r, sizeOf(c, r, gLargeEvery, gHugeAt)); }
static size_t queryBudget(const KeySet& ks) { return ks.keys.size() < 60 ? 160 : ks.keys.size() < 1000 ? 400 : 1500; }
static int configsPer(const KeySet& ks) { return ks.keys.size() < 100 ? 4 : ks.keys.size() < 4000 ? 2 : 1; }

// ------------------------------------------------------------------------ C01
static void monC01(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 6)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        phase("lookupKey");
        for (auto& key : ks.keys)
            if (!f->lookupKey(key)) violate("missed-key", "lookupKey(" + hex(key) + ") = false, but the key is stored");
        evals(ks.keys.size(), ks.keys.size());
        aux(0, f->getSparseStartLevel() == 0); aux(1, f->getSparseStartLevel() == f->getHeight()); aux(2, f->getSparseStartLevel() > 0 && f->getSparseStartLevel() < f->getHeight());
        aux(4 + cfg.type);
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------- C02, C04
static void genInterval(Rng& r, const KeySet& ks, const Model& m, Str& lo, Str& hi) {
    lo = oneQuery(r, ks, m);
    unsigned k = r.below(5);
    if (k == 0) hi = oneQuery(r, ks, m);
    else if (k == 1) { // tight around one key
        size_t i = r.below(ks.keys.size());
        const Str& key = ks.keys[i];
        lo = r.chance(1, 2) ? key : key.substr(0, r.below(key.size() + 1));
        hi = r.chance(1, 2) ? key : key + randStr(r, allBytes(), 0, 2);
        if (r.chance(1, 3)) hi = key.substr(0, std::min<size_t>(key.size(), m.plen[i] + r.below(9)));
    } else if (k == 2) { // between two neighbours
        size_t i = r.below(ks.keys.size());
        lo = ks.keys[i] + (r.chance(1, 2) ? Str(1, '\0') : randStr(r, allBytes(), 0, 3));
        hi = i + 1 < ks.keys.size() ? ks.keys[i + 1] : Str("\xff\xff\xff");
        if (r.chance(1, 2)) hi = bump(hi, hi.size() - 1, -1);
        if (r.chance(1, 3)) hi = hi.substr(0, r.below(hi.size() + 1));
    } else if (k == 3) { // small extension of the left bound
        hi = lo + randStr(r, allBytes(), 0, 3);
        if (r.chance(1, 2)) hi = bump(lo, lo.size() - 1, 1);
    } else { // a stored key's bits with different tails on both sides
        size_t i = r.below(ks.keys.size());
        Str p = ks.keys[i].substr(0, std::min<size_t>(ks.keys[i].size(), m.plen[i] + r.below(10)));
        lo = p + randStr(r, allBytes(), 0, 3);
        hi = p + randStr(r, allBytes(), 0, 3);
    }
    if (hi < lo) std::swap(lo, hi);
}
static void monRange(uint64_t c, Rng& r, bool noMiss) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 8)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        phase("lookupRange");
        size_t nq = queryBudget(ks) * 2;
        for (size_t i = 0; i < nq; i++) {
            Str lo, hi;
            genInterval(r, ks, m, lo, hi);
            bool li = r.chance(1, 2), ri = r.chance(1, 2);
            bool got = f->lookupRange(lo, li, hi, ri);
            if (noMiss) {
                size_t a = li ? m.lowerBound(lo) : m.upperBound(lo), b = ri ? m.upperBound(hi) : m.lowerBound(hi);
                bool must = a < b;
                evals(1, must);
                if (must && !got)
                    violate("missed-range", "lookupRange(" + hex(lo) + (li ? " incl" : " excl") + ", " + hex(hi) + (ri ? " incl" : " excl") + ") = false, but stored key " + hex(ks.keys[a]) + " is inside");
            } else {
                size_t fst = m.firstNotLess(lo), end = m.endNotGreater(hi);
                bool mustNot = fst >= end;
                evals(1, mustNot);
                if (mustNot && got)
                    violate("false-range", "lookupRange(" + hex(lo) + (li ? " incl" : " excl") + ", " + hex(hi) + (ri ? " incl" : " excl") + ") = true, but the stored bits place every key outside the closed interval" +
                            (fst < m.n() ? Str("; first key not below the left bound is ") + hex(ks.keys[fst]) + " kept prefix " + hex(m.prefix(fst)) + " suffix " + num(m.suffix(fst)) : Str()));
            }
        }
        aux(4 + cfg.type); aux(0, f->getSparseStartLevel() == 0);
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C03
static void monC03(uint64_t c, Rng& r) {
    if (c % 16 == 7) { // statistics of the hash bits
        uint32_t n = 1 + (c / 16) % 25;
        bool mixed = r.chance(1, 3), longKeys = r.chance(1, 2);
        KeySet ks;
        size_t longest = !longKeys ? 14 : r.chance(1, 3) ? 3000 : 300, nk = longest > 1000 ? 300 : r.range(500, 2000);
        for (size_t i = 0; i < nk; i++) ks.keys.push_back(randStr(r, allBytes(), 4, longest));
        ks.gen = "hash-statistics(n=" + num(nk) + ")";
        ks.finish();
        Config cfg;
        pickLayout(r, cfg);
        cfg.type = mixed ? T_MIXED : T_HASH; cfg.hlen = n; cfg.rlen = mixed ? r.range(1, 8) : 0;
        setCtx(ks, cfg);
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        phase("hash acceptance rate");
        uint64_t trials = 60000 * opt().scale, acc = 0, tested = 0;
        for (uint64_t t = 0; t < trials; t++) {
            size_t i = r.below(m.n());
            Str q = ks.keys[i].substr(0, m.plen[i]);
            if (mixed) { q = ks.keys[i].substr(0, std::min<size_t>(ks.keys[i].size(), m.plen[i] + (cfg.rlen + 7) / 8)); }
            // the absent key may go along with the stored one for any length
            if (longKeys && q.size() < ks.keys[i].size()) q = ks.keys[i].substr(0, r.range(q.size(), ks.keys[i].size()));
            q += randStr(r, allBytes(), longKeys ? 4 : mixed ? 1 : 0, longKeys ? 12 : 8);
            if (m.term[i] || m.stored(q) || !m.admits(q)) continue;
            tested++;
            if (f->lookupKey(q)) acc++;
        }
        double exp = tested * std::pow(0.5, (double)n), lim = exp * 1.35 + 7 * std::sqrt(exp) + 6;
        evals(tested, tested);
        aux(8, tested); aux(9, acc); aux(10, (uint64_t)exp);
        if (acc > lim) violate("hash-acceptance", num(acc) + " of " + num(tested) + " absent keys accepted with " + num(n) + " hash bits; expected about " + num((uint64_t)exp));
        if (n >= 12) { // every byte of a key counts: a difference anywhere past the kept bits is noticed, wherever it is
            phase("hash sees every byte");
            static const size_t lo[] = {0, 8, 32, 64, 128, 256, 1024};
            uint64_t seen[16 + 128] = {0}, took[16 + 128] = {0};
            for (uint64_t t = 0; t < trials / 2; t++) {
                size_t i = r.below(m.n());
                const Str& key = ks.keys[i];
                size_t from = m.plen[i] + (mixed ? (cfg.rlen + 7) / 8 : 0);
                if (from >= key.size() || m.term[i]) continue;
                Str q = key;
                size_t at = r.chance(1, 2) ? r.range(from, key.size() - 1) : key.size() - 1 - r.below(std::min<size_t>(8, key.size() - from));
                q[at] = (char)(q[at] ^ (char)r.range(1, 255));
                if (m.stored(q) || !m.admits(q)) continue;
                bool got = f->lookupKey(q);
                size_t b = 6;
                while (at < lo[b]) b--;
                seen[b]++; took[b] += got;
                size_t e = 7 + std::min<size_t>(8, key.size() - 1 - at);
                seen[e]++; took[e] += got;
                if (e < 15) { e = 16 + key.size() % 16 * 8 + e - 7; seen[e]++; took[e] += got; }
            }
            for (size_t b = 16; b < 16 + 128; b++) { // the last bytes, by the key's length modulo 16
                evals(seen[b] > 40, seen[b] > 40);
                if (seen[b] > 40 && took[b] * 2 > seen[b])
                    violate("hash-blind", num(took[b]) + " of " + num(seen[b]) + " absent keys were accepted that differ from a stored one in one byte, " + num((b - 16) % 8) + " bytes before the end of a key of length " + num((b - 16) / 8) + " modulo 16, with " + num(n) + " hash bits");
            }
            for (size_t b = 0; b < 16; b++) {
                evals(seen[b] > 100, seen[b] > 100);
                if (seen[b] > 100 && took[b] * 10 > seen[b] * 3)
                    violate("hash-blind", num(took[b]) + " of " + num(seen[b]) + " absent keys were accepted that differ from a stored one in one byte " +
                            (b < 7 ? "at offset " + num(lo[b]) + " or later" : num(b - 7) + (b == 15 ? " or more" : "") + " bytes before the end") + ", with " + num(n) + " hash bits");
            }
        }
        noteCase(ks, cfg);
        return;
    }
    KeySet ks = caseKeys(c, r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        phase("lookupKey");
        size_t nq = queryBudget(ks) * 2;
        for (size_t i = 0; i < nq; i++) {
            Str q = oneQuery(r, ks, m);
            bool got = f->lookupKey(q);
            bool may = m.stored(q) || m.admits(q);
            evals(1, !may);
            if (got && !may) violate("false-point", "lookupKey(" + hex(q) + ") = true, but no stored key keeps bits compatible with it");
            aux(0, got);
        }
        aux(4 + cfg.type);
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C05
static Str atIndex(const Model& m, size_t i) { return i < m.n() ? "key #" + num(i) + " " + hex((*m.K)[i]) + " (kept prefix " + hex(m.prefix(i)) + ")" : "the end"; }
static void monC05(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 8)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        size_t n = m.n();
        phase("forward scan");
        {
            Iter it = f->moveToFirst();
            for (size_t i = 0; i < n; i++) {
                if (!it.isValid()) violate("scan-short", "forward scan became invalid before " + atIndex(m, i) + " of " + num(n));
                Str g = it.getKey();
                if (g != m.prefix(i)) violate("scan-wrong", "forward scan position " + num(i) + " shows " + hex(g) + ", expected " + atIndex(m, i));
                bool ret = it++;
                if (ret != it.isValid()) violate("step-return", "++ returned " + num(ret) + " but isValid() is " + num(it.isValid()) + " after " + atIndex(m, i));
            }
            if (it.isValid()) violate("scan-long", "forward scan still valid after " + num(n) + " positions, showing " + hex(it.getKey()));
            it++;
            if (it.isValid()) violate("scan-revived", "++ on an exhausted iterator made it valid");
            evals(n, n);
        }
        phase("backward scan");
        {
            Iter it = f->moveToLast();
            for (size_t i = n; i-- > 0;) {
                if (!it.isValid()) violate("scan-short", "backward scan became invalid before " + atIndex(m, i));
                Str g = it.getKey();
                if (g != m.prefix(i)) violate("scan-wrong", "backward scan shows " + hex(g) + ", expected " + atIndex(m, i));
                bool ret = it--;
                if (ret != it.isValid()) violate("step-return", "-- returned " + num(ret) + " but isValid() is " + num(it.isValid()));
            }
            if (it.isValid()) violate("scan-long", "backward scan still valid after " + num(n) + " positions, showing " + hex(it.getKey()));
            it--;
            if (it.isValid()) violate("scan-revived", "-- on an exhausted iterator made it valid");
            evals(n, n);
        }
        phase("turns and copies");
        size_t turns = n < 300 ? n : 300;
        Iter walk = f->moveToFirst();
        size_t at = 0;
        for (size_t t = 0; t < turns; t++) {
            // random walk with a model index
            unsigned steps = r.range(1, 5);
            bool fwd = r.chance(3, 5);
            for (unsigned s = 0; s < steps; s++) {
                if (fwd && at + 1 < n) { walk++; at++; }
                else if (!fwd && at > 0) { walk--; at--; }
                else break;
                if (!walk.isValid() || walk.getKey() != m.prefix(at))
                    violate("turn-wrong", Str("after changing direction the iterator shows ") + (walk.isValid() ? hex(walk.getKey()) : Str("nothing")) + ", expected " + atIndex(m, at));
            }
            Iter copy = walk;
            if (at + 1 < n) {
                copy++;
                if (!copy.isValid() || copy.getKey() != m.prefix(at + 1)) violate("turn-wrong", "++ on a copy does not reach " + atIndex(m, at + 1));
                copy--;
                if (!copy.isValid() || copy.getKey() != m.prefix(at)) violate("turn-wrong", "++ then -- does not return to " + atIndex(m, at));
            }
            Iter copy2(walk);
            if (at > 0) {
                copy2--;
                if (!copy2.isValid() || copy2.getKey() != m.prefix(at - 1)) violate("turn-wrong", "-- on a copy does not reach " + atIndex(m, at - 1));
                copy2++;
                if (!copy2.isValid() || copy2.getKey() != m.prefix(at)) violate("turn-wrong", "-- then ++ does not return to " + atIndex(m, at));
            }
            if (!walk.isValid() || walk.getKey() != m.prefix(at)) violate("copy-not-independent", "stepping a copy moved the original away from " + atIndex(m, at));
            evals(2, 2);
        }
        // a pool of live iterators, some copied from others in mid-flight: stepping
        // one of them must leave every other one exactly where the model has it
        phase("entangled iterators");
        {
            const size_t P = 5;
            struct Live { Iter it; size_t at; bool on; };
            auto seen = [](const Iter& it) { unsigned bits = 0; Str k = it.getKeyWithSuffix(&bits); k += '|'; k += num(bits); return k; };
            std::vector<Str> shown(n); // what each position showed first
            std::vector<char> known(n, 0);
            std::vector<Live> pool;
            for (size_t p = 0; p < P; p++) {
                bool back = r.chance(1, 2);
                pool.push_back(Live{back ? f->moveToLast() : f->moveToFirst(), back ? n - 1 : 0, true});
                for (unsigned s = r.below(4); s > 0; s--) {
                    Live& l = pool.back();
                    if (!back && l.at + 1 < n) { l.it++; l.at++; }
                    if (back && l.at > 0) { l.it--; l.at--; }
                }
            }
            auto look = [&](size_t moved, const char* how) {
                for (size_t p = 0; p < P; p++) {
                    Live& l = pool[p];
                    if (!l.on) { if (l.it.isValid()) violate("copy-not-independent", Str(how) + " on one iterator revived another that had run off the end"); continue; }
                    Str who = p == moved ? "the stepped iterator" : "an iterator nobody touched";
                    if (!l.it.isValid() || l.it.getKey() != m.prefix(l.at))
                        violate("copy-not-independent", Str("after ") + how + " " + who + " shows " + (l.it.isValid() ? hex(l.it.getKey()) : Str("nothing")) + ", expected " + atIndex(m, l.at));
                    Str sfx = seen(l.it);
                    if (!known[l.at]) { known[l.at] = 1; shown[l.at] = sfx; }
                    else if (shown[l.at] != sfx)
                        violate("copy-not-independent", Str("after ") + how + " " + who + " at " + atIndex(m, l.at) + " shows suffix " + hex(sfx) + ", earlier " + hex(shown[l.at]));
                }
            };
            size_t ops = n < 200 ? 60 + n : 260;
            for (size_t o = 0; o < ops; o++) {
                size_t a = r.below(P), b = r.below(P);
                Live& l = pool[a];
                switch (r.below(8)) {
                case 0: if (a != b) { l.it = pool[b].it; l.at = pool[b].at; l.on = pool[b].on; } look(a, "copy assignment"); break;
                case 1: { Iter tmp(pool[b].it); l.it = std::move(tmp); l.at = pool[b].at; l.on = pool[b].on; look(a, "copy and move assignment"); break; }
                case 2: { Iter fresh; fresh = l.it; for (int s = 0; s < 3; s++) { if (o & 1) fresh++; else fresh--; } look(a, "stepping a temporary copy"); break; }
                default: {
                    bool fwd = r.chance(1, 2);
                    if (!l.on) { l.it = fwd ? f->moveToFirst() : f->moveToLast(); l.at = fwd ? 0 : n - 1; l.on = true; }
                    else if (fwd) { l.it++; l.at++; l.on = l.at < n; }
                    else { l.it--; l.on = l.at > 0; l.at--; }
                    look(a, fwd ? "++" : "--");
                }
                }
            }
            evals(ops, ops);
            aux(1, ops);
        }
        // jump somewhere with a seek, then walk both ways
        for (size_t t = 0; t < 40; t++) {
            size_t i = r.below(n);
            Iter it = f->moveToKeyGreaterThan(ks.keys[i], true);
            if (!it.isValid() || it.getKey() != m.prefix(i)) continue; // C06's business
            size_t j = i;
            for (int s = 0; s < 6 && j + 1 < n; s++) { it++; j++; if (!it.isValid() || it.getKey() != m.prefix(j)) violate("scan-after-seek", "stepping on from a seek to " + atIndex(m, i) + " misses " + atIndex(m, j)); }
            if (j + 1 == n) { Iter e = it; e++; if (e.isValid()) violate("scan-long", "++ past the last key stays valid"); }
            for (int s = 0; s < 12 && j > 0; s++) { it--; j--; if (!it.isValid() || it.getKey() != m.prefix(j)) violate("scan-after-seek", "stepping back from a seek to " + atIndex(m, i) + " misses " + atIndex(m, j)); }
            if (j == 0) { it--; if (it.isValid()) violate("scan-long", "-- past the first key stays valid"); }
            evals(1, 1);
        }
        aux(0, f->getSparseStartLevel() == 0);
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------- C06, C07
static void walkCheck(Iter it, size_t j, const Model& m, Rng& r, const Str& what, bool back) {
    size_t n = m.n();
    size_t steps = r.chance(1, 10) ? 40 : 3;
    if (!back) {
        for (size_t s = 0; s < steps; s++) {
            it++; j++;
            if (j >= n) { if (it.isValid()) violate("seek-then-scan", what + ": ++ past the last key stays valid"); return; }
            if (!it.isValid() || it.getKey() != m.prefix(j)) violate("seek-then-scan", what + ": ++ shows " + (it.isValid() ? hex(it.getKey()) : Str("nothing")) + ", expected " + atIndex(m, j));
        }
    } else {
        for (size_t s = 0; s < steps; s++) {
            it--;
            if (j == 0) { if (it.isValid()) violate("seek-then-scan", what + ": -- past the first key stays valid"); return; }
            j--;
            if (!it.isValid() || it.getKey() != m.prefix(j)) violate("seek-then-scan", what + ": -- shows " + (it.isValid() ? hex(it.getKey()) : Str("nothing")) + ", expected " + atIndex(m, j));
        }
    }
}
static void seekG(SuRF* f, const Model& m, const Str& q, bool inc, Rng& r) {
    const Strs& K = *m.K;
    size_t n = m.n(), t = inc ? m.lowerBound(q) : m.upperBound(q);
    Iter it = f->moveToKeyGreaterThan(q, inc);
    bool flag = it.getFpFlag();
    Str what = "moveToKeyGreaterThan(" + hex(q) + (inc ? ", inclusive)" : ", exclusive)");
    if (!it.isValid()) {
        if (t < n) violate("seek-missed", what + " is invalid, but the successor is " + atIndex(m, t));
        evals(1, 1);
        return;
    }
    Str g = it.getKey();
    size_t j = n;
    if (t < n && g == m.prefix(t)) j = t;
    else if (t > 0 && g == m.prefix(t - 1)) j = t - 1;
    if (j == n) {
        for (size_t i = 0; i < n && n < 100000; i++) if (g == m.prefix(i)) j = i;
        violate(j < n && j > t ? "seek-beyond" : "seek-wrong", what + " lands on " + (j < n ? atIndex(m, j) : "bytes " + hex(g)) + ", successor is " + atIndex(m, t) + (flag ? " (flagged)" : " (unflagged)"));
        return;
    }
    if (!flag && j != t) violate("seek-unflagged", what + " lands unflagged on " + atIndex(m, j) + ", successor is " + atIndex(m, t));
    if (flag && !m.mayBeUndecided(j, q)) violate("seek-overflagged", what + " flags " + atIndex(m, j) + " although its stored bits decide the order");
    if (j != t && !m.mayBeUndecided(j, q)) violate("seek-wrong", what + " lands on " + atIndex(m, j) + " which is provably not greater");
    evals(1, t > 0 && t < n);
    aux(0, flag); aux(1, t < n && K[t] == q);
    walkCheck(it, j, m, r, what + " landed on " + atIndex(m, j), false);
}
static void seekL(SuRF* f, const Model& m, const Str& q, bool inc, Rng& r) {
    const Strs& K = *m.K;
    size_t n = m.n(), e = inc ? m.upperBound(q) : m.lowerBound(q); // predecessor is e-1
    Iter it = f->moveToKeyLessThan(q, inc);
    bool flag = it.getFpFlag();
    Str what = "moveToKeyLessThan(" + hex(q) + (inc ? ", inclusive)" : ", exclusive)");
    Str want = e > 0 ? atIndex(m, e - 1) : Str("none");
    if (!it.isValid()) {
        if (e > 0) violate("seek-missed", what + " is invalid, but the predecessor is " + want);
        evals(1, 1);
        return;
    }
    Str g = it.getKey();
    size_t j = n;
    if (e > 0 && g == m.prefix(e - 1)) j = e - 1;
    else if (e < n && g == m.prefix(e)) j = e;
    if (j == n) {
        for (size_t i = 0; i < n && n < 100000; i++) if (g == m.prefix(i)) j = i;
        violate("seek-wrong", what + " lands on " + (j < n ? atIndex(m, j) : "bytes " + hex(g)) + ", predecessor is " + want + (flag ? " (flagged)" : " (unflagged)"));
        return;
    }
    bool exact = inc && K[j] == q;
    bool isPred = e > 0 && j == e - 1;
    if (!flag && !isPred) violate("seek-unflagged", what + " lands unflagged on " + atIndex(m, j) + ", predecessor is " + want);
    if (flag && !m.mayBeUndecided(j, q) && !exact) violate("seek-overflagged", what + " flags " + atIndex(m, j) + " although its stored bits decide the order");
    if (!isPred && !m.mayBeUndecided(j, q)) violate("seek-wrong", what + " lands on " + atIndex(m, j) + " which is provably not less");
    evals(1, e > 0 && e < n);
    aux(0, flag); aux(1, exact);
    walkCheck(it, j, m, r, what + " landed on " + atIndex(m, j), true);
}
static void monSeek(uint64_t c, Rng& r, bool fwd) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 8)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        phase("seek");
        size_t nq = queryBudget(ks);
        if (ks.keys.size() < 400)
            for (auto& key : ks.keys) {
                if (fwd) { seekG(f.f, m, key, true, r); seekG(f.f, m, key, false, r); }
                else { seekL(f.f, m, key, true, r); seekL(f.f, m, key, false, r); }
            }
        for (size_t i = 0; i < nq; i++) {
            Str q = i == 0 ? Str() : oneQuery(r, ks, m);
            bool inc = r.chance(1, 2);
            if (fwd) { seekG(f.f, m, q, inc, r); if (i < 30) seekG(f.f, m, q, !inc, r); }
            else { seekL(f.f, m, q, inc, r); if (i < 30) seekL(f.f, m, q, !inc, r); }
        }
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C08
static void checkPosition(const Iter& it, size_t i, const Model& m, const Str& how) {
    const Config& cfg = m.c;
    Str want = m.prefix(i), g = it.getKey();
    if (g != want) violate("key-bytes", "getKey() at " + atIndex(m, i) + " reached by " + how + " = " + hex(g));
    surf::word_t suf = 0x5555;
    int len = it.getSuffix(&suf);
    uint64_t s = m.suffix(i);
    uint32_t rb = m.realBits();
    if (cfg.type == T_NONE || cfg.type == T_HASH) {
        if (len != 0 || suf != 0) violate("suffix-bits", "getSuffix() reports " + num(len) + " bits (" + num(suf) + ") without real suffixes at " + atIndex(m, i));
    } else {
        if (suf != s) violate("suffix-bits", "getSuffix() at " + atIndex(m, i) + " reached by " + how + " = " + num(suf) + ", the key supplies " + num(s));
        if (!(len == (int)rb || (s == 0 && len == 0))) violate("suffix-bits", "getSuffix() reports a length of " + num(len) + " bits, configured " + num(rb));
    }
    unsigned bl = 77;
    Str kw = it.getKeyWithSuffix(&bl);
    Str wk = want;
    unsigned wb = 0;
    if (s != 0) {
        wb = rb % 8;
        for (uint32_t b = 0; b < rb; b += 8) {
            unsigned v = 0;
            for (uint32_t x = b; x < b + 8; x++) v = (v << 1) | (x < rb ? (unsigned)((s >> (rb - 1 - x)) & 1) : 0);
            wk += (char)v;
        }
    }
    if (kw != wk || bl != wb) violate("key-with-suffix", "getKeyWithSuffix() at " + atIndex(m, i) + " reached by " + how + " = " + hex(kw) + " (odd bits " + num(bl) + "), expected " + hex(wk) + " (odd bits " + num(wb) + ")");
}
static void checkCompare(const Iter& it, size_t i, const Model& m, const Str& q) {
    int c = it.compare(q);
    int truth = (*m.K)[i].compare(q);
    Str what = "compare(" + hex(q) + ") at " + atIndex(m, i) + " = " + std::to_string(c);
    if (c == surf::kCouldBePositive) {
        if (!(m.mayBeUndecided(i, q) || (m.term[i] && truth == 0))) violate("compare-undecided", what + " (undecided) although the stored bits decide");
        aux(1);
    } else if ((c < 0 && !(truth < 0)) || (c > 0 && !(truth > 0)) || (c == 0 && truth != 0))
        violate("compare-wrong", what + ", but the stored key compares " + std::to_string(truth < 0 ? -1 : truth > 0));
    evals(1, 1);
}
static void monC08(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 8)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = r.chance(2, 3) ? pickConfig(r, r.chance(1, 2) ? T_REAL : T_MIXED) : pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        size_t n = m.n();
        phase("scan and inspect");
        {
            Iter it = f->moveToFirst();
            size_t i = 0;
            for (; i < n && it.isValid(); i++, it++) {
                checkPosition(it, i, m, "forward scan");
                evals(3, 3);
                if (n < 200 || r.chance(1, 16)) {
                    checkCompare(it, i, m, ks.keys[i]);
                    for (int z = 0; z < 3; z++) checkCompare(it, i, m, oneQuery(r, ks, m));
                    if (i + 1 < n) checkCompare(it, i, m, ks.keys[i + 1]);
                    if (i) checkCompare(it, i, m, ks.keys[i - 1]);
                    const Str& key = ks.keys[i];
                    size_t pl = m.plen[i];
                    checkCompare(it, i, m, key.substr(0, std::min<size_t>(key.size(), pl + r.below(9))));
                    checkCompare(it, i, m, key.substr(0, pl) + randStr(r, allBytes(), 0, 9));
                    Str q = key; if (q.size() > pl) q[pl + r.below(std::min<size_t>(9, q.size() - pl))] ^= (char)(1 << r.below(8));
                    checkCompare(it, i, m, q);
                    checkCompare(it, i, m, key + Str(1, (char)r.below(256)));
                    checkCompare(it, i, m, "");
                    if (pl > 2018) checkCompare(it, i, m, key.substr(0, pl - 2018));
                    if (n < 200) for (int z = 0; z < 4; z++) { size_t j = r.below(n); checkCompare(it, i, m, ks.keys[j]); }
                }
            }
            // an early end is C05's business
        }
        phase("seek and inspect");
        for (size_t t = 0; t < std::min<size_t>(n, 200); t++) {
            size_t i = r.below(n);
            unsigned route = r.below(4);
            Iter it = route == 0 ? f->moveToKeyGreaterThan(ks.keys[i], true) : route == 1 ? f->moveToKeyLessThan(ks.keys[i], true)
                      : route == 2 ? f->moveToLast() : f->moveToKeyGreaterThan(oneQuery(r, ks, m), r.chance(1, 2));
            const char* names[] = {"forward seek", "backward seek", "moveToLast", "forward seek"};
            if (!it.isValid()) continue;
            if (r.chance(1, 3)) { if (r.chance(1, 2)) it++; else it--; if (!it.isValid()) continue; }
            // find the position by its key bytes (a wrong landing is C06/C07's business, wrong bytes are ours)
            Str g = it.getKey();
            size_t j = m.lowerBound(g);
            size_t hit = n;
            for (int d = -1; d <= 0; d++) { if (d < 0 && j == 0) continue; size_t x = j + d; if (x < n && m.prefix(x) == g) hit = x; }
            if (hit == n) { violate("key-bytes", Str("position reached by ") + names[route] + " shows " + hex(g) + " which is no key's distinguishing prefix"); }
            checkPosition(it, hit, m, names[route]);
            checkCompare(it, hit, m, oneQuery(r, ks, m));
            checkCompare(it, hit, m, ks.keys[hit]);
            evals(3, 3);
        }
        aux(4 + cfg.type);
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C09
static void monC09(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 8)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        size_t n = m.n();
        phase("approxCount(strings)");
        size_t nq = queryBudget(ks);
        auto strCount = [&](const Str& lo, const Str& hi) {
            uint64_t got = f->approxCount(lo, hi), truth = m.upperBound(hi) - m.lowerBound(lo);
            evals(1, truth > 2);
            aux(0, truth - got == 0); aux(1, truth - got == 1); aux(2, truth - got == 2);
            if (got > truth || truth - got > 2) violate(got > truth ? "overcount" : "undercount", "approxCount(" + hex(lo) + ", " + hex(hi) + ") = " + num(got) + ", true count in the closed interval " + num(truth));
        };
        strCount("", Str(400, '\xff'));
        strCount(ks.keys[0], ks.keys[n - 1]);
        for (size_t i = 0; i < nq; i++) {
            Str lo, hi;
            if (r.chance(1, 2)) { lo = oneQuery(r, ks, m); hi = oneQuery(r, ks, m); }
            else if (r.chance(1, 2)) genInterval(r, ks, m, lo, hi);
            else { lo = ks.keys[r.below(n)]; hi = ks.keys[r.below(n)]; }
            if (hi < lo) std::swap(lo, hi);
            strCount(lo, hi);
        }
        phase("approxCount(iterators)");
        // iterators at known indices, reached by different routes
        std::vector<std::pair<size_t, Iter> > its;
        auto add = [&](const Iter& it) {
            if (!it.isValid()) return;
            Str g = it.getKey();
            size_t j = m.lowerBound(g);
            for (int d = -1; d <= 0; d++) { if (d < 0 && j == 0) continue; size_t x = j + d; if (x < n && m.prefix(x) == g) { its.push_back(std::make_pair(x, it)); return; } }
        };
        add(f->moveToFirst());
        add(f->moveToLast());
        if (n <= 60) { Iter it = f->moveToFirst(); for (size_t i = 0; i < n && it.isValid(); i++) { add(it); it++; } it = f->moveToLast(); for (size_t i = 0; i < n && it.isValid(); i++) { add(it); it--; } }
        for (size_t i = 0; i < 60; i++) {
            Iter it = r.chance(1, 2) ? f->moveToKeyGreaterThan(r.chance(1, 2) ? ks.keys[r.below(n)] : oneQuery(r, ks, m), r.chance(1, 2)) : f->moveToKeyLessThan(oneQuery(r, ks, m), r.chance(1, 2));
            if (it.isValid() && r.chance(1, 3)) { unsigned s = r.range(1, 4); bool fw = r.chance(1, 2); for (unsigned z = 0; z < s && it.isValid(); z++) { if (fw) it++; else it--; } }
            add(it);
        }
        for (size_t i = 0; i < nq && its.size() > 1; i++) {
            auto *a = &its[r.below(its.size())], *b = &its[r.below(its.size())];
            if (a->first > b->first) std::swap(a, b);
            uint64_t got = f->approxCount(&a->second, &b->second), truth = b->first - a->first + 1;
            evals(1, truth > 2);
            aux(3, truth - got == 0); aux(4, truth - got == 1); aux(5, truth - got == 2);
            if (got > truth || truth - got > 2) violate(got > truth ? "overcount-iter" : "undercount-iter", "approxCount(iterator at " + atIndex(m, a->first) + ", iterator at " + atIndex(m, b->first) + ") = " + num(got) + ", true count in the closed interval " + num(truth));
        }
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------- comparing two filters
static void sameAnswers(SuRF* a, SuRF* b, const std::vector<Ask>& qs, const Str& kind, const Str& who) {
    for (auto& q : qs) {
        Str x = ask(a, q), y = ask(b, q);
        if (x != y) violate(kind, q.str() + " differs: " + who + " | " + hexShort(x) + " vs " + hexShort(y) + " (as text: " + x.substr(0, 80) + " vs " + y.substr(0, 80) + ")");
        evals(1, 1);
        aux(q.kind);
    }
}

// ------------------------------------------------------------------------ C10
static void monC10(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        std::vector<Ask> qs = genAsks(r, ks, m, queryBudget(ks), true);
        phase("serialize");
        Str img = imageOf(f.f);
        phase("deserialize");
        Restored a(img);
        sameAnswers(f.f, a.f, qs, "restored-differs", "original vs restored");
        phase("deserialize, buffer gone");
        Restored b(img);
        b.loseBuffer();
        sameAnswers(f.f, b.f, qs, "restored-depends-on-buffer", "original vs restored after its bytes were overwritten and freed");
        phase("second generation");
        Str img2 = imageOf(b.f);
        Restored d(img2);
        a.loseBuffer();
        std::vector<Ask> q2 = genAsks(r, ks, m, 60, true);
        sameAnswers(f.f, d.f, q2, "restored-twice-differs", "original vs restored from a restored filter");
        phase("restored outlives the original");
        Config c2 = pickConfig(r);
        std::vector<Str> before;
        for (auto& q : q2) before.push_back(ask(f.f, q));
        dropFilter(f.f);
        f.f = nullptr;
        for (size_t i = 0; i < q2.size(); i++) if (ask(a.f, q2[i]) != before[i]) violate("restored-depends-on-original", q2[i].str() + " on the restored filter changed after the original was destroyed");
        (void)c2;
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C11
// restore from an image that ends at an unmapped page
static SuRF* restoreGuarded(const Str& img, char** base, size_t* len) {
    size_t pg = 4096, n = (img.size() + pg - 1) / pg * pg + pg;
    char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return nullptr;
    mprotect(p + n - pg, pg, PROT_NONE);
    char* at = p + n - pg - img.size(); // 8-aligned: image sizes are multiples of 8
    if ((uintptr_t)at % 8) at -= (uintptr_t)at % 8;
    memcpy(at, img.data(), img.size());
    *base = p; *len = n;
    return SuRF::deSerialize(at);
}
static void monC11(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        phase("serialize");
        auto image = [&](SuRF* x, const char* who) {
            uint64_t n = x->serializedSize();
            char* p;
            { ledger::Scope s; p = x->serialize(); }
#ifndef MON_NO_LEDGER
            uint64_t got = ledger::counters().lastSize;
            if (got < n) violate("image-size", Str("serialize() of the ") + who + " filter returned a block of " + num(got) + " bytes, serializedSize() = " + num(n));
#endif
            if ((uintptr_t)p % 8) violate("image-alignment", "serialize() returned a block that is not 8-byte aligned");
            Str s(p, n);
            delete[] p; // the ledger checks the canary behind the block
            return s;
        };
        auto same = [&](const Str& a, const Str& b, const char* who) {
            evals(1, 1);
            if (a == b) return;
            size_t d = 0;
            while (d < a.size() && d < b.size() && a[d] == b[d]) d++;
            violate("image-differs", Str(who) + ": sizes " + num(a.size()) + " and " + num(b.size()) + ", first difference at byte " + num(d));
        };
        Str i1 = image(f.f, "built");
        same(i1, image(f.f, "built"), "same filter serialized twice");
        {
            // shift the heap so that the second build sees different memory
            std::vector<std::unique_ptr<char[]> > junk;
            for (int j = 0; j < 20; j++) { size_t s = r.range(1, 5000); junk.emplace_back(new char[s]); memset(junk.back().get(), (int)r.below(256), s); }
            if (r.chance(1, 2)) junk.clear();
            Owned g(makeFilter(ks.list, cfg));
            same(i1, image(g.f, "rebuilt"), "two filters built from the same keys and configuration");
        }
        phase("queries, then serialize");
        std::vector<Ask> qs = genAsks(r, ks, m, 60, ks.keys.size() < fullScanLimit());
        for (auto& q : qs) ask(f.f, q);
        same(i1, image(f.f, "queried"), "image before and after queries");
        phase("restore and serialize");
        char* base = nullptr;
        size_t len = 0;
        SuRF* g = restoreGuarded(i1, &base, &len);
        if (g) {
            Str i2 = image(g, "restored");
            same(i1, i2, "image of the restored filter");
            for (auto& q : qs) ask(g, q);
            same(i1, image(g, "restored"), "image of the restored filter after queries");
            munmap(base, len);
            same(i1, image(g, "restored"), "image of the restored filter after its source was unmapped");
            dropFilter(g);
        }
        // two restored filters from differently placed copies
        Restored x(i1);
        x.loseBuffer();
        same(i1, image(x.f, "restored"), "image of a filter restored from a heap copy");
        aux(0, i1.size());
        noteCase(ks, cfg, "image bytes " + num(i1.size()));
    }
}

// ------------------------------------------------------------------------ C12
// No value oracle: sanitizers, assertions and the allocator are the judges.
static void monC12(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 6)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        std::vector<Ask> qs = genAsks(r, ks, m, queryBudget(ks), true);
        phase("lookups of stored keys");
        for (size_t i = 0; i < ks.keys.size() && i < 3000; i++) { f->lookupKey(ks.keys[i]); }
        phase("queries");
        for (auto& q : qs) { phase(kAskName[q.kind]); ask(f.f, q); aux(q.kind); }
        evals(qs.size() + ks.keys.size(), qs.size() + ks.keys.size());
        phase("iterators outside the list");
        {
            Iter it = f->moveToLast();
            it++; it++; it--; it.getKey();
            Iter jt = f->moveToFirst();
            jt--; jt--; jt++; jt.getKey();
            Iter kt; // default constructed: an invalid position that can be copied, assigned and asked
            kt.isValid();
            std::vector<Iter> spare(3);
            spare.resize(7);
            spare[1] = kt;
            for (auto& s : spare) {
                bool any = s.isValid();
                any |= s.getFpFlag();
                surf::word_t w = 0;
                unsigned bl = 0;
                any |= s.getSuffix(&w) != 0;
                any |= !s.getKey().empty() || !s.getKeyWithSuffix(&bl).empty();
                s++; s--;
                if (any) violate("default-iterator", "a default-constructed iterator claims a position, a flag or a key");
            }
            spare[2] = it; spare[3] = jt; spare[4] = f->moveToFirst();
            spare.erase(spare.begin());
            spare[3]++;
            it = jt;
            it.clear();
            it.isValid();
            Iter a = f->moveToFirst(), b = f->moveToLast();
            f->approxCount(&a, &b);
            f->approxCount(&a, &a);
            f->approxCount(&b, &b);
            f->approxCount(&it, &b);
        }
        phase("serialize");
        Str img = imageOf(f.f);
        phase("restore");
        Restored g(img);
        if (r.chance(1, 2)) g.loseBuffer();
        phase("queries on the restored filter");
        for (auto& q : qs) { phase(kAskName[q.kind]); ask(g.f, q); }
        evals(qs.size(), qs.size());
        phase("serialize the restored filter");
        Str img2 = imageOf(g.f);
        phase("destroy");
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C13
static void monC13(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    for (int k = 0; k < (ks.keys.size() < 100 ? 2 : 1); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        Model m;
        m.build(ks.keys, cfg);
        unsigned mask = ~0u & ~(1u << A_SIZES) & ~(1u << A_COUNT) & ~(1u << A_COUNT_IT);
        std::vector<Ask> qs = genAsks(r, ks, m, queryBudget(ks), true, mask);
        for (auto& key : ks.keys) { if (qs.size() > 3000) break; qs.push_back(Ask{A_SEEK_G, key, "", r.chance(1, 2), 0}); qs.push_back(Ask{A_SEEK_L, key, "", r.chance(1, 2), 0}); qs.push_back(Ask{A_CMP, key, oneQuery(r, ks, m), true, 0}); }
        std::vector<Config> layouts;
        static const uint32_t ratios[] = {0, 1, 4, 16, 64, 1000000};
        for (uint32_t ra : ratios) { Config x = cfg; x.dense = true; x.ratio = ra; layouts.push_back(x); }
        { Config x = cfg; x.dense = false; layouts.push_back(x); }
        { Config x = cfg; x.dense = true; x.ratio = (uint32_t)r.range(2, 300); layouts.push_back(x); }
        if (ks.keys.size() > 4000) { layouts = {layouts[0], layouts[3], layouts[5], layouts[6]}; }
        phase("build");
        std::vector<std::unique_ptr<Owned> > fs;
        std::set<uint32_t> cuts;
        for (auto& l : layouts) { setCtx(ks, l); fs.emplace_back(new Owned(makeFilter(ks.list, l))); cuts.insert((*fs.back())->getSparseStartLevel()); }
        for (size_t i = 1; i < fs.size(); i++) {
            setCtx(ks, layouts[i]);
            phase("compare layouts");
            if (fs[i]->f->getHeight() != fs[0]->f->getHeight()) violate("layout-height", "height " + num(fs[i]->f->getHeight()) + " vs " + num(fs[0]->f->getHeight()) + " with " + layouts[0].str());
            if (i > 1 && fs[i]->f->getSparseStartLevel() == fs[i - 1]->f->getSparseStartLevel() && !r.chance(1, 6)) continue;
            sameAnswers(fs[0]->f, fs[i]->f, qs, "layout-answer", layouts[0].str() + " vs " + layouts[i].str());
        }
        aux(20, cuts.size() > 1); aux(21, cuts.size());
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C14
static void monC14(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    KeySet dup = ks;
    dup.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        Model m;
        m.build(ks.keys, cfg);
        std::vector<Ask> qs = genAsks(r, ks, m, queryBudget(ks) / 2, true);
        setCtx(dup, cfg);
        phase("build with repeats");
        Owned a(makeFilter(ks.list, cfg)), b(makeFilter(dup.list, cfg));
        Str ia = imageOf(a.f), ib = imageOf(b.f);
        evals(1, dup.list.size() > ks.list.size());
        if (ia != ib) violate("repeats-image", "images differ: " + num(ia.size()) + " vs " + num(ib.size()) + " bytes with " + num(dup.list.size() - ks.list.size()) + " repeated entries");
        sameAnswers(a.f, b.f, qs, "repeats-answer", "without vs with repeats");
        phase("constructors");
        auto cmp = [&](SuRF* x, const Str& want, const char* who) {
            Str ix = imageOf(x);
            evals(1, 1);
            if (ix != want) violate("constructor-image", Str(who) + ": images differ (" + num(ix.size()) + " vs " + num(want.size()) + " bytes)");
        };
        {
            Owned x(new SuRF());
            x->create(ks.list, cfg.dense, cfg.ratio, (surf::SuffixType)cfg.type, cfg.hlen, cfg.rlen);
            cmp(x.f, ia, "create() on a default-constructed filter vs the six-argument constructor");
            sameAnswers(a.f, x.f, qs, "constructor-answer", "constructor vs create()");
        }
        if (r.chance(1, 2)) { // the object of a destroyed filter is used again
            KeySet other = genKeys(r, TINY);
            Config oc = pickConfig(r);
            Owned x(new SuRF(other.list, oc.dense, oc.ratio, (surf::SuffixType)oc.type, oc.hlen, oc.rlen));
            x->moveToFirst(); x->approxCount(other.keys.front(), other.keys.back());
            x->destroy();
            x->create(dup.list, cfg.dense, cfg.ratio, (surf::SuffixType)cfg.type, cfg.hlen, cfg.rlen);
            cmp(x.f, ia, "create() on the object of a destroyed filter vs the six-argument constructor");
            sameAnswers(a.f, x.f, qs, "constructor-answer", "constructor vs create() on the object of a destroyed filter");
        }
        Config dc = cfg;
        dc.dense = surf::kIncludeDense; dc.ratio = surf::kSparseDenseRatio;
        {
            Owned full(makeFilter(ks.list, dc));
            Owned x(new SuRF(ks.list, (surf::SuffixType)cfg.type, cfg.hlen, cfg.rlen));
            Str want = imageOf(full.f);
            cmp(x.f, want, "four-argument constructor vs six arguments with the default layout");
            sameAnswers(full.f, x.f, qs, "constructor-answer", "six-argument vs four-argument constructor");
            Owned y(new SuRF(dup.list, (surf::SuffixType)cfg.type, cfg.hlen, cfg.rlen));
            cmp(y.f, want, "four-argument constructor with repeats");
        }
        {
            Config nc = dc;
            nc.type = T_NONE; nc.hlen = nc.rlen = 0;
            Owned full(makeFilter(ks.list, nc));
            Owned x(new SuRF(dup.list));
            cmp(x.f, imageOf(full.f), "one-argument constructor (with repeats) vs explicit no-suffix defaults");
            Model m2; m2.build(ks.keys, nc);
            sameAnswers(full.f, x.f, qs, "constructor-answer", "six-argument vs one-argument constructor");
        }
        // a list held in differently allocated strings
        {
            Strs fat;
            for (auto& s : dup.list) { Str t; t.reserve(s.size() + 40); t = s; fat.push_back(t); }
            Owned x(makeFilter(fat, cfg));
            cmp(x.f, ia, "same keys in differently allocated strings");
        }
        noteCase(dup, cfg);
    }
}

// ------------------------------------------------------------------------ C15
static void monC15(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    KeySet other = genKeys(r, TINY);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r), cfg2 = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(nullptr), g(makeFilter(ks.list, cfg)), h(makeFilter(other.list, cfg2));
        if (r.chance(1, 4)) { Restored rs(imageOf(g.f)); f.f = rs.f; rs.f = nullptr; } // a restored filter
        else f.f = makeFilter(ks.list, cfg);
        Model m, mo;
        m.build(ks.keys, cfg);
        mo.build(other.keys, cfg2);
        size_t nq = queryBudget(ks) / 2;
        std::vector<Ask> qs = genAsks(r, ks, m, nq, ks.keys.size() < fullScanLimit());
        std::vector<Ask> noise = genAsks(r, other, mo, 40, true);
        Str img = imageOf(f.f), imgh = imageOf(h.f);
        phase("baseline");
        // each answer the first time it is asked; the first few on a filter that was never queried before
        std::vector<Str> base;
        for (size_t i = 0; i < qs.size(); i++) {
            if (i < 6 && ks.keys.size() < 4000) { Owned fresh(makeFilter(ks.list, cfg)); base.push_back(ask(fresh.f, qs[i])); }
            else base.push_back(ask(g.f, qs[i]));
        }
        phase("shuffled, interleaved with other filters and live iterators");
        std::vector<size_t> ord(qs.size());
        for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
        struct Live { Iter it; Str text; };
        std::vector<Live> live;
        for (int round = 0; round < 2; round++) {
            for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
            for (size_t i : ord) {
                Str x = ask(f.f, qs[i]);
                if (x != base[i]) violate("history-dependent", qs[i].str() + " answered " + x.substr(0, 80) + " after other queries, " + base[i].substr(0, 80) + " before");
                evals(1, 1);
                aux(qs[i].kind);
                if (r.chance(1, 4)) ask(h.f, r.pick(noise));
#ifndef MON_NO_LEDGER
                if (r.chance(1, 8)) { // a query cut short by an allocation failure leaves no trace either
                    bool cut = askFailing(f.f, qs[i], r.range(1, r.chance(1, 2) ? 9 : 60));
                    aux(20, cut);
                    Str y = ask(f.f, qs[i]);
                    if (y != base[i]) violate("history-dependent", qs[i].str() + " answered " + y.substr(0, 80) + " after the same query was cut short by an allocation failure, " + base[i].substr(0, 80) + " before");
                    evals(1, cut);
                }
#endif
                if (r.chance(1, 4)) ask(f.f, Ask{A_RANGE, oneQuery(r, ks, m), oneQuery(r, ks, m), r.chance(1, 2), r.chance(1, 2)}); // any bounds, even crossed
                if (live.size() < 12 && r.chance(1, 6)) {
                    Live l{r.chance(1, 2) ? f->moveToKeyGreaterThan(qs[i].a, qs[i].ia) : f->moveToKeyLessThan(qs[i].a, qs[i].ia), ""};
                    iterText(l.it, l.text, true);
                    live.push_back(l);
                }
                if (!live.empty() && r.chance(1, 8)) {
                    Live& l = live[r.below(live.size())];
                    Str t;
                    iterText(l.it, t, true);
                    if (t != l.text) violate("iterator-disturbed", "a live iterator changed from " + l.text.substr(0, 60) + " to " + t.substr(0, 60) + " while other queries ran");
                    if (r.chance(1, 2)) { if (r.chance(1, 2)) l.it++; else l.it--; l.text.clear(); iterText(l.it, l.text, true); }
                    evals(1, 1);
                }
            }
        }
        for (auto& l : live) { Str t; iterText(l.it, t, true); if (t != l.text) violate("iterator-disturbed", "a live iterator changed while other queries ran"); }
#ifndef MON_NO_LEDGER
        phase("allocation failures in a fresh thread");
        { // nothing is warmed up there, so every allocation a query may make is made
            Str bad;
            uint64_t cuts = 0, seed = r.next();
            size_t tries = ks.keys.size() < 4000 ? 24 : 8;
            std::thread th([&]() {
                Rng tr(seed);
                for (size_t t = 0; t < tries && bad.empty(); t++) {
                    size_t i = tr.below(qs.size());
                    if (qs[i].kind == A_SCAN_F || qs[i].kind == A_SCAN_B) continue;
                    uint64_t nth = tr.chance(1, 2) ? tr.range(1, 6) : tr.range(1, 30);
                    cuts += askFailing(f.f, qs[i], nth);
                    Str y = ask(f.f, qs[i]);
                    if (y != base[i]) bad = qs[i].str() + " answered " + y.substr(0, 80) + " after the same query was cut short by the failure of its allocation no. " + num(nth) + " in a new thread, " + base[i].substr(0, 80) + " before";
                }
            });
            th.join();
            if (!bad.empty()) violate("history-dependent", bad);
            evals(cuts, cuts);
            aux(20, cuts);
        }
#endif
        phase("queries in one buffer");
        { // the caller's string changes in place between the queries
            Ask q;
            size_t room = 0;
            for (auto& x : qs) room = std::max(room, std::max(x.a.size(), x.b.size()));
            q.a.reserve(room + 1); q.b.reserve(room + 1);
            for (int t = 0; t < 60; t++) {
                size_t i = r.below(qs.size());
                if (qs[i].kind == A_SCAN_F || qs[i].kind == A_SCAN_B || qs[i].kind == A_SIZES) continue;
                q.kind = qs[i].kind; q.a.assign(qs[i].a); q.b.assign(qs[i].b); q.ia = qs[i].ia; q.ib = qs[i].ib;
                Str x = ask(f.f, q);
                Str& z = q.b.empty() || r.chance(1, 2) ? q.a : q.b;
                if (x == base[i] && !z.empty()) {
                    size_t at = r.below(z.size());
                    char was = z[at];
                    z[at] = (char)(was ^ (char)r.range(1, 255));
                    Ask fresh = q;
                    if (!((q.kind == A_COUNT || q.kind == A_COUNT_IT) && q.b < q.a)) {
                        Str y = ask(f.f, q), w = ask(g.f, fresh);
                        if (y != w) violate("history-dependent", fresh.str() + " answered " + y.substr(0, 80) + " when asked in the buffer of another query, " + w.substr(0, 80) + " otherwise");
                    }
                    z[at] = was;
                    x = ask(f.f, q);
                }
                if (x != base[i]) violate("history-dependent", qs[i].str() + " answered " + x.substr(0, 80) + " in a buffer used for other queries before, " + base[i].substr(0, 80) + " otherwise");
                evals(1, 1);
            }
        }
        if (c % 64 == 7 && k == 0 && ks.keys.size() < 400) {
            phase("long history");
            std::vector<size_t> cheap;
            for (size_t i = 0; i < qs.size(); i++) if (qs[i].kind < A_SIZES && qs[i].a.size() + qs[i].b.size() < 200) cheap.push_back(i);
            unsigned only = r.below(3) ? r.below(9) : 99; // mostly one kind of query, or all of them
            std::vector<size_t> some;
            for (size_t i : cheap) if (only == 99 || qs[i].kind == (int)only) some.push_back(i);
            for (int t = 0; t < 70000 && !some.empty(); t++) {
                size_t i = some[t % 3 ? r.below(some.size()) : t % some.size()];
                if (ask(f.f, qs[i]) != base[i]) violate("history-dependent", qs[i].str() + " answered otherwise after some " + num(t) + " queries");
            }
            for (size_t i : cheap) if (ask(f.f, qs[i]) != base[i]) violate("history-dependent", qs[i].str() + " answered otherwise after some 70000 queries");
            aux(21); evals(70000, 70000);
        }
        phase("image after queries");
        if (imageOf(f.f) != img) violate("query-changed-image", "the filter's image changed after queries");
        if (imageOf(h.f) != imgh) violate("query-changed-image", "another filter's image changed after queries");
        evals(2, 2);
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C17
// ------------------------------------------------------------------------ C16
// Several threads hammer one fresh filter (no warm-up, so that lazily filled
// state would be caught) while others build, restore and destroy filters of
// their own.  Every answer is compared with the answer a twin filter gives
// sequentially afterwards; under ThreadSanitizer every access is also checked.
#if WANT(16)
struct Gate { // all threads leave together
    std::atomic<int> waiting{0};
    int n;
    explicit Gate(int k) : n(k) {}
    void pass() { waiting.fetch_add(1); while (waiting.load() < n) sched_yield(); }
};
struct LongScan { uint64_t n, h; };
static LongScan scanAll(SuRF* f, bool fwd) {
    LongScan s{0, 7};
    Iter i = fwd ? f->moveToFirst() : f->moveToLast();
    while (i.isValid() && s.n < 3000) {
        Str t;
        iterText(i, t, false);
        s.h = fnv(t, s.h);
        s.n++;
        if (fwd) i++; else i--;
    }
    return s;
}
static void monC16(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    while (ks.keys.size() > 3000) ks = genKeys(r, SMALL);
    if (r.chance(1, 3)) ks.addRepeats(r);
    Config cfg = pickConfig(r);
    setCtx(ks, cfg);
    Model m;
    m.build(ks.keys, cfg);
    int nThreads = r.range(2, 8), builders = r.below(3);
    size_t per = ks.keys.size() < 100 ? 120 : 60;
    std::vector<std::vector<Ask>> qs(nThreads);
    std::vector<Ask> common = genAsks(r, ks, m, per, false);
    for (int t = 0; t < nThreads; t++) {
        if (r.chance(1, 3)) qs[t] = common; // the same queries at the same time
        else if (r.chance(1, 3)) { // one kind of query per thread
            unsigned kind = r.below(9);
            qs[t] = genAsks(r, ks, m, per * 3, false, 1u << kind);
        } else qs[t] = genAsks(r, ks, m, per, false);
        for (size_t i = qs[t].size(); i > 1; i--) std::swap(qs[t][i - 1], qs[t][r.below(i)]);
    }
    phase("shared queries");
    SuRF* f = nullptr;
    Str refImg;
    std::unique_ptr<Restored> rs;
    bool restored = r.chance(1, 3);
    if (restored) { // the shared filter is a restored one
        Owned o(makeFilter(ks.list, cfg));
        rs.reset(new Restored(imageOf(o.f)));
        f = rs->f;
    } else
        f = makeFilter(ks.list, cfg);
    std::vector<std::vector<Str>> got(nThreads);
    std::vector<std::vector<uint64_t>> stamp(nThreads);
    std::vector<Str> img(nThreads);
    std::vector<LongScan> fs(nThreads), bs(nThreads);
    std::vector<int> role(nThreads);
    for (auto& x : role) x = r.below(4);
    std::vector<Str> bimg(builders), bimg2(builders);
    std::vector<Str> bask(builders);
    // half of the builders work on other keys with another configuration
    std::vector<KeySet> bks(builders);
    std::vector<Config> bcfg(builders, cfg);
    std::vector<std::vector<Ask>> bqs(builders);
    std::vector<int> own(builders);
    for (int b = 0; b < builders; b++) {
        own[b] = r.chance(1, 2);
        if (own[b]) {
            bks[b] = genKeys(r, SMALL);
            bcfg[b] = pickConfig(r);
            Model bm;
            bm.build(bks[b].keys, bcfg[b]);
            bqs[b] = genAsks(r, bks[b], bm, 15, false);
        } else {
            bks[b] = ks;
            bqs[b].assign(common.begin(), common.begin() + std::min<size_t>(20, common.size()));
        }
    }
    // iterators that all threads read (and copy) at the same time
    std::vector<Iter> shared;
    std::vector<Str> probes;
    if (r.chance(1, 2)) {
        for (int i = 0; i < 8; i++) {
            probes.push_back(oneQuery(r, ks, m));
            shared.push_back(i % 2 ? f->moveToKeyGreaterThan(probes[i], r.chance(1, 2)) : f->moveToKeyLessThan(probes[i], r.chance(1, 2)));
        }
    }
    std::vector<Str> gotShared(nThreads);
    auto readShared = [&probes](SuRF* g, const std::vector<Iter>& its, uint64_t seed) {
        Str out;
        Rng rr(seed);
        for (int i = 0; i < 24 && !its.empty(); i++) {
            const Iter& a = its[rr.below(its.size())];
            const Iter& b = its[rr.below(its.size())];
            Str t;
            iterText(a, t, true);
            out += t;
            if (a.isValid()) out += num(a.compare(probes[rr.below(probes.size())]) + 9);
            if (a.isValid() && b.isValid()) {
                if (!(b.getKey() < a.getKey())) out += "#" + num(g->approxCount(&a, &b));
                Iter c = a;
                if (rr.chance(1, 2)) c++; else c--;
                iterText(c, t, true);
                out += t;
            }
        }
        return out;
    };
    Gate gate(nThreads + builders);
    std::vector<std::thread> th;
    uint64_t salt = r.next();
    for (int t = 0; t < nThreads; t++)
        th.emplace_back([&, t]() {
            Rng rr(mix(salt, t));
            gate.pass();
            if (role[t] == 1) img[t] = imageOf(f);
            if (role[t] == 2) fs[t] = scanAll(f, true);
            if (role[t] == 3) bs[t] = scanAll(f, false);
            for (auto& q : qs[t]) {
                stamp[t].push_back(__builtin_ia32_rdtsc());
                got[t].push_back(ask(f, q));
                if (rr.chance(1, 16)) sched_yield();
            }
            gotShared[t] = readShared(f, shared, mix(salt, 100 + t));
        });
    Str one; // an image several threads restore from at the same time
    bool sameImage = r.chance(1, 2);
    if (sameImage) { Owned o(makeFilter(ks.list, cfg)); one = imageOf(o.f); }
    std::vector<Str> rimg(builders);
    for (int b = 0; b < builders; b++)
        th.emplace_back([&, b]() {
            gate.pass();
            SuRF* o = makeFilter(bks[b].list, bcfg[b]);
            bimg[b] = imageOf(o);
            for (auto& q : bqs[b]) bask[b] += ask(o, q) + ";";
            dropFilter(o);
            Restored x(bimg[b]);
            bimg2[b] = imageOf(x.f);
            if (sameImage) {
                SuRF* y = SuRF::deSerialize(&one[0]);
                rimg[b] = imageOf(y);
                dropFilter(y);
            }
        });
    for (auto& t : th) t.join();
    phase("compare with sequential answers");
    Owned twin(makeFilter(ks.list, cfg));
    refImg = imageOf(twin.f);
    uint64_t n = 0;
    for (int t = 0; t < nThreads; t++) {
        for (size_t i = 0; i < qs[t].size(); i++) {
            Str w = ask(twin.f, qs[t][i]);
            n++;
            aux(qs[t][i].kind);
            if (got[t][i] != w) violate("concurrent-answer", "thread " + num(t) + " of " + num(nThreads) + ": " + qs[t][i].str() + " answered " + hexShort(got[t][i]) + " while other threads queried, " + hexShort(w) + " alone");
        }
        if (role[t] == 1 && img[t] != refImg) violate("concurrent-image", "image serialized while other threads queried differs from the sequential one");
        if (role[t] == 2 || role[t] == 3) {
            LongScan w = scanAll(twin.f, role[t] == 2), g = role[t] == 2 ? fs[t] : bs[t];
            if (w.n != g.n || w.h != g.h) violate("concurrent-scan", "a scan run while other threads queried visited " + num(g.n) + " positions (sequentially " + num(w.n) + ") or different contents");
            aux(16);
        }
    }
    {
        for (int t = 0; t < nThreads; t++) {
            Str w = readShared(f, shared, mix(salt, 100 + t));
            if (gotShared[t] != w) violate("concurrent-iterator", "iterators read and copied by several threads at the same time showed " + gotShared[t].substr(0, 200) + ", alone " + w.substr(0, 200));
            aux(22, shared.empty() ? 0 : 24);
        }
    }
    for (int b = 0; b < builders; b++) {
        Owned bt(makeFilter(bks[b].list, bcfg[b]));
        Str wimg = imageOf(bt.f), wask;
        for (auto& q : bqs[b]) wask += ask(bt.f, q) + ";";
        if (bimg[b] != wimg || bimg2[b] != wimg) violate("concurrent-build", "a filter built (or restored) in parallel with others serializes differently");
        if (sameImage && rimg[b] != refImg) violate("concurrent-restore", "a filter restored in parallel with others from the same image serializes differently");
        if (bask[b] != wask) violate("concurrent-build", "a filter built in parallel answers differently");
        aux(17);
        aux(23, own[b]);
        aux(24, sameImage);
    }
    aux(18, nThreads);
    { // how interleaved was it really: order of the query starts over all threads
        std::vector<std::pair<uint64_t, int>> ord;
        for (int t = 0; t < nThreads; t++) for (uint64_t x : stamp[t]) ord.push_back(std::make_pair(x, t));
        std::sort(ord.begin(), ord.end());
        uint64_t sw = 0, h = 3;
        for (size_t i = 1; i < ord.size(); i++) { sw += ord[i].second != ord[i - 1].second; h = mix(h, ord[i].second); }
        aux(19, sw);
        aux(20, ord.size());
        aux(21, sw > (uint64_t)nThreads); // really interleaved cases
        (void)h;
    }
    evals(n, n);
    phase("image after queries");
    if (imageOf(f) != refImg) violate("concurrent-image", "image after concurrent queries differs from that of an untouched twin");
    if (!restored) dropFilter(f);
    noteCase(ks, cfg, num(nThreads) + " query threads, " + num(builders) + " builder threads");
}
#endif

#ifndef MON_NO_LEDGER
static void monC17(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 6)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        Model m;
        m.build(ks.keys, cfg);
        std::vector<Ask> qs = genAsks(r, ks, m, 40, ks.keys.size() < 300);
        ledger::Counters& L = ledger::counters();
        int64_t b0 = L.liveBlocks, y0 = L.liveBytes;
        auto balance = [&](const char* what) {
            evals(1, 1);
            int64_t b = L.liveBlocks - b0, y = L.liveBytes - y0;
            if (b != 0 || y != 0) violate(b > 0 ? "not-released" : "over-released", Str(what) + ": " + std::to_string(b) + " blocks, " + std::to_string(y) + " bytes still held");
        };
        uint64_t before = L.allocs;
        phase("build and destroy");
        { SuRF* f = makeFilter(ks.list, cfg); aux(0, L.liveBlocks - b0); dropFilter(f); }
        balance("built and destroyed");
        phase("build, query, iterate, destroy");
        {
            SuRF* f = makeFilter(ks.list, cfg);
            { ledger::Scope s; for (auto& q : qs) { Str x = ask(f, q); } }
            dropFilter(f);
        }
        balance("built, queried and destroyed");
        phase("queries alone");
        {
            SuRF* f = makeFilter(ks.list, cfg);
            for (int i = 0; i < 2; i++) { ledger::Scope s; for (auto& q : qs) { Str x = ask(f, q); } } // warm up lazily sized members
            int64_t b1 = L.liveBlocks, y1 = L.liveBytes;
            { ledger::Scope s; for (auto& q : qs) { Str x = ask(f, q); } }
            if (L.liveBlocks > b1 || L.liveBytes > y1 + 65536) violate("query-retains", "repeating the same queries retained " + std::to_string(L.liveBlocks - b1) + " more blocks, " + std::to_string(L.liveBytes - y1) + " bytes");
            evals(1, 1);
            phase("queries with failing allocations");
            // every allocation of a query fails once, from the first to the last
            for (int i = 0; i < 12; i++) {
                const Ask& q = r.pick(qs);
                if (q.kind == A_SCAN_F || q.kind == A_SCAN_B) continue;
                for (uint64_t nth = 1; nth < 120; nth++) {
                    int64_t b3 = L.liveBlocks, y3 = L.liveBytes;
                    if (!askFailing(f, q, nth)) break;
                    aux(2);
                    if (L.liveBlocks > b3 || L.liveBytes > y3) violate("query-retains", q.str() + " whose allocation no. " + num(nth) + " failed retained " + std::to_string(L.liveBlocks - b3) + " blocks, " + std::to_string(L.liveBytes - y3) + " bytes");
                    evals(1, 1);
                }
            }
            phase("serialize");
            char* img;
            uint64_t n = f->serializedSize();
            int64_t b2 = L.liveBlocks;
            { ledger::Scope s; img = f->serialize(); }
            if (L.liveBlocks != b2 + 1) violate("serialize-retains", "serialize() left " + std::to_string(L.liveBlocks - b2) + " blocks, expected only the image");
            dropFilter(f);
            // the image belongs to the caller: it must still be readable and the only block left
            if (L.liveBlocks - b0 != 1) violate("image-ownership", "after destroying the filter " + std::to_string(L.liveBlocks - b0) + " blocks are live, expected exactly the image");
            phase("restore");
            char* copy = (char*)malloc(n);
            memcpy(copy, img, n);
            SuRF *g, *h;
            { ledger::Scope s; g = SuRF::deSerialize(copy); h = SuRF::deSerialize(img); }
            { ledger::Scope s; for (auto& q : qs) { Str x = ask(g, q); Str y = ask(h, q); } }
            dropFilter(g);
            memset(copy, 0x5A, n);
            free(copy);
            phase("destroy restored");
            { ledger::Scope s; for (auto& q : qs) { Str y = ask(h, q); } }
            dropFilter(h);
            if (L.liveBlocks - b0 != 1) violate("not-released", "after destroying restored filters " + std::to_string(L.liveBlocks - b0 - 1) + " blocks besides the image are live");
            delete[] img;
        }
        balance("serialized, restored and destroyed");
        phase("default-constructed then create()");
        {
            SuRF* f;
            { ledger::Scope s; f = new SuRF(); f->create(ks.list, cfg.dense, cfg.ratio, (surf::SuffixType)cfg.type, cfg.hlen, cfg.rlen); }
            dropFilter(f);
        }
        balance("create()d and destroyed");
        phase("destroy() with iterators alive");
        {
            SuRF* f = makeFilter(ks.list, cfg);
            {
                ledger::Scope s;
                Iter a = f->moveToFirst(), b = f->moveToLast(), d = a;
                d++;
                f->destroy();
                delete f;
            }
        }
        balance("destroyed while iterators were alive");
        aux(1, L.allocs - before);
        noteCase(ks, cfg, num(L.allocs - before) + " blocks tracked");
    }
}

// ------------------------------------------------------------------------ C18
struct TrieShape { uint64_t sparseLabels, sparseNodes, denseNodes, keysDense, keysSparse; };
static TrieShape shapeOf(const Model& m, uint32_t start) {
    // walk the sorted list: a label is new at level l when key i first differs from key i-1 at or above l
    TrieShape t = {0, 0, 0, 0, 0};
    const Strs& K = *m.K;
    for (size_t i = 0; i < m.n(); i++) {
        size_t lc = i ? Model::lcp(K[i - 1], K[i]) : 0;
        size_t labels = m.plen[i] + (m.term[i] ? 1 : 0); // levels 0..labels-1
        // labels shared with the previous key: those at levels < lc (the terminator is never shared)
        for (size_t l = lc; l < labels; l++) {
            bool newNode = i == 0 || l > lc;
            if (l < start) { if (newNode) t.denseNodes++; }
            else { t.sparseLabels++; if (newNode) t.sparseNodes++; }
        }
        if (labels - 1 < start) t.keysDense++; else t.keysSparse++;
    }
    return t;
}
static void monC18(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        Model m;
        m.build(ks.keys, cfg);
        ledger::Counters& L = ledger::counters();
        phase("measure");
        int64_t y0 = L.liveBytes;
        SuRF* f = makeFilter(ks.list, cfg);
        int64_t heap = L.liveBytes - y0;
        uint64_t rep = f->getMemoryUsage(), img = f->serializedSize(), h = f->getHeight(), st = f->getSparseStartLevel();
        int64_t allow = 1024 + 64 * (int64_t)(h + 1);
        auto truthful = [&](int64_t held, uint64_t reported, const char* who) {
            evals(1, 1);
            Str d = Str(who) + " filter holds " + std::to_string(held) + " heap bytes, getMemoryUsage() = " + num(reported) + ", height " + num(h) + ", allowance " + std::to_string(allow);
            if (held > (int64_t)reported + allow) violate("memory-underreported", d);
            if ((int64_t)reported > held + allow) violate("memory-overreported", d);
        };
        truthful(heap, rep, "built");
        TrieShape t = shapeOf(m, st);
        uint32_t sb = (cfg.type == T_NONE ? 0 : cfg.hlen + cfg.rlen);
        // bits of the encoding plus the lookup tables (32 bits per 512 for rank, 32 per 64 ones for select)
        double bits = t.sparseLabels * 10.0 + t.sparseLabels * 32.0 / 512 + t.sparseNodes * 32.0 / 64 + t.denseNodes * (512.0 + 1 + 2 * 256 * 32.0 / 512 + 32.0 / 512) + (double)(t.keysDense + t.keysSparse) * sb;
        double budget = bits / 8 * 1.02 + 512 + 8.0 * h;
        evals(1, 1);
        auto within = [&](double v, double b, const char* what) {
            if (v > b) violate("over-budget", Str(what) + " " + num((uint64_t)v) + " bytes; budget " + num((uint64_t)b) + " for " + num(t.sparseLabels) + " sparse labels, " + num(t.sparseNodes) + " sparse nodes, " + num(t.denseNodes) + " dense nodes, " + num(m.n()) + " keys x " + num(sb) + " suffix bits");
        };
        within(img, budget, "serialized image");
        within(rep, budget + 1024, "reported memory usage");
        phase("restored");
        Str image = imageOf(f);
        dropFilter(f);
        y0 = L.liveBytes;
        Restored g(image);
        truthful(L.liveBytes - y0, g.f->getMemoryUsage(), "restored");
        aux(0, heap); aux(1, rep); aux(2, t.sparseLabels); aux(3, t.denseNodes);
        noteCase(ks, cfg, "heap " + std::to_string(heap) + " reported " + num(rep) + " image " + num(img));
    }
}
#endif

// ------------------------------------------------------------------------ C19
static void monC19(uint64_t c, Rng& r) {
    ctx().ks = nullptr;
    phase("codec");
    std::vector<uint64_t> v;
    for (int i = 0; i < 3000; i++) {
        uint64_t x;
        switch (r.below(6)) {
        case 0: x = r.next(); break;
        case 1: x = 1ULL << r.below(64); break;
        case 2: x = (1ULL << r.below(64)) - 1; break;
        case 3: x = ~0ULL - r.below(300); break;
        case 4: x = r.below(70000); break;
        default: x = r.next() >> r.below(64); break;
        }
        v.push_back(x);
        if (r.chance(1, 2)) v.push_back(x + 1);
    }
    for (size_t i = 0; i < v.size(); i++) {
        Str s = surf::uint64ToString(v[i]);
        evals(1, 1);
        if (s.size() != 8) violate("codec-length", num(v[i]) + " encodes to " + num(s.size()) + " bytes");
        uint64_t b = surf::stringToUint64(s);
        if (b != v[i]) violate("codec-roundtrip", num(v[i]) + " -> " + hex(s) + " -> " + num(b));
        size_t j = i ? (r.chance(1, 2) ? i - 1 : r.below(v.size())) : 0;
        Str s2 = surf::uint64ToString(v[j]);
        if ((v[i] < v[j]) != (s < s2) || (v[i] == v[j]) != (s == s2)) violate("codec-order", num(v[i]) + " and " + num(v[j]) + " encode to " + hex(s) + " and " + hex(s2));
    }
    phase("arbitrary 8-byte strings");
    for (int i = 0; i < 500; i++) {
        Str s = randStr(r, allBytes(), 8, 8);
        uint64_t x = surf::stringToUint64(s);
        evals(1, 1);
        if (surf::uint64ToString(x) != s) violate("codec-roundtrip", hex(s) + " -> " + num(x) + " -> " + hex(surf::uint64ToString(x)));
    }
    phase("integer filter");
    size_t n = c % 25 == 24 ? 20000 : r.range(1, 800);
    std::set<uint64_t> S;
    uint64_t base = r.next();
    unsigned mode = r.below(4);
    for (size_t i = 0; i < n; i++) S.insert(mode == 0 ? r.next() : mode == 1 ? base + r.below(n * 4) : mode == 2 ? (r.next() >> r.below(60)) : (r.below(n) << r.below(40)));
    std::vector<uint64_t> sv(S.begin(), S.end());
    KeySet ks;
    ks.gen = "integers(n=" + num(sv.size()) + ",mode=" + num(mode) + ")";
    for (uint64_t x : sv) ks.keys.push_back(surf::uint64ToString(x));
    ks.list = ks.keys;
    for (size_t i = 1; i < ks.keys.size(); i++) if (!(ks.keys[i - 1] < ks.keys[i])) violate("codec-order", "encoded sorted integers are not sorted strings");
    Config cfg = pickConfig(r);
    if (r.chance(2, 3)) { cfg.dense = true; cfg.ratio = 16; }
    setCtx(ks, cfg);
    Owned f(makeFilter(ks.list, cfg));
    for (size_t i = 0; i < sv.size(); i++) if (!f->lookupKey(surf::uint64ToString(sv[i]))) violate("int-missed", "integer " + num(sv[i]) + " is stored but its lookup is false");
    evals(sv.size(), sv.size());
    for (int i = 0; i < 1500; i++) {
        uint64_t a = r.chance(1, 2) ? sv[r.below(sv.size())] + r.range(0, 3) - 1 : r.next(), b = r.chance(1, 2) ? a + r.below(r.chance(1, 2) ? 4 : 1000) : (r.chance(1, 2) ? sv[r.below(sv.size())] + r.below(3) - 1 : r.next());
        if (b < a) std::swap(a, b);
        bool li = r.chance(1, 2), ri = r.chance(1, 2);
        auto lo = li ? S.lower_bound(a) : S.upper_bound(a);
        bool in = lo != S.end() && (ri ? *lo <= b : *lo < b);
        bool got = f->lookupRange(surf::uint64ToString(a), li, surf::uint64ToString(b), ri);
        evals(1, in);
        if (in && !got) violate("int-range-missed", "range " + num(a) + (li ? " incl" : " excl") + " .. " + num(b) + (ri ? " incl" : " excl") + " holds " + num(*lo) + " but lookupRange is false");
        // landing of a seek decodes to a lower bound of the successor
        Iter it = f->moveToKeyGreaterThan(surf::uint64ToString(a), true);
        if (it.isValid() && !it.getFpFlag()) {
            auto t = S.lower_bound(a);
            Str g = it.getKey();
            if (t == S.end() || surf::uint64ToString(*t).compare(0, g.size(), g) != 0) violate("int-seek", "seek to " + num(a) + " lands unflagged on " + hex(g) + " which is not a prefix of the successor");
        }
        uint64_t cnt = f->approxCount(surf::uint64ToString(a), surf::uint64ToString(b));
        uint64_t truth = std::distance(std::lower_bound(sv.begin(), sv.end(), a), std::upper_bound(sv.begin(), sv.end(), b));
        if (cnt > truth || truth - cnt > 2) violate("int-count", "count of integers in [" + num(a) + ", " + num(b) + "] = " + num(cnt) + ", true " + num(truth));
    }
    noteCase(ks, cfg, num(v.size()) + " codec round trips");
}

// ------------------------------------------------------------------------ C23
// One digest line per case: the runner compares them across builds.  With
// MON_IMAGE_OUT the images are written out, with MON_IMAGE_IN read back.
// The workload itself also travels through a file (MON_WORKLOAD_OUT / _IN), so
// that all builds replay exactly the same one.
struct Blob {
    Str s;
    size_t at = 0;
    void u(uint64_t v) { s.append((const char*)&v, 8); }
    void str(const Str& x) { u(x.size()); s += x; }
    uint64_t gu() { uint64_t v = 0; if (at + 8 > s.size()) { fprintf(stderr, "short workload file\n"); exit(2); } memcpy(&v, s.data() + at, 8); at += 8; return v; }
    Str gstr() { uint64_t n = gu(); if (at + n > s.size()) { fprintf(stderr, "short workload file\n"); exit(2); } Str x = s.substr(at, n); at += n; return x; }
};
static Str slurp(const Str& path) {
    Str bytes;
    FILE* fp = fopen(path.c_str(), "rb");
    if (!fp) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(2); }
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, fp)) > 0) bytes.append(buf, n);
    fclose(fp);
    return bytes;
}
static void spill(const Str& path, const Str& bytes) {
    FILE* fp = fopen(path.c_str(), "wb");
    if (!fp || fwrite(bytes.data(), 1, bytes.size(), fp) != bytes.size()) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(2); }
    fclose(fp);
}
static void monC23(uint64_t c, Rng& r) {
    KeySet ks;
    Config cfg;
    std::vector<Ask> qs;
    const char* win = getenv("MON_WORKLOAD_IN");
    const char* wout = getenv("MON_WORKLOAD_OUT");
    if (win) {
        Blob b;
        b.s = slurp(Str(win) + "/" + num(c) + ".wl");
        ks.gen = b.gstr();
        uint64_t n = b.gu();
        for (uint64_t i = 0; i < n; i++) ks.list.push_back(b.gstr());
        ks.keys = ks.list;
        cfg.dense = b.gu(); cfg.ratio = b.gu(); cfg.type = b.gu(); cfg.hlen = b.gu(); cfg.rlen = b.gu();
        n = b.gu();
        for (uint64_t i = 0; i < n; i++) { Ask q; q.kind = b.gu(); q.a = b.gstr(); q.b = b.gstr(); q.ia = b.gu(); q.ib = b.gu(); qs.push_back(q); }
    } else {
        ks = caseKeys(c, r);
        cfg = pickConfig(r);
        Model m;
        m.build(ks.keys, cfg);
        qs = genAsks(r, ks, m, queryBudget(ks), true);
    }
    if (wout) {
        Blob b;
        b.str(ks.gen); b.u(ks.list.size());
        for (auto& k : ks.list) b.str(k);
        b.u(cfg.dense); b.u(cfg.ratio); b.u(cfg.type); b.u(cfg.hlen); b.u(cfg.rlen);
        b.u(qs.size());
        for (auto& q : qs) { b.u(q.kind); b.str(q.a); b.str(q.b); b.u(q.ia); b.u(q.ib); }
        spill(Str(wout) + "/" + num(c) + ".wl", b.s);
    }
    setCtx(ks, cfg);
    phase("build");
    Owned f(makeFilter(ks.list, cfg));
    Str img = imageOf(f.f);
    uint64_t h = 1;
    phase("ask");
    const char* in = getenv("MON_IMAGE_IN");
    const char* out = getenv("MON_IMAGE_OUT");
    SuRF* who = f.f;
    std::unique_ptr<Restored> rs;
    if (in) {
        rs.reset(new Restored(slurp(Str(in) + "/" + num(c) + ".img")));
        who = rs->f;
    }
    if (out) spill(Str(out) + "/" + num(c) + ".img", img);
    std::map<int, uint64_t> per;
    for (auto& q : qs) {

        Str x = ask(who, q);
        h = fnv(x, h);
        per[q.kind] = fnv(x, per[q.kind] ? per[q.kind] : 1);
        aux(q.kind);
    }
    evals(qs.size() + 1, qs.size() + 1);
    Str line = "MON-DIGEST " + num(c) + " image=" + num(fnv(img));
    for (auto& p : per) line += Str(" ") + std::to_string(p.first) + "=" + num(p.second);
    printf("%s\n", line.c_str());
    noteCase(ks, cfg);
}

// ------------------------------------------------------------------------ C25
// The different ways of asking must agree with each other; no model is needed.
static void monC25(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 8)) ks.addRepeats(r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        phase("build");
        Owned f(makeFilter(ks.list, cfg));
        Model m;
        m.build(ks.keys, cfg);
        size_t nq = queryBudget(ks) / 2;
        for (size_t i = 0; i < nq; i++) {
            Str a, b, lo, hi;
            genInterval(r, ks, m, a, b);
            bool ai = r.chance(1, 2), bi = r.chance(1, 2);
            auto rng = [&](const Str& x, bool xi, const Str& y, bool yi) { return "lookupRange(" + hex(x) + (xi ? " incl" : " excl") + ", " + hex(y) + (yi ? " incl" : " excl") + ")"; };
            phase("point against range");
            for (const Str* q : {&a, &b}) {
                bool p = f->lookupKey(*q);
                bool g = f->lookupRange(*q, true, *q, true);
                evals(1, p);
                if (p && !g) violate("point-vs-range", "lookupKey(" + hex(*q) + ") = true but " + rng(*q, true, *q, true) + " = false");
                aux(0, p);
            }
            phase("range against wider range");
            bool in = f->lookupRange(a, ai, b, bi);
            lo = r.chance(1, 3) ? a : oneQuery(r, ks, m); if (a < lo) lo = a;
            hi = r.chance(1, 3) ? b : oneQuery(r, ks, m); if (hi < b) hi = b;
            bool li = lo == a ? (ai || r.chance(1, 2)) : r.chance(1, 2), hi_ = hi == b ? (bi || r.chance(1, 2)) : r.chance(1, 2);
            bool out = f->lookupRange(lo, li, hi, hi_);
            evals(1, in);
            aux(1, in);
            if (in && !out) violate("range-not-monotone", rng(a, ai, b, bi) + " = true but the wider " + rng(lo, li, hi, hi_) + " = false");
            phase("range against seek");
            Iter it = f->moveToKeyGreaterThan(a, ai);
            bool expect = false;
            if (it.isValid()) { int cmp = it.compare(b); expect = cmp == surf::kCouldBePositive || (bi ? cmp <= 0 : cmp < 0); }
            evals(1, 1);
            if (in != expect) violate("range-vs-seek", rng(a, ai, b, bi) + " = " + num(in) + " but the seek from the left bound lands at " + (it.isValid() ? hex(it.getKey()) + ", which compares " + std::to_string(it.compare(b)) + " with the right bound" : Str("the end")));
            phase("seek order");
            Iter jt = f->moveToKeyGreaterThan(b, bi);
            if (a < b || (a == b && ai && !bi) || (a == b && ai == bi)) {
                evals(1, 1);
                if (!it.isValid() && jt.isValid()) violate("seek-not-monotone", "seek from " + hex(a) + " finds nothing, seek from the greater " + hex(b) + " lands at " + hex(jt.getKey()));
                if (it.isValid() && jt.isValid() && jt.getKey() < it.getKey()) violate("seek-not-monotone", "seek from " + hex(a) + " lands at " + hex(it.getKey()) + ", seek from the greater " + hex(b) + " at " + hex(jt.getKey()));
            }
            Iter ip = f->moveToKeyLessThan(a, ai), jp = f->moveToKeyLessThan(b, bi);
            if (a < b || (a == b && !ai && bi) || (a == b && ai == bi)) {
                evals(1, 1);
                if (ip.isValid() && !jp.isValid()) violate("seek-not-monotone", "backward seek from " + hex(b) + " finds nothing, from the smaller " + hex(a) + " lands at " + hex(ip.getKey()));
                if (ip.isValid() && jp.isValid() && jp.getKey() < ip.getKey()) violate("seek-not-monotone", "backward seek from " + hex(a) + " lands at " + hex(ip.getKey()) + ", from the greater " + hex(b) + " at " + hex(jp.getKey()));
            }
            phase("count against range");
            if (!(b < a)) {
                uint64_t n = f->approxCount(a, b);
                evals(1, n > 0);
                if (n > 0 && !f->lookupRange(a, true, b, true)) violate("count-vs-range", "approxCount(" + hex(a) + ", " + hex(b) + ") = " + num(n) + " but the closed range lookup is false");
                aux(2, n > 0);
                uint64_t w = f->approxCount(lo, hi);
                if (w < n) violate("count-not-monotone", "approxCount(" + hex(a) + ", " + hex(b) + ") = " + num(n) + " but over the wider " + hex(lo) + ".." + hex(hi) + " it is " + num(w));
            }
        }
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C24
// The builder's vectors against the pruned trie computed from the key list.
struct TrieLevel {
    std::vector<surf::label_t> labels;
    std::vector<bool> child, start, term;
    std::vector<surf::word_t> suffixes;
    uint64_t nodes = 0;
};
static std::vector<TrieLevel> trieOf(const Model& m, const Config& cfg) {
    const Strs& K = *m.K;
    std::vector<TrieLevel> t;
    std::vector<std::pair<size_t, size_t> > cur(1, std::make_pair((size_t)0, m.n())), next;
    for (size_t d = 0; !cur.empty(); d++) {
        t.push_back(TrieLevel());
        TrieLevel& L = t.back();
        next.clear();
        auto leaf = [&](size_t i) { L.suffixes.push_back(i); };
        for (auto& nd : cur) {
            L.nodes++;
            size_t i = nd.first;
            bool first = true;
            if (K[i].size() == d) {
                L.labels.push_back(surf::kTerminator); L.child.push_back(false); L.start.push_back(true); L.term.push_back(true);
                leaf(i);
                first = false;
                i++;
            }
            while (i < nd.second) {
                size_t j = i + 1;
                while (j < nd.second && K[j][d] == K[i][d]) j++;
                L.labels.push_back((surf::label_t)K[i][d]); L.child.push_back(j - i > 1); L.start.push_back(first); L.term.push_back(false);
                first = false;
                if (j - i > 1) next.push_back(std::make_pair(i, j));
                else leaf(i);
                i = j;
            }
        }
        cur.swap(next);
    }
    (void)cfg;
    return t; // suffixes hold key indices
}
static uint64_t keptBits(const Model& m, const Config& c, size_t i) {
    uint64_t real = m.suffix(i), hash = c.hlen ? surf::BitvectorSuffix::constructHashSuffix((*m.K)[i], c.hlen) : 0;
    switch (c.type) {
    case T_HASH: return hash;
    case T_REAL: return real;
    case T_MIXED: return (hash << c.rlen) | real;
    default: return 0;
    }
}
static void monC24(uint64_t c, Rng& r) {
    KeySet ks = caseKeys(c, r);
    if (r.chance(1, 4)) ks.addRepeats(r);
    std::map<uint32_t, uint32_t> startOfRatio;
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        Model m;
        m.build(ks.keys, cfg);
        std::vector<TrieLevel> t = trieOf(m, cfg);
        phase("build");
        surf::SuRFBuilder B(cfg.dense, cfg.ratio, (surf::SuffixType)cfg.type, cfg.hlen, cfg.rlen);
        B.build(ks.list);
        phase("compare the vectors with the trie");
        auto bit = [](const std::vector<surf::word_t>& w, size_t p) { return p / 64 < w.size() && ((w[p / 64] >> (63 - p % 64)) & 1); };
        auto only = [&](const char* what, size_t l, const std::vector<surf::word_t>& w, const std::vector<bool>& want) {
            for (size_t p = 0; p < want.size(); p++) if (bit(w, p) != want[p]) violate("trie-bits", Str(what) + " bit " + num(p) + " of " + num(want.size()) + " on level " + num(l) + " is " + num(bit(w, p)));
            for (size_t p = want.size(); p < w.size() * 64; p++) if (bit(w, p)) violate("trie-bits", Str(what) + " has a bit set past its end (" + num(p) + " of " + num(want.size()) + ") on level " + num(l));
            evals(want.size(), want.size());
        };
        size_t H = t.size(), bh = B.getTreeHeight();
        if (bh < H) violate("trie-height", "the builder has " + num(bh) + " levels, the trie " + num(H));
        if (B.getLabels().size() < bh || B.getNodeCounts().size() < bh || B.getSuffixCounts().size() < bh || B.getLoudsBits().size() < bh || B.getChildIndicatorBits().size() < bh || B.getSuffixes().size() < bh)
            violate("trie-height", "the builder's vectors have fewer levels than its height");
        for (size_t l = H; l < bh; l++) if (!B.getLabels()[l].empty() || B.getSuffixCounts()[l] || B.getNodeCounts()[l]) violate("trie-height", "the builder has something on level " + num(l) + " of a trie of " + num(H));
        for (size_t l = 0; l < H; l++) {
            const TrieLevel& L = t[l];
            if (B.getLabels()[l] != L.labels) {
                size_t p = 0;
                while (p < L.labels.size() && p < B.getLabels()[l].size() && B.getLabels()[l][p] == L.labels[p]) p++;
                violate("trie-labels", "level " + num(l) + " has " + num(B.getLabels()[l].size()) + " labels, expected " + num(L.labels.size()) + "; the first difference is at " + num(p));
            }
            evals(L.labels.size(), L.labels.size());
            only("node-start", l, B.getLoudsBits()[l], L.start);
            only("child", l, B.getChildIndicatorBits()[l], L.child);
            if (B.getNodeCounts()[l] != L.nodes) violate("trie-nodes", "level " + num(l) + " counts " + num(B.getNodeCounts()[l]) + " nodes, expected " + num(L.nodes));
            if (B.getSuffixCounts()[l] != L.suffixes.size()) violate("trie-suffix-count", "level " + num(l) + " counts " + num(B.getSuffixCounts()[l]) + " suffixes, expected one per key ending there: " + num(L.suffixes.size()));
            uint32_t len = cfg.hlen + cfg.rlen;
            if (len) {
                std::vector<bool> want;
                for (size_t i : L.suffixes) { uint64_t v = keptBits(m, cfg, i); for (uint32_t b = len; b-- > 0;) want.push_back((v >> b) & 1); }
                only("suffix", l, B.getSuffixes()[l], want);
            }
            aux(0, L.labels.size()); aux(1, L.nodes);
        }
        if (B.getSuffixType() != (surf::SuffixType)cfg.type || B.getHashSuffixLen() != cfg.hlen || B.getRealSuffixLen() != cfg.rlen || B.getSuffixLen() != cfg.hlen + cfg.rlen)
            violate("trie-settings", "the builder does not report the suffix settings it was given");
        phase("dense levels");
        size_t st = B.getSparseStartLevel();
        if (!cfg.dense && st) violate("trie-cut", "dense levels although they were not asked for");
        if (st > bh) violate("trie-cut", "more dense levels (" + num(st) + ") than levels (" + num(bh) + ")");
        if (B.getBitmapLabels().size() < std::min(st, H) || B.getBitmapChildIndicatorBits().size() < std::min(st, H) || B.getPrefixkeyIndicatorBits().size() < std::min(st, H)) violate("trie-cut", "fewer bitmaps than dense levels");
        for (size_t l = 0; l < std::min(st, H); l++) {
            const TrieLevel& L = t[l];
            std::vector<bool> lab(L.nodes * 256), chi(L.nodes * 256), pre(L.nodes);
            size_t node = 0;
            for (size_t p = 0; p < L.labels.size(); p++) {
                if (p && L.start[p]) node++;
                if (L.term[p]) { pre[node] = true; continue; }
                lab[node * 256 + L.labels[p]] = true;
                chi[node * 256 + L.labels[p]] = L.child[p];
            }
            only("dense label", l, B.getBitmapLabels()[l], lab);
            only("dense child", l, B.getBitmapChildIndicatorBits()[l], chi);
            only("prefix-key", l, B.getPrefixkeyIndicatorBits()[l], pre);
            aux(2, L.nodes);
        }
        if (cfg.dense) { // a larger ratio never makes more levels dense
            phase("dense levels by ratio");
            std::vector<uint32_t> rs = {0, 1, 16, 64, 1000000, 0xffffffffu};
            for (int i = 0; i < 12; i++) rs.push_back((uint32_t)(r.next() >> (32 + r.below(32))));
            // ratios at which a product with the size of the dense levels would wrap at 32 bits
            for (int i = 0; i < 8; i++) rs.push_back((uint32_t)(1u << (10 + r.below(22))));
            uint64_t cells = 0;
            for (size_t l = 0; l < std::min(H, (size_t)4); l++) {
                cells += t[l].nodes;
                for (uint64_t unit : {64 * cells, 65 * cells, 512 * cells, 65 * cells + cells / 16}) {
                    uint64_t q = (1ull << 32) / unit;
                    rs.push_back((uint32_t)(q + r.below(3)));
                    rs.push_back((uint32_t)(q + r.below(q / 4 + 2)));
                    if (q < 1u << 24) rs.push_back((uint32_t)(q * r.range(1, 60) + r.below(40)));
                }
            }
            if (ks.keys.size() > 400) while (rs.size() > 24) rs.erase(rs.begin() + r.below(rs.size()));
            std::sort(rs.begin(), rs.end());
            size_t last = bh + 1;
            // bytes of the top levels as bitmaps and of the others as labels
            std::vector<double> D(1, 0), S(H + 1, 0);
            double sb = (cfg.type == T_NONE ? 0 : cfg.hlen + cfg.rlen) / 8.0;
            for (size_t l = 0; l < H; l++) D.push_back(D[l] + t[l].nodes * (64 + 1 / 8.0) + t[l].suffixes.size() * sb);
            for (size_t l = H; l-- > 0;) S[l] = S[l + 1] + t[l].labels.size() * 1.25 + t[l].suffixes.size() * sb;
            auto worth = [&](size_t start, uint32_t q) { // every dense level but the last is paid for; none is left out that is cheap by far
                start = std::min(start, H + 1); // the builder may have an empty level at the end
                if (start && D[start - 1] * q > 1.1 * S[start - 1] + 64) violate("trie-cut", "ratio " + num(q) + " makes " + num(start) + " levels dense although all but the last take " + num((uint64_t)D[start - 1]) + " bytes as bitmaps, the other levels " + num((uint64_t)S[start - 1]) + " as labels");
                if (start < H && 16 * (D[start] + 1) * q < S[start]) violate("trie-cut", "ratio " + num(q) + " makes only " + num(start) + " of " + num(H) + " levels dense although these take " + num((uint64_t)D[start]) + " bytes, the other levels " + num((uint64_t)S[start]));
                evals(1, 1);
            };
            worth(st, cfg.ratio);
            if (ks.keys.size() < 7000 && H < 1000)
                for (uint32_t q : rs) {
                    surf::SuRFBuilder C(true, q, (surf::SuffixType)cfg.type, cfg.hlen, cfg.rlen);
                    C.build(ks.list);
                    if (C.getSparseStartLevel() > last) violate("trie-cut", "ratio " + num(q) + " makes " + num(C.getSparseStartLevel()) + " levels dense, a smaller one " + num(last));
                    last = C.getSparseStartLevel();
                    worth(last, q);
                    evals(1, 1);
                }
        }
        noteCase(ks, cfg);
    }
}

// ------------------------------------------------------------------------ C26
// Work is counted in executed basic blocks (gcc -fsanitize-coverage=trace-pc) and
// allocated bytes: exact, independent of the machine and its load.
#ifdef MON_COST
#define NOCOV __attribute__((no_sanitize_coverage))
static uint64_t gBlocks = 0;
extern "C" NOCOV void __sanitizer_cov_trace_pc() { gBlocks++; }
struct Meter {
    uint64_t b0, a0;
    Meter() : b0(0), a0(0) {}
    void start() { a0 = ledger::counters().bytes; b0 = gBlocks; }
    uint64_t blocks() const { return gBlocks - b0; }
    uint64_t bytes() const { return ledger::counters().bytes - a0; }
};
static double gWorst[16];
static void judgeCost(int kind, const char* what, uint64_t work, double allowed, uint64_t bytes, double allowedBytes, const Str& detail) {
    double q = work / allowed;
    if (q > gWorst[kind]) { gWorst[kind] = q; if (getenv("MON_COST_SHOW")) fprintf(stderr, "%s %.3f work=%llu bytes=%llu %s\n", what, q, (unsigned long long)work, (unsigned long long)bytes, detail.c_str()); }
    if (work > allowed) violate("query-cost", Str(what) + " executed " + num(work) + " basic blocks, allowed " + num((uint64_t)allowed) + " | " + detail);
    if (bytes > allowedBytes) violate("query-memory", Str(what) + " allocated " + num(bytes) + " bytes, allowed " + num((uint64_t)allowedBytes) + " | " + detail);
    evals(2, 2);
    aux(kind);
}
// rank and select on their own: large vectors, so that a scan cannot hide
static void costOfVectors(Rng& r) {
    size_t n = r.range(1, 3000000);
    unsigned den = (unsigned)r.range(1, 250);
    std::vector<surf::word_t> w((n + 63) / 64, 0);
    uint64_t ones = 0;
    size_t gap = 0;
    for (size_t i = 0; i < n; i++)
        if (i == 0 || gap >= 255 || r.chance(1, den)) { w[i / 64] |= (1ULL << 63) >> (i % 64); ones++; gap = 0; } else gap++;
    std::vector<std::vector<surf::word_t> > lv(1, w);
    std::vector<surf::position_t> ln(1, (surf::position_t)n);
    surf::BitvectorRank* R = new surf::BitvectorRank(512, lv, ln, 0, 1);
    surf::BitvectorSelect* S = new surf::BitvectorSelect(64, lv, ln, 0, 1);
    Meter M;
    Str d = num(n) + " bits, 1 in " + num(den) + " set";
    for (int i = 0; i < 300; i++) {
        size_t p = r.below(n), k = r.range(1, ones);
        M.start(); R->rank(p);
        judgeCost(10, "rank", M.blocks(), 6000, M.bytes(), 1024, d);
        M.start(); S->select(k);
        judgeCost(11, "select", M.blocks(), 12000, M.bytes(), 1024, d);
        M.start(); S->distanceToNextSetBit(p);
        judgeCost(12, "distance to the next set bit", M.blocks(), 6000, M.bytes(), 1024, d);
        M.start(); if (p) S->distanceToPrevSetBit(p);
        judgeCost(13, "distance to the previous set bit", M.blocks(), 6000, M.bytes(), 1024, d);
    }
    R->destroy(); delete R;
    S->destroy(); delete S;
    seenCases().insert(mix(n, den));
}
static void monC26(uint64_t c, Rng& r) {
    if (c % 16 == 5) { phase("rank and select"); costOfVectors(r); return; }
    KeySet ks = caseKeys(c, r);
    for (int k = 0; k < configsPer(ks); k++) {
        Config cfg = pickConfig(r);
        setCtx(ks, cfg);
        Model m;
        m.build(ks.keys, cfg);
        Meter M;
        phase("build");
        double total = 0;
        for (auto& s : ks.list) total += s.size();
        M.start();
        SuRF* raw = makeFilter(ks.list, cfg);
        uint64_t bw = M.blocks(), bb = M.bytes();
        Owned f(raw);
        double h = f->getHeight(), n = ks.list.size();
        Str where = num(ks.list.size()) + " keys, height " + num((uint64_t)h) + ", dense levels " + num(f->getSparseStartLevel());
        judgeCost(0, "building", bw, 50000 + 2000 * (total + n) + 40 * h * h, bb, 65536 + (f->getSparseStartLevel() ? 1000 : 60) * (total + n) + 2500 * h, where);
        phase("queries");
        size_t nq = std::min<size_t>(queryBudget(ks), h > 5000 ? 20 : 1000);
        ledger::Scope s;
        for (size_t i = 0; i < nq; i++) {
            Str a = oneQuery(r, ks, m), b = oneQuery(r, ks, m);
            if (b < a) std::swap(a, b);
            double la = a.size(), lb = b.size(), step = 1200, base = 20000;
            Str d = where + ", query of " + num(a.size()) + " bytes";
            M.start(); f->lookupKey(a);
            judgeCost(1, "lookupKey", M.blocks(), base + step * std::min(la, h) + 4 * la, M.bytes(), 4096 + 64 * la, d);
            M.start(); f->lookupRange(a, true, b, true);
            judgeCost(2, "lookupRange", M.blocks(), base + step * h + 4 * (la + lb), M.bytes(), 8192 + 64 * h + 64 * (la + lb), d);
            M.start(); { Iter it = f->moveToKeyGreaterThan(a, true);
            judgeCost(3, "moveToKeyGreaterThan", M.blocks(), base + step * h + 4 * la, M.bytes(), 8192 + 64 * h + 64 * la, d);
            M.start(); it.isValid() && it++;
            judgeCost(4, "stepping forward", M.blocks(), base + step * h, M.bytes(), 8192 + 64 * h, d);
            }
            M.start(); { Iter it = f->moveToKeyLessThan(b, true);
            judgeCost(5, "moveToKeyLessThan", M.blocks(), base + 3 * step * h + 4 * lb, M.bytes(), 8192 + 64 * h + 64 * lb, d);
            M.start(); it.isValid() && it--;
            judgeCost(6, "stepping backward", M.blocks(), base + step * h, M.bytes(), 8192 + 64 * h, d);
            }
            M.start(); f->approxCount(a, b);
            judgeCost(7, "approxCount", M.blocks(), base + 5 * step * h + 4 * (la + lb), M.bytes(), 16384 + 128 * h + 64 * (la + lb), d);
        }
        M.start(); { Iter it = f->moveToFirst(); }
        judgeCost(8, "moveToFirst", M.blocks(), 20000 + 1200 * h, M.bytes(), 8192 + 64 * h, where);
        M.start(); { Iter it = f->moveToLast(); }
        judgeCost(9, "moveToLast", M.blocks(), 20000 + 1200 * h, M.bytes(), 8192 + 64 * h, where);
        phase("serialize and restore");
        double size = f->serializedSize();
        M.start(); char* img = f->serialize();
        judgeCost(14, "serialize", M.blocks(), 50000 + 8 * size, M.bytes(), 1024 + 2 * size, where);
        M.start(); SuRF* g = SuRF::deSerialize(img);
        judgeCost(15, "deSerialize", M.blocks(), 50000 + 8 * size, M.bytes(), 65536 + 2 * size, where);
        dropFilter(g);
        delete[] img;
        noteCase(ks, cfg);
    }
}
#endif

int main(int argc, char** argv) {
    parseOptions(argc, argv);
    const Str& m = opt().mon;
    const char* le = getenv("MON_LARGE_EVERY");
    const char* hg = getenv("MON_HUGE_AT");
    gLargeEvery = le ? strtoull(le, 0, 10) : 0;
    gHugeAt = hg ? strtoull(hg, 0, 10) : 0;
#if WANT(1)
    if (m == "C01") return runCases(monC01);
#endif
#if WANT(2)
    if (m == "C02") return runCases([](uint64_t c, Rng& r) { monRange(c, r, true); });
#endif
#if WANT(3)
    if (m == "C03") return runCases(monC03);
#endif
#if WANT(4)
    if (m == "C04") return runCases([](uint64_t c, Rng& r) { monRange(c, r, false); });
#endif
#if WANT(5)
    if (m == "C05") return runCases(monC05);
#endif
#if WANT(6)
    if (m == "C06") return runCases([](uint64_t c, Rng& r) { monSeek(c, r, true); });
#endif
#if WANT(7)
    if (m == "C07") return runCases([](uint64_t c, Rng& r) { monSeek(c, r, false); });
#endif
#if WANT(8)
    if (m == "C08") return runCases(monC08);
#endif
#if WANT(9)
    if (m == "C09") return runCases(monC09);
#endif
#if WANT(10)
    if (m == "C10") return runCases(monC10);
#endif
#if WANT(11)
    if (m == "C11") return runCases(monC11);
#endif
#if WANT(12)
    if (m == "C12") return runCases(monC12);
#endif
#if WANT(13)
    if (m == "C13") return runCases(monC13);
#endif
#if WANT(14)
    if (m == "C14") return runCases(monC14);
#endif
#if WANT(15)
    if (m == "C15") return runCases(monC15);
#endif
#if WANT(16)
    if (m == "C16") return runCases(monC16);
#endif
#if WANT(17) && !defined(MON_NO_LEDGER)
    if (m == "C17") return runCases(monC17);
#endif
#if WANT(18) && !defined(MON_NO_LEDGER)
    if (m == "C18") return runCases(monC18);
#endif
#if WANT(19)
    if (m == "C19") return runCases(monC19);
#endif
#if WANT(24)
    if (m == "C24") return runCases(monC24);
#endif
#if WANT(26) && defined(MON_COST)
    if (m == "C26") return runCases(monC26);
#endif
#if WANT(25)
    if (m == "C25") return runCases(monC25);
#endif
#if WANT(23)
    if (m == "C23") return runCases(monC23);
#endif
    fprintf(stderr, "unknown monitor %s\n", m.c_str());
    return 2;
}

// C21: every filter the benchmark's factory creates keeps its no-miss promise,
// and the Bloom filter's acceptance of absent keys stays at its design rate.
#include "common.hpp"

#include <cmath>
#include <map>
#include <memory>
#include <set>

#include "bench.hpp"
#include "filter_factory.hpp"

using namespace mon;

static Str num(uint64_t x) { return std::to_string((unsigned long long)x); }

struct Kind { const char* type; bool surf; };
static const Kind kKinds[] = {{"SuRF", true}, {"SuRFHash", true}, {"SuRFReal", true}, {"SuRFMixed", true}, {"Bloom", false}};

static void drop(bench::Filter* f) {
    if (bench::FilterBloom* b = dynamic_cast<bench::FilterBloom*>(f)) delete b;
    else if (bench::FilterSuRF* s = dynamic_cast<bench::FilterSuRF*>(f)) delete s;
}

static Str email(Rng& r) {
    static const char* dom[] = {"com.gmail@", "com.yahoo@", "org.x@", "com.hotmail@", "net.a.b@", "edu.cmu.cs@"};
    Str s = dom[r.below(6)];
    static const Str al = "abcdefghijklmnopqrstuvwxyz0123456789._";
    size_t n = r.range(1, 14);
    for (size_t i = 0; i < n; i++) s += al[r.below(r.chance(1, 2) ? 3 : al.size())];
    return s;
}
static KeySet benchKeys(uint64_t c, Rng& r) {
    KeySet ks;
    ks.alphabet = allBytes();
    unsigned mode = r.below(7);
    if (mode == 0) return genKeys(r, TINY);
    if (mode == 1) return genKeys(r, SMALL);
    size_t n = c % 10 == 9 ? r.range(5000, 20000) : r.range(1, 1500);
    if (mode == 6) { // long keys that differ anywhere, families sharing long heads
        n = r.range(100, 1200);
        Str head = randStr(r, allBytes(), 0, 200);
        for (size_t i = 0; i < n; i++) {
            if (r.chance(1, 50)) head = randStr(r, allBytes(), 0, 400);
            ks.keys.push_back(head.substr(0, r.chance(1, 2) ? head.size() : r.below(head.size() + 1)) + randStr(r, allBytes(), 1, r.chance(1, 2) ? 6 : 120));
        }
        ks.gen = "long(n=" + num(n) + ")";
    } else if (mode <= 3) {
        bool clustered = r.chance(1, 2);
        uint64_t base = r.next();
        for (size_t i = 0; i < n; i++) ks.keys.push_back(be64(clustered ? base + r.below(n * 8) : r.next()));
        ks.gen = "ints(n=" + num(n) + ")";
    } else {
        for (size_t i = 0; i < n; i++) ks.keys.push_back(email(r));
        ks.alphabet = "abcdefghijklmnopqrstuvwxyz0123456789._@";
        ks.gen = "emails(n=" + num(n) + ")";
    }
    ks.finish();
    return ks;
}

// number of positives over the number of absent probes, over the whole run, by key count
static uint64_t gAbsent = 0, gAccepted = 0;
static double gExpected = 0, gVar = 0;

static void bloomRate(const KeySet& ks, bench::Filter* f, Rng& r) {
    const double k = 6, n = ks.keys.size();
    double bits = std::max(64.0, std::ceil(n * 10 / 8) * 8);
    double rate = std::pow(1 - std::exp(-k * n / bits), k);
    uint64_t probes = n >= 1000 ? 6000 : 1000, hit = 0, done = 0;
    unsigned style = r.below(4);
    for (uint64_t i = 0; i < probes; i++) {
        Str q;
        if (style == 0) q = randStr(r, allBytes(), 8, 16);
        else if (style == 1) { q = r.pick(ks.keys); q += randStr(r, allBytes(), 2, 6); }
        else if (style == 3) { q = r.pick(ks.keys); q = q.substr(0, r.below(q.size() + 1)) + randStr(r, allBytes(), 4, 10); }
        else { q = r.pick(ks.keys); size_t at = r.below(q.size()); q[at] = (char)r.below(256); q += (char)r.below(256); }
        if (std::binary_search(ks.keys.begin(), ks.keys.end(), q)) continue;
        done++;
        hit += f->lookup(q);
    }
    gAbsent += done; gAccepted += hit;
    evals(done, done);
    aux(2, done); aux(3, hit);
    // repeated probes (style 2) and the spread of the fill ratio at small n widen the distribution: allow a factor
    if (n >= 1000 && style != 2) {
        double e = rate * done, tol = 8 * std::sqrt(e) + 0.30 * e;
        if (hit > e + tol) violate("bloom-rate", "Bloom filter over " + num(n) + " keys accepted " + num(hit) + " of " + num(done) + " absent keys; its design rate " + std::to_string(rate) + " predicts " + std::to_string(e));
        if (hit + tol < e) violate("bloom-rate", "Bloom filter over " + num(n) + " keys accepted only " + num(hit) + " of " + num(done) + " absent keys; its design rate " + std::to_string(rate) + " predicts " + std::to_string(e));
        aux(4);
    } else if (n >= 40 || style != 2) {
        double e = rate * done;
        if (hit > 4 * e + 60) violate("bloom-rate", "Bloom filter over " + num(n) + " keys accepted " + num(hit) + " of " + num(done) + " absent keys; its design rate predicts about " + std::to_string(e));
    }
}

// Every byte counts: a key that differs from an inserted one in a single byte is as absent as any other.
static void bloomSeesEveryByte(Rng& r) {
    phase("Bloom filter sees every byte");
    std::set<Str> have;
    size_t n = r.range(200, 800);
    while (have.size() < n) have.insert(randStr(r, allBytes(), 2, r.chance(1, 2) ? 20 : 70));
    std::vector<Str> keys(have.begin(), have.end());
    bench::Filter* f = bench::FilterFactory::createFilter("Bloom", 8, keys);
    std::vector<uint32_t> seen(16 * 17), took(16 * 17);  // length mod 16 by distance to the end; then position mod 16, further in
    for (int t = 0; t < 30000; t++) {
        Str q = r.pick(keys);
        size_t d = r.below(q.size() > 16 && r.chance(1, 4) ? q.size() : std::min<size_t>(16, q.size())), at = q.size() - 1 - d;
        q[at] = (char)(q[at] ^ (char)r.range(1, 255));
        if (have.count(q)) continue;
        size_t b = d < 16 ? q.size() % 16 * 16 + d : 256 + at % 16;
        seen[b]++; took[b] += f->lookup(q);
    }
    drop(f);
    for (size_t b = 0; b < seen.size(); b++) {
        evals(seen[b] >= 30, seen[b] >= 30);
        if (seen[b] >= 30 && took[b] * 2 > seen[b])
            violate("bloom-blind", num(took[b]) + " of " + num(seen[b]) + " absent keys were accepted that differ from an inserted one in one byte, " + (b < 256 ? num(b % 16) + " bytes before the end of a key of length " + num(b / 16) + " modulo 16" : "16 or more bytes before the end, at a position " + num(b % 16) + " modulo 16"));
    }
}

// The filter itself, for string and integer keys and every density.
template <class K, class Gen> static void bloomDirect(Rng& r, const char* who, Gen gen) {
    phase(who);
    static const size_t sizes[] = {1, 2, 3, 10, 60, 400, 3000};
    size_t n = sizes[r.below(7)];
    int per = (int)r.range(1, r.chance(1, 4) ? 60 : 16);
    std::set<K> have;
    while (have.size() < n) have.insert(gen());
    std::vector<K> keys(have.begin(), have.end());
    BloomFilter b(per);
    Str data;
    b.CreateFilter(keys, (int)n, &data);
    Str where = Str(who) + " over " + num(n) + " keys with " + num(per) + " bits each";
    for (auto& k : keys) if (!b.KeyMayMatch(k, data)) violate("bloom-missed", where + ": inserted key is rejected");
    evals(n, n);
    double m = std::max<double>(64, (double)n * per), k = std::max(1.0, std::min(30.0, std::floor(per * 0.69)));
    if (data.size() * 8.0 > m + 64) violate("bloom-size", where + " takes " + num(data.size()) + " bytes");
    double e = 4000 * std::pow(1 - std::exp(-k * (double)n / m), k);
    uint64_t hit = 0;
    for (int t = 0; t < 4000; t++) { K q = gen(); if (!have.count(q)) hit += b.KeyMayMatch(q, data); }
    evals(4000, 4000);
    // (few keys: the double hashing's strides repeat, the rate is not the designed one)
    if (hit > (n < 60 ? 2 * e + 1500 : 2 * e + 10 * std::sqrt(e) + 250)) violate("bloom-rate", where + " accepted " + num(hit) + " of 4000 absent keys; its design rate predicts " + std::to_string(e));
}

static void monC21(uint64_t c, Rng& r) {
    if (c % 8 == 3) {
        ctx().ks = nullptr;
        uint64_t spread = r.chance(1, 2) ? 64 : r.range(16, 63);
        bloomDirect<uint64_t>(r, "integer Bloom filter", [&] { return r.next() >> (64 - spread); });
        bloomDirect<Str>(r, "string Bloom filter", [&] { return randStr(r, allBytes(), 3, 30); });
        bloomSeesEveryByte(r);
        seenCases().insert(mix(c, spread));
        return;
    }
    KeySet ks = benchKeys(c, r);
    if (r.chance(1, 5)) ks.addRepeats(r);
    Model m;
    Config plain = {true, 16, T_NONE, 0, 0};
    m.build(ks.keys, plain);
    ctx().ks = &ks;
    strncpy(status()->gen, ks.gen.c_str(), sizeof(status()->gen) - 1);
    int kinds = ks.keys.size() > 3000 ? 2 : 5;
    for (int j = 0; j < kinds; j++) {
        const Kind& kd = kinds == 5 ? kKinds[j] : (j == 0 ? kKinds[r.below(4)] : kKinds[4]);
        // every documented length turns up: walk through 1..64 (1..32 for the mixed kind, which uses it twice)
        uint32_t len = 1 + (uint32_t)((c * 7 + j * 13 + r.below(3)) % (Str(kd.type) == "SuRFMixed" ? 32 : 64));
        Str what = Str(kd.type) + " with suffix length " + num(len);
        phase(what.c_str());
        bench::Filter* f = bench::FilterFactory::createFilter(kd.type, len, ks.list);
        aux(8 + j < 24 ? 8 + j : 23);
        seenCases().insert(mix(mix(c, len), j));
        for (auto& k : ks.keys) {
            if (!f->lookup(k)) violate("bench-missed", what + ": inserted key " + hexShort(k) + " is rejected");
        }
        evals(ks.keys.size(), ks.keys.size());
        if (f->getMemoryUsage() == 0) violate("bench-memory", what + " reports no memory");
        if (kd.surf) {
            for (int i = 0; i < 250; i++) {
                Str a, b;
                switch (r.below(4)) {
                case 0: a = b = r.pick(ks.keys); break;
                case 1: a = r.pick(ks.keys); b = oneQuery(r, ks, m); break;
                case 2: a = oneQuery(r, ks, m); b = r.pick(ks.keys); break;
                default: a = oneQuery(r, ks, m); b = oneQuery(r, ks, m); break;
                }
                if (b < a) std::swap(a, b);
                size_t t = m.lowerBound(a);
                bool in = t < m.n() && ks.keys[t] <= b;
                bool got = f->lookupRange(a, b);
                evals(1, in);
                aux(in ? 0 : 1);
                if (in && !got) violate("bench-range-missed", what + ": range " + hexShort(a) + " .. " + hexShort(b) + " holds inserted key " + hexShort(ks.keys[t]) + " but is rejected");
                if (i % 8 == 0) { // the inserted keys' own ranges as the benchmark asks them
                    const Str& k = r.pick(ks.keys);
                    if (k.size() == 8) {
                        Str u = bench::uint64ToString(bench::stringToUint64(k) + bench::kIntRangeSize);
                        if (k < u && !f->lookupRange(k, u)) violate("bench-range-missed", what + ": benchmark range starting at inserted key " + hexShort(k) + " is rejected");
                    }
                }
            }
        } else
            bloomRate(ks, f, r);
        drop(f);
        if (samples().size() < 3 && ks.keys.size() < 10) {
            Str s = what + " | keys";
            for (auto& k : ks.list) s += " " + hexShort(k);
            samples().push_back(s);
        }
    }
}

int main(int argc, char** argv) {
    parseOptions(argc, argv);
    if (opt().mon == "C21") return runCases(monC21);
    fprintf(stderr, "unknown monitor\n");
    return 2;
}

// Run-time monitor of the succinct building blocks (C20): every operation is
// compared with the naive computation over the concatenated bits or labels,
// before and after serialization.
#include "common.hpp"
#include "ledger.hpp"

#include <memory>

#include "surf.hpp"

using namespace mon;
using namespace surf;

typedef std::vector<std::vector<word_t> > BitLevels;
static Str num(uint64_t x) { return std::to_string((unsigned long long)x); }

// an 8-byte-aligned buffer of exactly the announced size
struct Image {
    char* p; size_t n;
    explicit Image(size_t k) : p((char*)malloc(k ? k : 1)), n(k) { memset(p, 0, k); }
    ~Image() { drop(); }
    void drop() { if (p) { memset(p, 0xA5, n); free(p); p = nullptr; } }
    Image(const Image&) = delete;
};

struct Bits {
    BitLevels levels;
    std::vector<position_t> lens;
    std::vector<bool> flat; // bits of levels [lo, hi)
    level_t lo, hi, end;
    Str desc;
};

static size_t pickLen(Rng& r) {
    static const std::vector<size_t> v = {0, 1, 2, 3, 31, 63, 64, 65, 100, 127, 128, 129, 191, 192, 255, 256, 257, 320, 447, 448, 449, 511, 512, 513, 575, 576, 640, 1023, 1024, 1025, 1536, 2047, 2048, 2049};
    return r.chance(1, 3) ? r.below(900) : r.pick(v);
}
static void fillBits(Rng& r, std::vector<bool>& b) {
    size_t n = b.size();
    unsigned mode = r.below(9);
    unsigned den = (unsigned)r.range(2, 200);
    for (size_t i = 0; i < n; i++) b[i] = false;
    if (mode == 0) return;
    if (mode == 1) { for (size_t i = 0; i < n; i++) b[i] = true; return; }
    if (mode == 2) { for (size_t i = 0; i < n; i++) b[i] = r.chance(1, 2); return; }
    if (mode == 3) { for (size_t i = 0; i < n; i++) b[i] = r.chance(1, den); return; }
    if (mode == 4) { for (size_t i = 0; i < n; i++) b[i] = !r.chance(1, den); return; }
    if (mode == 5) { if (n) { b[0] = true; b[n - 1] = true; } return; }
    if (mode == 6) { if (n) b[r.below(n)] = true; return; }
    if (mode == 7) { // runs
        bool v = r.chance(1, 2);
        for (size_t i = 0; i < n;) { size_t k = r.range(1, 200); for (size_t j = 0; j < k && i < n; j++) b[i++] = v; v = !v; }
        return;
    }
    for (size_t i = 0; i < n; i++) b[i] = (i % 64 == 0) || (i % 64 == 63); // word edges
}
static Bits makeBits(Rng& r, bool firstIsOne) {
    Bits B;
    size_t nl = r.chance(1, 4) ? 1 : r.range(1, 7);
    B.lo = r.chance(2, 3) ? 0 : (level_t)r.below(nl);
    B.hi = r.chance(2, 3) ? (level_t)nl : (level_t)r.range(B.lo + 1, nl);
    bool small = r.chance(1, 3);
    std::vector<std::vector<bool> > raw(nl);
    for (size_t l = 0; l < nl; l++) {
        raw[l].resize(small ? r.below(70) : pickLen(r));
        fillBits(r, raw[l]);
    }
    if (firstIsOne) {
        size_t l = B.lo;
        while (l < B.hi && raw[l].empty()) l++;
        if (l == B.hi) { raw[B.lo].resize(1); l = B.lo; }
        raw[l][0] = true;
    }
    for (size_t l = 0; l < nl; l++) {
        std::vector<word_t> w((raw[l].size() + 63) / 64, 0);
        for (size_t i = 0; i < raw[l].size(); i++) if (raw[l][i]) w[i / 64] |= (1ULL << 63) >> (i % 64);
        if (r.chance(1, 3)) w.push_back(0); // the builder keeps a spare word
        B.levels.push_back(w);
        B.lens.push_back((position_t)raw[l].size());
        if (l >= B.lo && l < B.hi) B.flat.insert(B.flat.end(), raw[l].begin(), raw[l].end());
    }
    B.end = B.hi == nl && r.chance(1, 2) ? 0 : B.hi; // 0: the default, all levels
    B.desc = "levels [" + num(B.lo) + "," + num(B.hi) + ") of " + num(nl) + ", lengths";
    for (auto x : B.lens) B.desc += " " + num(x);
    return B;
}
static uint64_t digest(const Bits& B) {
    uint64_t h = mix(B.lo, B.hi);
    for (auto x : B.lens) h = mix(h, x);
    for (auto& l : B.levels) for (auto w : l) h = mix(h, w);
    return h;
}

static void checkBasics(const Bitvector& v, const Bits& B, const Str& when) {
    size_t n = B.flat.size();
    if (v.numBits() != n) violate("num-bits", when + ": numBits() = " + num(v.numBits()) + ", expected " + num(n) + " | " + B.desc);
    std::vector<size_t> nxt(n + 1, n), prv(n + 1, n + 1);
    for (size_t i = n; i-- > 0;) nxt[i] = (i + 1 < n && B.flat[i + 1]) ? i + 1 : (i + 1 < n ? nxt[i + 1] : n);
    for (size_t i = 1; i <= n; i++) prv[i] = B.flat[i - 1] ? i - 1 : prv[i - 1];
    for (size_t p = 0; p < n; p++) {
        if (v.readBit(p) != B.flat[p]) violate("read-bit", when + ": readBit(" + num(p) + ") of " + num(n) + " bits = " + num(v.readBit(p)) + " | " + B.desc);
        size_t d = v.distanceToNextSetBit(p);
        if (d != nxt[p] - p) violate("next-set-bit", when + ": distanceToNextSetBit(" + num(p) + ") of " + num(n) + " bits = " + num(d) + ", expected " + num(nxt[p] - p) + (nxt[p] == n ? " (no further one)" : "") + " | " + B.desc);
    }
    for (size_t p = 1; p <= n; p++) {
        size_t d = v.distanceToPrevSetBit(p);
        bool none = prv[p] > n;
        if (none ? d <= p : d != p - prv[p]) violate("prev-set-bit", when + ": distanceToPrevSetBit(" + num(p) + ") = " + num(d) + (none ? Str(", but no one precedes") : ", expected " + num(p - prv[p])) + " | " + B.desc);
    }
    evals(3 * n, 3 * n);
    aux(0, n);
}
static void checkRank(const BitvectorRank& v, const Bits& B, const Str& when) {
    checkBasics(v, B, when);
    size_t n = B.flat.size(), c = 0;
    for (size_t p = 0; p < n; p++) {
        c += B.flat[p];
        if (v.rank(p) != c) violate("rank", when + ": rank(" + num(p) + ") of " + num(n) + " bits = " + num(v.rank(p)) + ", expected " + num(c) + " | " + B.desc);
    }
    evals(n, n);
    aux(1, n);
}
static void checkSelect(const BitvectorSelect& v, const Bits& B, const Str& when) {
    checkBasics(v, B, when);
    size_t n = B.flat.size(), k = 0;
    for (size_t p = 0; p < n; p++)
        if (B.flat[p]) {
            k++;
            if (k > v.numOnes()) break;
            size_t got = v.select(k);
            if (got != p) violate("select", when + ": select(" + num(k) + ") = " + num(got) + ", expected " + num(p) + " of " + num(n) + " bits | " + B.desc);
        }
    size_t ones = 0;
    for (bool b : B.flat) ones += b;
    if (v.numOnes() != ones) violate("num-ones", when + ": numOnes() = " + num(v.numOnes()) + ", expected " + num(ones) + " | " + B.desc);
    evals(ones + 1, ones + 1);
    aux(2, ones);
}
template <class V> static void roundTrip(V* v, const std::function<void(const V&, const Str&)>& check, const Str& desc, Rng& r) {
    check(*v, "as built");
    size_t sz = v->serializedSize();
    Image img(sz);
    char* p = img.p;
    v->serialize(p);
    if ((size_t)(p - img.p) != sz) violate("serialized-size", "serialize() wrote " + num(p - img.p) + " bytes, serializedSize() says " + num(sz) + " | " + desc);
    Str bytes(img.p, std::min(sz, (size_t)1 << 28)); // (the first 256 MB of very large ones)
    char* q = img.p;
    V* w = V::deSerialize(q);
    if ((size_t)(q - img.p) != sz) violate("serialized-size", "deSerialize() consumed " + num(q - img.p) + " bytes of " + num(sz) + " | " + desc);
    if (memcmp(img.p, bytes.data(), bytes.size())) violate("image-modified", "deSerialize() changed the image | " + desc);
    bool early = r.chance(1, 2);
    if (early) { v->destroy(); delete v; }
    img.drop();
    check(*w, "restored");
    if (w->serializedSize() != sz) violate("serialized-size", "serializedSize() after restore " + num(w->serializedSize()) + " vs " + num(sz) + " | " + desc);
    if (!early) { v->destroy(); delete v; }
    w->destroy();
    delete w;
    aux(6);
}

// ---------------------------------------------------------------- label search
struct Node { position_t pos, size; bool term; };
static Str nodeStr(const std::vector<label_t>& flat, const Node& n) {
    Str s(flat.begin() + n.pos, flat.begin() + n.pos + n.size);
    return "node of " + num(n.size) + " labels at " + num(n.pos) + (n.term ? " (first is the terminator)" : "") + ": " + hexShort(s);
}
static void checkLabels(const LabelVector& v, const std::vector<label_t>& flat, const std::vector<Node>& nodes, const Str& when) {
    // one spare byte is kept after the last label; levels outside the given span are not
    if (v.getNumBytes() < flat.size() || v.getNumBytes() > flat.size() + 64) violate("label-bytes", when + ": " + num(v.getNumBytes()) + " bytes for " + num(flat.size()) + " labels");
    for (size_t i = 0; i < flat.size(); i++) if (v.read(i) != flat[i] || v[i] != flat[i]) violate("label-read", when + ": label " + num(i) + " of " + num(flat.size()) + " reads " + num(v.read(i)) + ", expected " + num(flat[i]));
    for (auto& nd : nodes) {
        position_t b = nd.pos + (nd.term ? 1 : 0), e = nd.pos + nd.size;
        for (unsigned t = 0; t < 256; t++) {
            position_t want = e, wantG = e;
            for (position_t i = b; i < e; i++) { if (flat[i] == t && want == e) want = i; if (flat[i] > t && wantG == e) wantG = i; }
            auto one = [&](const char* nm, bool got, position_t p, position_t exp, bool greater) {
                bool should = exp != e;
                if (got != should || (got && p != exp))
                    violate(greater ? "label-search-greater" : "label-search", when + ": " + nm + "(" + num(t) + ") = " + (got ? "position " + num(p) : Str("not found")) + ", expected " + (should ? "position " + num(exp) : Str("not found")) + " | " + nodeStr(flat, nd));
            };
            position_t p;
            bool g;
            p = nd.pos; g = v.search(t, p, nd.size); one("search", g, p, want, false);
            p = nd.pos; g = v.searchGreaterThan(t, p, nd.size); one("searchGreaterThan", g, p, wantG, true);
#ifndef MON_PRIMS_MIN // not part of the class's search interface proper
            p = b; g = v.linearSearch(t, p, e - b); one("linearSearch", g, p, want, false);
            p = b; g = v.binarySearch(t, p, e - b); one("binarySearch", g, p, want, false);
            p = b; g = v.simdSearch(t, p, e - b); one("simdSearch", g, p, want, false);
            p = b; g = v.linearSearchGreaterThan(t, p, e - b); one("linearSearchGreaterThan", g, p, wantG, true);
            p = b; g = v.binarySearchGreaterThan(t, p, e - b); one("binarySearchGreaterThan", g, p, wantG, true);
#endif
        }
        evals(7 * 256, 7 * 256);
        aux(3);
    }
}
static void labelCase(Rng& r) {
    size_t nl = r.range(1, 4);
    level_t lo = r.chance(2, 3) ? 0 : (level_t)r.below(nl), hi = r.chance(2, 3) ? (level_t)nl : (level_t)r.range(lo + 1, nl);
    std::vector<std::vector<label_t> > levels(nl);
    std::vector<label_t> flat;
    std::vector<Node> nodes;
    Str desc;
    for (size_t l = 0; l < nl; l++) {
        size_t nn = r.chance(1, 6) ? 0 : r.range(1, 6);
        if (l == lo && nn == 0) nn = 1;
        for (size_t k = 0; k < nn; k++) {
            size_t m = interestingWidth(r);
            bool term = r.chance(1, 3);
            Str s = pickLabels(r, m);
            Node nd;
            nd.term = term;
            if (term) levels[l].push_back(kTerminator);
            for (char c : s) levels[l].push_back((label_t)c);
            nd.size = (position_t)(s.size() + (term ? 1 : 0));
            nd.pos = (position_t)(flat.size() + levels[l].size() - nd.size);
            if (l >= lo && l < hi) nodes.push_back(nd);
            desc += " " + num(nd.size) + (term ? "t" : "");
        }
        if (l >= lo && l < hi) flat.insert(flat.end(), levels[l].begin(), levels[l].end());
    }
    phase("label search");
    uint64_t h = mix(lo, hi);
    for (auto x : flat) h = mix(h, x);
    seenCases().insert(h);
    // the end level may be left to its default, which stands for "all of them"
    bool all = hi == nl && r.chance(1, 2);
    LabelVector* v = all ? (lo == 0 && r.chance(1, 2) ? new LabelVector(levels) : new LabelVector(levels, lo)) : new LabelVector(levels, lo, hi);
    roundTrip<LabelVector>(v, [&](const LabelVector& x, const Str& w) { checkLabels(x, flat, nodes, w); }, "label nodes" + desc, r);
    if (samples().size() < 4) samples().push_back("labels: node sizes" + desc + " | every search function, all 256 targets, before and after a round trip");
}

// -------------------------------------------------------------------- suffixes
static uint64_t naiveReal(const Str& key, size_t level, uint32_t len) {
    if (len == 0 || key.size() < level || (key.size() - level) * 8 < len) return 0;
    uint64_t v = 0;
    for (uint32_t b = 0; b < len; b++) v = (v << 1) | (((unsigned char)key[level + b / 8] >> (7 - b % 8)) & 1);
    return v;
}
static void suffixCase(Rng& r) {
    int type = (int)r.range(1, 3);
    Config c = pickConfig(r, type);
    uint32_t len = c.hlen + c.rlen;
    size_t nl = r.range(1, 5);
    level_t lo = r.chance(2, 3) ? 0 : (level_t)r.below(nl), hi = r.chance(2, 3) ? (level_t)nl : (level_t)r.range(lo + 1, nl);
    BitLevels levels;
    std::vector<position_t> lens;
    std::vector<uint64_t> vals;
    for (size_t l = 0; l < nl; l++) {
        size_t n = r.below(80);
        std::vector<bool> b;
        for (size_t i = 0; i < n; i++) {
            uint64_t x = r.next();
            if (r.chance(1, 6)) x = ~0ULL;
            if (r.chance(1, 8)) x = 0;
            if (len < 64) x &= (1ULL << len) - 1;
            for (uint32_t k = len; k-- > 0;) b.push_back((x >> k) & 1);
            if (l >= lo && l < hi) vals.push_back(x);
        }
        std::vector<word_t> w((b.size() + 63) / 64, 0);
        for (size_t i = 0; i < b.size(); i++) if (b[i]) w[i / 64] |= (1ULL << 63) >> (i % 64);
        levels.push_back(w);
        lens.push_back((position_t)b.size());
    }
    phase("suffixes");
    uint64_t h = mix(c.digest(), mix(lo, hi));
    for (auto x : vals) h = mix(h, x);
    seenCases().insert(h);
    // keys whose real bits equal or neighbour the stored ones
    Str desc = c.str() + ", " + num(vals.size()) + " suffixes";
    Rng qr(r.next());
    auto check = [&](const BitvectorSuffix& v, const Str& when) {
        if ((int)v.getType() != type || v.getHashSuffixLen() != c.hlen || v.getRealSuffixLen() != c.rlen || v.getSuffixLen() != len) violate("suffix-parameters", when + ": type or lengths lost | " + desc);
        for (size_t i = 0; i < vals.size(); i++) {
            uint64_t got = v.read(i);
            if (got != vals[i]) violate("suffix-read", when + ": read(" + num(i) + ") = " + num(got) + ", written " + num(vals[i]) + " | " + desc);
            uint64_t realv = c.rlen == 64 ? vals[i] : vals[i] & ((1ULL << c.rlen) - 1);
            if (v.readReal(i) != realv) violate("suffix-read", when + ": readReal(" + num(i) + ") = " + num(v.readReal(i)) + ", written " + num(realv) + " | " + desc);
            // a key carrying exactly / nearly these bits after `level` bytes
            for (int t = 0; t < 3; t++) {
                size_t level = qr.range(1, 5);
                Str key = randStr(qr, allBytes(), level, level);
                uint64_t bits = realv;
                if (t == 1) bits ^= 1ULL << qr.below(c.rlen ? c.rlen : 1);
                if (t == 2) bits += qr.range(1, 3);
                if (c.rlen) {
                    size_t nb = (c.rlen + 7) / 8;
                    uint64_t sh = c.rlen == 64 ? bits : bits & ((1ULL << c.rlen) - 1);
                    Str tail(nb, '\0');
                    for (uint32_t k = 0; k < c.rlen; k++) if ((sh >> (c.rlen - 1 - k)) & 1) tail[k / 8] |= (char)(1 << (7 - k % 8));
                    key += tail;
                }
                if (qr.chance(1, 2)) key += randStr(qr, allBytes(), 0, 4);
                uint64_t q = naiveReal(key, level, c.rlen);
                int cmp = v.compare(i, key, level);
                bool undecided = type == T_HASH || realv == 0 || realv == q;
                if (undecided ? cmp != kCouldBePositive : (cmp == kCouldBePositive || (cmp < 0) != (realv < q)))
                    violate("suffix-compare", when + ": compare(" + num(i) + ", " + hex(key) + ", " + num(level) + ") = " + std::to_string(cmp) + " with stored real bits " + num(realv) + " and key bits " + num(q) + " | " + desc);
                if (type == T_REAL) {
                    bool eq = v.checkEquality(i, key, level), want = realv == 0 || realv == q;
                    if (eq != want) violate("suffix-equality", when + ": checkEquality(" + num(i) + ", " + hex(key) + ", " + num(level) + ") = " + num(eq) + " with stored " + num(realv) + " and key bits " + num(q) + " | " + desc);
                }
                evals(3, 3);
            }
            aux(4);
        }
    };
    BitvectorSuffix* v = new BitvectorSuffix((SuffixType)type, c.hlen, c.rlen, levels, lens, lo, hi == nl && r.chance(1, 2) ? 0 : hi);
    roundTrip<BitvectorSuffix>(v, check, desc, r);
    // construction of suffixes from keys
    for (int t = 0; t < 40; t++) {
        Str key = randStr(r, allBytes(), 1, 20);
        size_t level = r.below(key.size() + 2);
        uint64_t real = naiveReal(key, level, c.rlen);
        if (c.rlen) {
            uint64_t got = BitvectorSuffix::constructRealSuffix(key, level, c.rlen);
            if (got != real) violate("suffix-construct", "constructRealSuffix(" + hex(key) + ", " + num(level) + ", " + num(c.rlen) + ") = " + num(got) + ", expected " + num(real));
        }
        if (c.hlen) {
            uint64_t hs = BitvectorSuffix::constructHashSuffix(key, c.hlen);
            if (c.hlen < 64 && (hs >> c.hlen)) violate("suffix-construct", "constructHashSuffix gives more than " + num(c.hlen) + " bits");
            if (BitvectorSuffix::constructHashSuffix(Str(key), c.hlen) != hs) violate("suffix-construct", "constructHashSuffix of equal keys differs");
            if (type == T_MIXED) {
                uint64_t mx = BitvectorSuffix::constructMixedSuffix(key, c.hlen, level, c.rlen);
                if (mx != ((hs << c.rlen) | real)) violate("suffix-construct", "constructMixedSuffix(" + hex(key) + ") = " + num(mx) + ", parts " + num(hs) + " and " + num(real));
                if (BitvectorSuffix::extractHashSuffix(mx, c.rlen) != hs || BitvectorSuffix::extractRealSuffix(mx, c.rlen) != real) violate("suffix-construct", "mixed suffix parts do not read back");
            }
        }
        evals(1, 1);
    }
}

#ifdef MON_PRIMS_MIN
static void wordCase(Rng&) {}
#else
static void wordCase(Rng& r) {
    phase("word helpers");
    uint64_t w[12];
    for (int i = 0; i < 12; i++) { unsigned m = r.below(6); w[i] = m == 0 ? 0 : m == 1 ? ~0ULL : m == 2 ? 1ULL << r.below(64) : m == 3 ? r.next() & r.next() & r.next() : m == 4 ? r.next() | r.next() : r.next(); }
    for (int i = 0; i < 12; i++) {
        int k = 0;
        for (int b = 0; b < 64; b++) if ((w[i] >> (63 - b)) & 1) { k++; if (select64_popcount_search(w[i], k) != b || select64(w[i], k) != b) violate("word-select", "select64(" + num(w[i]) + ", " + std::to_string(k) + ") = " + std::to_string(select64_popcount_search(w[i], k)) + ", expected " + std::to_string(b)); }
        evals(k, k);
        seenCases().insert(w[i]);
    }
    for (int t = 0; t < 60; t++) {
        size_t x = r.below(4), nb = r.below(8 * 64 + 1), want = 0;
        for (size_t b = 0; b < nb; b++) want += (w[x + b / 64] >> (63 - b % 64)) & 1;
        uint64_t got = popcountLinear(w, x, nb);
        if (got != want) violate("word-popcount", "popcountLinear over " + num(nb) + " bits = " + num(got) + ", expected " + num(want));
        evals(1, 1);
    }
}

#endif

// ------------------------------------------------------- vectors of millions of bits
// Positions around every power of two up to the 32-bit limit, long zero runs,
// level borders far from the start; checked at sampled places against word counts.
struct BigBits {
    std::vector<uint64_t> w;
    std::vector<uint64_t> before; // ones before each group of 256 words
    uint64_t n, ones;
    bool bit(uint64_t p) const { return (w[p / 64] >> (63 - p % 64)) & 1; }
    void finish() {
        ones = 0;
        before.clear();
        for (size_t i = 0; i < w.size(); i++) { if (i % 256 == 0) before.push_back(ones); ones += __builtin_popcountll(w[i]); }
    }
    uint64_t rank(uint64_t p) const { // ones in [0, p]
        uint64_t c = before[p / 64 / 256];
        for (size_t i = p / 64 / 256 * 256; i < p / 64; i++) c += __builtin_popcountll(w[i]);
        for (uint64_t q = p / 64 * 64; q <= p; q++) c += bit(q);
        return c;
    }
    uint64_t select(uint64_t k) const {
        size_t g = std::lower_bound(before.begin(), before.end(), k) - before.begin() - 1;
        uint64_t c = before[g], i = g * 256;
        while (c + __builtin_popcountll(w[i]) < k) c += __builtin_popcountll(w[i++]);
        for (uint64_t p = i * 64;; p++) { c += bit(p); if (c == k) return p; }
    }
    uint64_t next(uint64_t p) const { // first one after p, or n
        for (uint64_t q = p + 1; q < n; q++) {
            if (q % 64 == 0) while (q < n && !w[q / 64]) q += 64;
            if (q < n && bit(q)) return q;
        }
        return n;
    }
    uint64_t prev(uint64_t p) const { // last one before p, or n
        for (uint64_t q = p; q-- > 0;) {
            if (bit(q)) return q;
            if (q % 64 == 0) while (q >= 64 && !w[q / 64 - 1]) q -= 64;
        }
        return n;
    }
};
static BigBits makeBig(Rng& r, uint64_t n, bool firstIsOne) {
    BigBits B;
    B.n = n;
    B.w.resize((n + 63) / 64);
    bool thin = r.chance(1, 3);
    for (size_t i = 0; i < B.w.size();) {
        size_t k = r.range(1, r.chance(1, 2) ? 300 : r.chance(1, 2) ? 20000 : 2 + B.w.size() / 3);
        unsigned mode = thin ? r.below(3) : r.below(8);
        uint64_t gap = 1ull << r.below(22);
        for (size_t j = 0; j < k && i < B.w.size(); j++, i++)
            switch (mode) {
            case 0: break;
            case 1: if (r.below(gap) == 0) B.w[i] = 1ull << r.below(64); break;
            case 2: if (j == 0 || j == k - 1) B.w[i] = 1ull << r.below(64); break;
            case 3: B.w[i] = ~0ull; break;
            case 4: B.w[i] = ~(1ull << r.below(64)); break;
            case 5: B.w[i] = r.next() & r.next() & r.next(); break;
            case 6: B.w[i] = 0x8000000000000001ull; break;
            default: B.w[i] = r.next();
            }
    }
    if (firstIsOne) B.w[0] |= 1ull << 63;
    if (n % 64) B.w.back() &= ~0ull << (64 - n % 64);
    B.finish();
    return B;
}
static void split(const BigBits& B, Rng& r, BitLevels& levels, std::vector<position_t>& lens, std::set<uint64_t>& borders) {
    size_t nl = r.range(1, 6);
    std::vector<uint64_t> cut(1, 0);
    for (size_t i = 1; i < nl; i++) cut.push_back(r.chance(1, 3) ? r.below(B.n + 1) / 64 * 64 : r.below(B.n + 1));
    cut.push_back(B.n);
    std::sort(cut.begin(), cut.end());
    for (size_t l = 0; l + 1 < cut.size(); l++) {
        uint64_t a = cut[l], len = cut[l + 1] - a;
        borders.insert(a);
        levels.push_back(std::vector<word_t>((len + 63) / 64));
        std::vector<word_t>& w = levels.back();
        for (size_t i = 0; i < w.size(); i++) {
            uint64_t p = a + i * 64, x = B.w[p / 64] << (p % 64);
            if (p % 64 && p / 64 + 1 < B.w.size()) x |= B.w[p / 64 + 1] >> (64 - p % 64);
            w[i] = x;
        }
        if (len % 64) w.back() &= ~0ull << (64 - len % 64); // bits of the next level do not belong here
        lens.push_back((position_t)len);
    }
}
static uint64_t near(Rng& r, uint64_t x, uint64_t n) {
    uint64_t d = r.below(140), y = r.chance(1, 2) ? x + d : x - std::min(x, d);
    return y < n ? y : n - 1;
}
static void checkBig(const Bitvector& v, const BitvectorRank* rk, const BitvectorSelect* se, const BigBits& B, const std::set<uint64_t>& borders, Rng& r, const Str& when) {
    Str of = " of " + num(B.n) + " bits";
    if (v.numBits() != B.n) violate("num-bits", when + ": numBits() = " + num(v.numBits()) + ", expected " + num(B.n));
    if (se && se->numOnes() != B.ones) violate("num-ones", when + ": numOnes() = " + num(se->numOnes()) + ", expected " + num(B.ones) + of);
    std::vector<uint64_t> ps;
    for (int i = 0; i < 1500; i++) ps.push_back(r.below(B.n));
    for (int b = 8; b < 33; b++) for (int i = 0; i < 12; i++) ps.push_back(near(r, 1ull << b, B.n));
    for (uint64_t x : borders) for (int i = 0; i < 12; i++) ps.push_back(near(r, x, B.n));
    for (int i = 0; i < 40; i++) ps.push_back(near(r, B.n - 1, B.n));
    if (B.n > 1u << 31) for (int i = 0; i < 600; i++) ps.push_back((1ull << 31) + r.below(B.n - (1ull << 31)));
    for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[r.below(i)]);
    uint64_t scanned = 0; // long runs are walked bit by bit, or rather word by word: bounded
    const uint64_t budget = 1ull << 36;
    for (uint64_t p : ps) {
        if (scanned > budget) break;
        if (v.readBit(p) != B.bit(p)) violate("read-bit", when + ": readBit(" + num(p) + ") = " + num(v.readBit(p)) + of);
        uint64_t nx = B.next(p), d = v.distanceToNextSetBit(p);
        scanned += nx - p;
        if (d != nx - p) violate("next-set-bit", when + ": distanceToNextSetBit(" + num(p) + ") = " + num(d) + ", expected " + num(nx - p) + of);
        if (p) {
            uint64_t pv = B.prev(p);
            d = v.distanceToPrevSetBit(p);
            scanned += pv == B.n ? p : p - pv;
            if (pv == B.n ? d <= p : d != p - pv) violate("prev-set-bit", when + ": distanceToPrevSetBit(" + num(p) + ") = " + num(d) + (pv == B.n ? Str(", but no one precedes") : ", expected " + num(p - pv)) + of);
        }
        if (rk) {
            uint64_t c = B.rank(p);
            if (rk->rank(p) != c) violate("rank", when + ": rank(" + num(p) + ") = " + num(rk->rank(p)) + ", expected " + num(c) + of);
        }
    }
    evals(3 * ps.size(), 3 * ps.size());
    if (se && B.ones) {
        std::vector<uint64_t> ks;
        for (int i = 0; i < 1500; i++) ks.push_back(r.below(B.ones) + 1);
        for (int b = 6; b < 33; b++) for (int i = 0; i < 8; i++) ks.push_back(near(r, 1ull << b, B.ones) + 1);
        for (int i = 0; i < 40; i++) ks.push_back(B.ones - r.below(std::min<uint64_t>(B.ones, 200)));
        for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.below(i)]);
        scanned = 0;
        for (uint64_t k : ks) {
            if (scanned > budget) break;
            scanned += B.select(k) - B.select(k / 64 ? k / 64 * 64 : 1);
            uint64_t p = B.select(k), got = se->select(k);
            if (got != p) violate("select", when + ": select(" + num(k) + ") = " + num(got) + ", expected " + num(p) + of + " with " + num(B.ones) + " ones");
        }
        evals(ks.size(), ks.size());
        aux(2, ks.size());
    }
    aux(8, ps.size());
}
static void bigCase(Rng& r, bool huge) {
    // huge: beyond 2^31 bits, up to the 32-bit limit of positions
    uint64_t n = huge ? (1ull << 31) + r.below((1ull << 31) - 70000) : (1ull << r.range(15, 25)) + r.below(1u << r.range(1, 22));
    if (huge && r.chance(1, 3)) n = (1ull << 32) - 64 * r.range(1, 4) - r.below(64);
    bool rankOne = r.chance(1, 2);
    phase(rankOne ? "large rank vector" : "large select vector");
    BigBits B = makeBig(r, n, !rankOne);
    BitLevels levels;
    std::vector<position_t> lens;
    std::set<uint64_t> borders;
    split(B, r, levels, lens, borders);
    seenCases().insert(mix(n, B.ones));
    Str desc = num(n) + " bits, " + num(B.ones) + " ones, " + num(lens.size()) + " levels";
    if (rankOne) {
        BitvectorRank* v = new BitvectorRank(512, levels, lens, 0, r.chance(1, 2) ? 0 : (level_t)lens.size());
        BitLevels().swap(levels);
        roundTrip<BitvectorRank>(v, [&](const BitvectorRank& x, const Str& when) { checkBig(x, &x, nullptr, B, borders, r, when); }, desc, r);
    } else {
        BitvectorSelect* v = new BitvectorSelect(64, levels, lens, 0, r.chance(1, 2) ? 0 : (level_t)lens.size());
        BitLevels().swap(levels);
        roundTrip<BitvectorSelect>(v, [&](const BitvectorSelect& x, const Str& when) { checkBig(x, nullptr, &x, B, borders, r, when); }, desc, r);
    }
    if (samples().size() < 5) samples().push_back("large vector: " + desc);
    aux(huge ? 10 : 9);
}
// many suffixes: their bits reach past 2^31 in the huge form
static void bigSuffixCase(Rng& r, bool huge) {
    Config c = pickConfig(r, (int)r.range(1, 3));
    uint32_t len = c.hlen + c.rlen;
    uint64_t top = huge ? (1ull << 32) - 1 : 1ull << r.range(16, 25), n = top / len - r.below(std::min<uint64_t>(top / len, 1000));
    if (!n) n = 1;
    uint64_t salt = r.next();
    auto val = [&](uint64_t i) { uint64_t x = mix(salt, i); return len < 64 ? x & ((1ull << len) - 1) : x; };
    phase("many suffixes");
    seenCases().insert(mix(salt, n));
    BitLevels levels;
    std::vector<position_t> lens;
    std::vector<uint64_t> cut;
    size_t nl = r.range(1, 4);
    cut.push_back(0);
    for (size_t i = 1; i < nl; i++) cut.push_back(r.below(n + 1));
    cut.push_back(n);
    std::sort(cut.begin(), cut.end());
    for (size_t l = 0; l < nl; l++) {
        uint64_t bits = (cut[l + 1] - cut[l]) * len;
        levels.push_back(std::vector<word_t>((bits + 63) / 64));
        lens.push_back((position_t)bits);
        std::vector<word_t>& w = levels.back();
        uint64_t p = 0;
        for (uint64_t i = cut[l]; i < cut[l + 1]; i++, p += len) {
            uint64_t x = val(i) << (64 - len); // aligned to the left
            w[p / 64] |= x >> (p % 64);
            if (p % 64 && p % 64 + len > 64) w[p / 64 + 1] |= x << (64 - p % 64);
        }
    }
    Str desc = c.str() + ", " + num(n) + " suffixes";
    BitvectorSuffix* v = new BitvectorSuffix((SuffixType)c.type, c.hlen, c.rlen, levels, lens, 0, r.chance(1, 2) ? 0 : (level_t)nl);
    BitLevels().swap(levels);
    Rng qr(r.next());
    roundTrip<BitvectorSuffix>(v, [&](const BitvectorSuffix& x, const Str& when) {
        auto one = [&](uint64_t i) {
            uint64_t got = x.read((position_t)i);
            if (got != val(i)) violate("suffix-read", when + ": read(" + num(i) + ") = " + num(got) + ", written " + num(val(i)) + " | " + desc);
        };
        for (int i = 0; i < 4000; i++) one(qr.below(n));
        for (uint64_t b : cut) for (int i = 0; i < 12; i++) one(near(qr, b, n));
        for (int b = 8; b < 33; b++) for (int i = 0; i < 12; i++) one(near(qr, (1ull << b) / len, n)), one(near(qr, 1ull << b, n));
        for (int i = 0; i < 100; i++) one(n - 1 - qr.below(std::min<uint64_t>(n, 100)));
        evals(4800, 4800);
        aux(4, 4800);
    }, desc, r);
    aux(huge ? 10 : 9);
}
static void bigLabelCase(Rng& r, bool huge) {
    uint64_t n = huge ? (1ull << 31) + r.below(1u << 20) : (1ull << r.range(14, 22)) + r.below(5000);
    uint64_t salt = r.next();
    phase("many labels");
    seenCases().insert(mix(salt, n));
    // nodes of ns ascending labels; their offset within the byte range depends on the node
    const uint64_t ns = 1ull << r.range(2, 7);
    auto val = [&](uint64_t i) { uint64_t nd = i / ns; return (label_t)(mix(salt, nd) % 128 + i % ns); };
    size_t nl = r.range(1, 4);
    std::vector<uint64_t> cut(1, 0);
    for (size_t i = 1; i < nl; i++) cut.push_back(r.below(n / ns + 1) * ns);
    cut.push_back(n);
    std::sort(cut.begin(), cut.end());
    std::vector<std::vector<label_t> > levels(nl);
    for (size_t l = 0; l < nl; l++) { levels[l].resize(cut[l + 1] - cut[l]); for (uint64_t i = cut[l]; i < cut[l + 1]; i++) levels[l][i - cut[l]] = val(i); }
    LabelVector* v = new LabelVector(levels);
    std::vector<std::vector<label_t> >().swap(levels);
    Rng qr(r.next());
    roundTrip<LabelVector>(v, [&](const LabelVector& x, const Str& when) {
        auto one = [&](uint64_t i) {
            if (x.read((position_t)i) != val(i)) violate("label-read", when + ": label " + num(i) + " of " + num(n) + " reads " + num(x.read((position_t)i)) + ", written " + num(val(i)));
            uint64_t b = i / ns * ns, e = std::min(b + ns, n);
            position_t p = (position_t)b;
            label_t t = val(i);
            bool g = x.search(t, p, (position_t)(e - b));
            if (!g || p != i) violate("label-search", when + ": search(" + num(t) + ") in the node at " + num(b) + " of " + num(n) + " labels = " + (g ? num(p) : Str("not found")) + ", expected " + num(i));
            p = (position_t)b;
            g = x.searchGreaterThan(t, p, (position_t)(e - b));
            if (g != (i + 1 < e) || (g && p != i + 1)) violate("label-search-greater", when + ": searchGreaterThan(" + num(t) + ") in the node at " + num(b) + " of " + num(n) + " labels = " + (g ? num(p) : Str("not found")));
        };
        for (int i = 0; i < 3000; i++) one(qr.below(n));
        for (uint64_t b : cut) for (int i = 0; i < 12; i++) one(near(qr, b, n));
        for (int b = 8; b < 32; b++) for (int i = 0; i < 12; i++) one(near(qr, 1ull << b, n));
        for (int i = 0; i < 100; i++) one(n - 1 - qr.below(100));
        evals(10000, 10000);
        aux(3, 3000);
    }, num(n) + " labels in nodes of " + num(ns), r);
    aux(huge ? 10 : 9);
}

static void monC20(uint64_t c, Rng& r) {
    static const uint64_t bigEvery = getenv("MON_LARGE_EVERY") ? strtoull(getenv("MON_LARGE_EVERY"), 0, 10) : 40;
    static const uint64_t hugeAt = getenv("MON_HUGE_AT") ? strtoull(getenv("MON_HUGE_AT"), 0, 10) : 0;
    if (hugeAt && c >= hugeAt && c < hugeAt + 8 && c % 2 == 0) {
        switch ((c - hugeAt) / 2) { case 0: case 1: return bigCase(r, true); case 2: return bigSuffixCase(r, true); default: return bigLabelCase(r, true); }
    }
    if (bigEvery && c % bigEvery == 7 % bigEvery) {
        switch (r.below(6)) { case 0: case 1: return bigSuffixCase(r, false); case 2: return bigLabelCase(r, false); default: return bigCase(r, false); }
    }
    switch (c % 8) {
    case 0: case 1: case 2: {
        Bits B = makeBits(r, false);
        phase("rank vector");
        seenCases().insert(digest(B));
        BitvectorRank* v = new BitvectorRank(512, B.levels, B.lens, B.lo, B.end);
        roundTrip<BitvectorRank>(v, [&](const BitvectorRank& x, const Str& w) { checkRank(x, B, w); }, B.desc, r);
        if (samples().size() < 2) samples().push_back("rank: " + B.desc + " | every position, before and after a round trip");
        break;
    }
    case 3: case 4: case 5: {
        Bits B = makeBits(r, true); // documented assumption: the first bit is one
        phase("select vector");
        seenCases().insert(digest(B));
        BitvectorSelect* v = new BitvectorSelect(64, B.levels, B.lens, B.lo, B.end);
        roundTrip<BitvectorSelect>(v, [&](const BitvectorSelect& x, const Str& w) { checkSelect(x, B, w); }, B.desc, r);
        if (samples().size() < 3) samples().push_back("select: " + B.desc + " | every one, before and after a round trip");
        break;
    }
    case 6: labelCase(r); break;
    default: suffixCase(r); wordCase(r); break;
    }
}

int main(int argc, char** argv) {
    parseOptions(argc, argv);
    return runCases(monC20);
}

// Shared pieces of the SuRF run-time monitors: deterministic randomness, the
// workload generators, the executable reference model, and the plumbing that
// lets the runner attribute a crash, a hang or a violation to one case.
// Nothing in this file includes or depends on the code under test.
#ifndef MON_COMMON_HPP
#define MON_COMMON_HPP

#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace mon {

typedef std::string Str;
typedef std::vector<std::string> Strs;

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a ^ (b + 0x9E3779B97F4A7C15ULL + (a << 6) + (a >> 2));
    x ^= x >> 31; x *= 0xD6E8FEB86659FD93ULL; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ULL; x ^= x >> 29;
    return x;
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const Str& s, uint64_t h = 1469598103934665603ULL) {
    h = fnv(s.data(), s.size(), h);
    uint64_t n = s.size();
    return fnv(&n, 8, h);
}
inline Str hex(const Str& s) {
    static const char* d = "0123456789abcdef";
    Str r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? Str("(empty)") : r;
}
inline Str hexShort(const Str& s) {
    if (s.size() <= 48) return hex(s);
    return hex(s.substr(0, 24)) + "..(" + std::to_string(s.size()) + " bytes).." + hex(s.substr(s.size() - 12));
}

// ------------------------------------------------------------- configuration
enum { T_NONE = 0, T_HASH = 1, T_REAL = 2, T_MIXED = 3 };
struct Config {
    bool dense;          // include_dense
    uint32_t ratio;      // sparse_dense_ratio
    int type;
    uint32_t hlen, rlen; // bits
    Str str() const {
        char b[160];
        snprintf(b, sizeof b, "include_dense=%d ratio=%u type=%s hash_len=%u real_len=%u", (int)dense, ratio,
                 type == 0 ? "none" : type == 1 ? "hash" : type == 2 ? "real" : "mixed", hlen, rlen);
        return b;
    }
    uint64_t digest() const { return mix(mix(dense * 2 + 1, ratio), mix(type, hlen * 100 + rlen)); }
};

inline const std::vector<uint32_t>& interestingLens() {
    static const std::vector<uint32_t> v = {1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 23, 24, 25, 26, 31, 32, 33, 40, 47, 48, 49, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64};
    return v;
}
inline bool& allDense() { static bool b = false; return b; } // set by the key generator for the case at hand
inline void pickLayout(Rng& r, Config& c) {
    static const std::vector<uint32_t> ratios = {0, 1, 2, 3, 4, 8, 16, 16, 16, 32, 64, 128, 256, 1000, 1000000, 1000000};
    c.dense = !r.chance(1, 6);
    c.ratio = r.pick(ratios);
    if (allDense()) { c.dense = true; c.ratio = 0; }
}
inline Config pickConfig(Rng& r, int wantType = -1) {
    Config c;
    pickLayout(r, c);
    c.type = wantType >= 0 ? wantType : (int)r.below(4);
    c.hlen = c.rlen = 0;
    if (c.type == T_HASH) c.hlen = r.chance(1, 2) ? r.range(1, 16) : r.pick(interestingLens());
    if (c.type == T_REAL) c.rlen = r.chance(1, 2) ? r.range(1, 16) : r.pick(interestingLens());
    if (c.type == T_MIXED) {
        if (r.chance(1, 2)) { c.hlen = r.range(1, 12); c.rlen = r.range(1, 16); }
        else { c.hlen = r.range(1, 63); c.rlen = r.range(1, 64 - c.hlen); }
    }
    return c;
}

// ----------------------------------------------------------------- generators
struct KeySet {
    Str gen;           // generator name and parameters
    Strs list;         // what is handed to the constructor: sorted, maybe with repeats
    Strs keys;         // distinct keys
    Str alphabet;      // bytes worth using in random queries
    void finish() {
        std::sort(keys.begin(), keys.end());
        keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
        if (!keys.empty() && keys[0].empty()) keys.erase(keys.begin());
        if (keys.empty()) keys.push_back("k");
        list = keys;
    }
    void addRepeats(Rng& r) {
        Strs l;
        unsigned mode = r.below(9) / 2;
        size_t often = r.below(keys.size()); // one key comes very often
        for (size_t i = 0; i < keys.size(); i++) {
            unsigned c = 1;
            if (mode == 4) c = i == often ? r.range(250, r.chance(1, 8) ? 66000 : 300) : 1; else
            if (mode == 0) c = r.range(1, 4);
            else if (mode == 1) c = (i + 1 == keys.size()) ? r.range(2, 5) : 1;
            else if (mode == 2) c = (i == 0) ? r.range(2, 5) : (r.chance(1, 9) ? 2 : 1);
            else c = r.chance(1, 4) ? 2 : 1;
            for (unsigned k = 0; k < c; k++) l.push_back(keys[i]);
        }
        list.swap(l);
        gen += "+repeats";
    }
};

inline Str randStr(Rng& r, const Str& alpha, size_t lo, size_t hi) {
    size_t n = r.range(lo, hi);
    Str s(n, '\0');
    for (size_t i = 0; i < n; i++) s[i] = alpha[r.below(alpha.size())];
    return s;
}
inline Str allBytes() { Str s; for (int i = 0; i < 256; i++) s += (char)i; return s; }
inline Str be64(uint64_t v) {
    Str s(8, '\0');
    for (int i = 0; i < 8; i++) s[i] = (char)(v >> (8 * (7 - i)));
    return s;
}

inline Strs alphabets() {
    Strs a;
    a.push_back("ab"); a.push_back("abc"); a.push_back(Str("\x00\xff", 2)); a.push_back("\xfe\xff");
    a.push_back(Str("\x00\x7f\x80\xff", 4)); a.push_back(Str("\x00\x01", 2)); a.push_back("a\xff");
    a.push_back(Str("\x00\x01\x02", 3)); a.push_back("abcdefghijklmnopqrstuvwxyz"); a.push_back(allBytes());
    a.push_back(Str("\x00\xfe\xff", 3)); a.push_back("\xff");
    return a;
}

// node widths around every threshold of the label search code and the word size
inline size_t interestingWidth(Rng& r) {
    static const std::vector<size_t> w = {1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15, 16, 17, 18, 27, 28, 29, 31, 32, 33, 34, 47, 48, 49,
                                          63, 64, 65, 66, 79, 80, 81, 127, 128, 129, 130, 191, 192, 193, 200, 254, 255, 256};
    return r.pick(w);
}
inline Str pickLabels(Rng& r, size_t m) {
    Str all = allBytes();
    if (m >= 256) return all;
    Str res;
    unsigned mode = r.below(4);
    if (mode == 0) { size_t st = r.below(256 - m + 1); res = all.substr(st, m); }
    else if (mode == 1) res = all.substr(256 - m);
    else if (mode == 2) res = all.substr(0, m);
    else {
        for (size_t i = 0; i < m; i++) { size_t j = i + r.below(256 - i); std::swap(all[i], all[j]); }
        res = all.substr(0, m);
        std::sort(res.begin(), res.end(), [](char a, char b) { return (unsigned char)a < (unsigned char)b; });
    }
    return res;
}

enum SizeClass { TINY = 0, SMALL = 1, MEDIUM = 2, LARGE = 3, HUGE_ = 4, GIANT = 5, TITAN = 6 };

// a spine with side branches and keys ending on it at random depths: every level
// of a tall trie has something to find
inline void caterpillar(Rng& r, size_t height, unsigned sidePct, unsigned endPct, Strs& keys) {
    Strs as = alphabets();
    Str a = r.chance(1, 3) ? allBytes() : r.pick(as), spine;
    for (size_t i = 0; i < height; i++) {
        char c = a[r.below(a.size())];
        if (r.below(100) < sidePct) keys.push_back(spine + (char)(r.chance(1, 2) ? (unsigned char)c + 1 : r.below(256)) + randStr(r, allBytes(), 0, 9));
        spine += c;
        if (r.below(100) < endPct) keys.push_back(spine);
    }
    keys.push_back(spine + randStr(r, allBytes(), 0, 9));
}

inline KeySet genKeys(Rng& r, SizeClass sc) {
    KeySet ks;
    allDense() = false;
    char nm[200];
    ks.alphabet = allBytes();
    if (sc == TINY) {
        unsigned kind = r.below(11);
        if (kind < 5) {
            Strs as = alphabets();
            Str a = r.pick(as);
            size_t n = r.chance(1, 8) ? 1 : r.range(1, 40), hi = r.range(1, 7);
            for (size_t i = 0; i < n; i++) ks.keys.push_back(randStr(r, a, 1, hi));
            ks.alphabet = a;
            snprintf(nm, sizeof nm, "random(alphabet=%zu,n=%zu,len<=%zu)", a.size(), n, hi);
        } else if (kind == 5) { // prefix chains: every key a prefix of the next, with forks
            Strs as = alphabets();
            Str a = r.pick(as);
            size_t n = r.range(1, 4);
            for (size_t c = 0; c < n; c++) {
                Str s;
                size_t len = r.range(2, 14);
                for (size_t i = 0; i < len; i++) {
                    s += a[r.below(a.size())];
                    if (r.chance(2, 3)) ks.keys.push_back(s);
                    if (r.chance(1, 4)) ks.keys.push_back(s + (char)r.below(256));
                }
            }
            ks.alphabet = a;
            snprintf(nm, sizeof nm, "chains(%zu,alphabet=%zu)", n, a.size());
        } else if (kind == 6) { // complete trie over a tiny alphabet with random holes
            Strs as = alphabets();
            Str a = as[r.below(6)];
            size_t depth = r.range(1, a.size() == 2 ? 5 : 3);
            unsigned keep = r.range(1, 4);
            std::vector<Str> fr(1, Str());
            for (size_t d = 0; d < depth; d++) {
                std::vector<Str> nx;
                for (auto& f : fr) for (char c : a) nx.push_back(f + c);
                for (auto& x : nx) if (r.chance(keep, 4)) ks.keys.push_back(x);
                fr.swap(nx);
            }
            ks.alphabet = a;
            snprintf(nm, sizeof nm, "complete(alphabet=%zu,depth=%zu,keep=%u/4)", a.size(), depth, keep);
        } else if (kind == 7) { // single key or two keys
            Str k = randStr(r, r.chance(1, 3) ? Str("\xff") : allBytes(), 1, 12);
            ks.keys.push_back(k);
            if (r.chance(1, 2)) { Str k2 = k + randStr(r, allBytes(), 1, 10); ks.keys.push_back(k2); }
            if (r.chance(1, 3)) ks.keys.push_back(k.substr(0, r.range(1, k.size())));
            snprintf(nm, sizeof nm, "one-or-two");
        } else if (kind == 8) { // keys with a shared prefix and long tails (real suffix bits matter)
            Strs as = alphabets();
            Str a = r.pick(as);
            Str pre = randStr(r, a, 0, 6);
            size_t n = r.range(1, 20);
            for (size_t i = 0; i < n; i++) {
                Str k = pre + randStr(r, a, 1, 4) + randStr(r, r.chance(1, 2) ? a : allBytes(), 0, 12);
                ks.keys.push_back(k);
            }
            ks.alphabet = a;
            snprintf(nm, sizeof nm, "tails(alphabet=%zu,n=%zu)", a.size(), n);
        } else if (kind == 10) { // keys far longer than what is kept of them
            Strs as = alphabets();
            Str a = r.pick(as);
            size_t n = r.range(1, 8);
            for (size_t i = 0; i < n; i++) {
                Str k = randStr(r, a, 1, 5);
                size_t len = r.chance(1, 12) ? r.range(65520, 65800) : r.chance(1, 3) ? r.range(240, 530) : r.range(10, 80);
                if (r.chance(1, 4)) ks.keys.push_back(k);
                k += r.chance(1, 2) ? randStr(r, allBytes(), len, len) : Str(len, (char)r.below(256));
                ks.keys.push_back(k);
                if (r.chance(1, 3) && len < 1000) ks.keys.push_back(k.substr(0, k.size() - r.below(4)));
            }
            ks.alphabet = a;
            snprintf(nm, sizeof nm, "long-tails(n=%zu)", ks.keys.size());
        } else { // distinct first bytes only (whole trie is the root)
            Str l = pickLabels(r, r.chance(1, 2) ? r.range(1, 8) : interestingWidth(r));
            for (char c : l) ks.keys.push_back(Str(1, c) + randStr(r, allBytes(), 0, 9));
            snprintf(nm, sizeof nm, "root-only(%zu)", l.size());
        }
    } else if (sc == SMALL) {
        unsigned kind = r.below(7);
        if (kind == 6) {
            size_t h = r.range(10, 130);
            unsigned sp = (unsigned)r.range(5, 100), ep = (unsigned)r.range(0, 80);
            caterpillar(r, h, sp, ep, ks.keys);
            snprintf(nm, sizeof nm, "caterpillar(height=%zu,side=%u%%,end=%u%%)", h, sp, ep);
        } else if (kind == 0) { // wide nodes below the root
            size_t nodes = r.range(1, 5);
            Str desc;
            for (size_t i = 0; i < nodes; i++) {
                Str pre = randStr(r, r.chance(1, 2) ? Str("ab\xff") : allBytes(), 1, 4);
                Str l = pickLabels(r, interestingWidth(r));
                if (r.chance(1, 2)) ks.keys.push_back(pre);
                unsigned childp = r.below(4);
                for (char c : l) {
                    Str k = pre + c;
                    if (r.below(4) < childp) {
                        ks.keys.push_back(k + randStr(r, allBytes(), 0, 3));
                        ks.keys.push_back(k + randStr(r, allBytes(), 1, 3));
                    } else
                        ks.keys.push_back(k + randStr(r, allBytes(), 0, 8));
                }
                desc += " " + std::to_string(l.size());
            }
            snprintf(nm, sizeof nm, "wide-nodes(%s )", desc.c_str());
        } else if (kind == 1) { // a x b grids: label/node totals at multiples of 64 and 512
            static const std::vector<size_t> v = {1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256};
            size_t a = r.pick(v), b = r.pick(v);
            while (a * b > 3000) { a = r.pick(v); b = r.pick(v); }
            Str la = pickLabels(r, a), lb = pickLabels(r, b);
            size_t tail = r.range(0, 6);
            bool third = r.chance(1, 3);
            for (char x : la)
                for (char y : lb) {
                    Str k = Str(1, x) + y;
                    if (third) { ks.keys.push_back(k + "p" + randStr(r, allBytes(), 0, tail)); ks.keys.push_back(k + "q"); }
                    else ks.keys.push_back(k + randStr(r, allBytes(), 0, tail));
                }
            // perturb the total by a few keys
            size_t drop = r.below(4);
            for (size_t i = 0; i < drop && ks.keys.size() > 1; i++) ks.keys.erase(ks.keys.begin() + r.below(ks.keys.size()));
            snprintf(nm, sizeof nm, "grid(%zux%zu,third=%d,drop=%zu)", a, b, (int)third, drop);
        } else if (kind == 2) { // long common prefixes: tall tries
            static const std::vector<size_t> lens = {30, 63, 64, 65, 100, 255, 256, 257, 300, 511, 512, 513};
            size_t len = r.pick(lens);
            Str pre = randStr(r, r.chance(1, 2) ? Str("a") : allBytes(), len, len);
            size_t n = r.range(2, 12);
            for (size_t i = 0; i < n; i++) {
                if (r.chance(1, 3)) ks.keys.push_back(pre.substr(0, r.range(1, len)));
                else if (r.chance(1, 3)) ks.keys.push_back(pre.substr(0, r.range(1, len)) + randStr(r, allBytes(), 1, 9));
                else ks.keys.push_back(pre + randStr(r, Str("ab\xff"), 0, 4) + randStr(r, allBytes(), 0, 10));
            }
            snprintf(nm, sizeof nm, "tall(prefix=%zu,n=%zu)", len, n);
        } else if (kind == 3) { // clustered / random integers
            size_t n = r.range(20, 600);
            uint64_t base = r.next(), step = r.chance(1, 2) ? 1 : r.range(1, 100000);
            bool rnd = r.chance(1, 3);
            for (size_t i = 0; i < n; i++) ks.keys.push_back(be64(rnd ? r.next() : base + i * step + r.below(step)));
            snprintf(nm, sizeof nm, "ints(n=%zu,%s)", n, rnd ? "random" : "clustered");
        } else if (kind == 4) { // words
            size_t n = r.range(50, 500);
            static const char* syl[] = {"ka", "to", "mi", "re", "an", "s", "th", "er", "ing", "ed", "o", "com.", "@", "x"};
            for (size_t i = 0; i < n; i++) {
                Str k;
                size_t m = r.range(1, 6);
                for (size_t j = 0; j < m; j++) k += syl[r.below(14)];
                ks.keys.push_back(k);
            }
            ks.alphabet = "katomirensthinged.co@x";
            snprintf(nm, sizeof nm, "words(n=%zu)", n);
        } else { // larger random sets over small alphabets
            Strs as = alphabets();
            Str a = r.pick(as);
            size_t n = r.range(60, 700), hi = r.range(3, 14);
            for (size_t i = 0; i < n; i++) ks.keys.push_back(randStr(r, a, 1, hi));
            ks.alphabet = a;
            snprintf(nm, sizeof nm, "random(alphabet=%zu,n=%zu,len<=%zu)", a.size(), n, hi);
        }
    } else if (sc == TITAN) { // dense bitmaps of more than 2^31 bits (256 per node)
        allDense() = true;
        size_t pairs = r.range(240000, 300000), nodes = r.range(8600000, 11000000), chain = nodes / pairs + 1;
        for (size_t i = 0; i < pairs; i++) {
            Str k = be64(r.next()).substr(0, 4);
            uint64_t x = r.next();
            for (size_t j = 0; j < chain; j++) { if (j % 8 == 0) x = mix(x, j); k += (char)(x >> (8 * (j % 8))); }
            ks.keys.push_back(k + (char)r.below(256) + (char)r.below(256));
            ks.keys.push_back(k + (char)r.below(256) + (char)r.below(256));
            if (r.chance(1, 50)) ks.keys.push_back(k.substr(0, r.range(1, k.size())));
        }
        snprintf(nm, sizeof nm, "titan(pairs=%zu,chain=%zu)", pairs, chain);
    } else if (sc == GIANT) { // more trie levels than 16 bits count
        size_t h = r.range(65530, 65545), n = r.range(2, 5);
        Str pre(h, (char)r.range(1, 254));
        if (r.chance(1, 2)) for (size_t i = 0; i < h; i += r.range(1, 50)) pre[i] = (char)r.below(256);
        for (size_t i = 0; i < n; i++) {
            size_t at = r.chance(1, 2) ? h - r.below(20) : r.range(1, h);
            ks.keys.push_back(pre.substr(0, at) + randStr(r, allBytes(), 0, 9));
        }
        ks.keys.push_back(pre + "a" + randStr(r, allBytes(), 0, 9));
        ks.keys.push_back(pre + "bcd");
        snprintf(nm, sizeof nm, "giant(height=%zu)", h);
    } else {
        size_t n = sc == MEDIUM ? r.range(800, 6000) : sc == LARGE ? r.range(15000, 60000) : r.range(560000, 700000);
        unsigned kind = r.below(sc == HUGE_ ? 5 : 7);
        if (kind == 6) {
            size_t h = 0;
            for (unsigned i = 0; i < (sc == MEDIUM ? 1u : 3u); i++) { h = r.range(150, sc == MEDIUM ? 900 : 1500); caterpillar(r, h, (unsigned)r.range(10, 100), (unsigned)r.range(10, 90), ks.keys); }
            snprintf(nm, sizeof nm, "caterpillar(height=%zu,n=%zu)", h, ks.keys.size());
        } else if (kind == 0) {
            for (size_t i = 0; i < n; i++) ks.keys.push_back(be64(r.next()));
            snprintf(nm, sizeof nm, "ints(n=%zu,random)", n);
        } else if (kind == 1) {
            uint64_t base = r.next() >> 1;
            for (size_t i = 0; i < n; i++) ks.keys.push_back(be64(base + i * 3 + r.below(3)));
            snprintf(nm, sizeof nm, "ints(n=%zu,clustered)", n);
        } else if (kind == 2) {
            static const char* dom[] = {"com.gmail@", "com.yahoo@", "org.example@", "edu.cmu.cs@", "com.gmail"};
            for (size_t i = 0; i < n; i++) {
                Str k = dom[r.below(5)];
                size_t m = r.range(1, 12);
                for (size_t j = 0; j < m; j++) k += (char)('a' + r.below(26));
                ks.keys.push_back(k);
            }
            ks.alphabet = "abcdefghijklmnopqrstuvwxyz@.";
            snprintf(nm, sizeof nm, "emails(n=%zu)", n);
        } else if (kind == 3) {
            Strs as = alphabets();
            Str a = as[r.below(6)];
            size_t hi = a.size() == 2 ? 18 : 12;
            for (size_t i = 0; i < n; i++) ks.keys.push_back(randStr(r, a, 1, hi));
            ks.alphabet = a;
            snprintf(nm, sizeof nm, "random(alphabet=%zu,n=%zu,len<=%zu)", a.size(), n, hi);
        } else if (kind == 4) { // byte-random with length jitter
            for (size_t i = 0; i < n; i++) ks.keys.push_back(randStr(r, ks.alphabet, 1, 6));
            snprintf(nm, sizeof nm, "bytes(n=%zu)", n);
        } else { // many wide nodes + a very tall path when medium
            while (ks.keys.size() < n) {
                Str pre = randStr(r, allBytes(), 1, 3);
                Str l = pickLabels(r, interestingWidth(r));
                if (r.chance(1, 3)) ks.keys.push_back(pre);
                for (char c : l) ks.keys.push_back(pre + c + randStr(r, allBytes(), 0, 5));
            }
            if (sc == MEDIUM && r.chance(1, 2)) {
                Str pre(r.range(2017, 3000), 'm');
                ks.keys.push_back(pre + "a" + "tail-of-the-key");
                ks.keys.push_back(pre + "b");
            }
            snprintf(nm, sizeof nm, "wide-many(n=%zu)", ks.keys.size());
        }
    }
    ks.gen = nm;
    ks.finish();
    return ks;
}

// ----------------------------------------------------------- reference model
// What the structure is documented to keep about each key, computed from the
// key list alone.
enum Order { LESS = -1, EQUAL = 0, GREATER = 1, UNDECIDED = 2 };

struct Model {
    const Strs* K;
    std::vector<uint32_t> plen; // bytes of the distinguishing prefix
    std::vector<uint8_t> term;  // key is a proper prefix of another key
    Config c;

    void build(const Strs& keys, const Config& cfg) {
        K = &keys;
        c = cfg;
        size_t n = keys.size();
        plen.assign(n, 0);
        term.assign(n, 0);
        std::vector<size_t> l(n + 1, 0);
        for (size_t i = 1; i < n; i++) l[i] = lcp(keys[i - 1], keys[i]);
        for (size_t i = 0; i < n; i++) {
            size_t d = std::max(l[i], i + 1 < n ? l[i + 1] : 0) + 1;
            if (d > keys[i].size()) { term[i] = 1; plen[i] = keys[i].size(); }
            else plen[i] = d;
        }
    }
    static size_t lcp(const Str& a, const Str& b) {
        size_t n = std::min(a.size(), b.size()), i = 0;
        while (i < n && a[i] == b[i]) i++;
        return i;
    }
    size_t n() const { return K->size(); }
    Str prefix(size_t i) const { return (*K)[i].substr(0, plen[i]); }
    uint32_t realBits() const { return (c.type == T_REAL || c.type == T_MIXED) ? c.rlen : 0; }
    // value of `bits` bits of s starting at byte `at`; false when s is too short
    static bool bitsAt(const Str& s, size_t at, uint32_t bits, uint64_t& v) {
        v = 0;
        if (at > s.size() || (s.size() - at) * 8 < bits) return false;
        for (uint32_t b = 0; b < bits; b++)
            v = (v << 1) | (((unsigned char)s[at + b / 8] >> (7 - b % 8)) & 1);
        return true;
    }
    // the real suffix kept for key i; 0 means none
    uint64_t suffix(size_t i) const {
        uint64_t v;
        if (!realBits() || term[i]) return 0;
        if (!bitsAt((*K)[i], plen[i], realBits(), v)) return 0;
        return v;
    }
    // What the stored bits prove about key i relative to q.  `slack` is set when
    // the verdict is decided but rests on q ending inside the suffix bits with
    // only zero bits of the suffix left, or on q being exactly the stored bits:
    // reporting "undecided" there is tolerated, a contradicting verdict is not.
    Order decide(size_t i, const Str& q, bool* slack = nullptr) const {
        if (slack) *slack = false;
        const Str& k = (*K)[i];
        if (term[i]) {
            int o = k.compare(q);
            return o < 0 ? LESS : o > 0 ? GREATER : EQUAL;
        }
        size_t pl = plen[i];
        int o = memcmp(k.data(), q.data(), std::min(pl, q.size()));
        if (o) return o < 0 ? LESS : GREATER;
        if (q.size() < pl) return GREATER;
        uint64_t s = suffix(i);
        uint32_t rb = realBits();
        if (s == 0) { return UNDECIDED; }
        uint64_t v;
        if (bitsAt(q, pl, rb, v)) {
            if (s < v) return LESS;
            if (s > v) return GREATER;
            return UNDECIDED;
        }
        // q ends inside the suffix bits
        uint32_t have = (q.size() - pl) * 8;
        bitsAt(q, pl, have, v);
        uint64_t top = have == 0 ? 0 : s >> (rb - have);
        if (top < v) return LESS;
        if (top > v) return GREATER;
        uint32_t restBits = rb - have;
        uint64_t rest = restBits >= 64 ? s : (s & ((1ULL << restBits) - 1));
        if (rest == 0 && slack) *slack = true;
        return GREATER;
    }
    bool mayBeUndecided(size_t i, const Str& q) const {
        bool sl;
        Order o = decide(i, q, &sl);
        return o == UNDECIDED || sl;
    }
    size_t lowerBound(const Str& q) const { return std::lower_bound(K->begin(), K->end(), q) - K->begin(); }
    size_t upperBound(const Str& q) const { return std::upper_bound(K->begin(), K->end(), q) - K->begin(); }
    bool stored(const Str& q) const { return std::binary_search(K->begin(), K->end(), q); }
    // first key not proved < q
    size_t firstNotLess(const Str& q) const {
        size_t t = lowerBound(q);
        while (t > 0) { bool sl; Order o = decide(t - 1, q, &sl); if (o == LESS && !sl) break; t--; }
        return t;
    }
    // one past the last key not proved > q (allowing the slack verdicts)
    size_t endNotGreater(const Str& q) const {
        size_t e = upperBound(q);
        while (e < n()) { bool sl; Order o = decide(e, q, &sl); if (o == GREATER && !sl) break; e++; }
        return e;
    }
    // does the stored information admit q as a stored key (hash bits aside)?
    bool admits(const Str& q, size_t* who = nullptr) const {
        size_t t = lowerBound(q);
        for (int d = -1; d <= 0; d++) {
            if (d < 0 && t == 0) continue;
            size_t i = t + d;
            if (i >= n()) continue;
            if (term[i]) { if ((*K)[i] == q) { if (who) *who = i; return true; } continue; }
            if (q.size() < plen[i] || memcmp(q.data(), (*K)[i].data(), plen[i])) continue;
            uint64_t s = suffix(i), v;
            if (s != 0 && (!bitsAt(q, plen[i], realBits(), v) || v != s)) continue;
            if (who) *who = i;
            return true;
        }
        return false;
    }
};

// ------------------------------------------------------------------- queries
inline Str bump(Str s, size_t at, int d) {
    if (at < s.size()) s[at] = (char)((unsigned char)s[at] + d);
    return s;
}
inline Str oneQuery(Rng& r, const KeySet& ks, const Model& m) {
    const Strs& K = ks.keys;
    size_t i = r.chance(1, 12) ? (r.chance(1, 2) ? 0 : K.size() - 1) : r.below(K.size());
    const Str& k = K[i];
    size_t pl = m.plen[i];
    switch (r.below(27)) {
    case 0: case 1: return k;
    case 2: return k.substr(0, r.below(k.size() + 1));
    case 3: return k.substr(0, pl);
    case 4: return k.substr(0, pl - 1);
    case 5: return k + Str(1, '\0');
    case 6: return k + Str(r.range(1, 3), '\xff');
    case 7: return k + randStr(r, allBytes(), 1, 9);
    case 8: return k.substr(0, pl) + randStr(r, allBytes(), 0, 10);
    case 9: return bump(k, k.size() - 1, r.chance(1, 2) ? 1 : -1);
    case 10: return bump(k, pl - 1, r.chance(1, 2) ? 1 : -1);
    case 11: return bump(k.substr(0, pl), pl - 1, r.chance(1, 2) ? 1 : -1);
    case 12: { // flip one bit in the suffix area
        Str q = k;
        if (q.size() > pl) { size_t at = pl + r.below(std::min<size_t>(q.size() - pl, 9)); q[at] ^= (char)(1 << r.below(8)); }
        return q;
    }
    case 13: return k.substr(0, std::min(k.size(), pl + r.range(0, 9))); // cut inside the suffix area
    case 14: { // suffix area cut, then one byte changed
        Str q = k.substr(0, std::min(k.size(), pl + r.range(1, 9)));
        return bump(q, q.size() - 1, r.chance(1, 2) ? 1 : -1);
    }
    case 15: return k.substr(0, pl - 1) + Str(r.below(3), '\0');
    case 16: return k.substr(0, pl - 1) + Str(r.range(1, 12), '\xff');
    case 17: { size_t c = r.below(k.size()); return k.substr(0, c) + k.substr(c + 1); }
    case 18: return randStr(r, ks.alphabet, 0, 8);
    case 19: return randStr(r, allBytes(), 0, 6);
    case 20: switch (r.below(5)) {
        case 0: return "";
        case 1: return Str(1, '\0');
        case 2: return Str(r.range(1, 20), '\xff');
        case 3: return Str(r.range(1, 20), '\0');
        default: return Str("\xff\x00", 2);
        }
    case 21: return k.substr(0, r.below(k.size() + 1)) + randStr(r, ks.alphabet, 1, 4);
    case 22: if (pl > 2018) return k.substr(0, pl - 2018); return k + randStr(r, ks.alphabet, 1, 2);
    case 23: { // exactly the bits kept for the key, no more
        size_t nb = (m.realBits() + 7) / 8;
        return k.substr(0, std::min(k.size(), pl + nb));
    }
    case 25: { // much longer than any key
        size_t at = r.chance(1, 2) ? k.size() : r.below(k.size() + 1), n = r.chance(1, 20) ? r.range(65520, 65800) : r.chance(1, 3) ? r.range(240, 520) : r.range(10, 70);
        return k.substr(0, at) + (r.chance(1, 3) ? randStr(r, allBytes(), n, n) : Str(n, r.chance(1, 2) ? '\0' : '\xff'));
    }
    case 24: { Str q = k.substr(0, pl); q += Str(r.range(1, 9), r.chance(1, 2) ? '\0' : '\xff'); return q; }
    default: { // a copy of k with a random byte changed to a random value
        Str q = k; q[r.below(std::min<size_t>(q.size(), pl + 9))] = (char)r.below(256); return q;
    }
    }
}
inline Strs genQueries(Rng& r, const KeySet& ks, const Model& m, size_t n) {
    Strs q;
    q.push_back("");
    for (size_t i = 0; i < n; i++) q.push_back(oneQuery(r, ks, m));
    return q;
}

// --------------------------------------------------------- status and verdict
// One shared page per worker process, read by the runner.
struct Status {
    volatile uint64_t current;      // case being executed
    volatile uint64_t cases;        // cases finished
    volatile uint64_t evals;        // oracle evaluations
    volatile uint64_t nontrivial;   // evaluations that could have failed in an interesting way
    volatile uint64_t aux[28];      // monitor-specific counters
    char phase[128];
    char gen[256];
};
inline Status*& status() {
    static Status* s = nullptr;
    return s;
}
struct Options {
    Str mon = "", out = ".", statusPath = "", variant = "v";
    uint64_t seed = 1, from = 0, to = 0, step = 1, scale = 1;
    unsigned cpuCap = 150;
    uint64_t deadline = 0;
    bool verbose = false;
    Str digests = "";
    Str known = "";
};
inline Options& opt() { static Options o; return o; }
inline std::set<Str>& knownSigs() { static std::set<Str> s; return s; }
struct SeenCases { // 64-bit digests of the cases on which the oracle had something to decide
    std::vector<uint64_t> v;
    uint64_t total = 0, lastNontrivial = 0; // cases noted, judged or not
    void insert(uint64_t x) {
        total++;
        if (status()->nontrivial != lastNontrivial) v.push_back(x);
        lastNontrivial = status()->nontrivial;
    }
    size_t size() { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v.size(); }
};
inline SeenCases& seenCases() { static SeenCases s; return s; }
inline Strs& samples() { static Strs s; return s; }

inline void onAlarm(int) {
    // CPU budget of one case exhausted: let the runner decide (it re-runs the case alone)
    static const char m[] = "MON-HANG cpu budget of one case exhausted\n";
    ssize_t x = write(2, m, sizeof m - 1);
    (void)x;
    _exit(97);
}
inline void armWatchdog(unsigned sec) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    signal(SIGPROF, onAlarm);
    setitimer(ITIMER_PROF, &it, nullptr);
}
inline void openStatus(const Str& path) {
    Status* s = nullptr;
    if (!path.empty()) {
        int fd = open(path.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) {
            void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) s = (Status*)p;
        }
        if (fd >= 0) close(fd);
    }
    if (!s) s = (Status*)calloc(1, sizeof(Status));
    memset((void*)s, 0, sizeof *s);
    status() = s;
}
inline void phase(const char* p) { strncpy(status()->phase, p, sizeof(status()->phase) - 1); }
inline void evals(uint64_t n = 1, uint64_t nontriv = 1) { status()->evals += n; status()->nontrivial += nontriv; }
inline void aux(int i, uint64_t n = 1) { status()->aux[i] += n; }

// Everything needed to describe the case currently running.
struct CaseCtx {
    uint64_t no = 0;
    const KeySet* ks = nullptr;
    Config cfg = Config();
    bool haveCfg = false;
};
inline CaseCtx& ctx() { static CaseCtx c; return c; }

inline Str describeKeys(size_t maxKeys) {
    Str s;
    const KeySet* ks = ctx().ks;
    if (!ks) return s;
    s += "generator: " + ks->gen + "\n";
    s += "keys passed: " + std::to_string(ks->list.size()) + ", distinct: " + std::to_string(ks->keys.size()) + "\n";
    for (size_t i = 0; i < ks->list.size() && i < maxKeys; i++) s += "  " + hex(ks->list[i]) + "\n";
    if (ks->list.size() > maxKeys) s += "  ... (regenerate with the case number)\n";
    return s;
}

// A violated property: write the witness and stop this worker (exit code 66),
// unless the signature is a listed known finding.
inline void violate(const Str& kind, const Str& detail) {
    uint64_t h = fnv(kind);
    if (ctx().ks) for (auto& k : ctx().ks->list) h = fnv(k, h);
    if (ctx().haveCfg) h = mix(h, ctx().cfg.digest());
    h = fnv(detail, h);
    char sig[64];
    snprintf(sig, sizeof sig, "%s:%016llx", kind.c_str(), (unsigned long long)h);
    if (knownSigs().count(sig)) {
        printf("MON-KNOWN %s\n", sig);
        fflush(stdout);
        return;
    }
    Str path = opt().out + "/witness-" + opt().variant + "-" + std::to_string(ctx().no) + ".txt";
    FILE* f = fopen(path.c_str(), "w");
    Str body = "monitor: " + opt().mon + "\nkind: " + kind + "\nsignature: " + sig + "\ncase: " + std::to_string(ctx().no) +
               "\nseed: " + std::to_string(opt().seed) + "\nphase: " + Str(status()->phase) + "\n";
    if (ctx().haveCfg) body += "configuration: " + ctx().cfg.str() + "\n";
    body += "observed: " + detail + "\n" + describeKeys(3000);
    if (f) { fwrite(body.data(), 1, body.size(), f); fclose(f); }
    printf("MON-VIOLATION %s case=%llu witness=%s\n", sig, (unsigned long long)ctx().no, path.c_str());
    printf("  %s | %s | %s\n", kind.c_str(), ctx().haveCfg ? ctx().cfg.str().c_str() : "", detail.substr(0, 600).c_str());
    fflush(stdout);
    _exit(66);
}

inline void parseOptions(int argc, char** argv) {
    Options& o = opt();
    for (int i = 1; i < argc; i++) {
        Str a = argv[i];
        auto val = [&]() -> Str { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
        if (a == "--mon") o.mon = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") o.from = strtoull(val().c_str(), 0, 10);
        else if (a == "--to") o.to = strtoull(val().c_str(), 0, 10);
        else if (a == "--step") o.step = strtoull(val().c_str(), 0, 10);
        else if (a == "--scale") o.scale = strtoull(val().c_str(), 0, 10);
        else if (a == "--out") o.out = val();
        else if (a == "--status") o.statusPath = val();
        else if (a == "--variant") o.variant = val();
        else if (a == "--cpu-cap") o.cpuCap = strtoul(val().c_str(), 0, 10);
        else if (a == "--known") { Str v = val(); size_t p = 0; while (p < v.size()) { size_t e = v.find(',', p); if (e == Str::npos) e = v.size(); knownSigs().insert(v.substr(p, e - p)); p = e + 1; } }
        else if (a == "--deadline") o.deadline = strtoull(val().c_str(), 0, 10);
        else if (a == "--digests") o.digests = val();
        else if (a == "--verbose") o.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(2); }
    }
    openStatus(o.statusPath);
}

// Run `fn(caseNo, rng)` over this worker's share of the cases.
inline int runCases(const std::function<void(uint64_t, Rng&)>& fn) {
    Options& o = opt();
    for (uint64_t c = o.from; c < o.to; c += o.step) {
        if (o.deadline && c != o.from && (uint64_t)time(nullptr) >= o.deadline) { printf("MON-DEADLINE before case %llu\n", (unsigned long long)c); break; }
        ctx() = CaseCtx();
        ctx().no = c;
        status()->current = c;
        phase("start");
        armWatchdog(o.cpuCap);
        Rng r(mix(o.seed, c + 1));
        fn(c, r);
        status()->cases++;
    }
    armWatchdog(0);
    status()->current = ~0ULL;
    size_t distinct = seenCases().size();
    printf("MON-DONE cases=%llu evals=%llu nontrivial=%llu noted=%llu distinct=%zu", (unsigned long long)status()->cases,
           (unsigned long long)status()->evals, (unsigned long long)status()->nontrivial, (unsigned long long)seenCases().total, distinct);
    if (!o.digests.empty()) {
        FILE* f = fopen(o.digests.c_str(), "wb");
        if (f) { fwrite(seenCases().v.data(), 8, distinct, f); fclose(f); }
    }
    for (int i = 0; i < 28; i++) printf(" a%d=%llu", i, (unsigned long long)status()->aux[i]);
    printf("\n");
    for (auto& s : samples()) printf("MON-SAMPLE %s\n", s.c_str());
    fflush(stdout);
    return 0;
}
inline void noteCase(const KeySet& ks, const Config& c, const Str& extra = "") {
    uint64_t h = c.digest();
    for (auto& k : ks.list) h = fnv(k, h);
    seenCases().insert(h);
    if (samples().size() < 2 && ks.list.size() < 12) {
        Str s = ks.gen + " | " + c.str() + " | keys";
        for (auto& k : ks.list) s += " " + hexShort(k);
        if (!extra.empty()) s += " | " + extra;
        samples().push_back(s);
    }
}

// Size class schedule: mostly tiny and small cases, some medium, few large; the
// last-class cases are placed at fixed case numbers so that every run has them.
inline SizeClass sizeOf(uint64_t c, Rng& r, uint64_t largeEvery, uint64_t hugeAt) {
    static const uint64_t giantAt = getenv("MON_GIANT_AT") ? strtoull(getenv("MON_GIANT_AT"), nullptr, 10) : 0;
    static const uint64_t titanAt = getenv("MON_TITAN_AT") ? strtoull(getenv("MON_TITAN_AT"), nullptr, 10) : 0;
    if (titanAt && c % titanAt == titanAt - 1) return TITAN;
    if (giantAt && c % giantAt == giantAt - 1) return GIANT;
    if (hugeAt && c % hugeAt == hugeAt - 1) return HUGE_;
    if (largeEvery && c % largeEvery == largeEvery - 1) return LARGE;
    uint64_t x = r.below(100);
    if (x < 62) return TINY;
    if (x < 95) return SMALL;
    return MEDIUM;
}

} // namespace mon
#endif

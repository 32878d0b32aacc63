// Allocation ledger: replaces the global operator new/delete so that monitors can
// see every block the code under test obtains and returns.  Fresh blocks are
// filled with a pattern that differs from allocation to allocation, so anything
// that depends on uninitialised memory becomes visibly non-deterministic, and a
// canary follows each block.  Compiled out (MON_NO_LEDGER) under sanitizers.
#ifndef MON_LEDGER_HPP
#define MON_LEDGER_HPP
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>

namespace ledger {
struct Counters {
    std::atomic<int64_t> liveBlocks{0}, liveBytes{0};
    std::atomic<uint64_t> allocs{0}, frees{0}, bytes{0};
    std::atomic<uint64_t> lastSize{0};
    std::atomic<uint64_t> salt{1};
};
inline Counters& counters() { static Counters c; return c; }
inline bool& tracking() { static thread_local bool t = false; return t; }
// fault injection: the n-th tracked allocation from now fails (0: none)
inline uint64_t& failAt() { static thread_local uint64_t n = 0; return n; }
// Allocations made while a Scope is alive belong to the code under test.
struct Scope {
    bool old;
    Scope() : old(tracking()) { tracking() = true; }
    ~Scope() { tracking() = old; }
};
// a defect seen by the allocator itself: double free, foreign pointer, overrun, new/delete mismatch
inline void die(const char* what) {
    char b[200];
    int n = snprintf(b, sizeof b, "MON-LEDGER %s\n", what);
    ssize_t x = write(2, b, n);
    x = write(1, b, n);
    (void)x;
    _exit(67);
}
#ifndef MON_NO_LEDGER
static const uint64_t kLive = 0x51A11E5D0B10C0DEULL, kDead = 0xDEADDEADDEADDEADULL;
static const size_t kHdr = 32, kTail = 16;
struct Hdr { uint64_t magic, size, array, tagged; };
inline void* get(size_t n, bool array) {
    if (failAt() && tracking() && --failAt() == 0) throw std::bad_alloc();
    char* raw = (char*)malloc(n + kHdr + kTail);
    if (!raw) throw std::bad_alloc();
    Hdr* h = (Hdr*)raw;
    h->magic = kLive; h->size = n; h->array = array; h->tagged = tracking();
    char* p = raw + kHdr;
    if (h->tagged) {
        Counters& c = counters();
        uint64_t salt = c.salt.fetch_add(1);
        memset(p, (int)(0x5B + salt * 37), n);
        c.liveBlocks++; c.liveBytes += n; c.allocs++; c.bytes += n; c.lastSize = n;
    }
    memset(p + n, 0xC7, kTail);
    return p;
}
inline void put(void* q, bool array) {
    if (!q) return;
    char* p = (char*)q;
    Hdr* h = (Hdr*)(p - kHdr);
    if (h->magic == kDead) die("block freed twice");
    if (h->magic != kLive) die("freed pointer was never allocated (or its header was overwritten)");
    if (h->array != (uint64_t)array) die("new[]/delete or new/delete[] mismatch");
    for (size_t i = 0; i < kTail; i++) if ((unsigned char)p[h->size + i] != 0xC7) die("bytes written past the end of a block");
    if (h->tagged) { Counters& c = counters(); c.liveBlocks--; c.liveBytes -= h->size; c.frees++; }
    h->magic = kDead;
    memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
    free(h);
}
#endif
} // namespace ledger

#ifndef MON_NO_LEDGER
void* operator new(size_t n) { return ledger::get(n, false); }
void* operator new[](size_t n) { return ledger::get(n, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return ledger::get(n, false); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return ledger::get(n, true); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { ledger::put(p, false); }
void operator delete[](void* p) noexcept { ledger::put(p, true); }
void operator delete(void* p, size_t) noexcept { ledger::put(p, false); }
void operator delete[](void* p, size_t) noexcept { ledger::put(p, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { ledger::put(p, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { ledger::put(p, true); }
#endif
#endif

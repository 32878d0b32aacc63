// Recording stand-in for bench/filter_factory.hpp: the benchmark's main programs
// are compiled against this header, which wraps the real factory and writes one
// event per inserted key and per executed query to the file named by MON_LOG.
#ifndef MON_RECORDING_FACTORY_HPP
#define MON_RECORDING_FACTORY_HPP

#define FilterFactory RealFilterFactory
#include MON_REAL_FACTORY
#undef FilterFactory

#include <atomic>
#include <mutex>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace bench {

class RecordingFilter : public Filter {
public:
    RecordingFilter(Filter* inner, const std::string& type, uint32_t len, const std::vector<std::string>& keys) : inner_(inner) {
        const char* p = getenv("MON_LOG");
        log_ = fopen(p ? p : "/dev/null", "w");
        if (!log_) { fprintf(stderr, "MON: cannot open the event log\n"); _Exit(3); }
        fprintf(log_, "F %s %u\n", type.c_str(), len);
        for (size_t i = 0; i < keys.size(); i++) fprintf(log_, "K %s\n", hex(keys[i]).c_str());
        fflush(log_);
    }
    bool lookup(const std::string& key) {
        Span s;
        bool r = inner_->lookup(key);
        s.end();
        std::lock_guard<std::mutex> g(mu_);
        fprintf(log_, "L %s %d %s\n", hex(key).c_str(), (int)r, s.text);
        return r;
    }
    bool lookupRange(const std::string& a, const std::string& b) {
        Span s;
        bool r = inner_->lookupRange(a, b);
        s.end();
        std::lock_guard<std::mutex> g(mu_);
        fprintf(log_, "R %s %s %d %s\n", hex(a).c_str(), hex(b).c_str(), (int)r, s.text);
        return r;
    }
    uint64_t approxCount(const std::string& a, const std::string& b) {
        Span s;
        uint64_t r = inner_->approxCount(a, b);
        s.end();
        std::lock_guard<std::mutex> g(mu_);
        fprintf(log_, "C %s %s %llu %s\n", hex(a).c_str(), hex(b).c_str(), (unsigned long long)r, s.text);
        return r;
    }
    uint64_t getMemoryUsage() {
        uint64_t r = inner_->getMemoryUsage();
        std::lock_guard<std::mutex> g(mu_);
        fprintf(log_, "M %llu\n", (unsigned long long)r);
        return r;
    }

private:
    static std::string hex(const std::string& s) {
        static const char* d = "0123456789abcdef";
        std::string r = "x";
        for (size_t i = 0; i < s.size(); i++) { r += d[(unsigned char)s[i] >> 4]; r += d[s[i] & 15]; }
        return r;
    }
    // thread, begin and end of a query; the first query of a thread is made to take a while
    struct Span {
        char text[80];
        long b;
        static long now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000L + t.tv_nsec / 1000; }
        Span() : b(now()) { if (*mine() < 0) { static std::atomic<int> n(0); *mine() = n.fetch_add(1); usleep(2000); } jitter(); }
        void end() { snprintf(text, sizeof text, "%d %ld %ld", *mine(), b, now()); }
        static int* mine() { static thread_local int t = -1; return &t; }
    };
    static void jitter() { static std::atomic<unsigned> n(0); if ((n.fetch_add(1) * 2654435761u >> 24) % 7 == 0) sched_yield(); }

    Filter* inner_;
    std::mutex mu_;
    FILE* log_;
};

class FilterFactory {
public:
    static Filter* createFilter(const std::string& type, const uint32_t len, const std::vector<std::string>& keys) {
        return new RecordingFilter(RealFilterFactory::createFilter(type, len, keys), type, len, keys);
    }
};

} // namespace bench
#endif

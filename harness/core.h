// Shared machinery of all checks: deterministic random choices, case loop,
// violation reporting, observation counters.  printf only (no iostreams): the
// same sources are also built with MemorySanitizer against an uninstrumented
// libstdc++.
#ifndef VERIF_CORE_H
#define VERIF_CORE_H

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <vector>

namespace vf {

struct Rng {
    uint64_t s = 1;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int lo, int hi) { return lo + below(hi - lo + 1); }
    bool chance(double p) { return unit() < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logUniform(double lo, double hi) {
        return std::exp(uniform(std::log(lo), std::log(hi)));
    }
    // signed value with magnitudes spread over scales, sometimes exactly 0/1/-1
    double wild(double scale) {
        switch (below(12)) {
            case 0: return 0.0;
            case 1: return scale;
            case 2: return -scale;
            default: break;
        }
        const double m = logUniform(scale * 1e-3, scale);
        return chance(0.5) ? m : -m;
    }
    template <class T> void shuffle(std::vector<T> &v) {
        for (int i = (int)v.size() - 1; i > 0; --i) {
            const int j = below(i + 1);
            T t = v[i]; v[i] = v[j]; v[j] = t;
        }
    }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

struct CaseFail {
    char key[96];
    char msg[1600];
};

struct Counter { const char *name; long long v; };

struct Ctx {
    uint64_t seed = 1;       // base seed (VERIF_SEED)
    long index = 0;          // case index
    bool thorough = false;
    bool verbose = false;
    Rng rng;
    bool nontrivial = false; // set by the case when it exercised the property
    uint64_t sig = 0;        // structural signature of the case
    uint64_t trace = 0;      // result trace (compared across builds by some checks)
    std::vector<Counter> counters;
    char sampleBuf[1200];

    void count(const char *name, long long n = 1) {
        for (auto &c : counters) if (!strcmp(c.name, name)) { c.v += n; return; }
        counters.push_back(Counter{name, n});
    }
    void max(const char *name, long long n) {
        for (auto &c : counters) if (!strcmp(c.name, name)) { if (n > c.v) c.v = n; return; }
        counters.push_back(Counter{name, n});
    }
    void shape(uint64_t v) { sig = mix(sig, v); }
    void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt);
        vsnprintf(sampleBuf, sizeof sampleBuf, fmt, ap);
        va_end(ap);
    }
    [[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        CaseFail f;
        snprintf(f.key, sizeof f.key, "%s", key);
        va_list ap; va_start(ap, fmt);
        vsnprintf(f.msg, sizeof f.msg, fmt, ap);
        va_end(ap);
        throw f;
    }
};

// |a-b| within tol, treating any non-finite value as out of tolerance
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }

} // namespace vf

// provided by each check
void run_case(vf::Ctx &c);
extern const char *const kCheckId;

#endif

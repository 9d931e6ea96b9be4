// C03: a simulation is a function of its inputs alone.
// The same cases run in several builds and environments (VF_FILL: what fresh
// heap memory contains, VF_SCATTER: where it lies, VF_STACK: what the stack
// below the call contains, VF_CLOCK: what the clock says, VF_COMPANY: other
// worlds alive and running); the runner compares the result traces.
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define VF_MSAN 1
#else
#include "heap.h"
#endif
#include "history.h"
#include <chrono>
#include <time.h>
const char *const kCheckId = "C03";
using namespace vf;

namespace {
struct Env { int fill = -1, stack = -1, clock = 0; bool scatter = false, company = false, read = false; } env;
long long g_clock = 0;
void load() {
    if (env.read) return;
    env.read = true;
    auto num = [](const char *n, int d) { const char *s = getenv(n); return s ? atoi(s) : d; };
    env.fill = num("VF_FILL", -1); env.stack = num("VF_STACK", -1); env.clock = num("VF_CLOCK", 0);
    env.scatter = num("VF_SCATTER", 0); env.company = num("VF_COMPANY", 0);
#ifndef VF_MSAN
    heap::fill = env.fill; heap::scatter = env.scatter;
#endif
}
__attribute__((noinline)) void dirtyStack() {
    if (env.stack < 0) return;
    volatile unsigned char a[24 * 1024];
    unsigned x = 12345;
    for (size_t i = 0; i < sizeof a; ++i) { x = x * 1664525u + 1013904223u; a[i] = env.stack < 256 ? (unsigned char)env.stack : (unsigned char)(x >> 24); }
    asm volatile("" : : "r"(a) : "memory");
}
inline void see(const void *p, size_t n) {
#ifdef VF_MSAN
    __msan_check_mem_is_initialized(p, n);
#else
    (void)p; (void)n;
#endif
}
}
// the clock the library reads (libstdc++'s are replaced for the whole program)
#ifndef VF_MSAN
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    if (env.clock) { g_clock += (long long)((g_clock * 2862933555777941757ull + 3037000493ull) % 90000000ull); return time_point(duration(g_clock)); }
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec));
}
} } }
#endif

void run_case(Ctx &c) {
    load();
    const uint64_t seed = c.rng.next(), cseed = c.rng.next();
    const int shape = c.rng.below(20);
    uint64_t tr = mix(1, seed);
    long steps = 0, seen = 0, solves = 0;
    {
        std::unique_ptr<Hist> other;
        if (env.company) { other.reset(new Hist(cseed)); other->setup(2); }
        Hist h(seed);
        h.maxBodies = shape == 0 ? 120 : 8;
        h.setup(h.r.range(1, 3), h.r.chance(0.5));
        if (shape == 0) { for (int i = 0; i < 100; ++i) h.addBody(0, h.newBody()); for (int i = 0; i < 12; ++i) h.addCon(0); }
        h.beforeStep = [&](int, double, int) {
            if (other) for (int i = 0; i < 3; ++i) other->random();
            dirtyStack();
        };
        h.afterStep = [&](int si, double, int) {
            Hist::Sys &s = h.systems[si];
            for (int id : s.bodies) {
                const RigidBody *b = h.bodies[id].b.get();
                const double v[] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
                see(v, sizeof v);
                ++seen;
            }
            for (int ci : s.cons) {
                const Constraint *k = h.cons[ci].c.get();
                for (int j = 0; j < conRows(h.cons[ci].s.kind); ++j) {
                    const size_t z = 8 * conBodies(h.cons[ci].s.kind);
                    see(k->F_x[j], z); see(k->F_y[j], z); see(k->F_t[j], z);
                    ++seen;
                }
            }
            tr = h.hashSystem(si, tr);
        };
        const int ops = shape == 0 ? 8 : h.r.range(10, c.thorough ? 120 : 50);
        for (int i = 0; i < ops; ++i) { dirtyStack(); h.random(); }
        for (size_t si = 0; si < h.systems.size(); ++si) h.step((int)si);
        steps = h.steps;
        for (auto &s : h.spies) { tr = mix(tr, (uint64_t)s->calls); tr = mix(tr, (uint64_t)s->failed); solves += s->calls; }
    }
    c.trace = tr | 1;
    c.count("steps", steps); c.count("results_hashed", seen); c.count("solves", solves);
    c.nontrivial = seen > 0;
    c.shape(seed);
    c.sample("%ld steps, %ld solves, %ld body states and force rows hashed", steps, solves, seen);
}

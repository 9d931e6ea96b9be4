// C24: profiling figures are the averages of the most recent frames.
// The clocks of <chrono> are replaced by a virtual one that moves only inside
// callbacks (generators, constraints, linear solver, integrator), so the time
// spent in each phase is known exactly.
#include "history.h"
#include <chrono>
#include <deque>
#include <time.h>
const char *const kCheckId = "C24";
using namespace vf;

namespace {
enum Mode { VIRTUAL, TICKING, REAL };
int g_mode = REAL;
long long g_now = 0, g_tick = 0;   // ns
long long readClock() {
    if (g_mode == REAL) {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec * 1000000000ll + t.tv_nsec;
    }
    if (g_mode == TICKING) g_now += g_tick;
    return g_now;
}
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(readClock())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(readClock())); }
} } }

namespace {
enum Phase { FORCE, EVAL, SOLVE, ODE, PHASES };
struct Meter {
    double now[PHASES] = {0, 0, 0, 0}; // ns in the current frame
    long evals = 0;
};
Meter *g_meter = nullptr;
struct Spender {
    Rng r{1};
    int style = 0; // 0 whole us, 1 any ns, 2 mostly nothing, 3 long, 4 very long
    void spend(int phase) {
        if (g_mode != VIRTUAL || !g_meter) return;
        long long ns = 0;
        switch (style) {
            case 0: ns = 1000ll * r.below(50); break;
            case 1: ns = r.below(5000); break;
            case 2: ns = r.chance(0.05) ? 1000ll * r.below(1000) : 0; break;
            case 3: ns = 1000ll * (1 + r.below(3000000)); break;
            default: ns = r.chance(0.1) ? 1000ll * (long long)r.logUniform(1e6, 1e10) : 0; break; // up to hours: a suspended machine
        }
        g_now += ns;
        g_meter->now[phase] += (double)ns;
    }
} g_spend;

struct SlowConstraint : FwdConstraint {
    using FwdConstraint::FwdConstraint;
    virtual void calculate(Output *o, SystemState *s) { g_spend.spend(EVAL); FwdConstraint::calculate(o, s); }
};
struct SlowGenerator : ForceGenerator {
    virtual void apply(SystemState *) { g_spend.spend(FORCE); }
};
struct SlowOde : SpyOde {
    using SpyOde::SpyOde;
    virtual void solve(SystemState *s) { g_spend.spend(ODE); inner->solve(s); if (g_meter) ++g_meter->evals; }
};

struct Bench {
    bool nsv = false;
    std::vector<std::unique_ptr<RigidBody>> bodies;
    std::vector<std::unique_ptr<Constraint>> cons;
    std::vector<std::unique_ptr<SlowGenerator>> gens;
    std::unique_ptr<SleSolver> solver; std::unique_ptr<SpySolver> spy;
    std::unique_ptr<OdeSolver> ode; std::unique_ptr<SlowOde> slow;
    std::unique_ptr<RigidBodySystem> sys;
    Meter m;
    std::vector<double> hist[PHASES];
    std::vector<long> evals;
    bool everEmpty = false; // some frame had nothing to do in some phase
    std::vector<double> wall;

    Bench(Rng &r) {
        solver = makeSolver(r.below(S_COUNT));
        spy.reset(new SpySolver(solver.get()));
        spy->onDone = [] { g_spend.spend(SOLVE); };
        nsv = r.chance(0.5);
        if (nsv) { auto *s = new OptimizedNsvRigidBodySystem; s->initialize(spy.get()); sys.reset(s); }
        else {
            if (r.chance(0.5)) ode.reset(new Rk4OdeSolver); else ode.reset(new EulerOdeSolver);
            slow.reset(new SlowOde(ode.get()));
            auto *s = new GenericRigidBodySystem; s->initialize(spy.get(), slow.get()); sys.reset(s);
        }
        populate(r);
    }
    void populate(Rng &r) {
        const int nb = r.range(0, 3);
        for (int i = 0; i < nb; ++i) {
            bodies.emplace_back(new RigidBody);
            BodySpec b; b.px = i; setBody(bodies.back().get(), b);
            sys->addRigidBody(bodies.back().get());
            if (r.chance(0.6)) {
                ConSpec k; k.kind = r.chance(0.5) ? K_FRICTION : K_FIXPOS;
                if (k.kind == K_FIXPOS) { k.p[2] = i; }
                cons.emplace_back(new SlowConstraint(newConstraint(k, bodies.back().get(), nullptr)));
                sys->addConstraint(cons.back().get());
            }
        }
        for (int i = r.range(0, 3); i > 0; --i) { gens.emplace_back(new SlowGenerator); sys->addForceGenerator(gens.back().get()); }
    }
    void clear() { sys->reset(); bodies.clear(); cons.clear(); gens.clear(); }
    void frame(double dt, int steps) {
        m = Meter();
        if (bodies.empty() || cons.empty() || gens.empty()) everEmpty = true;
        g_meter = &m;
        const long before = spy->calls;
        const long long t0 = g_mode == REAL ? readClock() : g_now;
        sys->process(dt, steps);
        const long long t1 = g_mode == REAL ? readClock() : g_now;
        g_meter = nullptr;
        for (int p = 0; p < PHASES; ++p) hist[p].push_back(m.now[p] / 1000);
        evals.push_back(spy->calls - before);
        wall.push_back((double)(t1 - t0) / 1000);
    }
    void get(double *v) const {
        v[FORCE] = sys->getForceEvalMicroseconds(); v[EVAL] = sys->getConstraintEvalMicroseconds();
        v[SOLVE] = sys->getConstraintSolveMicroseconds(); v[ODE] = sys->getOdeSolveMicroseconds();
    }
};
const char *const kPhase[] = {"force evaluation", "constraint evaluation", "constraint solving", "integrator"};

void judge(Ctx &c, Bench &b, bool exact) {
    double got[PHASES], sum = 0, wall = 0;
    b.get(got);
    const size_t n = b.evals.size(), cap = (size_t)RigidBodySystem::ProfilingSamples, k = n < cap ? n : cap;
    for (size_t i = n - k; i < n; ++i) wall += b.wall[i];
    if (k) wall /= (double)k;
    for (int p = 0; p < PHASES; ++p) {
        sum += got[p];
        if (!n) { if (got[p] != 0) c.fail("before-first", "%s reads %.9g us before the first frame", kPhase[p], got[p]); continue; }
        if (!(got[p] >= 0)) c.fail("negative", "%s reads %.9g us after %d frames", kPhase[p], got[p], (int)n);
        if (g_mode == VIRTUAL) {
            double want = 0, lost = 0;
            for (size_t i = n - k; i < n; ++i) { want += b.hist[p][i]; lost += (double)b.evals[i]; }
            want /= (double)k; lost /= (double)k;
            // measurements below a microsecond may be dropped, once per evaluation
            const double lo = want * (1 - 1e-6) - (exact ? 0 : lost + 1e-6), hi = want * (1 + 1e-6);
            if (!(got[p] >= lo && got[p] <= hi))
                c.fail("average", "%s reads %.9g us, the mean over the last %d of %d frames is %.9g us (%s)", kPhase[p], got[p], (int)k, (int)n, want, b.nsv ? "nsv" : "generic");
            c.count("averages_judged");
            if (want > 0) c.count("averages_above_zero");
        }
        if (g_mode == TICKING && !b.everEmpty) { // whoever measures a phase reads the clock around it: at least a tick an evaluation
            double ticks = 0;
            for (size_t i = n - k; i < n; ++i) ticks += (double)b.evals[i];
            ticks /= (double)k;
            if (!(got[p] >= ticks * (double)g_tick / 1000 * (1 - 1e-6))) c.fail("unmeasured", "%s reads %.9g us though every look at the clock took %.9g us and there were %.9g evaluations a frame (%s)", kPhase[p], got[p], g_tick / 1000.0, ticks, b.nsv ? "nsv" : "generic");
            c.count("ticking_judged");
        }
    }
    if (n && !(sum <= wall * (1 + 1e-5) + (g_mode == REAL ? 1e-3 : 0)))
        c.fail("more-than-wall", "the figures add up to %.9g us but the last %d frames took %.9g us on average", sum, (int)k, wall);
    c.count("sums_judged");
    if (n > cap) c.count("judged_beyond_capacity");
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int kind = r.below(10);
    g_mode = kind < 7 ? VIRTUAL : kind < 9 ? TICKING : REAL;
    g_now = r.chance(0.5) ? 0 : (long long)(r.next() >> 12);
    g_tick = 1000ll * r.range(1, 20);
    g_spend.r = Rng(r.next());
    g_spend.style = r.chance(0.1) ? 4 : r.below(4);
    const bool exact = g_spend.style != 1;
    long frames = 0;
    {
        std::vector<std::unique_ptr<Bench>> bs;
        for (int i = r.range(1, 2); i > 0; --i) bs.emplace_back(new Bench(r));
        for (auto &b : bs) judge(c, *b, exact);
        const int len = r.below(6);
        const int total = len == 0 ? r.range(590, 610) : len == 1 ? r.range(1190, 1210) : len == 2 ? r.range(600, c.thorough ? 4000 : 1500) : r.range(1, 40);
        for (int f = 0; f < total; ++f) {
            Bench &b = *bs[r.below((int)bs.size())];
            b.frame(!b.nsv && r.chance(0.05) ? 0 : 1e-4, r.chance(0.2) ? r.range(2, 4) : 1);
            ++frames;
            if (total < 40 || r.chance(0.02) || f > total - 4 || (b.evals.size() > 597 && b.evals.size() < 604)) judge(c, b, exact);
            if (r.chance(0.01)) { b.clear(); b.populate(r); c.count("resets"); judge(c, b, exact); }
            if (r.chance(0.005)) g_spend.style = exact ? (r.chance(0.5) ? 0 : 2) : 1;
        }
        for (auto &b : bs) judge(c, *b, exact);
        c.shape(bs.size()); c.shape(total); c.shape(r.next());
        c.count("frames", frames);
        c.sample("%s clock, %d system(s), %ld frames", g_mode == VIRTUAL ? "virtual" : g_mode == TICKING ? "ticking" : "real", (int)bs.size(), frames);
        g_mode = REAL;
    }
    c.nontrivial = frames > 0;
}

// C01: any valid use of the library is memory-safe, UB-free and never aborts.
// The oracle is the sanitizers, the library's asserts and the hang watchdog.
#include "history.h"
#include "rig.h"
const char *const kCheckId = "C01";
using namespace vf;

namespace {
double g_sink = 0;
void look(Ctx &c, Hist &h, int si) { // every read-only part of the API
    Hist::Sys &s = h.systems[si];
    RigidBodySystem *p = s.p.get();
    g_sink += p->getRigidBodyCount() + p->getConstraintCount() + p->getForceGeneratorCount() + p->getFullConstraintCount();
    g_sink += p->getOdeSolveMicroseconds() + p->getConstraintSolveMicroseconds() + p->getForceEvalMicroseconds() + p->getConstraintEvalMicroseconds();
    for (int i = 0; i < p->getRigidBodyCount(); ++i) {
        RigidBody *b = p->getRigidBody(i);
        double x, y;
        b->localToWorld(1, 2, &x, &y); b->worldToLocal(x, y, &x, &y);
        g_sink += b->energy() + x + y;
    }
    for (int g : s.gens) if (h.gens[g].s.kind == G_SPRING) {
        Spring *sp = static_cast<Spring *>(h.gens[g].g.get());
        double a, b, d, e;
        sp->getEnds(&a, &b, &d, &e);
        g_sink += sp->energy() + a + b + d + e;
    }
    if (s.frames && p->state()->n > 0) {
        SystemState *st = const_cast<SystemState *>(p->state());
        double x, y;
        const int i = h.r.below(st->n);
        st->localToWorld(1, 1, &x, &y, i); st->velocityAtPoint(1, 1, &x, &y, i);
        g_sink += x + y;
    }
    c.count("inspections");
}
}

void run_case(Ctx &c) {
    const uint64_t seed = c.rng.next();
    Hist h(seed);
    const int shape = c.rng.below(12);
    if (shape == 0) h.maxBodies = c.thorough ? 330 : 140; // many bodies
    else if (shape < 4) h.maxBodies = 3;                  // tiny: empties are frequent
    h.setup(c.rng.range(1, 4));
    for (int i = 0; i < 4; ++i) h.spies[i < 2 ? i : 4]->strict = i < 2; // elimination must solve what is solvable
    for (auto &sp : h.spies) if (c.rng.chance(0.3)) sp->record = true;
    if (shape == 0) {
        const int n = c.rng.range(60, h.maxBodies);
        for (int i = 0; i < n; ++i) h.addBody(0, h.newBody());
        const int k = c.rng.range(0, c.thorough ? 40 : 20);
        for (int i = 0; i < k; ++i) h.addCon(0);
        h.step(0); h.step(0);
        c.count("large_worlds");
    }
    const int ops = shape == 0 ? 15 : c.rng.range(5, c.thorough ? 200 : 90);
    for (int i = 0; i < ops; ++i) {
        h.random();
        if (h.r.chance(0.05)) look(c, h, h.r.below((int)h.systems.size()));
        if (h.r.chance(0.02)) { // a world that is empty, or has everything but bodies
            const int si = h.r.below((int)h.systems.size());
            h.reset(si);
            if (h.r.chance(0.5)) h.addGen(si);
            h.step(si);
            c.count("empty_worlds_stepped");
        }
    }
    for (size_t si = 0; si < h.systems.size(); ++si) look(c, h, (int)si);
    long cons = 0, failed = 0, calls = 0, refused = 0;
    for (auto &s : h.spies) { failed += s->failed; calls += s->calls; refused += s->refused; }
    for (auto &k : h.cons) cons += k.sys >= 0;
    c.count("steps", h.steps); c.count("operations", h.edits); c.count("solves", calls); c.count("solves_refused_singular", refused);
    c.count("solver_gave_up", failed - refused);
    // destruction in one of several legal orders
    if (h.r.chance(0.3)) { h.solvers.size(); h.afterOp = nullptr; h.cons.clear(); h.gens.clear(); h.systems.clear(); }
    if (g_sink == 12345.678) printf("x");
    c.nontrivial = h.steps > 0;
    c.shape(seed);
    c.sample("%d systems, %ld operations, %ld steps, %ld constraints at the end, %d bodies made", (int)h.systems.size(), h.edits, h.steps, cons, (int)h.bodies.size());
}

// C05: past edits leave no trace in how a world evolves.
#include "history.h"
#include "laws.h"
const char *const kCheckId = "C05";
using namespace vf;

namespace {
// the current contents of a system of a history as scene data, in the order the
// system itself works through them
Spec specOf(Hist &h, int si, const std::vector<int> &conOrder, const std::vector<int> &genOrder) {
    Hist::Sys &s = h.systems[si];
    Spec q;
    std::vector<int> of(h.bodies.size(), -1000);
    for (int i = 0; i < s.p->getRigidBodyCount(); ++i) {
        const RigidBody *b = s.p->getRigidBody(i);
        for (size_t k = 0; k < h.bodies.size(); ++k) if (h.bodies[k].b.get() == b) of[k] = i;
        q.bodies.push_back(getBody(b));
    }
    auto id = [&](int k) {
        if (k < 0) return 0;
        if (of[k] == -1000) { q.anchors.push_back(getBody(h.bodies[k].b.get())); of[k] = -(int)q.anchors.size(); }
        return of[k];
    };
    for (int ci : conOrder) { ConSpec k = h.cons[ci].s; k.b[0] = id(h.cons[ci].b[0]); k.b[1] = id(h.cons[ci].b[1]); q.cons.push_back(k); }
    for (int gi : genOrder) { GenSpec g = h.gens[gi].s; g.b[0] = id(h.gens[gi].b[0]); g.b[1] = id(h.gens[gi].b[1]); q.gens.push_back(g); }
    return q;
}
struct Cmp { double worst = 0; const char *what = "-"; bool same = true; };
void see(Cmp &r, double a, double b, double scale, const char *what) {
    if (bitsOf(a) == bitsOf(b)) return;
    r.same = false;
    const double d = std::fabs(a - b) / scale;
    if (!(d <= r.worst)) { r.worst = d; r.what = what; }
}
}

void run_case(Ctx &c) {
    const uint64_t seed = c.rng.next();
    const bool reuse = c.rng.chance(0.35);
    Hist h(seed);
    h.counting = true;
    h.maxBodies = c.rng.chance(0.15) ? 30 : c.rng.range(1, 8);
    h.maxRowsPerBody = 1.0;
    std::vector<int> conLog, genLog;
    h.callLog = &conLog; h.genLog = &genLog;
    h.setup(h.r.range(1, 3), true);
    const int ops = h.r.range(10, c.thorough ? 200 : 90);
    for (int i = 0; i < ops; ++i) h.random();
    int si = h.r.below((int)h.systems.size());
    for (size_t k = 0; k < h.systems.size(); ++k) if (h.systems[k].cons.size() > h.systems[si].cons.size()) si = (int)k;
    Hist::Sys &s = h.systems[si];
    if (s.bodies.empty()) for (int k = h.r.range(1, 4); k > 0; --k) h.addBody(si, h.newBody());
    if (s.cons.empty()) for (int k = h.r.range(0, 2); k > 0; --k) h.addCon(si);
    if (s.solver % 2) { // 2k: the tightly tuned solver of its kind
        s.solver -= 1;
        if (s.nsv) s.nsv->initialize(h.spies[s.solver].get()); else s.gen->initialize(h.spies[s.solver].get(), h.odes[s.ode].get());
    }
    const double dt = h.r.chance(0.5) ? 1.0 / 60 : h.r.logUniform(1e-3, 0.03);

    if (reuse) { // solver and integrator objects that have served other systems against new ones
        SceneOpts o;
        o.maxBodies = c.rng.chance(0.2) ? 14 : 5; o.limits = c.rng.chance(0.3); o.anchors = c.rng.chance(0.2);
        Spec q = randomScene(c.rng, o);
        const int sk = c.rng.below(SYS_COUNT), solver = c.rng.below(S_COUNT);
        if (c.rng.chance(0.2)) q = inUnits(q, randomUnits(c.rng, solver));
        World a(q, sk, solver, nullptr, true), b(q, sk, solver, nullptr, true);
        a.spy->inner = h.solvers[2 * solver].get();      // tuned the same way, used throughout the history
        if (a.odeSpy) a.odeSpy->inner = h.odes[(sk == SYS_RK4 ? 1 : 0) + 2 * h.r.below(2)].get();
        const int frames = c.rng.range(1, 4);
        for (int f = 0; f < frames; ++f) {
            const int n = c.rng.chance(0.3) ? 3 : 1;
            a.sys->process(dt, n); b.sys->process(dt, n);
            if (!a.finite() || !b.finite()) break;
            if (a.hash() != b.hash()) {
                char d[600]; describe(q, d, sizeof d);
                c.fail("used-solver", "frame %d with a used %s solver%s differs from the same with new ones [%s]", f, solverName(solver), a.odeSpy ? " and integrator" : "", d);
            }
            if (f == 1) { const int k = h.r.below((int)h.systems.size()); h.step(k); } // and serves others in between
            c.count("reuse_frames");
        }
        c.nontrivial = true; shapeOf(c, q); c.shape(sk); c.shape(solver);
        c.sample("reuse: %s/%s, %d frames after a history of %ld operations", systemName(sk), solverName(solver), frames, h.edits);
        return;
    }
    // one step shows the order in which the system works through its contents
    conLog.clear(); genLog.clear();
    SpySolver *spy = h.spyOf(s);
    const long refused = spy->refused;
    s.p->process(dt, 1);
    if (spy->refused != refused) { c.count("skipped_singular"); return; }
    std::vector<int> co(conLog.begin(), conLog.begin() + s.cons.size()), go(genLog.begin(), genLog.begin() + s.gens.size());
    h.calm(s);
    const Spec q = specOf(h, si, co, go);
    const double quality = sceneQuality(q);
    const int solver = h.solverKindOf(s);
    // with the guess withheld an iterative solve is a function of the system, like a direct one
    const bool noGuess = solver != S_GE && h.r.chance(0.5);
    const bool exact = solver == S_GE || q.cons.empty() || noGuess;
    if (!exact && quality < 0.05) { c.count("skipped_ill_conditioned"); return; }
    World w(q, s.nsv ? SYS_NSV : s.odeKind, solver, nullptr, true);
    w.spy->noGuess = spy->noGuess = noGuess;
    const int frames = h.r.range(1, 4);
    for (int f = 0; f < frames; ++f) {
        if (!exact) {
            const RefSystem R = refSystem(q, w.poses());
            if (cholQuality(refA(R), R.m) < 0.05) { c.count("stopped_ill_conditioned"); break; }
        }
        const int n = h.r.chance(0.3) ? h.r.range(2, 4) : 1;
        const double hdt = h.r.chance(0.3) ? dt * h.r.uniform(0.5, 2) : dt;
        const long fa = spy->failed, fb = w.spy->failed;
        bool tame = true; // at every evaluation inside the frame as well
        if (!exact && w.odeSpy) w.odeSpy->onSolve = [&](SystemState *st) {
            const RefSystem R = refSystem(q, statePoses(w, st));
            if (!(cholQuality(refA(R), R.m) >= 0.05)) tame = false;
            for (int i = 0; i < st->n; ++i) if (!(std::fabs(st->v_theta[i]) * hdt < 0.5)) tame = false;
        };
        s.p->process(hdt, n);
        w.sys->process(hdt, n);
        if (w.odeSpy) w.odeSpy->onSolve = nullptr;
        if (!tame) { c.count("stopped_ill_conditioned"); break; }
        if (!w.finite()) { c.count("stopped_diverging"); break; }
        if (exact && (spy->failed != fa) != (w.spy->failed != fb)) c.fail("solvable", "the edited world's system is%s solvable, the new world's is%s", spy->failed != fa ? " not" : "", w.spy->failed != fb ? " not" : "");
        if (spy->failed != fa || w.spy->failed != fb) { c.count("solver_gave_up"); break; }
        Cmp r;
        double vs = 1, fs = 1;
        for (auto *b : w.bodies) vs = std::fmax(vs, std::fmax(std::fabs(b->v_x), std::fmax(std::fabs(b->v_y), std::fabs(b->v_theta))));
        for (size_t i = 0; i < w.bodies.size(); ++i) {
            const RigidBody *a = s.p->getRigidBody((int)i), *b = w.bodies[i];
            see(r, a->p_x, b->p_x, 1 + std::fabs(b->p_x) + vs, "x"); see(r, a->p_y, b->p_y, 1 + std::fabs(b->p_y) + vs, "y");
            see(r, a->theta, b->theta, 1 + std::fabs(b->theta) + vs, "angle");
            see(r, a->v_x, b->v_x, vs, "vx"); see(r, a->v_y, b->v_y, vs, "vy"); see(r, a->v_theta, b->v_theta, vs, "spin");
        }
        for (size_t i = 0; i < w.cons.size(); ++i) for (int j = 0; j < conRows(q.cons[i].kind); ++j) for (int k = 0; k < conBodies(q.cons[i].kind); ++k)
            fs = std::fmax(fs, std::fmax(std::fabs(w.cons[i]->F_x[j][k]), std::fmax(std::fabs(w.cons[i]->F_y[j][k]), std::fabs(w.cons[i]->F_t[j][k]))));
        for (size_t i = 0; i < w.cons.size(); ++i) for (int j = 0; j < conRows(q.cons[i].kind); ++j) for (int k = 0; k < conBodies(q.cons[i].kind); ++k) {
            const Constraint *a = h.cons[co[i]].c.get(), *b = w.cons[i];
            const double sc = exact ? fs : fs + 1 / hdt;
            see(r, a->F_x[j][k], b->F_x[j][k], sc, "force x"); see(r, a->F_y[j][k], b->F_y[j][k], sc, "force y"); see(r, a->F_t[j][k], b->F_t[j][k], sc, "torque");
            c.count("reports_compared");
        }
        if (exact ? !r.same : !(r.worst <= 1e-5)) {
            char d[700]; describe(q, d, sizeof d);
            c.fail(exact ? "edited-world" : "edited-world-iterative", "frame %d: the edited world (%ld operations, %ld steps before) and a new one differ by %.3g in %s; %s/%s [%s]",
                   f, h.edits, h.steps, r.worst, r.what, systemName(w.sysKind), solverName(solver), d);
        }
        c.count(exact ? "frames_bitwise" : "frames_iterative");
        if (noGuess) c.count("frames_bitwise_iterative");
        if (exact && !q.cons.empty()) c.count("frames_bitwise_constrained");
    }
    c.count(w.sysKind == SYS_NSV ? "worlds_nsv" : w.sysKind == SYS_RK4 ? "worlds_rk4" : "worlds_euler");
    c.nontrivial = true; shapeOf(c, q); c.shape(w.sysKind); c.shape(solver);
    char d[600]; describe(q, d, sizeof d);
    c.sample("%s/%s after %ld operations: %s", systemName(w.sysKind), solverName(solver), h.edits, d);
}

// C10: every acceleration evaluation of the generic system satisfies the
// constraint acceleration law at its own state.
#include "laws.h"
const char *const kCheckId = "C10";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.userRows = true;
    o.maxBodies = r.chance(0.1) ? (c.thorough ? 20 : 12) : 5;
    const bool large = r.chance(0.001), marathon = !large && r.chance(0.0003), fine = !large && r.chance(0.001);
    if (large) { o.minBodies = 30; o.maxBodies = 60; }
    if (marathon) o.maxBodies = 2;
    o.loops = 0.4;
    o.anchors = r.chance(0.25);
    if (r.chance(0.15)) { o.massLo = 1e-2; o.massHi = 1e2; }
    Spec s = randomScene(r, o);
    if (!marathon && r.chance(0.05)) for (auto &k : s.cons) { // the law holds for any gains
        if (r.chance(0.4)) k.ks = -k.ks;
        if (r.chance(0.4)) k.kd = -k.kd;
    }
    const int solver = r.below(10) < 5 ? S_GE : r.chance(0.5) ? S_GS : S_CG;
    Units u;
    if (r.chance(0.25)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    const double wide = u.len + std::fabs(u.ox) + std::fabs(u.oy);
    const int sysk = r.chance(0.6) ? SYS_RK4 : SYS_EULER;
    std::vector<int> order;
    for (size_t i = 0; i < s.bodies.size(); ++i) order.push_back((int)i);
    if (r.chance(0.5)) r.shuffle(order);
    World w(s, sysk, solver, &order);
    w.spy->record = true;
    long rows = 0, evals = 0;
    bool stop = false, refusedWell = false;
    w.odeSpy->onSolve = [&](SystemState *st) {
        ++evals;
        if (stop) return;
        const RefSystem R = refSystem(s, statePoses(w, st));
        if (!(cholQuality(refA(R), R.m) >= 1e-5)) { stop = true; return; }
        bool tame = true;
        for (int i = 0; i < st->n; ++i)
            for (double v : {st->p_x[i] / wide, st->p_y[i] / wide, st->theta[i], st->v_x[i] / u.vel(), st->v_y[i] / u.vel(), st->v_theta[i] * u.time,
                             st->f_x[i] / u.force(), st->f_y[i] / u.force(), st->t[i] / u.torque()})
                tame = tame && std::fabs(v) < 1e8;
        if (!tame) { stop = true; return; }
        if (w.spy->failed) { stop = true; if (solver == S_GE || w.spy->refused) refusedWell = true; }
        // judged after the frame: exceptions must not cross the library
    };
    // record states at every evaluation, judge afterwards
    struct Snap { std::unique_ptr<State> st; std::vector<double> x, b; };
    std::vector<Snap> snaps;
    auto filter = w.odeSpy->onSolve;
    w.odeSpy->onSolve = [&](SystemState *st) {
        filter(st);
        if (stop) return;
        Snap k;
        k.st.reset(new State);
        const int n = st->n;
        k.st->resize(n, 1);
        for (int i = 0; i < n; ++i) {
            k.st->p_x[i] = st->p_x[i]; k.st->p_y[i] = st->p_y[i]; k.st->theta[i] = st->theta[i];
            k.st->v_x[i] = st->v_x[i]; k.st->v_y[i] = st->v_y[i]; k.st->v_theta[i] = st->v_theta[i];
            k.st->a_x[i] = st->a_x[i]; k.st->a_y[i] = st->a_y[i]; k.st->a_theta[i] = st->a_theta[i];
            k.st->f_x[i] = st->f_x[i]; k.st->f_y[i] = st->f_y[i]; k.st->t[i] = st->t[i];
        }
        k.x = w.spy->x; k.b = w.spy->b;
        snaps.push_back(std::move(k));
    };
    const int frames = marathon ? r.range(600, 1500) : large ? 1 : r.range(1, 3);
    for (int f = 0; f < frames && !stop; ++f) {
        const double dt = (r.chance(0.1) ? r.logUniform(1e-6, 1) : r.logUniform(1e-4, 0.05)) * u.time;
        const int steps = fine ? r.range(40, 300) : r.chance(0.3) ? r.range(2, 3) : 1;
        evals = 0;
        snaps.clear();
        w.sys->process(dt, steps);
        const long want = (long)steps * (sysk == SYS_RK4 ? 4 : 1);
        if (evals != want) c.fail("evaluation-count", "%ld evaluations in a frame of %d substeps, expected %ld (%s)",
                                  evals, steps, want, systemName(sysk));
        if (refusedWell)
            c.fail("system-not-solvable", "the reference system is well conditioned but the one handed to %s is singular or not finite",
                   solverName(solver));
        for (auto &k : snaps) {
            w.spy->x = k.x; w.spy->b = k.b;
            rows += accLaw(c, w, k.st.get(), "row-acceleration");
            c.count("evaluations_judged");
            if (f > 500) c.count("evaluations_past_frame_500");
            if (large) c.count("evaluations_of_large_worlds");
        }
    }
    if (w.spy->failed) c.count("iterative_solver_gave_up");
    else if (stop) c.count("stopped_near_singular");
    c.count("rows_judged", rows);
    c.count(solver == S_GE ? "solver_ge" : solver == S_CG ? "solver_cg" : "solver_gs");
    c.count(sysk == SYS_RK4 ? "worlds_rk4" : "worlds_euler");
    countKinds(c, s);
    if (rows) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(solver); c.shape(sysk);
        char d[700]; describe(s, d, sizeof d);
        c.sample("%s/%s: %s; %ld row evaluations judged", systemName(sysk), solverName(solver), d, rows);
    }
}

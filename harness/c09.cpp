// C09: one velocity-level step lands on the constraint velocities.
#include "recorder.h"
const char *const kCheckId = "C09";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.userRows = true;
    o.maxBodies = r.chance(0.1) ? (c.thorough ? 24 : 14) : 6;
    const bool large = r.chance(0.002), marathon = !large && r.chance(0.0006), fine = !large && r.chance(0.003);
    if (large) { o.minBodies = 30; o.maxBodies = 70; }
    if (marathon) o.maxBodies = 2;
    o.loops = 0.4;
    if (r.chance(0.15)) { o.massLo = 1e-3; o.massHi = 1e3; }
    if (r.chance(0.2)) o.vel = r.chance(0.2) ? r.logUniform(50, 3000) : 50;
    o.anchors = r.chance(0.25);
    o.limits = r.chance(0.25);
    Spec s = randomScene(r, o);
    const int solver = r.below(10) < 5 ? S_GE : r.chance(0.5) ? S_GS : S_CG;
    Units u;
    if (r.chance(0.25)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    std::vector<int> order;
    for (size_t i = 0; i < s.bodies.size(); ++i) order.push_back((int)i);
    if (r.chance(0.5)) r.shuffle(order);
    World w(s, SYS_NSV, solver, &order);
    w.spy->record = true;
    Recorder rec;
    attach(rec, w);
    std::vector<std::pair<std::vector<double>, std::vector<double>>> xb; // multipliers and right-hand side of every solve
    w.spy->onDone = [&] { xb.push_back({w.spy->x, w.spy->b}); };
    const double wide = u.len + std::fabs(u.ox) + std::fabs(u.oy);
    static const double betas[] = {1.0, 1.0, 0.0, 0.1, 0.5};
    w.nsv->m_biasFactor = betas[r.below(5)];
    if (r.chance(0.1)) w.nsv->m_biasFactor = r.uniform(1, 3); // over-correcting is a setting too
    const int frames = marathon ? r.range(1100, 2600) : large ? r.range(1, 2) : r.range(1, 4);
    int judged = 0;
    for (int f = 0; f < frames; ++f) {
        const double dt = (r.chance(0.4) ? 1.0 / 60 : r.chance(0.1) ? r.logUniform(1e-6, 3) : r.logUniform(1e-4, 0.2)) * u.time;
        const int steps = fine ? r.range(40, 400) : r.chance(0.25) ? r.range(2, 5) : 1;
        if (r.chance(0.2)) w.nsv->m_biasFactor = r.unit();
        const std::vector<Pose> pre = w.poses();
        const double q = [&] { const RefSystem R = refSystem(s, pre); return cholQuality(refA(R), R.m); }();
        if (q < 1e-5) { c.count("skipped_near_singular_later_frame"); break; }
        bool tameNow = true;
        for (auto &p : pre) for (int i = 0; i < 3; ++i)
            tameNow = tameNow && std::fabs(p.q[i]) < 1e8 * (i < 2 ? wide : 1) && std::fabs(p.v[i]) < 1e8 * (i < 2 ? u.vel() : 1 / u.time);
        if (!tameNow) { c.count("stopped_diverging"); break; }
        const long failed = w.spy->failed;
        rec.evals.clear(); xb.clear();
        const double beta = w.nsv->m_biasFactor;
        w.sys->process(dt, steps);
        if (bitsOf(w.nsv->m_biasFactor) != bitsOf(beta)) c.fail("bias-setting", "a step changed the bias factor from %g to %g", beta, w.nsv->m_biasFactor);
        if (w.spy->failed != failed && steps == 1 && (solver == S_GE || w.spy->refused))
            c.fail("system-not-solvable", "the reference system is well conditioned (%g) but the one handed to %s is singular or not finite",
                   q, solverName(solver));
        if (w.spy->failed != failed) { c.count("iterative_solver_gave_up"); break; }
        if ((int)rec.evals.size() != steps || (int)xb.size() != steps) c.fail("evaluations", "%d evaluations and %d solves in a frame of %d substeps", (int)rec.evals.size(), (int)xb.size(), steps);
        std::vector<Pose> end = w.poses();
        for (int k = 0; k < steps; ++k) { // every substep, the state after it is the next one's start
            const std::vector<Pose> &at = rec.evals[(size_t)k].P;
            const std::vector<Pose> &then = k + 1 < steps ? rec.evals[(size_t)k + 1].P : end;
            const RefSystem R = refSystem(s, at);
            if (k && !(cholQuality(refA(R), R.m) > 1e-5)) break;
            w.spy->x = xb[(size_t)k].first; w.spy->b = xb[(size_t)k].second;
            judged += nsvLaw(c, w, at, dt / steps, "row-velocity", &then);
            c.count("substeps_judged");
        }
        if (steps == 1) for (size_t i = 0; i < pre.size(); ++i) for (int x = 0; x < 3; ++x)
            if (bitsOf(pre[i].q[x]) != bitsOf(rec.evals[0].P[i].q[x]) || bitsOf(pre[i].v[x]) != bitsOf(rec.evals[0].P[i].v[x]))
                c.fail("start-state", "the evaluation of a frame is not at the bodies' state");
        c.count("frames_judged");
        if (f > 1000) c.count("frames_past_1000");
    }
    c.count("rows_judged", judged);
    if (large && judged) c.count("large_worlds");
    if (fine && judged) c.count("finely_substepped_worlds");
    c.max("max_rows", (long long)w.spy->x.size());
    c.count(solver == S_GE ? "solver_ge" : solver == S_CG ? "solver_cg" : "solver_gs");
    countKinds(c, s);
    if (judged) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(solver);
        char d[700]; describe(s, d, sizeof d);
        c.sample("nsv/%s beta=%g: %s; %d rows judged", solverName(solver), w.nsv->m_biasFactor, d, judged);
    }
}

// C11: reported constraint forces plus applied forces account for all motion.
#include "recorder.h"
const char *const kCheckId = "C11";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.userRows = true;
    o.maxBodies = r.chance(0.08) ? (c.thorough ? 24 : 14) : 5;
    const bool large = r.chance(0.002), marathon = !large && r.chance(0.0005), fine = !large && r.chance(0.002);
    if (large) { o.minBodies = 30; o.maxBodies = 70; }
    if (marathon) o.maxBodies = 2;
    o.loops = 0.35;
    o.anchors = r.chance(0.25);
    o.limits = r.chance(0.4);
    o.neutral = true;
    if (r.chance(0.2)) { o.massLo = 1e-2; o.massHi = 1e2; }
    Spec s = randomScene(r, o);
    const int sysk = r.below(SYS_COUNT);
    const int solver = r.below(S_COUNT);
    Units u;
    if (r.chance(0.25)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    std::vector<int> order;
    for (size_t i = 0; i < s.bodies.size(); ++i) order.push_back((int)i);
    if (r.chance(0.5)) r.shuffle(order);
    // iterative solvers also with their default, loose tuning: the account must balance whatever they return
    Recorder rec;
    World w(s, sysk, solver, &order, r.chance(0.7));
    attach(rec, w);
    w.spy->record = true;
    const int stages = sysk == SYS_RK4 ? 4 : 1;
    static const double W4[4] = {1.0 / 6, 2.0 / 6, 2.0 / 6, 1.0 / 6}, W1[1] = {1.0};
    const double *wt = sysk == SYS_RK4 ? W4 : W1;
    std::vector<std::vector<double>> xs;   // multipliers of every solve
    w.spy->onDone = [&] { xs.push_back(w.spy->x); };

    const double wide = u.len + std::fabs(u.ox) + std::fabs(u.oy);
    auto tameIn = [&](const std::vector<Pose> &P) {
        for (auto &p : P) for (int i = 0; i < 3; ++i)
            if (!(std::fabs(p.q[i]) < 1e8 * (i < 2 ? wide : 1) && std::fabs(p.v[i]) < 1e8 * (i < 2 ? u.vel() : 1 / u.time))) return false;
        return true;
    };
    const int frames = marathon ? r.range(1100, 2600) : large ? 1 : r.range(1, 4);
    long judged = 0;
    for (int f = 0; f < frames; ++f) {
        const double dt = (r.chance(0.3) ? 1.0 / 60 : r.chance(0.1) ? r.logUniform(1e-6, 2) : r.logUniform(1e-4, 0.1)) * u.time;
        const int steps = fine ? r.range(40, 400) : r.chance(0.4) ? r.range(2, r.chance(0.1) ? 20 : 6) : 1;
        const double h = dt / steps;
        // poison the reports: nothing older may survive
        for (size_t i = 0; i < w.cons.size(); ++i)
            for (int a = 0; a < conRows(w.spec.cons[i].kind); ++a) for (int b = 0; b < 2; ++b)
                w.cons[i]->F_x[a][b] = w.cons[i]->F_y[a][b] = w.cons[i]->F_t[a][b] = 1e7 * r.uniform(-1, 1);
        rec.evals.clear(); xs.clear();
        const std::vector<Pose> before = w.poses();
        w.sys->process(dt, steps);
        const size_t want = (size_t)steps * stages;
        if (rec.evals.size() != want || xs.size() != want)
            c.fail("evaluations", "%d evaluations and %d solves in a frame of %d substeps (%s)", (int)rec.evals.size(), (int)xs.size(), steps, systemName(sysk));
        const std::vector<Pose> post = w.poses();
        bool ok = tameIn(post);
        for (auto &e : rec.evals) ok = ok && tameIn(e.P);
        if (!ok) { c.count("stopped_diverging"); break; }

        const size_t at = want - stages;  // first evaluation of the last substep
        const std::vector<Pose> &start = rec.evals[at].P;
        if (f >= 0 && steps == 1)
            for (size_t i = 0; i < before.size(); ++i) for (int x = 0; x < 3; ++x)
                if (bitsOf(before[i].q[x]) != bitsOf(start[i].q[x]) || bitsOf(before[i].v[x]) != bitsOf(start[i].v[x]))
                    c.fail("start-state", "the first evaluation of a frame is not at the bodies' state");
        // external force and multiplier image, stage weighted
        const size_t n = 3 * w.bodies.size();
        std::vector<double> F(n, 0.0), Fs(n, 0.0);
        std::vector<Rep> expect(w.cons.size());
        std::vector<Rep> mag(w.cons.size());
        for (auto &e : expect) memset(&e, 0, sizeof e);
        for (auto &e : mag) memset(&e, 0, sizeof e);
        bool rowsOk = true;
        for (int k = 0; k < stages; ++k) {
            const Eval &e = rec.evals[at + k];
            std::vector<double> sc;
            const std::vector<double> fk = refForces(w.spec, e.P, &e.aTheta, &sc);
            for (size_t i = 0; i < n; ++i) { F[i] += wt[k] * fk[i]; Fs[i] += wt[k] * sc[i]; }
            const RefSystem R = refSystem(w.spec, e.P);
            const std::vector<double> &x = xs[at + k];
            if ((int)x.size() != R.m) { rowsOk = false; break; }
            for (size_t ci = 0; ci < w.cons.size(); ++ci)
                for (int a = 0; a < R.rows[ci].n; ++a) for (int j = 0; j < 3 * conBodies(w.spec.cons[ci].kind); ++j) {
                    const double l = x[R.first[ci] + a] * (sysk == SYS_NSV ? 1.0 / h : 1.0);
                    expect[ci].f[a][j / 3][j % 3] += wt[k] * l * R.rows[ci].J[a][j];
                    mag[ci].f[a][j / 3][j % 3] += wt[k] * std::fabs(l) * (std::fabs(R.rows[ci].J[a][j]) + 1e-3 + 1e-6 * extent(s, e.P));
                }
        }
        if (!rowsOk) c.fail("row-count", "the solver saw a different number of rows than the scene has");
        std::vector<double> G, Gs;
        totalReported(w, G, Gs);
        for (size_t i = 0; i < n; ++i) {
            const BodySpec &b = s.bodies[i / 3];
            const double m = i % 3 == 2 ? b.I : b.m;
            const double dv = post[i / 3].v[i % 3] - start[i / 3].v[i % 3];
            const double rhs = h * (F[i] + G[i]);
            const double tol = 1e-9 * h * (Fs[i] + Gs[i]) + 1e-12 * m * (std::fabs(post[i / 3].v[i % 3]) + std::fabs(start[i / 3].v[i % 3])) + 1e-13 * (i % 3 == 2 ? u.torque() : u.force()) * u.time;
            if (!near(m * dv, rhs, tol)) {
                char d[600]; describe(s, d, sizeof d);
                c.fail("account", "body %d component %d: m dv = %.12g, dt (F_applied + F_reported) = %.12g (tolerance %.3g); %s/%s dt=%g steps=%d frame %d [%s]",
                       (int)i / 3, (int)i % 3, m * dv, rhs, tol, systemName(sysk), solverName(solver), dt, steps, f, d);
            }
            ++judged;
        }
        // each report is the multiplier times the row's Jacobian (stage weighted)
        for (size_t ci = 0; ci < w.cons.size(); ++ci) {
            const Rep p = reported(w, ci);
            const ConSpec &k = w.spec.cons[ci];
            if (k.kind == K_ROLL) { // which slip direction counts as positive is a convention
                double big = 0;
                bool flip = false;
                for (int j = 0; j < 6; ++j) if (k.b[j / 3] >= 0 && std::fabs(expect[ci].f[0][j / 3][j % 3]) > big) {
                    big = std::fabs(expect[ci].f[0][j / 3][j % 3]);
                    flip = (p.f[0][j / 3][j % 3] < 0) != (expect[ci].f[0][j / 3][j % 3] < 0);
                }
                if (flip) for (int j = 0; j < 6; ++j) expect[ci].f[0][j / 3][j % 3] *= -1;
            }
            for (int a = 0; a < conRows(k.kind); ++a) for (int b = 0; b < conBodies(k.kind); ++b) {
                if (k.b[b] < 0) { // nothing or the row's pull on the anchor, but nothing older
                    for (int x = 0; x < 3; ++x)
                        if (p.f[a][b][x] != 0 && !near(p.f[a][b][x], expect[ci].f[a][b][x], 1e-9 * mag[ci].f[a][b][x] + 1e-300))
                            c.fail("anchor-report", "constraint %d (%s) row %d reports %.12g for its unregistered body, component %d; %s steps=%d",
                                   (int)ci, conName(k.kind), a, p.f[a][b][x], x, systemName(sysk), steps);
                    c.count("anchor_reports_judged");
                    continue;
                }
                for (int x = 0; x < 3; ++x)
                    if (!near(p.f[a][b][x], expect[ci].f[a][b][x], 1e-9 * mag[ci].f[a][b][x] + 1e-300)) {
                        char d[600]; describe(s, d, sizeof d);
                        c.fail("jacobian-multiple", "constraint %d (%s) row %d body %d component %d: reported %.12g, multiplier times Jacobian %.12g; %s/%s steps=%d [%s]",
                               (int)ci, conName(k.kind), a, b, x, p.f[a][b][x], expect[ci].f[a][b][x], systemName(sysk), solverName(solver), steps, d);
                    }
                c.count("reports_judged");
            }
        }
        if (stages == 1) multipleOfJ(c, w, start, "not-a-jacobian-multiple");
        c.count("frames_judged");
        if (f > 1000) c.count("frames_past_1000");
        if (large) c.count("frames_of_large_worlds");
        if (steps > 1) c.count("multi_substep_frames");
    }
    c.count("components_judged", judged);
    c.count(sysk == SYS_NSV ? "frames_nsv_worlds" : sysk == SYS_RK4 ? "rk4_worlds" : "euler_worlds");
    countKinds(c, s);
    if (judged && !s.cons.empty()) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(solver); c.shape(sysk);
        char d[700]; describe(s, d, sizeof d);
        c.sample("%s/%s: %s; %ld components accounted for", systemName(sysk), solverName(solver), d, judged);
    }
}

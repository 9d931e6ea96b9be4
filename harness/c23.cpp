// C23: joints stay together over long simulations.
#include "recorder.h"
const char *const kCheckId = "C23";
using namespace vf;

namespace {
// bound on |C(q+) - C(q) - J(q) (q+ - q)| from the displacement of one step
void secondOrder(const ConSpec &k, const Pose &A, const Pose &B, const Pose &A1, const Pose &B1, double *out) {
    const double d1 = std::fabs(A1.q[2] - A.q[2]), d2 = std::fabs(B1.q[2] - B.q[2]);
    switch (k.kind) {
        case K_FIXPOS: out[0] = out[1] = 0.5 * std::hypot(k.p[0], k.p[1]) * d1 * d1; break;
        case K_FIXROT: out[0] = 0; break;
        case K_LINE: out[0] = 0.5 * std::hypot(k.p[0], k.p[1]) * std::hypot(k.p[4], k.p[5]) * d1 * d1; break;
        case K_LINK: out[0] = out[1] = 0.5 * (std::hypot(k.p[0], k.p[1]) * d1 * d1 + std::hypot(k.p[2], k.p[3]) * d2 * d2); break;
        case K_WELD: out[0] = out[1] = 0.5 * std::hypot(k.p[0], k.p[1]) * d1 * d1; out[2] = 0; break;
        case K_ROLL: {
            const double rx = B.q[0] - A.q[0], ry = B.q[1] - A.q[1];
            const double mx = B1.q[0] - A1.q[0] - rx, my = B1.q[1] - A1.q[1] - ry;
            out[0] = out[1] = std::hypot(k.p[2], k.p[3]) * (0.5 * d1 * d1 * std::hypot(rx, ry) + d1 * std::hypot(mx, my) + 0.5 * d1 * d1 * std::hypot(mx, my));
            break;
        }
        default: out[0] = 0; break;
    }
}

bool tameIn(const std::vector<Pose> &P, const Units &u) {
    const double away = std::fabs(u.ox) + std::fabs(u.oy);
    for (auto &p : P) {
        if (!(std::fabs(p.q[0]) < 500 * u.len + 2 * away) || !(std::fabs(p.q[1]) < 500 * u.len + 2 * away) || !(std::fabs(p.q[2]) < 500)) return false;
        if (!(std::hypot(p.v[0], p.v[1]) < 500 * u.vel()) || !(std::fabs(p.v[2]) < 500 / u.time)) return false;
    }
    return true;
}
void velocityLevel(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = r.chance(0.15) ? 12 : 5;
    o.vel = r.chance(0.3) ? 12 : 3;
    o.loops = 0.3;
    o.neat = 0;
    o.anchors = r.chance(0.2);
    o.kinds = ((1u << K_COUNT) - 1);
    o.minQuality = 1e-2;
    o.idle = 0.1;
    const bool large = r.chance(0.004);
    if (large) { o.minBodies = 28; o.maxBodies = 60; o.attach = 1; }
    Spec s = randomScene(r, o);
    for (auto &k : s.cons) if (k.kind == K_LIN) k.p[7] = 0;
    const int solver = r.chance(0.5) ? S_GE : r.chance(0.5) ? S_GS : S_CG;
    Units u;
    if (r.chance(0.2)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    if (large) c.count("large_worlds");
    World w(s, SYS_NSV, solver);
    w.spy->record = true;
    const double beta = r.chance(0.4) ? 1.0 : r.uniform(0.05, 1);
    w.nsv->m_biasFactor = beta;
    const double dt = (r.chance(0.5) ? 1.0 / 60 : r.logUniform(5e-4, 0.02)) * u.time;
    const int frames = large ? r.range(3, 10) : c.thorough ? r.range(100, 1500) : r.range(20, 160);
    long judged = 0;
    double worst = 0;
    Recorder rec;
    attach(rec, w);
    std::vector<std::vector<double>> xs, gs;
    w.spy->onDone = [&] { xs.push_back(w.spy->x); gs.push_back(w.spy->guess); };
    const int steps = r.chance(0.3) ? r.range(2, 5) : 1;
    const double h = dt / steps;
    bool stop = false;
    for (int f = 0; f < frames && !stop; ++f) {
      rec.evals.clear(); xs.clear(); gs.clear();
      w.sys->process(dt, steps);
      if (w.spy->failed) { c.count("solver_gave_up"); break; }
      if ((int)rec.evals.size() != steps || (int)xs.size() != steps) c.fail("evaluations", "%d evaluations and %d solves in a frame of %d substeps", (int)rec.evals.size(), (int)xs.size(), steps);
      const std::vector<Pose> end = w.poses();
      for (int sub = 0; sub < steps; ++sub) {
        const std::vector<Pose> &P = rec.evals[(size_t)sub].P;
        const RefSystem R0 = refSystem(w.spec, P);
        const std::vector<double> A0 = refA(R0);
        if (!(cholQuality(A0, R0.m) > 1e-4) || !tameIn(P, u)) { c.count("stopped_near_singular"); stop = true; break; }
        const std::vector<Pose> &Q = sub + 1 < steps ? rec.evals[(size_t)sub + 1].P : end;
        w.spy->x = xs[(size_t)sub]; w.spy->guess = gs[(size_t)sub];
        const RefSystem R1 = refSystem(w.spec, Q);
        if (!spyUsable(w, R0)) c.fail("rows", "the solver saw %d rows, the scene has %d", (int)w.spy->x.size(), R0.m);
        const double drift = cgDrift(w, R0, A0);
        for (size_t ci = 0; ci < s.cons.size(); ++ci) {
            const ConSpec &k = s.cons[ci];
            if (!conPositional(k.kind)) continue;
            double rem[3] = {0, 0, 0};
            const Pose a = posOf(s, P, k.b[0]), a1 = posOf(s, Q, k.b[0]);
            const Pose b = conBodies(k.kind) > 1 ? posOf(s, P, k.b[1]) : Pose(), b1 = conBodies(k.kind) > 1 ? posOf(s, Q, k.b[1]) : Pose();
            secondOrder(k, a, b, a1, b1, rem);
            for (int row = 0; row < R0.rows[ci].n; ++row) {
                const int i = R0.first[ci] + row;
                const double before = R0.C[i], after = R1.C[i];
                double sc = 1e-3;
                for (int q = 0; q < R0.n; ++q) sc += std::fabs(R0.J[(size_t)i * R0.n + q]) * (std::fabs(Q[q / 3].v[q % 3]) * h + 1e-3 * std::fabs(P[q / 3].q[q % 3]));
                for (int j = 0; j < R0.m; ++j) sc += h * std::fabs(A0[(size_t)i * R0.m + j] * w.spy->x[j]);
                const double tol = 1e-9 * sc + h * (solverSlack(w, R0, A0, i) + drift + floorTol(w)) + 1e-11;
                if (!near(after, (1 - beta) * before, rem[row] * 1.0001 + tol)) {
                    char d[500]; describe(s, d, sizeof d);
                    c.fail("step-bound", "frame %d: %s row %d error went from %.9g to %.9g; at most %.9g of rotation may be added to %.9g (tolerance %.3g), dt=%g of %d substeps beta=%g %s [%s]",
                           f, conName(k.kind), row, before, after, rem[row], (1 - beta) * before, tol, dt, steps, beta, solverName(solver), d);
                }
                worst = std::fmax(worst, std::fabs(after));
                ++judged;
            }
        }
        c.count("velocity_level_frames");
        if (steps > 1) c.count("substeps_judged");
      }
    }
    c.count("joint_rows_judged", judged);
    countKinds(c, s);
    if (judged) { c.nontrivial = true; shapeOf(c, s); c.shape(solver); char d[500]; describe(s, d, sizeof d); c.sample("nsv/%s beta %.2g dt %.3g: %s; %ld joint rows", solverName(solver), beta, dt, d, judged); }
}

void forceLevel(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = 4;
    o.vel = 1.5;
    o.loops = 0.2;
    o.neat = 0;
    o.massLo = 0.5; o.massHi = 3;
    o.perturb = 0;
    o.kinds = (1u << K_FIXPOS) | (1u << K_FIXROT) | (1u << K_LINE) | (1u << K_LINK) | (1u << K_ROLL) | (1u << K_WELD);
    o.gens = (1u << G_GRAVITY) | (1u << G_UNIFORM) | (1u << G_ATTRACT);
    o.minQuality = 1e-2;
    Spec s = randomScene(r, o);
    const bool deflt = r.chance(0.6);
    for (auto &k : s.cons) if (deflt) { k.ks = 10; k.kd = 1; } else { k.ks = std::fmin(k.ks, 20.0); k.kd = std::fmin(k.kd, 4.0); }
    { // smoothly started: the velocities satisfy the joints
        const std::vector<Pose> P = specPoses(s);
        const RefSystem R = refSystem(s, P);
        if (R.m == 0) return;
        std::vector<double> b(R.m, 0.0), x;
        for (int i = 0; i < R.m; ++i) {
            if (std::fabs(R.C[i]) > 1e-9 && !(R.ks[i] == 0)) return;
            for (int k = 0; k < R.n; ++k) b[i] -= R.J[(size_t)i * R.n + k] * P[k / 3].v[k % 3];
        }
        if (!(cholQuality(refA(R), R.m, &b, &x) > 1e-3)) return;
        for (int k = 0; k < R.n; ++k) {
            double dv = 0;
            for (int i = 0; i < R.m; ++i) dv += R.W[k] * R.J[(size_t)i * R.n + k] * x[i];
            BodySpec &bd = s.bodies[k / 3];
            (k % 3 == 0 ? bd.vx : k % 3 == 1 ? bd.vy : bd.w) += dv;
        }
    }
    const double T = r.uniform(0.3, 1.0);
    double size = 1;
    bool ok = true;
    auto worstError = [&](int n) {
        World w(s, SYS_RK4, S_GE);
        double worst = 0;
        // the rolling slip starts wherever the wheel stands: it is judged relative to that
        std::vector<double> C0 = refSystem(s, specPoses(s)).C;
        for (int k = 0; k < n && ok; ++k) {
            w.sys->process(T / n, 1);
            const std::vector<Pose> P = w.poses();
            if (w.spy->failed || !tame(P, 60)) { ok = false; break; }
            const RefSystem R = refSystem(s, P);
            if (!(cholQuality(refA(R), R.m) > 3e-3)) { ok = false; break; }
            for (int i = 0; i < R.m; ++i) worst = std::fmax(worst, std::fabs(R.C[i] - (R.ks[i] == 0 ? C0[i] : 0)));
            for (auto &p : P) for (int x = 0; x < 3; ++x) size = std::fmax(size, std::fabs(p.q[x]));
            c.count("force_level_frames");
        }
        return worst;
    };
    const int base = 8;
    std::vector<double> e;
    for (int l = 0; l < 3; ++l) e.push_back(worstError(base << l));
    if (!ok) { c.count("worlds_skipped_not_smooth"); return; }
    const double noise = 1e-10 * size;
    char d[500]; describe(s, d, sizeof d);
    auto best = [&] { double m = 0; for (size_t i = 0; i + 1 < e.size(); ++i) if (e[i + 1] > noise) m = std::fmax(m, std::log2(e[i] / e[i + 1])); return m; };
    if (e[2] > noise && best() < 3.2) {
        e.clear();
        for (int l = 2; l < 9 && ok; ++l) e.push_back(worstError(base << l));
        c.count("orders_refined");
        if (ok && e[1] > noise && best() < 3.2)
            c.fail("drift-order", "%s: worst joint error %.3g %.3g %.3g %.3g %.3g %.3g under successive halving of the step", d, e[0], e[1], e[2], e[3], e[4], e[5]);
        if (!ok) return;
    }
    if (!(e.back() < 0.02)) { c.count("worlds_coarse"); return; }
    c.count("orders_judged");
    countKinds(c, s);
    c.nontrivial = true; shapeOf(c, s); c.shape(5);
    c.sample("rk4 over %.2g s: %s; worst joint error at the finest step %.2g", T, d, e.back());
}
}

void run_case(Ctx &c) {
    if (c.rng.chance(0.6)) velocityLevel(c); else forceLevel(c);
}

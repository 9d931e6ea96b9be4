// C28: passive mechanisms never create energy; conservative ones keep it.
#include "recorder.h"
#include "rig.h"
const char *const kCheckId = "C28";
using namespace vf;

namespace {
double bodyKE(const BodySpec &b, const Pose &p) {
    return 0.5 * b.m * (p.v[0] * p.v[0] + p.v[1] * p.v[1]) + 0.5 * b.I * p.v[2] * p.v[2];
}
double kinetic(Ctx &c, World &w) { // the library's own figures, checked against the formula
    double e = 0;
    for (size_t i = 0; i < w.bodies.size(); ++i) {
        const double k = w.bodies[i]->energy(), want = bodyKE(w.spec.bodies[i], w.pose((int)i));
        if (!near(k, want, 1e-13 * want + 1e-300)) c.fail("kinetic-formula", "body reports %.17g, half m v^2 plus half I w^2 is %.17g", k, want);
        e += k;
    }
    c.count("kinetic_reports", (long)w.bodies.size());
    return e;
}

void passive(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = r.chance(0.1) ? 14 : 6;
    o.loops = 0.4;
    o.anchors = r.chance(0.3);
    o.limits = r.chance(0.6);
    o.neutral = true;
    o.maxGens = 0;
    if (r.chance(0.08)) { o.vel = r.logUniform(50, 2000); c.count("very_fast_scenes"); }
    if (r.chance(0.3)) { o.massLo = 1e-2; o.massHi = 1e2; }
    Spec s = randomScene(r, o);
    for (auto &k : s.cons) {
        if (k.kind == K_CROT) k.p[0] = 0;
        if (k.kind == K_LIN) k.p[7] = 0;
        if (k.lo > 0) k.lo = 0; // a device that insists on pushing is not passive
        if (k.hi < 0) k.hi = 0;
    }
    const int solver = o.limits ? S_GS : r.below(S_COUNT);
    Units u;
    if (r.chance(0.2)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    const double unitE = u.torque();
    World w(s, SYS_NSV, solver, nullptr, true);
    w.nsv->m_biasFactor = 0;
    w.spy->record = true;
    double E = kinetic(c, w);
    const int frames = r.chance(0.0005) ? r.range(300, 2000) : r.range(1, 20);
    for (int f = 0; f < frames; ++f) {
        const double dt = (r.chance(0.4) ? 1.0 / 60 : r.logUniform(1e-4, r.chance(0.1) ? 1 : 0.05)) * u.time;
        const int steps = frames < 300 && r.chance(0.001) ? r.range(30, 200) : r.chance(0.2) ? r.range(2, 4) : 1;
        if (f >= 300) c.count("passive_frames_past_300");
        w.sys->process(dt, steps);
        if (w.spy->failed) { c.count(w.spy->refused ? "stopped_near_singular" : "solver_gave_up"); break; }
        // the solver may leave a tiny velocity error on each row; its work is multiplier times error
        double slack = 0;
        {
            const RefSystem R = refSystem(w.spec, w.poses());
            if (R.m == (int)w.spy->x.size()) {
                const std::vector<double> A = refA(R);
                for (int i = 0; i < R.m; ++i) {
                    double row = 1e-3;
                    for (int j = 0; j < R.m; ++j) row += std::fabs(A[(size_t)i * R.m + j]) * std::fmax(1e-3, std::fabs(w.spy->x[j]));
                    slack += std::fabs(w.spy->x[i]) * (5e-9 * row);
                }
            }
            slack *= steps;
        }
        const double now = kinetic(c, w);
        if (!(now <= E + 1e-9 * E + slack + 1e-13 * unitE)) {
            char d[600]; describe(s, d, sizeof d);
            c.fail("created", "kinetic energy rose from %.12g to %.12g (slack %.3g) in frame %d, dt=%g steps=%d, %s [%s]", E, now, slack, f, dt, steps, solverName(solver), d);
        }
        if (now < E * (1 - 1e-6)) c.count("frames_losing_energy"); else c.count("frames_keeping_energy");
        E = now;
        c.count("passive_frames");
    }
    countKinds(c, s);
    if (!s.cons.empty()) { c.nontrivial = true; shapeOf(c, s); c.shape(solver); char d[600]; describe(s, d, sizeof d); c.sample("passive nsv/%s: %s", solverName(solver), d); }
}

// What a spring says it stores must be what its forces take: follow a straight path of both
// ends' bodies and compare the energy difference with the work done against the forces.
void springWork(Ctx &c) {
    Rng &r = c.rng;
    RigidBody a, b;
    Spring k;
    const bool fixed = r.chance(0.25);
    a.index = 0; b.index = fixed ? -1 : 1;
    k.m_body1 = &a; k.m_body2 = &b;
    k.m_ks = r.chance(0.2) ? r.logUniform(1e-4, 1e6) : r.logUniform(0.1, 200); k.m_kd = r.chance(0.5) ? 0 : r.uniform(0, 3);
    k.m_restLength = r.chance(0.15) ? 0 : r.logUniform(0.01, 50);
    k.m_p1_x = r.uniform(-2, 2); k.m_p1_y = r.uniform(-2, 2); k.m_p2_x = r.uniform(-2, 2); k.m_p2_y = r.uniform(-2, 2);
    const double near_ = r.logUniform(0.04, 1), far_ = r.logUniform(0.04, 6) * (r.chance(0.3) ? std::fmax(1.0, k.m_restLength) : 1);
    double q0[6], q1[6];
    for (int e = 0; e < 2; ++e) { // choose the poses so that the ends are near_ resp. far_ apart
        double *q = e ? q1 : q0;
        const double l = e ? far_ : near_, ang = r.uniform(-3, 3);
        q[0] = r.uniform(-4, 4); q[1] = r.uniform(-4, 4); q[2] = (e ? q0[2] + r.uniform(-0.7, 0.7) : r.uniform(-9, 9));
        q[5] = e ? q0[5] + r.uniform(-0.7, 0.7) : r.uniform(-9, 9);
        const Vec2 ra = rot(q[2], k.m_p1_x, k.m_p1_y), rb = rot(q[5], k.m_p2_x, k.m_p2_y);
        q[3] = q[0] + ra.x + l * std::cos(ang) - rb.x; q[4] = q[1] + ra.y + l * std::sin(ang) - rb.y;
    }
    if (fixed) { // the unregistered end stays where it is
        q1[5] = q0[5];
        const Vec2 ra = rot(q1[2], k.m_p1_x, k.m_p1_y), rb = rot(q1[5], k.m_p2_x, k.m_p2_y);
        const double ang = r.uniform(-3, 3);
        q1[3] = q0[3]; q1[4] = q0[4];
        q1[0] = q1[3] + rb.x - far_ * std::cos(ang) - ra.x; q1[1] = q1[4] + rb.y - far_ * std::sin(ang) - ra.y;
    }
    const int nb = fixed ? 1 : 2;
    State st; Rng z(1);
    fillState(z, st, nb, 0);
    double minL = 1e300;
    auto place = [&](double t) {
        double q[6]; for (int x = 0; x < 6; ++x) q[x] = q0[x] + t * (q1[x] - q0[x]);
        a.p_x = q[0]; a.p_y = q[1]; a.theta = q[2]; b.p_x = q[3]; b.p_y = q[4]; b.theta = q[5];
        const Vec2 ra = rot(q[2], k.m_p1_x, k.m_p1_y), rb = rot(q[5], k.m_p2_x, k.m_p2_y);
        minL = std::fmin(minL, std::hypot(q[3] + rb.x - q[0] - ra.x, q[4] + rb.y - q[1] - ra.y));
        for (int i = 0; i < nb; ++i) { st.p_x[i] = q[3 * i]; st.p_y[i] = q[3 * i + 1]; st.theta[i] = q[3 * i + 2]; }
    };
    auto power = [&](double t) {
        place(t);
        for (int i = 0; i < nb; ++i) { st.f_x[i] = st.f_y[i] = st.t[i] = 0; st.v_x[i] = st.v_y[i] = st.v_theta[i] = 0; }
        k.apply(&st);
        double p = 0;
        for (int i = 0; i < nb; ++i) p += st.f_x[i] * (q1[3 * i] - q0[3 * i]) + st.f_y[i] * (q1[3 * i + 1] - q0[3 * i + 1]) + st.t[i] * (q1[3 * i + 2] - q0[3 * i + 2]);
        return p;
    };
    double last = 0, work = 0;
    bool settled = false;
    place(0); const double E0 = k.energy();
    place(1); const double E1 = k.energy();
    for (int n = 64; n <= 4096; n *= 4) {
        work = 0;
        for (int i = 0; i <= n; ++i) work += power((double)i / n) * (i == 0 || i == n ? 1 : i & 1 ? 4 : 2) / (3.0 * n);
        if (minL < 0.03) { c.count("paths_skipped_too_close"); return; }
        if (n > 64 && std::fabs(work - last) < 1e-7 * (std::fabs(E0) + std::fabs(E1) + std::fabs(work))) { settled = true; break; }
        last = work;
    }
    if (!settled) { c.count("paths_skipped_unresolved"); return; }
    const double scale = std::fabs(E0) + std::fabs(E1) + std::fabs(work) + k.m_ks * 1e-3;
    if (!near(E1 - E0, -work, 1e-5 * scale))
        c.fail("spring-energy", "spring (k %g, rest %g) reports %.12g then %.12g, but its forces did work %.12g on a path from length %g to %g", k.m_ks, k.m_restLength, E0, E1, work, near_, far_);
    c.count("spring_paths");
    c.nontrivial = true; c.shape(bitsOf(k.m_ks)); c.shape(bitsOf(near_));
    c.sample("spring path: k %.3g rest %.3g, length %.3g to %.3g: work %.6g, energy change %.6g", k.m_ks, k.m_restLength, near_, far_, work, E1 - E0);
}

struct Ledger { double E0 = 0, E1 = 0, diss = 0, scale = 0; bool ok = true; };

void conservative(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = 4;
    o.vel = 1.5;
    o.loops = 0.3;
    o.anchors = r.chance(0.2);
    o.massLo = 0.5; o.massHi = 3;
    o.perturb = 0;
    o.kinds = ((1u << K_COUNT) - 1) & ~(1u << K_LIN);
    o.gens = (1u << G_GRAVITY) | (1u << G_SPRING);
    o.springKd = r.chance(0.5) ? 0 : 0.7;
    o.maxGens = 9;
    o.minQuality = 1e-2;
    Spec s = randomScene(r, o);
    for (auto &k : s.cons) {
        if (k.kind == K_CROT) k.p[0] = 0;
        k.ks = r.chance(0.5) ? 10 : std::fmin(k.ks, 20.0); k.kd = r.chance(0.5) ? 1 : std::fmin(k.kd, 4.0);
    }
    for (auto &g : s.gens) if (g.kind == G_SPRING) { g.p[5] = std::fmin(g.p[5], 12.0); g.p[6] = std::fmin(g.p[6], 1.5); if (r.chance(0.5)) g.p[4] = 0; }
    { // start on the constraints: no velocity error either
        const RefSystem R = refSystem(s, specPoses(s));
        std::vector<double> b(R.m, 0.0), x;
        const std::vector<Pose> P = specPoses(s);
        for (int i = 0; i < R.m; ++i) { for (int k = 0; k < R.n; ++k) b[i] -= R.J[(size_t)i * R.n + k] * P[k / 3].v[k % 3]; }
        for (int i = 0; i < R.m; ++i) if (std::fabs(R.C[i]) > 1e-9 && R.ks[i] != 0) { c.count("scenes_not_closed"); return; }
        if (!(cholQuality(refA(R), R.m, &b, &x) > 1e-3)) return;
        for (int k = 0; k < R.n; ++k) {
            double dv = 0;
            for (int i = 0; i < R.m; ++i) dv += R.W[k] * R.J[(size_t)i * R.n + k] * x[i];
            BodySpec &bd = s.bodies[k / 3];
            (k % 3 == 0 ? bd.vx : k % 3 == 1 ? bd.vy : bd.w) += dv;
        }
    }
    const double T = r.uniform(0.15, 0.4);
    bool damped = false;
    for (auto &g : s.gens) if (g.kind == G_SPRING && g.p[6] > 0) damped = true;
    auto energy = [&](World &w) {
        double e = kinetic(c, w);
        for (size_t i = 0; i < w.gens.size(); ++i) {
            const GenSpec &g = s.gens[i];
            if (g.kind == G_GRAVITY) for (size_t b = 0; b < w.bodies.size(); ++b) e += s.bodies[b].m * g.p[0] * w.bodies[b]->p_y;
            if (g.kind == G_SPRING) e += static_cast<Spring *>(w.gens[i])->energy();
        }
        return e;
    };
    auto run = [&](int n) {
        Ledger L;
        World w(s, SYS_RK4, S_GE);
        Recorder rec;
        attach(rec, w);
        L.E0 = energy(w);
        L.scale = 1 + std::fabs(L.E0);
        const double h = T / n;
        for (int k = 0; k < n; ++k) {
            rec.evals.clear();
            w.sys->process(h, 1);
            L.scale = std::fmax(L.scale, kinetic(c, w));
            static const double W4[4] = {1.0 / 6, 2.0 / 6, 2.0 / 6, 1.0 / 6};
            if (w.spy->failed || !w.finite() || rec.evals.size() != 4) { L.ok = false; return L; }
            for (int q = 0; q < 4; ++q) {
                const std::vector<Pose> &P = rec.evals[q].P;
                const RefSystem R = refSystem(s, P);
                if (!tame(P, 40) || !(cholQuality(refA(R), R.m) > 3e-3)) { L.ok = false; return L; }
                for (auto &g : s.gens) if (g.kind == G_SPRING) {
                    const Pose A = posOf(s, P, g.b[0]), B = posOf(s, P, g.b[1]);
                    const Vec2 ra = rot(A.q[2], g.p[0], g.p[1]), rb = rot(B.q[2], g.p[2], g.p[3]);
                    if (std::hypot(A.q[0] + ra.x - B.q[0] - rb.x, A.q[1] + ra.y - B.q[1] - rb.y) < (g.p[4] == 0 ? 0.05 : 0.35)) { L.ok = false; return L; }
                    const double vx = (B.v[0] - B.v[2] * rb.y) - (A.v[0] - A.v[2] * ra.y);
                    const double vy = (B.v[1] + B.v[2] * rb.x) - (A.v[1] + A.v[2] * ra.x);
                    L.diss += W4[q] * h * g.p[6] * (vx * vx + vy * vy);
                }
            }
        }
        L.E1 = energy(w);
        return L;
    };
    const int base = 6;
    std::vector<double> e;
    std::vector<Ledger> Ls;
    for (int l = 0; l < 3; ++l) {
        Ls.push_back(run(base << l));
        if (!Ls.back().ok) { c.count("scenes_skipped_not_smooth"); return; }
        e.push_back(std::fabs(Ls.back().E1 - Ls.back().E0 + Ls.back().diss));
    }
    const double noise = 3e-10 * Ls[0].scale;
    char d[500]; describe(s, d, sizeof d);
    auto best = [&] { double m = 0; for (size_t i = 0; i + 1 < e.size(); ++i) if (e[i + 1] > noise) m = std::fmax(m, std::log2(e[i] / e[i + 1])); return m; };
    if (e[2] > noise && best() < 3.2) { // refine before saying so
        e.clear();
        for (int l = 2; l < 9; ++l) { const Ledger L = run(base << l); if (!L.ok) return; e.push_back(std::fabs(L.E1 - L.E0 + L.diss)); }
        c.count("ledgers_refined");
        if (e[1] > noise && best() < 3.2)
            c.fail(damped ? "dissipation" : "conservation", "%s: energy account off by %.3g %.3g %.3g %.3g %.3g under successive halving of the step (energy scale %.3g): not the integrator's accuracy", d, e[0], e[1], e[2], e[3], e[4], Ls[0].scale);
    }
    if (!(e.back() < 1e-3 * Ls[0].scale)) c.count("ledgers_coarse");
    c.count(damped ? "ledgers_damped" : "ledgers_conservative");
    countKinds(c, s);
    c.nontrivial = true;
    shapeOf(c, s); c.shape(7);
    c.sample("%s rk4: %s; energy account closes to %.2g of %.3g", damped ? "damped" : "conservative", d, e.back(), Ls[0].scale);
}
}

void run_case(Ctx &c) {
    if (c.rng.chance(0.1)) springWork(c);
    else if (c.rng.chance(0.6)) passive(c); else conservative(c);
}

// C12: internal interactions conserve momentum.
#include "recorder.h"
const char *const kCheckId = "C12";
using namespace vf;

namespace {
struct Mom { double px = 0, py = 0, L = 0, sp = 0, sL = 0; };
Mom momentum(const Spec &s, const std::vector<Pose> &P) {
    Mom m;
    for (size_t i = 0; i < P.size(); ++i) {
        const BodySpec &b = s.bodies[i];
        const Pose &p = P[i];
        m.px += b.m * p.v[0]; m.py += b.m * p.v[1];
        m.L += b.I * p.v[2] + b.m * (p.q[0] * p.v[1] - p.q[1] * p.v[0]);
        m.sp += b.m * (std::fabs(p.v[0]) + std::fabs(p.v[1]));
        m.sL += b.I * std::fabs(p.v[2]) + b.m * (std::fabs(p.q[0] * p.v[1]) + std::fabs(p.q[1] * p.v[0]));
    }
    return m;
}
bool tameIn(const std::vector<Pose> &P, const Units &u) {
    const double wide = u.len + std::fabs(u.ox) + std::fabs(u.oy);
    for (auto &p : P) for (int i = 0; i < 3; ++i)
        if (!(std::fabs(p.q[i]) < 1e6 * (i < 2 ? wide : 1) && std::fabs(p.v[i]) < 1e6 * (i < 2 ? u.vel() : 1 / u.time))) return false;
    return true;
}
// moves nothing: sums what passes between the bodies, for tolerances
double throughput(World &w, double *lever) {
    double t = 0, l = 0;
    for (size_t i = 0; i < w.cons.size(); ++i) {
        const Rep r = reported(w, i);
        const ConSpec &k = w.spec.cons[i];
        for (int a = 0; a < conRows(k.kind); ++a) for (int b = 0; b < conBodies(k.kind); ++b) if (k.b[b] >= 0) {
            const Pose p = w.pose(k.b[b]);
            t += std::fabs(r.f[a][b][0]) + std::fabs(r.f[a][b][1]);
            l += std::fabs(r.f[a][b][2]) + std::fabs(p.q[0] * r.f[a][b][1]) + std::fabs(p.q[1] * r.f[a][b][0]);
        }
    }
    *lever = l;
    return t;
}

void linear(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.minBodies = 2;
    o.maxBodies = r.chance(0.15) ? 14 : 6;
    // nothing that holds on to the world with a force (torques from the world are fine here)
    o.kinds = (1u << K_LINK) | (1u << K_ROLL) | (1u << K_CLUTCH) | (1u << K_GEAR) | (1u << K_WELD)
        | (1u << K_CROT) | (1u << K_FRICTION) | (1u << K_FIXROT);
    o.gens = (1u << G_SPRING) | (1u << G_MOTOR) | (1u << G_ATTRACT);
    const bool forced = r.chance(0.4);
    if (forced) o.gens |= (1u << G_GRAVITY) | (1u << G_UNIFORM) | (1u << G_STATIC);
    o.maxGens = 6;
    o.limits = r.chance(0.3);
    o.loops = 0.4;
    Spec s = randomScene(r, o);
    // loop closures to the world are not wanted
    for (size_t i = 0; i < s.cons.size();) if (s.cons[i].kind == K_LINE) s.cons.erase(s.cons.begin() + (long)i); else ++i;
    const int sysk = r.below(SYS_COUNT), solver = r.below(S_COUNT);
    Units u;
    if (r.chance(0.25)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    World w(s, sysk, solver, nullptr, r.chance(0.5));
    Recorder rec;
    attach(rec, w);
    Mom prev = momentum(s, w.poses());
    const int frames = r.range(1, 12);
    double fx = 0, fy = 0;
    for (auto &g : s.gens) {
        if (g.kind == G_STATIC) { fx += g.p[0]; fy += g.p[1]; }
        for (auto &b : s.bodies) {
            if (g.kind == G_GRAVITY) fy -= b.m * g.p[0];
            if (g.kind == G_UNIFORM) { fx += b.m * g.p[0]; fy += b.m * g.p[1]; }
        }
    }
    for (int f = 0; f < frames; ++f) {
        const double dt = r.logUniform(1e-4, r.chance(0.1) ? 1 : 0.05) * u.time;
        const int steps = r.chance(0.3) ? r.range(2, 4) : 1;
        std::vector<double> sc;
        const std::vector<Pose> P0 = w.poses();
        refForces(s, P0, nullptr, &sc);
        rec.evals.clear();
        w.sys->process(dt, steps);
        if (!tameIn(w.poses(), u)) { c.count("stopped_diverging"); break; }
        const Mom now = momentum(s, w.poses());
        double most = 0; // momentum passing through in between
        for (auto &e : rec.evals) most = std::fmax(most, momentum(s, e.P).sp);
        double lever, through = throughput(w, &lever), ext = 0;
        for (double v : sc) ext += v;
        refForces(s, w.poses(), nullptr, &sc);
        for (double v : sc) ext += v;
        const double tol = 1e-11 * (now.sp + prev.sp + most) + 1e-10 * dt * (through + ext) + 1e-13 * u.force() * u.time;
        if (!near(now.px - prev.px, fx * dt, tol) || !near(now.py - prev.py, fy * dt, tol)) {
            char d[600]; describe(s, d, sizeof d);
            c.fail("linear", "momentum changed by (%.9g, %.9g), impulse (%.9g, %.9g), tolerance %.3g; %s/%s frame %d [%s]",
                   now.px - prev.px, now.py - prev.py, fx * dt, fy * dt, tol, systemName(sysk), solverName(solver), f, d);
        }
        prev = now;
        c.count("frames_linear");
        c.count(sysk == SYS_NSV ? "frames_nsv" : sysk == SYS_RK4 ? "frames_rk4" : "frames_euler");
    }
    if (!s.cons.empty() || !s.gens.empty()) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(sysk); c.shape(solver);
        char d[600]; describe(s, d, sizeof d);
        c.sample("linear %s/%s: %s", systemName(sysk), solverName(solver), d);
    }
    countKinds(c, s);
}

void angular(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.minBodies = 2;
    o.maxBodies = r.chance(0.15) ? 14 : 6;
    o.kinds = (1u << K_LINK) | (1u << K_ROLL) | (1u << K_CLUTCH) | (1u << K_WELD);
    o.gens = (1u << G_SPRING) | (1u << G_MOTOR) | (1u << G_ATTRACT);
    const bool forced = r.chance(0.4);
    if (forced) o.gens |= (1u << G_GRAVITY) | (1u << G_UNIFORM) | (1u << G_STATIC);
    o.springKd = 0;
    o.limits = r.chance(0.3);
    o.maxGens = 6;
    o.perturb = 0.3;
    o.loops = 0.4;
    Spec s = randomScene(r, o);
    for (size_t i = 0; i < s.cons.size();) if (s.cons[i].kind == K_LINE) s.cons.erase(s.cons.begin() + (long)i); else ++i;
    const int solver = r.below(S_COUNT);
    Units u;
    if (r.chance(0.25)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    World w(s, SYS_NSV, solver, nullptr, r.chance(0.5));
    w.nsv->m_biasFactor = r.chance(0.5) ? 1.0 : r.uniform(0, 1);
    Recorder rec;
    attach(rec, w);
    const int frames = r.range(1, 12);
    for (int f = 0; f < frames; ++f) {
        const double dt = r.logUniform(1e-4, r.chance(0.1) ? 1 : 0.03) * u.time;
        rec.evals.clear();
        const std::vector<Pose> P0 = w.poses();
        w.sys->process(dt, 1);
        const std::vector<Pose> P1 = w.poses();
        if (!tameIn(P1, u)) { c.count("stopped_diverging"); break; }
        const Mom a = momentum(s, P0), b = momentum(s, P1);
        double lever;
        throughput(w, &lever);
        // external torque about the origin (the internal forces cancel or are corrected for the open gap)
        std::vector<double> sc;
        double ext = 0, mag = lever;
        for (int pass = 0; pass < 1; ++pass) {
            Spec e = s;
            e.gens.clear();
            for (auto &g : s.gens) if (g.kind == G_GRAVITY || g.kind == G_UNIFORM || g.kind == G_STATIC) e.gens.push_back(g);
            const std::vector<double> F = refForces(e, P0, nullptr, &sc);
            for (size_t i = 0; i < P0.size(); ++i) ext += F[3 * i + 2] + P0[i].q[0] * F[3 * i + 1] - P0[i].q[1] * F[3 * i];
        }
        refForces(s, P0, nullptr, &sc);
        for (size_t i = 0; i < P0.size(); ++i)
            mag += sc[3 * i + 2] + std::fabs(P0[i].q[0]) * sc[3 * i + 1] + std::fabs(P0[i].q[1]) * sc[3 * i];
        // a link or weld whose ends are apart transmits a couple of force times gap
        double couple = 0, gap = 0;
        for (size_t i = 0; i < w.cons.size(); ++i) {
            const ConSpec &k = s.cons[i];
            if (k.kind != K_LINK && k.kind != K_WELD) continue;
            const RefRows R = refRows(k, P0[(size_t)k.b[0]], P0[(size_t)k.b[1]]);
            const Rep p = reported(w, i);
            const double fx = p.f[0][0][0] + p.f[1][0][0], fy = p.f[0][0][1] + p.f[1][0][1]; // on the first body
            // error = point1 - point2 for a link, point2 - point1 for a weld
            const double sgn = k.kind == K_LINK ? 1 : -1;
            couple += sgn * (R.C[0] * fy - R.C[1] * fx);
            gap += std::fabs(R.C[0]) + std::fabs(R.C[1]);
        }
        const double tol = 1e-11 * (a.sL + b.sL) + 1e-10 * dt * (mag + std::fabs(couple)) + 1e-13 * u.torque() * u.time;
        if (!near(b.L - a.L, (ext + couple) * dt, tol)) {
            char d[600]; describe(s, d, sizeof d);
            c.fail("angular", "angular momentum changed by %.9g, external torque impulse %.9g (gap couple %.3g), tolerance %.3g; %s frame %d [%s]",
                   b.L - a.L, ext * dt, couple * dt, tol, solverName(solver), f, d);
        }
        c.count("frames_angular");
        if (gap < 1e-9) c.count("frames_closed_links");
    }
    if (!s.cons.empty() || !s.gens.empty()) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(solver); c.shape(99);
        char d[600]; describe(s, d, sizeof d);
        c.sample("angular nsv/%s: %s", solverName(solver), d);
    }
}

// springs, motors and clutches: equal and opposite effect on their two bodies
void pairs(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.minBodies = o.maxBodies = r.range(2, 5);
    Spec s;
    for (int i = 0; i < o.maxBodies; ++i) s.bodies.push_back(randomBody(r, o));
    const int n = o.maxBodies;
    int i = r.below(n), j = r.below(n - 1);
    if (j >= i) ++j;
    const int what = r.below(3);
    if (what < 2) {
        GenSpec g;
        g.kind = what == 0 ? G_SPRING : G_MOTOR;
        g.b[0] = i; g.b[1] = j;
        if (what == 0) {
            for (int x = 0; x < 4; ++x) g.p[x] = r.wild(2);
            g.p[4] = r.uniform(0, 3); g.p[5] = r.uniform(0, 60); g.p[6] = r.chance(0.5) ? 0 : r.uniform(0, 5);
        } else { g.p[0] = r.uniform(0, 3); g.p[1] = r.uniform(0, .05); g.p[2] = r.logUniform(.1, 100); g.p[3] = r.uniform(-8, 8); }
        s.gens.push_back(g);
    } else {
        ConSpec k;
        k.kind = K_CLUTCH; k.b[0] = i; k.b[1] = j;
        o.limits = true;
        randomLimits(r, o, k);
        s.cons.push_back(k);
    }
    const int solver = r.below(S_COUNT);
    Units u;
    if (r.chance(0.3)) { u = randomUnits(r, solver, false); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    const int sysk = r.chance(0.5) ? SYS_NSV : r.chance(0.5) ? SYS_EULER : SYS_RK4;
    World w(s, sysk, solver, nullptr, true);
    Recorder rec;
    attach(rec, w);
    const int frames = r.range(1, 4);
    for (int f = 0; f < frames; ++f) {
        const std::vector<Pose> P0 = w.poses();
        const double dt = r.logUniform(1e-3, 0.05) * u.time;
        // accelerations fed back by a motor are those of the evaluation before: later substeps and stages differ
        const int steps = r.chance(0.5) ? r.range(2, 5) : 1;
        rec.evals.clear();
        w.sys->process(dt, steps);
        const std::vector<Pose> P1 = w.poses();
        if (!tameIn(P1, u)) { c.count("stopped_diverging"); break; }
        double d[2][3], most[2][3];
        for (int k = 0; k < 2; ++k) for (int x = 0; x < 3; ++x) {
            const int q = k ? j : i;
            const BodySpec &b = s.bodies[q];
            const double mass = x == 2 ? b.I : b.m;
            d[k][x] = mass * (P1[q].v[x] - P0[q].v[x]);
            most[k][x] = mass * (std::fabs(P1[q].v[x]) + std::fabs(P0[q].v[x]));
            for (auto &e : rec.evals) most[k][x] = std::fmax(most[k][x], mass * std::fabs(e.P[q].v[x]));
        }
        auto mvs = [&](int x) { return 1e-11 * (1e-2 * (x == 2 ? u.torque() : u.force()) * u.time + most[0][x] + most[1][x]); };
        for (int x = 0; x < 2; ++x)
            if (!near(d[0][x] + d[1][x], 0, mvs(x))) c.fail("pair-force", "kind %d component %d: impulses %.9g and %.9g (%s, %d steps)", what, x, d[0][x], d[1][x], systemName(sysk), steps);
        if (what) { if (!near(d[0][2] + d[1][2], 0, mvs(2))) c.fail("pair-torque", "%s: angular impulses %.9g and %.9g (%s, %d steps)", what == 1 ? "motor" : "clutch", d[0][2], d[1][2], systemName(sysk), steps); }
        for (int q = 0; q < n; ++q) if (q != i && q != j) for (int x = 0; x < 3; ++x)
            if (!near(P1[q].v[x], P0[q].v[x], 1e-13 * std::fabs(P0[q].v[x]))) c.fail("bystander", "a body not named changed velocity");
        if (what && (d[0][0] != 0 || d[1][0] != 0)) c.fail("pair-force", "a torque device pushed");
        c.count("pair_frames");
    }
    c.count(what == 0 ? "pairs_spring" : what == 1 ? "pairs_motor" : "pairs_clutch");
    c.nontrivial = true;
    c.shape(what); c.shape(sysk); c.shape(bitsOf(s.bodies[0].m)); c.shape(n);
}
}

void run_case(Ctx &c) {
    const int k = c.rng.below(10);
    if (k < 5) linear(c); else if (k < 9) angular(c); else pairs(c);
}

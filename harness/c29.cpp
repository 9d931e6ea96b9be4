// C29: motion does not depend on the units of measurement.
#include "recorder.h"
const char *const kCheckId = "C29";
using namespace vf;

namespace {
double springLength(const Spec &s, const std::vector<Pose> &P, const GenSpec &g) {
    const Pose p = posOf(s, P, g.b[0]), q = posOf(s, P, g.b[1]);
    const Vec2 u = rot(p.q[2], g.p[0], g.p[1]), v = rot(q.q[2], g.p[2], g.p[3]);
    return std::hypot(p.q[0] + u.x - q.q[0] - v.x, p.q[1] + u.y - q.q[1] - v.y);
}
// equal digits, but for what sinks below the normal range in one of the units
bool same(double a, double b) { return a == b || (std::fabs(a) < 1e-250 && std::fabs(b) < 1e-250); }
double pow2(Rng &r, int span) { return std::ldexp(1.0, r.range(-span, span)); }
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    // exact: units that differ by powers of two scale every rounding as well, so a
    // direct solver must give the very same digits
    const bool exact = r.chance(0.5);
    SceneOpts o;
    o.maxBodies = r.chance(0.12) ? 12 : 5;
    o.loops = 0.35;
    o.gens &= ~(1u << G_ATTRACT);       // its softening length is part of the law
    o.anchors = r.chance(0.25);
    const int solver = exact ? S_GE : r.chance(0.5) ? S_GE : r.chance(0.6) ? S_GS : S_CG;
    o.limits = !exact && solver == S_GS && r.chance(0.5);
    o.neutral = o.limits;
    o.vel = 3;
    o.minQuality = 1e-3;
    if (!exact) o.neat = 0;
    const Spec s = randomScene(r, o);
    Units u;
    if (exact) { u.mass = pow2(r, r.chance(0.15) ? 140 : 40); u.time = pow2(r, r.chance(0.1) ? 40 : 14); }
    else {
        u.mass = r.logUniform(1e-5, 1e6);
        if (solver != S_CG) u.len = r.chance(0.3) ? r.logUniform(0.05, 1) : r.logUniform(1, 1e3);
        u.time = r.logUniform(3e-2, 30);
    }
    const int sysk = r.below(SYS_COUNT);
    const Spec t = inUnits(s, u);
    World a(s, sysk, solver), b(t, sysk, solver);
    if (a.nsv) a.nsv->m_biasFactor = b.nsv->m_biasFactor = r.chance(0.5) ? 1.0 : r.uniform(0, 1.5);
    Recorder ra;
    attach(ra, a);
    double qs = 1;
    const int frames = r.range(1, 6);
    long judged = 0;
    for (int f = 0; f < frames; ++f) {
        const double dt = r.chance(0.4) ? 1.0 / 60 : r.logUniform(2e-3, 0.04);
        const int steps = r.chance(0.3) ? r.range(2, 4) : 1;
        ra.evals.clear();
        a.sys->process(dt, steps);
        b.sys->process(dt * u.time, steps);
        const std::vector<Pose> A = a.poses(), B = b.poses();
        bool ok = tame(A, 1e4) && !a.spy->failed && !b.spy->failed;
        for (auto &e : ra.evals) {
            if (!ok) break;
            const RefSystem R = refSystem(s, e.P);
            ok = tame(e.P, 1e4) && cholQuality(refA(R), R.m) > (exact ? 1e-8 : 1e-3);
            if (!exact) for (auto &g : s.gens) if (g.kind == G_SPRING && ok) { // the cut-out of a spring is a length of its own
                const double l = springLength(s, e.P, g);
                if (l < 0.05 || l * u.len < 0.05) ok = false;
            }
        }
        if (a.spy->failed != b.spy->failed && exact && !a.spy->refused && !b.spy->refused) // whether a system is singular is no matter of units
            c.fail("solved-differently", "%ld solves failed in one unit, %ld in the other", a.spy->failed, b.spy->failed);
        if (!ok) { c.count("stopped_ill_conditioned"); break; }
        std::vector<double> G, Gs;
        totalReported(a, G, Gs);
        double fs = 1, vs = 1, minv = 1;
        for (double v : Gs) fs = std::fmax(fs, v);
        for (auto &p : A) for (int x = 0; x < 3; ++x) { vs = std::fmax(vs, std::fabs(p.v[x])); qs = std::fmax(qs, std::fabs(p.q[x])); }
        for (auto &bd : s.bodies) minv = std::fmin(minv, std::fmin(bd.m, bd.I));
        const double loose = solver == S_GE ? 1 : 100;
        const double tq = loose * 1e-9 * (qs + vs) * (f + 1), tv = loose * 1e-8 * (vs + qs + dt * fs / minv) * (f + 1) + 1e-12 * qs / dt;
        const double tf = loose * 1e-7 * (fs + (vs + qs) * 10) * (f + 1) / dt * 0.05 + tv / dt;
        const double unit[6] = {u.len, u.len, 1, u.vel(), u.vel(), 1 / u.time};
        char d[500];
        for (size_t i = 0; i < A.size(); ++i) for (int x = 0; x < 6; ++x) {
            const double want = x < 3 ? A[i].q[x] : A[i].v[x - 3], got = (x < 3 ? B[i].q[x] : B[i].v[x - 3]) / unit[x];
            if (exact ? !same(got, want) : !near(got, want, x < 3 ? tq : tv)) {
                describe(s, d, sizeof d);
                c.fail(exact ? "digits" : "motion", "body %d %s %d: %.17g, in other units %.17g (mass unit %g, length %g, time %g; frame %d of %g in %d); %s/%s [%s]",
                       (int)i, x < 3 ? "position" : "velocity", x % 3, want, got, u.mass, u.len, u.time, f, dt, steps, systemName(sysk), solverName(solver), d);
            }
            ++judged;
        }
        for (size_t ci = 0; ci < a.cons.size(); ++ci) {
            const Rep p = reported(a, ci), q = reported(b, ci);
            const ConSpec &k = s.cons[ci];
            for (int row = 0; row < conRows(k.kind); ++row) for (int e = 0; e < conBodies(k.kind); ++e) if (k.b[e] >= 0)
                for (int x = 0; x < 3; ++x) {
                    const double want = p.f[row][e][x], got = q.f[row][e][x] / (x == 2 ? u.torque() : u.force());
                    if (exact ? !same(got, want) : !near(got, want, tf)) {
                        describe(s, d, sizeof d);
                        c.fail(exact ? "force-digits" : "force", "constraint %d (%s) row %d body %d component %d reports %.17g, in other units %.17g (mass unit %g, length %g, time %g); %s/%s [%s]",
                               (int)ci, conName(k.kind), row, e, x, want, got, u.mass, u.len, u.time, systemName(sysk), solverName(solver), d);
                    }
                    c.count("reports_compared");
                }
        }
        c.count(exact ? "frames_exact" : "frames_general");
    }
    c.count("components_compared", judged);
    countKinds(c, s);
    if (judged) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(sysk); c.shape(solver); c.shape(bitsOf(u.mass));
        char d[600]; describe(s, d, sizeof d);
        c.sample("%s %s/%s, mass unit %.3g length %.3g time %.3g: %s", exact ? "digit for digit" : "within tolerance", systemName(sysk), solverName(solver), u.mass, u.len, u.time, d);
    }
}

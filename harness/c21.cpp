// C21: physics does not depend on where the world is placed or how it is turned.
#include "recorder.h"
const char *const kCheckId = "C21";
using namespace vf;

namespace {
struct Move { double phi = 0, tx = 0, ty = 0, vx = 0, vy = 0; };
Vec2 place(const Move &m, double x, double y) { Vec2 p = rot(m.phi, x, y); p.x += m.tx; p.y += m.ty; return p; }

Spec moved(const Spec &s, const Move &m) {
    Spec t = s;
    for (auto *list : {&t.bodies, &t.anchors}) for (auto &b : *list) {
        const Vec2 p = place(m, b.px, b.py), v = rot(m.phi, b.vx, b.vy);
        b.px = p.x; b.py = p.y; b.vx = v.x + m.vx; b.vy = v.y + m.vy; b.th += m.phi;
    }
    for (auto &b : t.anchors) b.vx = b.vy = 0;
    for (auto &k : t.cons) {
        if (k.kind == K_FIXPOS || k.kind == K_LINE) {
            const Vec2 p = place(m, k.p[2], k.p[3]);
            k.p[2] = p.x; k.p[3] = p.y;
        }
        if (k.kind == K_LINE) { const Vec2 d = rot(m.phi, k.p[4], k.p[5]); k.p[4] = d.x; k.p[5] = d.y; }
        if (k.kind == K_FIXROT) k.p[0] += m.phi;
    }
    for (auto &g : t.gens) if (g.kind == G_UNIFORM || g.kind == G_STATIC) {
        const Vec2 f = rot(m.phi, g.p[0], g.p[1]);
        g.p[0] = f.x; g.p[1] = f.y;
    }
    return t;
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int mode = r.below(3); // 0 translate+rotate, 1 translate only (gravity allowed), 2 boost
    SceneOpts o;
    o.maxBodies = r.chance(0.1) ? 10 : 5;
    o.loops = 0.3;
    o.neat = 0; // their large errors make motions too sensitive to compare
    o.kinds = ((1u << K_COUNT) - 1) & ~(1u << K_LIN);
    if (mode == 0) o.gens &= ~(1u << G_GRAVITY);
    if (mode == 2) {
        o.kinds &= ~((1u << K_FIXPOS) | (1u << K_LINE));
        o.minBodies = 2;
    } else o.anchors = r.chance(0.25);
    o.limits = r.chance(0.3);
    o.neutral = true;
    o.vel = 3;
    o.minQuality = 1e-3;
    Spec s = randomScene(r, o);
    if (mode == 2) for (size_t i = 0; i < s.cons.size();) if (s.cons[i].kind == K_LINE) s.cons.erase(s.cons.begin() + (long)i); else ++i;
    for (auto &k : s.cons) if (k.kind == K_LINK) k.hi = 1.7976931348623157e308; // per-axis limits know the axes
    Move m;
    if (mode != 2) {
        const double far = r.chance(0.3) ? r.logUniform(100, r.chance(0.3) ? 3e6 : 2e4) : 10;
        m.tx = r.chance(0.5) ? r.uniform(-far, far) : r.wild(10); m.ty = r.chance(0.5) ? r.uniform(-far, far) : r.wild(10);
    }
    if (mode == 0) { m.phi = r.chance(0.2) ? 1.5707963267948966 * r.range(-2, 3) : r.uniform(-7, 7); if (r.chance(0.3)) m.tx = m.ty = 0; }
    if (mode == 2) { const double fast = r.chance(0.2) ? 500 : 20; m.vx = r.wild(fast); m.vy = r.wild(fast); }
    const int sysk = r.below(SYS_COUNT);
    const int solver = r.chance(0.6) ? S_GE : r.chance(0.5) ? S_GS : S_CG;
    World a(s, sysk, solver), b(moved(s, m), sysk, solver);
    if (a.nsv) a.nsv->m_biasFactor = b.nsv->m_biasFactor = r.chance(0.5) ? 1.0 : r.uniform(0, 1);
    Recorder ra;
    attach(ra, a);
    double t = 0;
    const int frames = r.range(1, 5);
    long judged = 0;
    for (int f = 0; f < frames; ++f) {
        const double dt = r.chance(0.4) ? 1.0 / 60 : r.logUniform(2e-3, 0.04);
        const int steps = r.chance(0.3) ? r.range(2, 3) : 1;
        ra.evals.clear();
        a.sys->process(dt, steps);
        b.sys->process(dt, steps);
        t += dt;
        const std::vector<Pose> A = a.poses(), B = b.poses();
        bool ok = tame(A, 1e4) && !a.spy->failed && !b.spy->failed;
        for (auto &e : ra.evals) {
            if (!ok) break;
            const RefSystem R = refSystem(s, e.P);
            ok = tame(e.P, 1e4) && cholQuality(refA(R), R.m) > 1e-3;
            for (auto &g : s.gens) if (g.kind == G_SPRING && ok) { // the cut-out of a spring is discontinuous
                const Pose p = posOf(s, e.P, g.b[0]), q = posOf(s, e.P, g.b[1]);
                const Vec2 u = rot(p.q[2], g.p[0], g.p[1]), v = rot(q.q[2], g.p[2], g.p[3]);
                if (std::hypot(p.q[0] + u.x - q.q[0] - v.x, p.q[1] + u.y - q.q[1] - v.y) < 0.05) ok = false;
            }
        }
        if (!ok) { c.count("stopped_ill_conditioned"); break; }
        // forces of everything on the table set the scale
        std::vector<double> G, Gs, H, Hs;
        totalReported(a, G, Gs);
        totalReported(b, H, Hs);
        double fs = 1, vs = 1, qs = 1 + std::fabs(m.tx) + std::fabs(m.ty) + t * (std::fabs(m.vx) + std::fabs(m.vy));
        for (double v : Gs) fs = std::fmax(fs, v);
        for (auto &p : A) for (int x = 0; x < 3; ++x) { vs = std::fmax(vs, std::fabs(p.v[x])); qs = std::fmax(qs, std::fabs(p.q[x])); }
        vs += std::fabs(m.vx) + std::fabs(m.vy);
        double minv = 1;
        for (auto &bd : s.bodies) minv = std::fmin(minv, std::fmin(bd.m, bd.I));
        const double loose = solver == S_GE ? 1 : 30;
        const double tq = loose * 1e-9 * (qs + vs) * (f + 1), tv = loose * 1e-8 * (vs + qs + dt * fs / minv) * (f + 1) + 1e-12 * qs / dt;
        const double tf = loose * 1e-7 * (fs + (vs + qs) * 10) * (f + 1) / dt * 0.05 + tv / dt;
        char d[500];
        for (size_t i = 0; i < A.size(); ++i) {
            const Vec2 q = place(m, A[i].q[0], A[i].q[1]), v = rot(m.phi, A[i].v[0], A[i].v[1]);
            const double want[6] = {q.x + m.vx * t, q.y + m.vy * t, A[i].q[2] + m.phi, v.x + m.vx, v.y + m.vy, A[i].v[2]};
            const double got[6] = {B[i].q[0], B[i].q[1], B[i].q[2], B[i].v[0], B[i].v[1], B[i].v[2]};
            for (int x = 0; x < 6; ++x) if (!near(got[x], want[x], x < 3 ? tq : tv)) {
                describe(s, d, sizeof d);
                c.fail(mode == 2 ? "boost" : "place", "body %d %s %d: %.12g in the moved world, %.12g expected (tolerance %.3g), frame %d, turned %.4g moved (%.4g, %.4g) boosted (%.4g, %.4g); %s/%s [%s]",
                       (int)i, x < 3 ? "position" : "velocity", x % 3, got[x], want[x], x < 3 ? tq : tv, f, m.phi, m.tx, m.ty, m.vx, m.vy, systemName(sysk), solverName(solver), d);
            }
            ++judged;
        }
        for (size_t ci = 0; ci < a.cons.size(); ++ci) {
            const Rep p = reported(a, ci), q = reported(b, ci);
            const ConSpec &k = s.cons[ci];
            for (int e = 0; e < conBodies(k.kind); ++e) {
                if (k.b[e] < 0) continue;
                double P[3] = {0, 0, 0}, Q[3] = {0, 0, 0};
                for (int row = 0; row < conRows(k.kind); ++row) for (int x = 0; x < 3; ++x) { P[x] += p.f[row][e][x]; Q[x] += q.f[row][e][x]; }
                const Vec2 w = rot(m.phi, P[0], P[1]);
                if (!near(Q[0], w.x, tf) || !near(Q[1], w.y, tf) || !near(Q[2], P[2], tf)) {
                    describe(s, d, sizeof d);
                    c.fail("force", "constraint %d (%s) on its body %d reports (%.10g, %.10g, %.10g), expected (%.10g, %.10g, %.10g) (tolerance %.3g), turned %.4g; %s/%s [%s]",
                           (int)ci, conName(k.kind), e, Q[0], Q[1], Q[2], w.x, w.y, P[2], tf, m.phi, systemName(sysk), solverName(solver), d);
                }
                c.count("reports_compared");
            }
        }
        c.count(mode == 0 ? "frames_turned" : mode == 1 ? "frames_shifted" : "frames_boosted");
        c.max("max_frames_compared", f + 1);
    }
    c.count("bodies_compared", judged);
    countKinds(c, s);
    if (judged) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(sysk); c.shape(mode);
        char d[600]; describe(s, d, sizeof d);
        c.sample("%s %s/%s: %s", mode == 0 ? "turned" : mode == 1 ? "shifted" : "boosted", systemName(sysk), solverName(solver), d);
    }
}

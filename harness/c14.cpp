// C14: force limits are respected and bind only when needed.
#include "laws.h"
#include "sle.h"
const char *const kCheckId = "C14";
using namespace vf;

namespace {
// the solver alone: box-constrained optimality of every accepted solution
void solverCase(Ctx &c) {
    Rng &r = c.rng;
    GaussSeidelSleSolver gs;
    const bool complete = r.chance(0.4);
    const int rounds = r.range(1, 3);
    for (int q = 0; q < rounds; ++q) {
        Sys s = randomSys(r, 0, c.thorough, complete);
        gs.m_minDelta = complete ? 0.1 : r.logUniform(1e-12, 0.1);
        gs.m_maxIterations = complete ? 128 : r.chance(0.3) ? r.below(6) : 20000;
        if (!complete && gs.m_maxIterations > 6 && r.chance(0.7)) gs.m_minDelta = 1e-10;
        Sp<> J; Mat W, rhs, lim(2, s.m), prev, res;
        s.load(J, W, rhs);
        for (int i = 0; i < s.m; ++i) {
            double lo = -1e300, hi = 1e300;
            const double free = s.A[(size_t)i * s.m + i] > 0 ? std::fabs(s.b[i] / s.A[(size_t)i * s.m + i]) + 1e-3 : 1;
            switch (r.below(10)) {
                case 8: lo = hi = r.uniform(-2, 2) * free; break;
                case 9: if (r.chance(0.5)) { lo = 0; hi = 1.7976931348623157e308; } else { lo = -1.7976931348623157e308; hi = 0; } break;
                case 0: lo = -1.7976931348623157e308; hi = 1.7976931348623157e308; break;
                case 1: lo = 0; break;
                case 2: hi = 0; break;
                case 3: lo = hi = 0; break;
                case 4: lo = r.uniform(0.1, 2) * free; hi = lo + r.uniform(0, 3) * free; break; // excludes zero
                case 5: lo = -r.uniform(0, 2) * free; hi = r.uniform(0, 2) * free; break;
                default: { const double t = r.logUniform(0.01, 10) * free; lo = -t; hi = t; } break;
            }
            lim.set(0, i, lo); lim.set(1, i, hi);
        }
        Mat *pp = nullptr;
        const int gm = r.below(4);
        if (gm == 1) { prev.initialize(1, s.m + 1, 4.0); pp = &prev; }
        else if (gm >= 2) { prev.initialize(1, s.m); for (int i = 0; i < s.m; ++i) prev.set(0, i, r.uniform(-20, 20)); pp = &prev; }
        const Frozen before = Frozen::of(J, W, rhs, &lim, &prev);
        const bool ok = gs.solveWithLimits(J, W, rhs, lim, &res, pp);
        if (!(Frozen::of(J, W, rhs, &lim, &prev) == before)) c.fail("inputs-changed", "solveWithLimits changed an input");
        if (!ok) {
            c.count("failures_reported");
            if (complete && s.dominant(0.5)) c.fail("not-solved", "limited solve failed on a diagonally dominant system with %d rows", s.m);
            continue;
        }
        if (res.getHeight() != s.m) c.fail("result-shape", "%d rows for %d", res.getHeight(), s.m);
        std::vector<double> x(s.m), g, sc;
        for (int i = 0; i < s.m; ++i) x[i] = res.get(0, i);
        s.residual(x, g, sc);
        for (int i = 0; i < s.m; ++i) {
            const double lo = lim.get(0, i), hi = lim.get(1, i);
            if (!(x[i] >= lo && x[i] <= hi)) c.fail("outside-limits", "multiplier %d = %.17g outside [%.17g, %.17g]", i, x[i], lo, hi);
            double off = 0;
            for (int j = 0; j < s.m; ++j) if (j != i) off += std::fabs(s.A[(size_t)i * s.m + j]) * std::fmax(1e-3, std::fabs(x[j]));
            const double tol = 2.3 * gs.m_minDelta * off + 1e-11 * sc[i];
            const bool atLo = x[i] <= lo, atHi = x[i] >= hi;
            // g = A x - b; at the lower limit it may only be positive, at the upper only negative
            if (!atLo && !(g[i] <= tol)) c.fail("kkt", "row %d of %d: error %.6g although the multiplier %.6g could go lower (limits %.6g %.6g, tol %.3g)", i, s.m, g[i], x[i], lo, hi, tol);
            if (!atHi && !(g[i] >= -tol)) c.fail("kkt", "row %d of %d: error %.6g although the multiplier %.6g could go higher (limits %.6g %.6g, tol %.3g)", i, s.m, g[i], x[i], lo, hi, tol);
            if (atLo && atHi) c.count("rows_pinned"); else if (atLo || atHi) c.count("rows_at_limit"); else c.count("rows_free");
        }
        c.count("solves_judged");
        if (s.m) c.nontrivial = true;
        c.shape(s.m * 1000 + s.blocks); for (auto &w : s.rows) c.shape((uint64_t)(w.b[0] + 2) * 1000 + (w.b[1] + 2));
        c.sample("limited solve: %d rows, %d blocks, minDelta %.3g", s.m, s.blocks, gs.m_minDelta);
    }
}

// in a simulation: every limited constraint's report stays within its limits
void worldCase(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.limits = true; o.neutral = true; o.userRows = true; o.maxBodies = 6; o.loops = 0.3; o.anchors = r.chance(0.3);
    if (r.chance(0.5)) o.kinds = (1u << K_CROT) | (1u << K_CLUTCH) | (1u << K_FRICTION) | (1u << K_GEAR) | (1u << K_LINK) | (1u << K_LIN) | (1u << K_FIXPOS);
    Spec s0 = randomScene(r, o);
    Units u;
    if (r.chance(0.2)) { u = randomUnits(r, S_GS); s0 = inUnits(s0, u); c.count("worlds_in_other_units"); }
    World w(s0, SYS_NSV, S_GS, nullptr, true);
    w.spy->record = true;
    std::vector<int> kinds;
    const int frames = r.range(1, 5);
    long judged = 0;
    for (int f = 0; f < frames; ++f) {
        if (f && r.chance(0.4)) { // settings may change between steps
            for (size_t i = 0; i < w.cons.size(); ++i) {
                ConSpec &k = w.spec.cons[i];
                if (r.chance(0.5)) continue;
                const double t = r.logUniform(0.01, 60) * (k.kind == K_LINK ? u.force() : u.torque());
                const double never = 1.7976931348623157e308;
                if (k.kind == K_CROT || k.kind == K_FRICTION || k.kind == K_CLUTCH) {
                    switch (r.below(7)) {
                        case 0: k.lo = -t; k.hi = 0; break;
                        case 1: k.lo = k.hi = r.chance(0.5) ? t : -t; break;
                        case 2: k.lo = r.chance(0.5) ? 0 : -never; k.hi = k.lo == 0 ? never : 0; break;
                        case 3: k.lo = -never; k.hi = never; break;
                        case 4: k.lo = -t; k.hi = 2 * t; break;
                        case 5: k.lo = k.hi = 0; break;
                        default: k.lo = -t; k.hi = t; break;
                    }
                }
                switch (k.kind) {
                    case K_CROT: { auto *q = static_cast<ConstantRotationConstraint *>(w.cons[i]); q->m_minTorque = k.lo; q->m_maxTorque = k.hi; } break;
                    case K_FRICTION: { auto *q = static_cast<RotationFrictionConstraint *>(w.cons[i]); q->m_minTorque = k.lo; q->m_maxTorque = k.hi; } break;
                    case K_CLUTCH: { auto *q = static_cast<ClutchConstraint *>(w.cons[i]); q->m_minTorque = k.lo; q->m_maxTorque = k.hi; } break;
                    case K_GEAR: k.neutral = !k.neutral; static_cast<SimpleGearConstraint *>(w.cons[i])->m_neutral = k.neutral; break;
                    case K_LINK: k.hi = t; static_cast<LinkConstraint *>(w.cons[i])->m_maxForce = t; break;
                    default: break;
                }
                c.count("limit_changes");
            }
        }
        const double dt = (r.chance(0.4) ? 1.0 / 60 : r.logUniform(1e-4, 0.1)) * u.time;
        const int steps = r.chance(0.002) ? r.range(30, 300) : r.chance(0.4) ? r.range(2, 12) : 1;
        if (steps > 12) c.count("finely_substepped_frames");
        const std::vector<Pose> pre = w.poses();
        const RefSystem R = refSystem(w.spec, pre);
        if (!(cholQuality(refA(R), R.m) >= 1e-4)) break;
        const long failed = w.spy->failed;
        w.sys->process(dt, steps);
        if (w.spy->failed != failed) { c.count("solver_gave_up"); break; }
        const double sub = dt / steps;
        for (size_t i = 0; i < w.cons.size(); ++i) {
            const ConSpec &k = w.spec.cons[i];
            const Rep p = reported(w, i);
            auto inside = [&](double l, double lo, double hi, const char *what) {
                const double tol = 1e-12 * (std::fabs(l) + (std::fabs(lo) < 1e300 ? std::fabs(lo) : 0) + (std::fabs(hi) < 1e300 ? std::fabs(hi) : 0));
                if (!(l >= lo - tol && l <= hi + tol)) {
                    char d[600]; describe(w.spec, d, sizeof d);
                    c.fail("reported-outside", "%s %d reports %.12g outside [%.12g, %.12g], dt=%g steps=%d [%s]", what, (int)i, l, lo, hi, dt, steps, d);
                }
                ++judged;
                if (std::fabs(lo) < 1e300 || std::fabs(hi) < 1e300) {
                    c.count("limited_reports");
                    if (l >= hi * (1 - 1e-9) - 1e-300 || l <= lo * (1 - 1e-9) + 1e-300) c.count("reports_at_limit");
                }
            };
            switch (k.kind) {
                case K_CROT: case K_FRICTION: inside(p.f[0][0][2], k.lo, k.hi, conName(k.kind)); break;
                case K_CLUTCH:
                    if (k.b[1] >= 0) inside(p.f[0][1][2], k.lo, k.hi, "clutch");
                    if (k.b[0] >= 0) inside(-p.f[0][0][2], k.lo, k.hi, "clutch");
                    break;
                case K_GEAR: if (k.neutral) for (int b = 0; b < 2; ++b) if (k.b[b] >= 0) {
                        for (int x = 0; x < 3; ++x) if (p.f[0][b][x] != 0) c.fail("neutral-gear", "a gear in neutral reports %.6g", p.f[0][b][x]);
                        ++judged; c.count("neutral_gear_reports");
                    } break;
                case K_LINK: inside(p.f[0][0][0], -k.hi, k.hi, "link x"); inside(p.f[1][0][1], -k.hi, k.hi, "link y"); break;
                case K_LIN: {
                    if (k.b[1] >= 0) { const double l = p.f[0][1][0] / k.p[3]; inside(l, k.lo, k.hi, "user row"); }
                    break;
                }
                case K_WELD:
                    if (k.b[1] >= 0 && k.p[7] != 0) for (int q = 0; q < 3; ++q) {
                        const double f = q == 2 ? k.p[7] : q + 1, never = 1.7976931348623157e308;
                        inside(p.f[q][1][q], std::fabs(k.lo) < 1e300 ? k.lo * f : -never, std::fabs(k.hi) < 1e300 ? k.hi * f : never, "user rows");
                    }
                    break;
                default: break;
            }
        }
        // the multipliers of the last substep: limits handed on must be limit times substep length
        if (steps == 1 && spyUsable(w, R)) {
            const std::vector<Pose> post = w.poses();
            const std::vector<double> A = refA(R);
            const double ext = extent(w.spec, pre);
            for (int i = 0; i < R.m; ++i) {
                const double x = w.spy->x[i];
                double g = R.vb[i] + w.nsv->m_biasFactor / dt * R.C[i], sc = std::fabs(g) + 1e-6;
                for (int k = 0; k < R.n; ++k) {
                    const double j = R.J[(size_t)i * R.n + k];
                    g += j * post[k / 3].v[k % 3];
                    sc += std::fabs(j) * (std::fabs(post[k / 3].v[k % 3]) + std::fabs(pre[k / 3].v[k % 3]));
                }
                for (int k = 0; k < R.m; ++k) sc += std::fabs(A[(size_t)i * R.m + k] * w.spy->x[k]);
                const double tol = 1e-9 * sc + solverSlack(w, R, A, i) + 1e-9 + (1e-12 + 1e-13 * ext * 2) * w.nsv->m_biasFactor / dt;
                const double lo = R.lo[i] * sub, hi = R.hi[i] * sub;
                const double el = 1e-9 * std::fabs(lo), eh = 1e-9 * std::fabs(hi);
                const bool atLo = lo > -1e290 && x <= lo + el, atHi = hi < 1e290 && x >= hi - eh;
                if ((lo > -1e290 && x < lo - el) || (hi < 1e290 && x > hi + eh)) c.fail("outside-limits", "row %d: impulse %.9g outside [%.9g, %.9g]", i, x, lo, hi);
                if (!atLo && !(g <= tol)) c.fail("sim-kkt", "row %d: velocity error %.6g although its impulse %.6g could go lower (limits %.6g %.6g tol %.3g dt %g)", i, g, x, lo, hi, tol, dt);
                if (!atHi && !(g >= -tol)) c.fail("sim-kkt", "row %d: velocity error %.6g although its impulse %.6g could go higher (limits %.6g %.6g tol %.3g dt %g)", i, g, x, lo, hi, tol, dt);
                c.count(atLo || atHi ? "sim_rows_at_limit" : "sim_rows_free");
            }
        }
        c.count("frames_judged");
    }
    if (judged) {
        c.nontrivial = true;
        shapeOf(c, s0);
        char d[700]; describe(s0, d, sizeof d);
        c.sample("nsv/gs: %s; %ld reports judged", d, judged);
    }
}
}

void run_case(Ctx &c) {
    if (c.rng.chance(0.5)) solverCase(c); else worldCase(c);
}

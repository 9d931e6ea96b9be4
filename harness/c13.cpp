// C13: a linear solve that reports success has solved the system.
#include "sle.h"
const char *const kCheckId = "C13";
using namespace vf;

namespace {
struct Tune { int iters; double e0, e1; };

void tune(Rng &r, int kind, SleSolver *s, Tune &t, bool forComplete) {
    t = Tune{0, 0, 0};
    if (kind == S_CG) {
        auto *k = static_cast<ConjugateGradientSleSolver *>(s);
        if (!forComplete && r.chance(0.7)) {
            k->setMaxIterations(r.chance(0.4) ? r.below(5) : r.range(1, 2000));
            k->setMaxError(r.chance(0.2) ? 0.0 : r.logUniform(1e-12, 0.5));
            k->setMinError(r.chance(0.1) ? 0.0 : r.logUniform(1e-10, 0.1));
        }
        t = Tune{k->getMaxIterations(), k->getMaxError(), k->getMinError()};
    } else if (kind == S_GS) {
        auto *k = static_cast<GaussSeidelSleSolver *>(s);
        if (!forComplete && r.chance(0.7)) {
            k->m_maxIterations = r.chance(0.4) ? r.below(5) : r.range(1, 3000);
            k->m_minDelta = r.logUniform(1e-12, 0.3);
        }
        t = Tune{k->m_maxIterations, k->m_minDelta, 0};
    }
}
void apply(int kind, SleSolver *s, const Tune &t) {
    if (kind == S_CG) {
        auto *k = static_cast<ConjugateGradientSleSolver *>(s);
        k->setMaxIterations(t.iters); k->setMaxError(t.e0); k->setMinError(t.e1);
        } else if (kind == S_GS) {
        auto *k = static_cast<GaussSeidelSleSolver *>(s);
        k->m_maxIterations = t.iters; k->m_minDelta = t.e0;
    }
}
void put(Mat &m, int w, int h, const std::vector<double> &v) {
    m.initialize(w, h);
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) m.set(j, i, v[(size_t)i * w + j]);
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int kind = r.below(3);
    std::unique_ptr<SleSolver> solver = makeSolver(kind, false);
    const int rounds = r.range(1, 4);
    for (int q = 0; q < rounds; ++q) {
        const bool complete = r.chance(0.35);
        int weights = 0;
        if (!complete) weights = kind == S_GE ? (r.chance(0.35) ? 2 : 0) : r.chance(0.25) ? 1 : 0;
        Sys s = randomSys(r, weights, c.thorough, complete && kind == S_GS);
        double quality = 1;
        if (kind == S_GE && r.chance(0.15)) { // other units of mass and force
            const double wf = std::pow(10.0, r.uniform(-16, 16)), bf = std::pow(10.0, r.uniform(-12, 12));
            for (double &v : s.W) v *= wf;
            for (double &v : s.b) v *= bf;
            s.finish();
            c.count("systems_in_other_units");
        }
        if (kind == S_GE) { // singular systems are outside this solver's domain
            quality = s.pivotQuality();
            if (!(quality > 1e-7)) { c.count("skipped_singular_for_ge"); continue; }
        }
        const bool dominant = s.dominant(0.5);
        const double chol = cholQuality(s.A, s.m);
        Tune t;
        { // default tuning on a new solver object defines the documented defaults
            std::unique_ptr<SleSolver> d = makeSolver(kind, false);
            tune(r, kind, d.get(), t, complete);
        }
        apply(kind, solver.get(), t);
        const bool limited = kind == S_GS && weights == 0 && r.chance(0.3); // with limits that never bind

        Sp<> J; Mat W, rhs, lim, prev, res;
        s.load(J, W, rhs);
        if (limited) { lim.initialize(2, s.m); for (int i = 0; i < s.m; ++i) { const double L = r.chance(0.5) ? 1e300 : 1.7976931348623157e308; lim.set(0, i, -L); lim.set(1, i, L); } }
        // starting guess
        const int gm = r.below(7); // 0 null, 1 wrong height, 2..4 random column, 5 aliased with result, 6 near solution
        std::vector<double> guess(s.m);
        const double gs = r.logUniform(1e-3, complete ? 100 : 1e6);
        for (double &g : guess) g = r.chance(0.1) ? 0 : r.uniform(-gs, gs);
        std::vector<double> exact;
        if (gm == 6 && chol > 1e-9) {
            cholQuality(s.A, s.m, &s.b, &exact);
            for (int i = 0; i < s.m; ++i) guess[i] = exact[i] * (1 + (r.chance(0.5) ? 0 : r.uniform(-1e-3, 1e-3)));
        }
        bool poisoned = false;
        if (!complete && gm >= 2 && s.m && r.chance(0.06)) {
            guess[r.below(s.m)] = r.chance(0.5) ? NAN : INFINITY; poisoned = true; c.count("non_finite_guesses");
        }
        Mat *pp = nullptr;
        if (gm == 1) { const int h = s.m + (r.chance(0.5) && s.m ? -1 : r.range(1, 3)); std::vector<double> g(h); for (auto &x : g) x = r.uniform(-gs, gs); put(prev, 1, h, g); pp = &prev; }
        else if (gm == 5) { put(res, 1, s.m, guess); pp = &res; }
        else if (gm != 0) { put(prev, 1, s.m, guess); pp = &prev; }
        if (gm != 5) {
            const int rm = r.below(4);
            if (rm == 1) { std::vector<double> g(s.m); for (auto &x : g) x = r.uniform(-1, 1); put(res, 1, s.m, g); }
            else if (rm == 2) { const int h = s.m + r.range(1, 4); res.initialize(1, h, 3.25); }
            else if (rm == 3 && s.m > 1) res.initialize(1, s.m - 1, -7.5);
        }
        Mat res2, prev2; // the same call for a new solver object
        res2.set(&res); prev2.set(&prev);
        const Frozen before = Frozen::of(J, W, rhs, limited ? &lim : nullptr, gm == 5 ? nullptr : &prev);
        const bool ok = limited ? solver->solveWithLimits(J, W, rhs, lim, &res, pp)
                                : solver->solve(J, W, rhs, pp, &res);
        if (!(Frozen::of(J, W, rhs, limited ? &lim : nullptr, gm == 5 ? nullptr : &prev) == before))
            c.fail("inputs-changed", "%s changed an input (%d rows)", solverName(kind), s.m);
        {
            std::unique_ptr<SleSolver> f = makeSolver(kind, false);
            apply(kind, f.get(), t);
            Mat *p2 = pp == nullptr ? nullptr : gm == 5 ? &res2 : &prev2;
            const bool ok2 = limited ? f->solveWithLimits(J, W, rhs, lim, &res2, p2) : f->solve(J, W, rhs, p2, &res2);
            bool eq = ok == ok2;
            if (ok && ok2) {
                eq = eq && res.getHeight() == res2.getHeight();
                for (int i = 0; eq && i < res.getHeight(); ++i) eq = bitsOf(res.get(0, i)) == bitsOf(res2.get(0, i));
            }
            if (!eq) c.fail("reuse", "%s used before (round %d) differs from a new solver object on the same input (%d rows)", solverName(kind), q, s.m);
            c.count("reuse_compared");
        }
        if (r.chance(0.1)) { // no solver claims to have respected limits it does not support
            Mat l2, r2;
            l2.initialize(2, s.m);
            for (int i = 0; i < s.m; ++i) { l2.set(0, i, -1); l2.set(1, i, 1); }
            SleSolver none(r.chance(0.5));
            if (!solver->supportsLimits() && solver->solveWithLimits(J, W, rhs, l2, &r2, nullptr)) c.fail("limits-claimed", "%s reports success from a solve with limits", solverName(kind));
            if (none.solveWithLimits(J, W, rhs, l2, &r2, nullptr) || none.solve(J, W, rhs, &r2, nullptr)) c.fail("base-claims", "the solver base class reports success without solving anything");
            c.count("unsupported_solves");
        }
        c.count(kind == S_GE ? "solves_ge" : kind == S_CG ? "solves_cg" : "solves_gs");
        if (!ok) {
            c.count("failures_reported");
            const bool mustSolve = (kind == S_GE && chol > 1e-6)
                || (kind == S_CG && complete && chol > 1e-3 && !poisoned)
                || (kind == S_GS && complete && dominant && !poisoned);
            if (mustSolve) c.fail("not-solved", "%s failed on a well-conditioned positive definite system with %d rows (quality %g)", solverName(kind), s.m, chol);
            continue;
        }
        if (complete) c.count("completeness_cases");
        if (res.getHeight() != s.m || (s.m && res.getWidth() != 1)) c.fail("result-shape", "%s: result is %dx%d for %d rows", solverName(kind), res.getWidth(), res.getHeight(), s.m);
        std::vector<double> x(s.m), rr, sc;
        double xm = 0;
        for (int i = 0; i < s.m; ++i) {
            x[i] = res.get(0, i);
            if (!std::isfinite(x[i])) c.fail("not-finite", "%s reports success with x[%d]=%g", solverName(kind), i, x[i]);
            xm = std::fmax(xm, std::fabs(x[i]));
        }
        s.residual(x, rr, sc);
        double worst = 0, gmax = 0;
        for (int i = 0; i < s.m; ++i) worst = std::fmax(worst, sc[i]);
        for (int i = 0; i < s.m; ++i) if (std::isfinite(guess[i])) {
            double g = 0;
            for (int j = 0; j < s.m; ++j) if (std::isfinite(guess[j])) g += s.absA[(size_t)i * s.m + j] * std::fabs(guess[j]);
            gmax = std::fmax(gmax, g);
        }
        for (int i = 0; i < s.m; ++i) {
            double tol;
            if (kind == S_GE) tol = 1e-10 * worst / std::fmin(1, 1e3 * quality);
            else if (kind == S_CG) tol = std::fmax(t.e0 * std::fabs(s.b[i]), t.e1) * (1 + 1e-9) + 1e-10 * (worst + (gm >= 2 ? gmax : 0));
            else {
                double off = 0;
                for (int j = 0; j < s.m; ++j) if (j != i) off += std::fabs(s.A[(size_t)i * s.m + j]) * std::fmax(1e-3, std::fabs(x[j]));
                tol = 2 * t.e0 * off + 1e-12 * sc[i];
            }
            if (!near(rr[i], 0, tol))
                c.fail("unsolved", "%s reports success but row %d of %d is off by %.6g (tolerance %.3g, quality %g, guess mode %d)",
                       solverName(kind), i, s.m, rr[i], tol, kind == S_GE ? quality : chol, gm);
        }
        c.count("successes_judged");
        c.count("rows_judged", s.m);
        c.max("max_rows", s.m); c.max("max_blocks_wide", s.blocks);
        if (s.m == 0) c.count("zero_row_systems");
        if (weights == 2) c.count("indefinite_systems_ge");
        if (s.m) c.nontrivial = true;
        c.shape((uint64_t)s.m * 1000 + s.blocks); c.shape(kind * 16 + gm);
        for (auto &w : s.rows) c.shape((uint64_t)(w.b[0] + 2) * 1000 + (w.b[1] + 2));
        c.sample("%s: %d rows, %d blocks, guess mode %d, round %d, |x|max %.3g", solverName(kind), s.m, s.blocks, gm, q, xm);
    }
}

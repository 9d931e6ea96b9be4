// C18: k substeps of a frame are exactly k frames of a k-th of its length.
#include "recorder.h"
const char *const kCheckId = "C18";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.userRows = true;
    o.maxBodies = r.chance(0.1) ? 12 : 5;
    o.loops = 0.35;
    o.anchors = r.chance(0.25);
    o.limits = r.chance(0.4);
    o.neutral = true;
    o.gens &= ~(1u << G_MOTOR);
    Spec s = randomScene(r, o);
    const int sysk = r.below(SYS_COUNT), solver = r.below(S_COUNT);
    Units u;
    if (r.chance(0.2)) { u = randomUnits(r, solver); s = inUnits(s, u); c.count("worlds_in_other_units"); }
    const bool tight = r.chance(0.6);
    World a(s, sysk, solver, nullptr, tight), b(s, sysk, solver, nullptr, tight);
    const double beta = r.chance(0.4) ? 1.0 : r.uniform(0, 1);
    if (a.nsv) a.nsv->m_biasFactor = b.nsv->m_biasFactor = beta;
    double elapsed = s.idleFrames * s.idleDt;
    if (a.nsv && !s.idleFrames && a.nsv->timeElapsed() != 0) c.fail("elapsed", "a new system reports %.17g elapsed", a.nsv->timeElapsed());
    const int frames = r.range(1, 5);
    bool many = false;
    for (int f = 0; f < frames; ++f) {
        const double dt = (r.chance(0.3) ? 1.0 / 60 : r.chance(0.1) ? r.logUniform(1e-7, 5) : r.logUniform(1e-4, 0.1)) * u.time;
        const int k = r.chance(0.2) ? 1 : r.chance(0.15) ? r.range(10, r.chance(0.1) ? 300 : 40) : r.range(2, 8);
        a.sys->process(dt, k);
        const double h = dt / k;
        for (int i = 0; i < k; ++i) b.sys->process(h, 1);
        elapsed += dt;
        if (a.nsv) {
            if (!near(a.nsv->timeElapsed(), elapsed, 1e-11 * elapsed)) c.fail("elapsed", "%.17g elapsed after frames of %.17g in total", a.nsv->timeElapsed(), elapsed);
            if (!near(b.nsv->timeElapsed(), elapsed, 1e-10 * elapsed)) c.fail("elapsed", "%.17g elapsed after frames of %.17g in total (single steps)", b.nsv->timeElapsed(), elapsed);
            c.count("elapsed_judged");
        }
        if (!a.finite() || !b.finite()) { c.count("stopped_diverging"); break; }
        if (a.spy->calls != b.spy->calls) c.fail("substep-count", "%ld solves against %ld", a.spy->calls, b.spy->calls);
        if (a.hash() != b.hash()) {
            char d[600]; describe(s, d, sizeof d);
            double worst = 0;
            const std::vector<Pose> A = a.poses(), B = b.poses();
            for (size_t i = 0; i < A.size(); ++i) for (int x = 0; x < 3; ++x)
                worst = std::fmax(worst, std::fmax(std::fabs(A[i].q[x] - B[i].q[x]), std::fabs(A[i].v[x] - B[i].v[x])));
            c.fail("differs", "frame %d of %g in %d substeps differs from %d frames of %g (worst body difference %.3g); %s/%s [%s]",
                   f, dt, k, k, h, worst, systemName(sysk), solverName(solver), d);
        }
        c.count("frames_compared");
        if (k > 1) { c.count("frames_with_substeps"); many = true; }
    }
    c.count(sysk == SYS_NSV ? "worlds_nsv" : sysk == SYS_RK4 ? "worlds_rk4" : "worlds_euler");
    countKinds(c, s);
    if (many) {
        c.nontrivial = true;
        shapeOf(c, s); c.shape(sysk); c.shape(solver);
        char d[600]; describe(s, d, sizeof d);
        c.sample("%s/%s: %s", systemName(sysk), solverName(solver), d);
    }
}

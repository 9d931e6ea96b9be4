// C06: unconnected bodies never influence each other, at any world size.
#include "recorder.h"
const char *const kCheckId = "C06";
using namespace vf;

namespace {
double qualityAt(const Spec &s, const std::vector<Pose> &P) {
    const RefSystem R = refSystem(s, P);
    return cholQuality(refA(R), R.m);
}
bool springsFine(const Spec &s, const std::vector<Pose> &P) { // a spring's cut-out is discontinuous
    for (auto &g : s.gens) if (g.kind == G_SPRING) {
        const Pose p = posOf(s, P, g.b[0]), q = posOf(s, P, g.b[1]);
        const Vec2 u = rot(p.q[2], g.p[0], g.p[1]), v = rot(q.q[2], g.p[2], g.p[3]);
        if (std::hypot(p.q[0] + u.x - q.q[0] - v.x, p.q[1] + u.y - q.q[1] - v.y) < 0.05) return false;
    }
    return true;
}

// The iterative solvers stop on their own tolerance: that tolerance must stay the group's own, however
// heavily loaded the rest of the world is.
void loadsCase(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.userRows = true;
    o.maxBodies = 4; o.vel = 2; o.minQuality = 3e-2; o.maxGens = 2; o.massLo = 0.3; o.massHi = 3; o.perturb = 0.3;
    o.gens = (1u << G_STATIC);
    o.kinds &= ~(1u << K_ROLL);             // the sign of its slip row is a convention
    const Spec g = randomScene(r, o);
    if (g.cons.empty()) return;
    Spec q = randomScene(r, o);
    const double ratio = r.logUniform(1e2, 1e5);
    for (auto &b : q.bodies) { b.vx *= ratio; b.vy *= ratio; b.w *= ratio; }
    Spec all = g;
    const int off = (int)g.bodies.size();
    all.bodies.insert(all.bodies.end(), q.bodies.begin(), q.bodies.end());
    // rows of the group keep their order among themselves
    std::vector<ConSpec> cs; std::vector<int> ow;
    for (size_t i = 0, j = 0; i < g.cons.size() || j < q.cons.size();) {
        if (j >= q.cons.size() || (i < g.cons.size() && r.chance(0.5))) { cs.push_back(g.cons[i]); ow.push_back((int)i++); }
        else { ConSpec k = q.cons[j++]; k.b[0] += off; if (conBodies(k.kind) > 1) k.b[1] += off; cs.push_back(k); ow.push_back(-1); }
    }
    all.cons = cs;
    for (GenSpec k : q.gens) { k.b[0] += off; k.b[1] += off; all.gens.push_back(k); }
    const int solver = r.chance(0.5) ? S_GS : S_CG;
    World a(g, SYS_NSV, solver), b(all, SYS_NSV, solver);
    if (q.cons.empty() || !(qualityAt(all, specPoses(all)) > 2e-2)) return;
    double maxErr = 0, minErr = 0, delta = 0;
    for (World *w : {&a, &b}) {
        w->spy->record = true;
        if (auto *s = dynamic_cast<ConjugateGradientSleSolver *>(w->solver.get())) {
            if (w == &a) { maxErr = r.chance(0.3) ? 1e-2 : r.logUniform(1e-6, 1e-2); minErr = r.logUniform(1e-8, 1e-3); }
            s->setMaxError(maxErr); s->setMinError(minErr);
        }
        if (auto *s = dynamic_cast<GaussSeidelSleSolver *>(w->solver.get())) {
            if (w == &a) delta = r.chance(0.3) ? 0.1 : r.logUniform(1e-6, 1e-1);
            s->m_minDelta = delta; s->m_maxIterations = 200000;
        }
    }
    const double dt = 1.0 / 60;
    a.sys->process(dt, 1);
    b.sys->process(dt, 1);
    const RefSystem R = refSystem(g, specPoses(g));
    const std::vector<double> A = refA(R);
    std::vector<double> bb, xb;
    int row = 0;
    double global = 0;
    for (double v : b.spy->b) global = std::fmax(global, std::fabs(v));
    for (size_t k = 0; k < ow.size(); ++k) for (int e = 0; e < conRows(cs[k].kind); ++e, ++row)
        if (ow[k] >= 0) { bb.push_back(b.spy->b[row]); xb.push_back(b.spy->x[row]); }
    const std::vector<double> &xa = a.spy->x;
    if ((int)xb.size() != R.m || (int)xa.size() != R.m || a.spy->failed || b.spy->failed) { c.count("loads_not_solved"); return; }
    auto energy = [&](const std::vector<double> &x, const std::vector<double> &ref, double &mag) {
        long double e = 0; mag = 0;
        for (int i = 0; i < R.m; ++i) for (int j = 0; j < R.m; ++j) {
            e += (long double)(x[i] - ref[i]) * A[(size_t)i * R.m + j] * (x[j] - ref[j]);
            mag += std::fabs(A[(size_t)i * R.m + j]) * std::fmax(std::fabs(x[i]), std::fabs(ref[i])) * std::fmax(std::fabs(x[j]), std::fabs(ref[j]));
        }
        return (double)e;
    };
    for (int i = 0; i < R.m; ++i) {
        if (!near(bb[i], a.spy->b[i], 1e-9 * (1 + std::fabs(bb[i]) + 60 * std::fabs(R.C[i]))))
            c.fail("right-side", "row %d of the group: right side %.12g among others, %.12g alone (%s)", i, bb[i], a.spy->b[i], solverName(solver));
        double rr = -bb[i], mag = std::fabs(bb[i]);
        for (int j = 0; j < R.m; ++j) { const double t = A[(size_t)i * R.m + j] * xb[j]; rr += t; mag += std::fabs(t); }
        if (solver == S_CG && std::fabs(rr) > 1.01 * std::fmax(maxErr * std::fabs(bb[i]), minErr) + 1e-10 * (mag + global))
            c.fail("tolerance", "row %d of the group is left with residual %.6g (right side %.6g, tolerances %.3g relative, %.3g absolute) beside rows of up to %.3g",
                   i, rr, bb[i], maxErr, minErr, global);
    }
    if (solver == S_GS) { // more sweeps only bring the group closer to its solution
        std::vector<double> exact;
        if (cholQuality(A, R.m, &a.spy->b, &exact) > 0) {
            double m1, m2;
            const double ea = energy(xa, exact, m1), eb = energy(xb, exact, m2);
            if (eb > ea * (1 + 1e-6) + 1e-12 * (m1 + m2) + 1e-18)
                c.fail("tolerance", "Gauss-Seidel leaves the group further from its solution among others (squared error %.6g) than alone (%.6g), delta %.3g, load ratio %.3g", eb, ea, delta, ratio);
        }
    }
    c.count("groups_beside_heavy_loads");
    c.nontrivial = true;
    shapeOf(c, g); c.shape(solver); c.shape(all.cons.size());
}

// A pair of linked bodies at the end of a world of tens of thousands.
void hugeCase(Ctx &c) {
    Rng &r = c.rng;
    const int n = r.chance(0.4) ? r.range(66000, 70000) : r.range(32600, 36000);
    Spec s;
    s.bodies.resize(n);
    const int i = n - 1 - r.below(3), j = r.chance(0.5) ? n - 5 : r.below(200);
    ConSpec k; k.kind = K_LINK; k.b[0] = i; k.b[1] = j; k.p[0] = 0.5; k.p[3] = -0.25;
    s.bodies[i].vx = 2; s.bodies[j].w = -1.5; s.bodies[i].w = 0.5;
    s.bodies[i].px = -0.5; s.bodies[j].py = 0.25;
    s.cons.push_back(k);
    Spec g; g.bodies = {s.bodies[i], s.bodies[j]}; k.b[0] = 0; k.b[1] = 1; g.cons.push_back(k);
    const int sysk = r.below(SYS_COUNT), solver = r.below(S_COUNT);
    World a(g, sysk, solver), b(s, sysk, solver);
    b.spy->guard = a.spy->guard = false;
    a.sys->process(1.0 / 60, 1); b.sys->process(1.0 / 60, 1);
    const std::vector<Pose> A = a.poses();
    for (int e = 0; e < n; ++e) {
        const Pose p = b.pose(e);
        const Pose want = e == i ? A[0] : e == j ? A[1] : Pose();
        for (int x = 0; x < 3; ++x)
            if (!near(p.q[x], want.q[x], 1e-9) || !near(p.v[x], want.v[x], 1e-8))
                c.fail("huge-world", "body %d of %d (link between %d and %d) component %d: position %.10g instead of %.10g, velocity %.10g instead of %.10g; %s/%s",
                       e, n, i, j, x, p.q[x], want.q[x], p.v[x], want.v[x], systemName(sysk), solverName(solver));
    }
    c.count("huge_worlds");
    c.max("max_index_stepped", n - 1);
    c.nontrivial = true; c.shape(n); c.shape(sysk); c.shape(solver);
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    if (r.chance(0.15)) { loadsCase(c); return; }
    if (r.chance(1.0 / 900)) { hugeCase(c); return; }
    const bool big = r.chance(0.12);
    SceneOpts o;
    o.maxBodies = 5; o.limits = r.chance(0.3); o.neutral = true; o.anchors = r.chance(0.25);
    o.vel = 3; o.minQuality = 1e-3;
    o.gens &= ~(1u << G_ATTRACT);           // couples everything in the world
    const Spec g = randomScene(r, o);
    const int sysk = r.below(SYS_COUNT);
    const int solver = r.chance(0.5) ? S_GE : r.chance(0.6) ? S_GS : S_CG;
    SceneOpts p = o;
    p.gens &= ~((1u << G_GRAVITY) | (1u << G_UNIFORM)); // act on everything in the world
    p.anchors = r.chance(0.25); p.limits = o.limits;
    std::vector<Spec> others;
    size_t total = g.bodies.size();
    if (big) {
        SceneOpts f = p;
        f.minBodies = f.maxBodies = r.range(40, 340); f.attach = 0.0; f.loops = 0; f.maxGens = 6; f.anchors = false;
        others.push_back(randomScene(r, f));
        total += others.back().bodies.size();
    }
    for (int k = r.range(big ? 0 : 1, 3); k > 0; --k) {
        SceneOpts f = p;
        f.attach = r.chance(0.3) ? 0.0 : 0.85;
        others.push_back(randomScene(r, f));
        if (solver != S_CG && r.chance(0.4)) { // a watch beside a ship
            Units u;
            u.mass = r.logUniform(1e-10, 1e10);
            if (r.chance(0.3)) u.len = r.logUniform(0.05, 20);
            if (r.chance(0.3)) u.time = r.logUniform(0.3, 20);
            others.back() = inUnits(others.back(), u);
            if (u.mass < 1e-4) c.count("groups_beside_featherweights");
            if (u.mass > 1e4) c.count("groups_beside_heavyweights");
        }
        total += others.back().bodies.size();
    }
    // joint world: every part's constraints and generators interleaved at random
    Spec all = g;
    std::vector<int> owner(g.cons.size()), idx;
    for (size_t i = 0; i < g.cons.size(); ++i) owner[i] = (int)i;
    for (const Spec &q : others) {
        const int off = (int)all.bodies.size(), aoff = (int)all.anchors.size();
        auto id = [&](int k) { return k >= 0 ? k + off : k - aoff; };
        all.bodies.insert(all.bodies.end(), q.bodies.begin(), q.bodies.end());
        all.anchors.insert(all.anchors.end(), q.anchors.begin(), q.anchors.end());
        for (ConSpec k : q.cons) { k.b[0] = id(k.b[0]); if (conBodies(k.kind) > 1) k.b[1] = id(k.b[1]); all.cons.push_back(k); owner.push_back(-1); }
        for (GenSpec k : q.gens) { k.b[0] = id(k.b[0]); k.b[1] = id(k.b[1]); all.gens.push_back(k); }
    }
    std::vector<int> order(all.bodies.size()), perm(all.cons.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = (int)i;
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = (int)i;
    r.shuffle(order); r.shuffle(perm);
    if (r.chance(0.3)) { // the group at the far end of the world
        std::vector<int> o2;
        for (int pass = 0; pass < 2; ++pass) for (int k : order) if ((k < (int)g.bodies.size()) == (pass == 1)) o2.push_back(k);
        order = o2;
    } r.shuffle(all.gens);
    {
        std::vector<ConSpec> cs; std::vector<int> ow;
        for (int k : perm) { cs.push_back(all.cons[k]); ow.push_back(owner[k]); }
        all.cons = cs; owner = ow;
    }
    World a(g, sysk, solver), b(all, sysk, solver, &order);
    b.spy->guard = a.spy->guard = true;
    if (a.nsv) a.nsv->m_biasFactor = b.nsv->m_biasFactor = r.chance(0.5) ? 1.0 : r.uniform(0, 1);
    Recorder ra;
    attach(ra, a);
    const int frames = r.range(1, big ? 2 : 5);
    long judged = 0;
    for (int f = 0; f < frames; ++f) {
        const double dt = r.chance(0.4) ? 1.0 / 60 : r.logUniform(2e-3, 0.04);
        const int steps = r.chance(0.3) ? r.range(2, 3) : 1;
        ra.evals.clear();
        // an ill-conditioned bystander legitimately costs accuracy everywhere
        bool ok = true;
        {
            const std::vector<Pose> P = b.poses();
            if (!tame(P, 1e4) || !(qualityAt(all, P) > 1e-3)) ok = false;
        }
        if (ok && b.odeSpy) b.odeSpy->onSolve = [&](SystemState *st) {
            const std::vector<Pose> P = statePoses(b, st);
            if (!ok || !tame(P, 1e4) || !(qualityAt(all, P) > 1e-3)) ok = false;
        };
        a.sys->process(dt, steps);
        b.sys->process(dt, steps);
        if (b.odeSpy) b.odeSpy->onSolve = nullptr;
        const std::vector<Pose> A = a.poses(), B = b.poses();
        ok = ok && tame(A, 1e4) && tame(B, 1e4) && !a.spy->failed && !b.spy->failed;
        for (auto &e : ra.evals) { if (!ok) break; ok = tame(e.P, 1e4) && springsFine(g, e.P); }
        if (!ok) { c.count("stopped_ill_conditioned"); break; }
        std::vector<double> G, Gs, H, Hs;
        totalReported(a, G, Gs);
        totalReported(b, H, Hs);
        double fs = 1, vs = 1, qs = 1, minv = 1;
        for (double v : Gs) fs = std::fmax(fs, v);
        // the iterative solvers stop when the whole world is accurate enough, relative to its largest forces
        if (solver != S_GE) for (double v : Hs) fs = std::fmax(fs, v);
        for (auto *P : {&A, &B}) {
            if (P == &B && solver == S_GE) break;
            for (auto &q : *P) for (int x = 0; x < 3; ++x) { vs = std::fmax(vs, std::fabs(q.v[x])); qs = std::fmax(qs, std::fabs(q.q[x])); }
        }
        for (auto &bd : g.bodies) minv = std::fmin(minv, std::fmin(bd.m, bd.I));
        const double loose = solver == S_GE ? 1 : 30;
        const double tq = loose * 1e-9 * (qs + vs) * (f + 1), tv = loose * 1e-8 * (vs + qs + dt * fs / minv) * (f + 1) + 1e-12 * qs / dt;
        const double tf = loose * 1e-7 * (fs + (vs + qs) * 10) * (f + 1) / dt * 0.05 + tv / dt;
        char d[500];
        for (size_t i = 0; i < A.size(); ++i) {
            for (int x = 0; x < 6; ++x) {
                const double want = x < 3 ? A[i].q[x] : A[i].v[x - 3], got = x < 3 ? B[i].q[x] : B[i].v[x - 3];
                if (!near(got, want, x < 3 ? tq : tv)) {
                    describe(g, d, sizeof d);
                    c.fail("influenced", "body %d (index %d of %d) %s %d: %.12g among others, %.12g alone (tolerance %.3g), frame %d; %s/%s [%s]",
                           (int)i, b.bodies[i]->index, (int)total, x < 3 ? "position" : "velocity", x % 3, got, want, x < 3 ? tq : tv, f, systemName(sysk), solverName(solver), d);
                }
            }
            ++judged;
        }
        for (size_t k = 0; k < owner.size(); ++k) {
            if (owner[k] < 0) continue;
            const Rep x = reported(a, (size_t)owner[k]), y = reported(b, k);
            const ConSpec &kc = all.cons[k];
            for (int row = 0; row < conRows(kc.kind); ++row) for (int e = 0; e < conBodies(kc.kind); ++e) {
                if (kc.b[e] < 0) continue;
                for (int z = 0; z < 3; ++z) if (!near(x.f[row][e][z], y.f[row][e][z], tf)) {
                    describe(g, d, sizeof d);
                    c.fail("force", "constraint %d (%s) row %d body %d component %d reports %.10g among %d bodies, %.10g alone (tolerance %.3g); %s/%s [%s]",
                           owner[k], conName(kc.kind), row, e, z, y.f[row][e][z], (int)total, x.f[row][e][z], tf, systemName(sysk), solverName(solver), d);
                }
            }
            c.count("reports_compared");
        }
        // bodies nothing acts on drift freely, wherever they are registered
        if (f == 0 && sysk == SYS_NSV && steps == 1) {
            bool field = false;
            for (auto &q : all.gens) field = field || q.kind == G_GRAVITY || q.kind == G_UNIFORM;
            std::vector<char> touched(all.bodies.size(), 0);
            for (auto &k : all.cons) for (int e = 0; e < conBodies(k.kind); ++e) if (k.b[e] >= 0) touched[k.b[e]] = 1;
            for (auto &k : all.gens) if (k.kind != G_GRAVITY && k.kind != G_UNIFORM) for (int e = 0; e < 2; ++e) if (k.b[e] >= 0) touched[k.b[e]] = 1;
            if (!field) for (size_t i = 0; i < touched.size(); ++i) if (!touched[i]) {
                const BodySpec &s0 = all.bodies[i];
                if (!near(B[i].v[0], s0.vx, 1e-12 * (1 + std::fabs(s0.vx))) || !near(B[i].v[1], s0.vy, 1e-12 * (1 + std::fabs(s0.vy))) || !near(B[i].v[2], s0.w, 1e-12 * (1 + std::fabs(s0.w))))
                    c.fail("free-body", "free body at index %d of %d changed its velocity", b.bodies[i]->index, (int)total);
                c.count("free_bodies_checked");
            }
        }
        c.count("frames_compared");
        for (auto *q : b.bodies) c.max("max_index_stepped", q->index);
        bool high = false;
        for (auto &k : g.cons) for (int e = 0; e < conBodies(k.kind); ++e) if (k.b[e] >= 0 && b.bodies[k.b[e]]->index > 255) high = true;
        if (high) c.count("frames_with_group_beyond_index_255");
        if (big) c.count("frames_in_large_worlds");
    }
    c.count("bodies_compared", judged);
    countKinds(c, g);
    if (judged) {
        c.nontrivial = true;
        shapeOf(c, g); c.shape(total); c.shape(sysk); c.shape(solver);
        char d[600]; describe(g, d, sizeof d);
        c.sample("%s/%s among %d bodies and %d constraints: %s", systemName(sysk), solverName(solver), (int)total, (int)all.cons.size(), d);
    }
}

// C25: an unregistered body is a valid immovable anchor.
#include "recorder.h"
const char *const kCheckId = "C25";
using namespace vf;

namespace {
Spec anchoredScene(Rng &r, SceneOpts o) {
    o.anchors = true;
    Spec s = randomScene(r, o);
    // make sure the anchors are used, in every way there is
    for (int tries = r.range(0, 3); tries > 0; --tries) {
        GenSpec g;
        if (r.chance(0.5)) {
            g.kind = G_SPRING;
            g.b[0] = r.below((int)s.bodies.size()); g.b[1] = -1 - r.below((int)s.anchors.size());
            if (r.chance(0.15) && s.anchors.size() > 1) { g.b[0] = -1; g.b[1] = -2; } // between two anchors: nothing at all
            if (r.chance(0.5)) std::swap(g.b[0], g.b[1]);
            for (int x = 0; x < 4; ++x) g.p[x] = r.wild(2);
            g.p[4] = r.uniform(0, 3); g.p[5] = r.uniform(0, 50); g.p[6] = r.chance(0.5) ? 0 : r.uniform(0, 3);
        } else {
            g.kind = G_MOTOR;
            g.b[0] = -1 - r.below((int)s.anchors.size()); g.b[1] = r.below((int)s.bodies.size());
            g.p[0] = r.uniform(0, 3); g.p[1] = r.chance(0.5) ? 0.0 : r.uniform(0, 0.05); g.p[2] = r.logUniform(0.1, 100); g.p[3] = r.uniform(-8, 8);
        }
        s.gens.push_back(g);
    }
    for (int tries = r.range(0, 3); tries > 0; --tries) {
        ConSpec k;
        const int kinds[] = {K_CLUTCH, K_GEAR, K_WELD, K_LIN};
        k.kind = kinds[r.below(4)];
        k.ks = r.uniform(0, 40); k.kd = r.uniform(0, 8);
        const int i = r.below((int)s.bodies.size()), a = -1 - r.below((int)s.anchors.size());
        const bool first = r.chance(0.5);
        k.b[0] = first ? a : i; k.b[1] = first ? i : a;
        const BodySpec &A = first ? s.anchors[-1 - a] : s.bodies[i], &B = first ? s.bodies[i] : s.anchors[-1 - a];
        if (k.kind == K_GEAR) { k.p[0] = r.logUniform(0.2, 5) * (r.chance(0.3) ? -1 : 1); k.neutral = o.neutral && r.chance(0.2); }
        if (k.kind == K_CLUTCH) randomLimits(r, o, k);
        if (k.kind == K_WELD) { localOf(A, B.px, B.py, &k.p[0], &k.p[1]); k.p[2] = B.th - A.th; }
        if (k.kind == K_LIN) {
            for (int x = 0; x < 6; ++x) k.p[x] = r.uniform(-2, 2);
            k.p[6] = k.p[0] * A.px + k.p[1] * A.py + k.p[2] * A.th + k.p[3] * B.px + k.p[4] * B.py + k.p[5] * B.th;
        }
        s.cons.push_back(k);
        if (sceneQuality(s) < o.minQuality) s.cons.pop_back();
    }
    return s;
}
int usesAnchor(const Spec &s) {
    int n = 0;
    for (auto &k : s.cons) for (int e = 0; e < conBodies(k.kind); ++e) if (k.b[e] < 0) ++n;
    for (auto &g : s.gens) if (g.kind == G_SPRING || g.kind == G_MOTOR) for (int e = 0; e < 2; ++e) if (g.b[e] < 0) ++n;
    return n;
}
// fields of the anchors must not change by a bit, nor may they become registered
struct Watch {
    std::vector<RigidBody> was;
    World *w;
    Watch(World &world, Rng &r) : w(&world) {
        for (auto *a : world.anchors) { // whatever its velocity fields say, it rests
            if (r.chance(0.7)) { a->v_x = r.uniform(-90, 90); a->v_y = r.uniform(-90, 90); a->v_theta = r.uniform(-90, 90); }
            if (r.chance(0.5)) { a->m = r.logUniform(1e-3, 1e3); a->I = r.logUniform(1e-3, 1e3); }
            was.push_back(*a);
        }
    }
    void check(Ctx &c) {
        for (size_t i = 0; i < was.size(); ++i) {
            const RigidBody &a = *w->anchors[i], &b = was[i];
            if (a.index != -1) c.fail("anchor-index", "an unregistered body has index %d after a step", a.index);
            const double x[] = {a.p_x, a.p_y, a.theta, a.v_x, a.v_y, a.v_theta, a.m, a.I}, y[] = {b.p_x, b.p_y, b.theta, b.v_x, b.v_y, b.v_theta, b.m, b.I};
            for (int k = 0; k < 8; ++k) if (bitsOf(x[k]) != bitsOf(y[k])) c.fail("anchor-moved", "field %d of an unregistered body changed from %.12g to %.12g", k, y[k], x[k]);
            c.count("anchors_checked");
        }
    }
};

void laws(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.userRows = true;
    o.maxBodies = r.chance(0.1) ? 10 : 4;
    o.limits = r.chance(0.3); o.neutral = true;
    const Spec s = anchoredScene(r, o);
    const int sysk = r.below(SYS_COUNT), solver = r.chance(0.5) ? S_GE : r.chance(0.5) ? S_GS : S_CG;
    World w(s, sysk, solver);
    Watch watch(w, r);
    Recorder rec;
    attach(rec, w);
    w.spy->record = true;
    if (w.nsv) w.nsv->m_biasFactor = r.chance(0.5) ? 1.0 : r.uniform(0, 1);
    struct Snap { std::unique_ptr<State> st; std::vector<double> x, b; };
    std::vector<Snap> snaps;
    if (w.odeSpy) w.odeSpy->onSolve = [&](SystemState *st) {
        Snap k; k.st.reset(new State); k.st->copy(st); k.x = w.spy->x; k.b = w.spy->b;
        snaps.push_back(std::move(k));
    };
    long judged = 0;
    const int frames = r.range(1, 3);
    for (int f = 0; f < frames; ++f) {
        const double dt = r.logUniform(1e-3, 0.05);
        rec.evals.clear(); snaps.clear();
        const std::vector<Pose> pre = w.poses();
        {
            const RefSystem R = refSystem(s, pre);
            if (!(cholQuality(refA(R), R.m) > 1e-4) || !tame(pre, 1e4)) { c.count("stopped_ill_conditioned"); break; }
        }
        w.sys->process(dt, 1);
        watch.check(c);
        if (w.spy->refused) { // nothing to solve although every evaluation's system is sound
            bool sound = true;
            for (auto &e : rec.evals) { const RefSystem R = refSystem(s, e.P); if (!(cholQuality(refA(R), R.m) > 1e-4) || !tame(e.P, 1e6)) sound = false; }
            if (sound) { char d[600]; describe(s, d, sizeof d); c.fail("anchored-system", "the system handed to %s is singular or not finite; %s [%s]", solverName(solver), systemName(sysk), d); }
        }
        const std::vector<Pose> post = w.poses();
        if (!tame(post, 1e6) || w.spy->failed) { c.count("stopped_ill_conditioned"); break; }
        const size_t stages = sysk == SYS_RK4 ? 4 : 1;
        if (rec.evals.size() != stages) c.fail("evaluations", "%d evaluations in a step", (int)rec.evals.size());
        for (size_t e = 0; e < stages; ++e) {
            const Eval &ev = rec.evals[e];
            const RefSystem R = refSystem(s, ev.P);
            if (!(cholQuality(refA(R), R.m) > 1e-4) || !tame(ev.P, 1e6)) { c.count("stopped_ill_conditioned"); break; }
            const std::vector<double> &x = sysk == SYS_NSV ? w.spy->x : snaps[e].x;
            if ((int)x.size() != R.m) c.fail("row-count", "the solver saw %d rows, the scene has %d", (int)x.size(), R.m);
            std::vector<double> sc, F = refForces(s, ev.P, &ev.aTheta, &sc);
            // each body moves by what its generators and rows do to it, with the anchors at rest
            for (int i = 0; i < R.n; ++i) {
                const BodySpec &b = s.bodies[i / 3];
                const double m = i % 3 == 2 ? b.I : b.m;
                double want = F[i], mag = sc[i];
                for (int k = 0; k < R.m; ++k) {
                    const double l = x[k] * (sysk == SYS_NSV ? 1 / dt : 1);
                    want += l * R.J[(size_t)k * R.n + i]; mag += std::fabs(l) * (std::fabs(R.J[(size_t)k * R.n + i]) + 1e-3);
                }
                double got;
                if (sysk == SYS_NSV) { got = m * (post[i / 3].v[i % 3] - pre[i / 3].v[i % 3]) / dt; mag += 1e-4 * m * (std::fabs(post[i / 3].v[i % 3]) + std::fabs(pre[i / 3].v[i % 3])) / dt; }
                else {
                    const SystemState &st = *snaps[e].st;
                    const int q = w.bodies[i / 3]->index;
                    got = m * (i % 3 == 0 ? st.a_x[q] : i % 3 == 1 ? st.a_y[q] : st.a_theta[q]);
                }
                // the slip row of a rolling body may carry either sign: rows of this kind are left to the law below
                bool roll = false;
                for (auto &k : s.cons) if (k.kind == K_ROLL && (k.b[0] == i / 3 || k.b[1] == i / 3)) roll = true;
                if (!roll && !near(got, want, 1e-9 * mag + 1e-10)) {
                    char d[600]; describe(s, d, sizeof d);
                    c.fail("anchored-account", "body %d component %d: force %.12g, its generators and rows amount to %.12g with the anchors at rest; %s/%s [%s]",
                           i / 3, i % 3, got, want, systemName(sysk), solverName(solver), d);
                }
                c.count("components_accounted");
            }
            if (sysk == SYS_NSV) judged += nsvLaw(c, w, pre, dt, "anchored-row");
            else { w.spy->x = snaps[e].x; w.spy->b = snaps[e].b; judged += accLaw(c, w, snaps[e].st.get(), "anchored-row"); }
            c.count("evaluations_judged");
        }
    }
    c.count("rows_judged", judged);
    if (usesAnchor(s)) { c.nontrivial = true; c.count("anchor_uses", usesAnchor(s)); }
    shapeOf(c, s); c.shape(sysk); c.shape(solver);
    countKinds(c, s);
    char d[700]; describe(s, d, sizeof d);
    c.sample("%s/%s: %s", systemName(sysk), solverName(solver), d);
}

// steps two worlds side by side; bodies 0..n-1 must move alike
void sideBySide(Ctx &c, World &a, World &b, const Spec &s, int n, double tolFactor, const char *key, Watch *wa) {
    Rng &r = c.rng;
    const int frames = r.range(1, 4);
    for (int f = 0; f < frames; ++f) {
        const double dt = r.logUniform(2e-3, 0.03);
        const std::vector<Pose> P = a.poses();
        const RefSystem R = refSystem(s, P);
        bool ok = cholQuality(refA(R), R.m) > 1e-2 && tame(P, 1e3);
        if (ok && a.odeSpy) a.odeSpy->onSolve = [&](SystemState *st) {
            const std::vector<Pose> Q = statePoses(a, st);
            const RefSystem R2 = refSystem(s, Q);
            if (!(cholQuality(refA(R2), R2.m) > 1e-2) || !tame(Q, 1e3)) ok = false;
        };
        for (auto &g : s.gens) if (g.kind == G_SPRING) {
            const Pose p = posOf(s, P, g.b[0]), q = posOf(s, P, g.b[1]);
            const Vec2 u = rot(p.q[2], g.p[0], g.p[1]), v = rot(q.q[2], g.p[2], g.p[3]);
            if (std::hypot(p.q[0] + u.x - q.q[0] - v.x, p.q[1] + u.y - q.q[1] - v.y) < 0.1) ok = false;
        }
        if (!ok) { c.count("stopped_ill_conditioned"); return; }
        a.sys->process(dt, 1); b.sys->process(dt, 1);
        if (a.odeSpy) a.odeSpy->onSolve = nullptr;
        if (wa) wa->check(c);
        if (!ok || a.spy->failed || b.spy->failed) { c.count("stopped_ill_conditioned"); return; }
        double vs = 1;
        for (int i = 0; i < n; ++i) for (int x = 0; x < 3; ++x) vs = std::fmax(vs, std::fmax(std::fabs(a.pose(i).v[x]), std::fabs(a.pose(i).q[x])));
        for (int i = 0; i < n; ++i) for (int x = 0; x < 6; ++x) {
            const double p = x < 3 ? a.pose(i).q[x] : a.pose(i).v[x - 3], q = x < 3 ? b.pose(i).q[x] : b.pose(i).v[x - 3];
            if (!near(p, q, tolFactor * vs * (f + 1))) {
                char d[600]; describe(s, d, sizeof d);
                c.fail(key, "frame %d: body %d %s %d is %.12g with an unregistered anchor, %.12g in the equivalent world; %s/%s [%s]", f, i, x < 3 ? "position" : "velocity", x % 3, p, q,
                       systemName(a.sysKind), solverName(a.solverKind), d);
            }
        }
        c.count(key);
    }
    c.nontrivial = true;
}

// the same scene with the anchors registered, at rest and all but immovable
void heavyTwin(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = 4; o.limits = r.chance(0.3); o.neutral = true; o.vel = 3; o.minQuality = 2e-2; o.neat = 0;
    o.gens = (1u << G_STATIC) | (1u << G_SPRING) | (1u << G_MOTOR);
    const Spec s = anchoredScene(r, o);
    Spec t = s;
    const int n = (int)s.bodies.size();
    for (BodySpec b : s.anchors) { b.vx = b.vy = b.w = 0; b.m = b.I = 1e13; t.bodies.push_back(b); }
    auto id = [&](int k) { return k >= 0 ? k : n - 1 - k; };
    for (auto &k : t.cons) { k.b[0] = id(k.b[0]); k.b[1] = id(k.b[1]); }
    for (auto &g : t.gens) { g.b[0] = id(g.b[0]); g.b[1] = id(g.b[1]); }
    t.anchors.clear();
    const int sysk = r.below(SYS_COUNT), solver = r.chance(0.5) ? S_GE : r.chance(0.5) ? S_GS : S_CG;
    World a(s, sysk, solver), b(t, sysk, solver);
    Watch wa(a, r);
    sideBySide(c, a, b, s, n, solver == S_GE ? 1e-6 : 1e-5, "heavy-twin", &wa);
    shapeOf(c, s); c.shape(sysk); c.shape(solver);
}
// constraints to an anchor that are the same as constraints to the world
void worldTwin(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = 1; o.vel = 3;
    Spec s, t;
    const int n = r.range(1, 3);
    for (int i = 0; i < 2; ++i) { BodySpec a = randomBody(r, o); a.vx = a.vy = a.w = 0; s.anchors.push_back(a); }
    for (int i = 0; i < n; ++i) s.bodies.push_back(randomBody(r, o));
    t.bodies = s.bodies;
    for (int i = 0; i < n; ++i) {
        const int an = r.below(2);
        const BodySpec &A = s.anchors[an], &B = s.bodies[i];
        ConSpec k, u, v;
        k.ks = u.ks = v.ks = r.uniform(0, 40); k.kd = u.kd = v.kd = r.uniform(0, 8);
        const bool first = r.chance(0.5);
        switch (r.below(3)) {
            case 0: { // clutch to an anchor: friction
                k.kind = K_CLUTCH; u.kind = K_FRICTION;
                const double lim = r.chance(0.2) ? 1.7976931348623157e308 : r.logUniform(0.05, 50);
                k.lo = u.lo = -lim; k.hi = u.hi = lim;
                if (r.chance(0.4)) { (first ? k.lo : k.hi) = 0; u.lo = first ? 0 : -lim; u.hi = first ? lim : 0; if (!first) { k.lo = -lim; k.hi = 0; u.lo = 0; u.hi = lim; } }
                k.b[0] = first ? -1 - an : i; k.b[1] = first ? i : -1 - an; u.b[0] = i;
                s.cons.push_back(k); t.cons.push_back(u);
                break;
            }
            case 1: // gear to an anchor: unlimited friction
                k.kind = K_GEAR; u.kind = K_FRICTION; k.p[0] = r.logUniform(0.3, 3);
                // its gain acts on the row's own speed
                k.b[0] = first ? -1 - an : i; k.b[1] = first ? i : -1 - an; u.b[0] = i;
                s.cons.push_back(k); t.cons.push_back(u);
                break;
            default: { // weld to an anchor: fixed position and rotation
                k.kind = K_WELD; k.b[0] = -1 - an; k.b[1] = i;
                localOf(A, B.px + r.uniform(-.1, .1), B.py, &k.p[0], &k.p[1]); k.p[2] = B.th - A.th + r.uniform(-.1, .1);
                s.cons.push_back(k);
                const Vec2 w = rot(A.th, k.p[0], k.p[1]);
                u.kind = K_FIXPOS; u.b[0] = i; u.p[2] = A.px + w.x; u.p[3] = A.py + w.y;
                v.kind = K_FIXROT; v.b[0] = i; v.p[0] = A.th + k.p[2];
                t.cons.push_back(u); t.cons.push_back(v);
                break;
            }
        }
    }
    GenSpec g; g.kind = G_UNIFORM; g.p[0] = r.uniform(-5, 5); g.p[1] = r.uniform(-5, 5);
    s.gens.push_back(g); t.gens.push_back(g);
    GenSpec q; q.kind = G_STATIC; q.b[0] = r.below(n); for (int x = 0; x < 4; ++x) q.p[x] = r.wild(3);
    s.gens.push_back(q); t.gens.push_back(q);
    const int sysk = r.below(SYS_COUNT), solver = r.chance(0.3) ? S_GE : r.chance(0.8) ? S_GS : S_CG;
    World a(s, sysk, solver), b(t, sysk, solver);
    Watch wa(a, r);
    sideBySide(c, a, b, s, n, solver == S_GE ? 1e-9 : 1e-7, "world-twin", &wa);
    shapeOf(c, s); c.shape(sysk); c.shape(solver);
}
}

void run_case(Ctx &c) {
    const int k = c.rng.below(10);
    if (k < 5) laws(c);
    else if (k < 8) heavyTwin(c);
    else worldTwin(c);
}

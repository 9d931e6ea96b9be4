// C20: force generators apply exactly their force law, on top of what is there.
#include "rig.h"
const char *const kCheckId = "C20";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int n = r.range(1, 7), na = 2;
    State s;
    fillState(r, s, n, 2);
    if (r.chance(0.2)) for (int i = 0; i < n; ++i) s.theta[i] = r.uniform(-60, 60);
    // body id -> index in the state, anchors are never registered
    std::vector<int> at(n);
    for (int i = 0; i < n; ++i) at[i] = i;
    r.shuffle(at);
    const bool wide = r.chance(0.3); // other sizes, weights, speeds and places than the usual
    double F = 1;
    if (wide) {
        F = r.chance(0.2) ? r.logUniform(1e-9, 1e9) : r.logUniform(1e-3, 1e5);
        const double q = r.chance(0.5) ? r.logUniform(1, 3e3) : 1, v = r.logUniform(1e-3, 1e3), a = r.logUniform(1e-3, 1e3);
        for (int i = 0; i < n; ++i) {
            s.p_x[i] *= q; s.p_y[i] *= q; s.v_x[i] *= v; s.v_y[i] *= v; s.v_theta[i] *= v; s.a_theta[i] *= a;
            s.m[i] *= F * r.logUniform(0.1, 10); s.f_x[i] *= F; s.f_y[i] *= F; s.t[i] *= F;
            if (r.chance(0.2)) s.theta[i] *= 30;
        }
        c.count("wide_cases");
    }
    std::vector<RigidBody> b(n + na);
    Spec spec;
    spec.bodies.resize(n); spec.anchors.resize(na);
    std::vector<Pose> P(n);
    std::vector<double> acc(n);
    for (int i = 0; i < n; ++i) {
        b[i].index = at[i];
        P[i] = stPose(s, at[i]);
        spec.bodies[i].m = s.m[at[i]];
        acc[i] = s.a_theta[at[i]];
        // energy() and getEnds() look at the bodies themselves
        b[i].p_x = s.p_x[at[i]]; b[i].p_y = s.p_y[at[i]]; b[i].theta = s.theta[at[i]];
        b[i].v_x = s.v_x[at[i]]; b[i].m = s.m[at[i]]; b[i].I = 1;
    }
    for (int k = 0; k < na; ++k) {
        spec.anchors[k].px = b[n + k].p_x = r.uniform(-5, 5); spec.anchors[k].py = b[n + k].p_y = r.uniform(-5, 5);
        spec.anchors[k].th = b[n + k].theta = r.uniform(-4, 4);
        b[n + k].v_x = 77; b[n + k].v_theta = -55; // an unregistered body is at rest whatever its fields say
    }
    auto body = [&](int id) { return id >= 0 ? &b[id] : &b[n - 1 - id]; };
    const int count = r.range(1, 4);
    for (int q = 0; q < count; ++q) {
        GenSpec g;
        g.kind = r.below(G_UNIFORM);
        bool nullEnd = false;
        std::unique_ptr<ForceGenerator> gen;
        switch (g.kind) {
            case G_GRAVITY: {
                auto *k = new GravityForceGenerator; gen.reset(k);
                g.p[0] = 9.81;
                if (r.chance(0.7)) k->m_g = g.p[0] = r.wild(wide ? 2000 : 20);
                break;
            }
            case G_STATIC: {
                auto *k = new StaticForceGenerator; gen.reset(k);
                g.b[0] = r.below(n); k->m_body = body(g.b[0]);
                if (r.chance(0.9)) { g.p[0] = r.wild(50) * F; g.p[1] = r.wild(50) * F; k->setForce(g.p[0], g.p[1]); }
                if (r.chance(0.9)) { g.p[2] = r.wild(5); g.p[3] = r.wild(5); k->setPosition(g.p[2], g.p[3]); }
                if (k->m_f_x != g.p[0] || k->m_f_y != g.p[1] || k->m_p_x != g.p[2] || k->m_p_y != g.p[3]) c.fail("setter", "static force setters");
                break;
            }
            case G_SPRING: {
                g.b[0] = r.chance(0.15) ? -1 - r.below(na) : r.below(n);
                g.b[1] = r.chance(0.15) || n == 1 ? -1 - r.below(na) : r.below(n);
                if (g.b[1] == g.b[0] && g.b[0] >= 0 && r.chance(0.3)) c.count("springs_within_one_body"); // both ends on one body
                else {
                if (g.b[1] == g.b[0]) g.b[1] = -1;
                if (g.b[1] == g.b[0]) g.b[1] = -2;
                }
                for (int x = 0; x < 4; ++x) g.p[x] = r.wild(3);
                g.p[4] = r.chance(0.2) ? 0 : r.uniform(0, 5); g.p[5] = r.chance(0.1) ? 0 : r.uniform(0, 60) * F; g.p[6] = r.chance(0.3) ? 0 : r.uniform(0, 5) * F;
                const Pose A = posOf(spec, P, g.b[0]), B = posOf(spec, P, g.b[1]);
                const Vec2 ra = rot(A.q[2], g.p[0], g.p[1]);
                if (r.chance(0.2)) { // nearly or exactly coincident attachment points
                    const double off = r.chance(0.3) ? 0 : r.logUniform(1e-14, 1e-5), ang = r.uniform(-4, 4);
                    BodySpec t; t.px = B.q[0]; t.py = B.q[1]; t.th = B.q[2];
                    localOf(t, A.q[0] + ra.x + off * std::cos(ang), A.q[1] + ra.y + off * std::sin(ang), &g.p[2], &g.p[3]);
                    c.count("coincident_springs");
                } else if (r.chance(0.35)) { // close together, often far below the rest length
                    const double off = r.logUniform(0.021, 0.6), ang = r.uniform(-4, 4);
                    BodySpec t; t.px = B.q[0]; t.py = B.q[1]; t.th = B.q[2];
                    localOf(t, A.q[0] + ra.x + off * std::cos(ang), A.q[1] + ra.y + off * std::sin(ang), &g.p[2], &g.p[3]);
                    if (r.chance(0.6)) g.p[4] = r.logUniform(0.05, 300);
                    c.count("short_springs");
                } else if (r.chance(0.15)) g.p[4] = r.logUniform(0.01, 300);
                const Vec2 rb = rot(B.q[2], g.p[2], g.p[3]);
                const double l = std::hypot(B.q[0] + rb.x - A.q[0] - ra.x, B.q[1] + rb.y - A.q[1] - ra.y);
                if (l > 2e-5 && l < 0.02) continue; // what counts as "practically coincident" is left open here
                if (r.chance(0.1)) { g.p[4] = r.chance(0.2) ? l : std::fabs(l + (r.chance(0.5) ? 1 : -1) * r.logUniform(1e-9, 1e-3)); c.count("springs_near_rest_length"); }
                g.p[7] = l;
                nullEnd = r.chance(0.08);
                GenSpec h = g;
                gen.reset(newGenerator(h, body(g.b[0]), body(g.b[1])));
                auto *k = static_cast<Spring *>(gen.get());
                double e[4] = {11, 12, 13, 14};
                if (nullEnd) {
                    const int which = r.range(1, 3);
                    if (which & 1) k->m_body1 = nullptr;
                    if (which & 2) k->m_body2 = nullptr;
                    if (k->energy() != 0) c.fail("spring-energy", "a spring with an unset end reports energy %g", k->energy());
                    k->getEnds(e, e + 1, e + 2, e + 3);
                } else {
                    k->getEnds(e, e + 1, e + 2, e + 3);
                    const double want[4] = {A.q[0] + ra.x, A.q[1] + ra.y, B.q[0] + rb.x, B.q[1] + rb.y};
                    for (int x = 0; x < 4; ++x) if (!near(e[x], want[x], 2e-10 + 1e-14 * (std::fabs(A.q[0]) + std::fabs(A.q[1]) + std::fabs(B.q[0]) + std::fabs(B.q[1])))) c.fail("spring-ends", "end coordinate %d is %.12g, expected %.12g", x, e[x], want[x]);
                    const double en = 0.5 * g.p[5] * (l - g.p[4]) * (l - g.p[4]);
                    if (!near(k->energy(), en, 1e-8 * (1e-3 * F + g.p[5]) + 1e-12 * en + g.p[5] * std::fabs(l - g.p[4]) * 1e-13 * (std::fabs(A.q[0]) + std::fabs(A.q[1]) + std::fabs(B.q[0]) + std::fabs(B.q[1])))) c.fail("spring-energy", "%.12g, expected %.12g (extension %g)", k->energy(), en, l - g.p[4]);
                }
                break;
            }
            default: {
                g.b[1] = r.below(n);
                g.b[0] = (n == 1 || r.chance(0.2)) ? -1 : (g.b[1] + r.range(1, n - 1)) % n;
                g.p[0] = r.uniform(0, 5) * F; g.p[1] = r.chance(0.3) ? 0 : r.uniform(0, 2) * F; g.p[2] = r.chance(0.1) ? 0 : r.logUniform(0.05, 200) * F; g.p[3] = r.wild(wide ? 1200 : 12);
                gen.reset(newGenerator(g, body(g.b[0]), body(g.b[1])));
                break;
            }
        }
        const StateImage before = StateImage::of(s);
        gen->apply(&s);
        Spec one = spec;
        if (!nullEnd) one.gens.push_back(g);
        std::vector<double> scale;
        const std::vector<double> F = refForces(one, P, &acc, &scale);
        double saturated = 0;
        StateImage after = StateImage::of(s);
        for (int i = 0; i < n; ++i) {
            double *got[3] = {&s.f_x[at[i]], &s.f_y[at[i]], &s.t[at[i]]};
            for (int x = 0; x < 3; ++x) {
                const double old = before.v[(size_t)(9 + x) * n + at[i]];
                const double add = *got[x] - old;
                if (scale[3 * i + x] == 0) {
                    if (bitsOf(*got[x]) != bitsOf(old) && *got[x] != old) c.fail("other-body", "%s changes component %d of body %d by %g", genName(g.kind), x, i, add);
                } else if (!near(add, F[3 * i + x], 1e-11 * (std::fabs(old) + scale[3 * i + x]) * (g.kind == G_SPRING ? 100 : 1)))
                    c.fail("force-law", "%s adds %.12g to component %d of body %d, the law says %.12g", genName(g.kind), add, x, i, F[3 * i + x]);
                after.v[(size_t)(9 + x) * n + at[i]] = old;
                c.count("components_judged");
            }
        }
        if (!(after == before)) c.fail("state-written", "%s writes something other than forces", genName(g.kind));
        if (g.kind == G_MOTOR) {
            double t = 0; for (int i = 0; i < n; ++i) t = std::fmax(t, std::fabs(F[3 * i + 2]));
            c.count(t >= g.p[2] ? "motors_saturated" : "motors_unsaturated");
        }
        (void)saturated;
        for (int k = 0; k < na; ++k) if (b[n + k].p_x != spec.anchors[k].px || b[n + k].v_x != 77 || b[n + k].v_theta != -55) c.fail("other-body", "%s changed an unregistered body", genName(g.kind));
        c.count(g.kind == G_GRAVITY ? "gravity" : g.kind == G_STATIC ? "static" : g.kind == G_SPRING ? "springs" : "motors");
        c.nontrivial = true;
        c.shape(g.kind); for (double x : g.p) c.shape(bitsOf(x));
        c.sample("%s on bodies %d,%d of %d", genName(g.kind), g.b[0], g.b[1], n);
    }
}

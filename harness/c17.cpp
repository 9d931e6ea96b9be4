// C17: integrators advance states with the order of accuracy they are named for.
#include "recorder.h"
#include "rig.h"
const char *const kCheckId = "C17";
using namespace vf;

namespace {
typedef std::vector<Pose> Poses;
// an acceleration law: coupled, smooth, depends on position, velocity and rotation of every body
struct Law {
    int n = 0;
    std::vector<double> K, D, c0;   // 3n x 3n, 3n x 3n, 3n
    bool constant = false, nonlinear = false;
    void make(Rng &r, int n_, bool constant_) {
        n = n_; constant = constant_; nonlinear = r.chance(0.6);
        const int d = 3 * n;
        K.resize((size_t)d * d); D.resize((size_t)d * d); c0.resize(d);
        for (double &x : K) x = r.chance(0.5) ? 0 : r.uniform(-1.5, 1.5) / d;
        for (double &x : D) x = r.chance(0.5) ? 0 : r.uniform(-1, 1) / d;
        for (int i = 0; i < d; ++i) { K[(size_t)i * d + i] = r.uniform(0.5, 6); D[(size_t)i * d + i] = r.uniform(0, 1); c0[i] = r.uniform(-4, 4); }
    }
    template <class T> void eval(const std::vector<T> &q, const std::vector<T> &v, std::vector<T> &a) const {
        const int d = 3 * n;
        a.assign(d, T(0));
        for (int i = 0; i < d; ++i) {
            T s = c0[i];
            if (!constant) {
                for (int j = 0; j < d; ++j) s -= T(K[(size_t)i * d + j]) * q[j] + T(D[(size_t)i * d + j]) * v[j];
                if (nonlinear) s += T(0.5) * std::sin(q[(i + 1) % d]) * std::cos(v[(i + 2) % d]);
            }
            a[i] = s;
        }
    }
};
void getQV(const SystemState &s, std::vector<double> &q, std::vector<double> &v) {
    q.clear(); v.clear();
    for (int i = 0; i < s.n; ++i) {
        q.push_back(s.p_x[i]); q.push_back(s.p_y[i]); q.push_back(s.theta[i]);
        v.push_back(s.v_x[i]); v.push_back(s.v_y[i]); v.push_back(s.v_theta[i]);
    }
}
void setQV(SystemState &s, const std::vector<double> &q, const std::vector<double> &v) {
    for (int i = 0; i < s.n; ++i) {
        s.p_x[i] = q[3 * i]; s.p_y[i] = q[3 * i + 1]; s.theta[i] = q[3 * i + 2];
        s.v_x[i] = v[3 * i]; s.v_y[i] = v[3 * i + 1]; s.v_theta[i] = v[3 * i + 2];
    }
}
int drive(OdeSolver &o, SystemState &s, const Law &law, double dt) {
    int evals = 0;
    o.start(&s, dt);
    while (evals < 64) {
        const bool done = o.step(&s);
        std::vector<double> q, v, a;
        getQV(s, q, v);
        law.eval(q, v, a);
        for (int i = 0; i < s.n; ++i) { s.a_x[i] = a[3 * i]; s.a_y[i] = a[3 * i + 1]; s.a_theta[i] = a[3 * i + 2]; }
        ++evals;
        o.solve(&s);
        if (done) break;
    }
    o.end();
    return evals;
}
double dist(const std::vector<double> &a, const std::vector<double> &b) {
    double m = 0;
    for (size_t i = 0; i < a.size(); ++i) m += (a[i] - b[i]) * (a[i] - b[i]);
    return std::sqrt(m);
}
// order seen between successive halvings; judged by the best, so that an accidental
// cancellation at one step size is no alarm
void judgeOrder(Ctx &c, const char *key, const char *what, double e1, double e2, double e4, double noise) {
    if (!(e4 > 30 * noise) || !(e1 < 0.5)) { c.count("orders_below_noise"); return; }
    const double o1 = std::log2(e1 / e2), o2 = std::log2(e2 / e4), om = 0.5 * (o1 + o2);
    if (std::fmax(std::fmax(o1, o2), om) < 3.3)
        c.fail(key, "%s: errors %.3g, %.3g, %.3g at steps h, h/2, h/4: observed order %.2f, %.2f", what, e1, e2, e4, o1, o2);
    c.count("orders_judged");
    if (o2 > 3.6 && o2 < 4.6) c.count("orders_close_to_four");
}

void onStates(Ctx &c) {
    Rng &r = c.rng;
    EulerOdeSolver eu; NsvOdeSolver ns; Rk4OdeSolver rk;
    const int rounds = r.range(1, 4); // the same integrator objects on states of different sizes
    for (int round = 0; round < rounds; ++round) {
        const int n = r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(10, 40) : r.range(1, 5);
        const int nc = r.chance(0.4) ? 0 : r.range(1, 4);
        State s;
        fillState(r, s, n, nc);
        const int which = r.below(3);
        if (r.chance(0.15)) { // spun many turns, or far away: still one plain step
            const double f = r.logUniform(10, 1e7);
            for (int i = 0; i < n; ++i) { s.theta[i] *= r.chance(0.5) ? f : 1; s.p_x[i] *= r.chance(0.5) ? f : 1; s.p_y[i] *= r.chance(0.5) ? f : 1; s.v_theta[i] *= r.chance(0.3) ? f : 1; }
            c.count("far_states");
        }
        Law law;
        law.make(r, n, false);
        std::vector<double> q0, v0, q1, v1, a;
        getQV(s, q0, v0);
        const double dt = r.logUniform(1e-4, 0.2);
        if (which < 2) {
            law.eval(q0, v0, a);
            OdeSolver &o = which ? (OdeSolver &)ns : (OdeSolver &)eu;
            const int ev = drive(o, s, law, dt);
            if (ev != 1) c.fail("evaluations", "a single-stage integrator asked for %d evaluations", ev);
            getQV(s, q1, v1);
            for (int i = 0; i < 3 * n; ++i) {
                const double v = v0[i] + a[i] * dt, q = q0[i] + (which ? v : v0[i]) * dt;
                if (!near(v1[i], v, 1e-13 * (std::fabs(v0[i]) + std::fabs(a[i] * dt)) + 1e-300)
                    || !near(q1[i], q, 1e-13 * (std::fabs(q0[i]) + std::fabs(v * dt) + std::fabs(v0[i] * dt)) + 1e-300))
                    c.fail(which ? "nsv-step" : "euler-step", "component %d of body %d of %d: velocity %.17g (want %.17g), position %.17g (want %.17g)", i % 3, i / 3, n, v1[i], v, q1[i], q);
            }
            c.count(which ? "nsv_steps" : "euler_steps");
        } else {
            law.constant = true;
            law.eval(q0, v0, a);
            const int ev = drive(rk, s, law, dt);
            if (ev != 4) c.fail("evaluations", "RK4 asked for %d evaluations", ev);
            getQV(s, q1, v1);
            for (int i = 0; i < 3 * n; ++i) {
                const double v = v0[i] + a[i] * dt, q = q0[i] + v0[i] * dt + 0.5 * a[i] * dt * dt;
                if (!near(v1[i], v, 1e-12 * (std::fabs(v0[i]) + std::fabs(a[i] * dt)) + 1e-300)
                    || !near(q1[i], q, 1e-12 * (std::fabs(q0[i]) + std::fabs(v0[i] * dt) + std::fabs(a[i]) * dt * dt) + 1e-300))
                    c.fail("rk4-constant", "component %d of body %d of %d: velocity %.17g (want %.17g), position %.17g (want %.17g)", i % 3, i / 3, n, v1[i], v, q1[i], q);
            }
            c.count("rk4_constant_steps");
            if (n && n < 6) { // order over a fixed time
                law.constant = false;
                for (double &x : v0) x = r.uniform(-2, 2);
                for (double &x : q0) x = r.uniform(-2, 2);
                const double T = r.uniform(0.4, 1.0);
                // reference: many long double RK4 steps
                const int d = 3 * n, N = 2000;
                std::vector<long double> Q(q0.begin(), q0.end()), V(v0.begin(), v0.end());
                const long double h = (long double)T / N;
                for (int k = 0; k < N; ++k) {
                    std::vector<long double> a1, a2, a3, a4, q2(d), v2(d), q3(d), v3(d), q4(d), v4(d);
                    law.eval(Q, V, a1);
                    for (int i = 0; i < d; ++i) { q2[i] = Q[i] + h / 2 * V[i]; v2[i] = V[i] + h / 2 * a1[i]; }
                    law.eval(q2, v2, a2);
                    for (int i = 0; i < d; ++i) { q3[i] = Q[i] + h / 2 * v2[i]; v3[i] = V[i] + h / 2 * a2[i]; }
                    law.eval(q3, v3, a3);
                    for (int i = 0; i < d; ++i) { q4[i] = Q[i] + h * v3[i]; v4[i] = V[i] + h * a3[i]; }
                    law.eval(q4, v4, a4);
                    for (int i = 0; i < d; ++i) {
                        Q[i] += h / 6 * (V[i] + 2 * v2[i] + 2 * v3[i] + v4[i]);
                        V[i] += h / 6 * (a1[i] + 2 * a2[i] + 2 * a3[i] + a4[i]);
                    }
                }
                std::vector<double> ref(Q.begin(), Q.end());
                ref.insert(ref.end(), V.begin(), V.end());
                double e[3];
                for (int l = 0; l < 3; ++l) {
                    setQV(s, q0, v0);
                    const int steps = 6 << l;
                    for (int k = 0; k < steps; ++k) drive(rk, s, law, T / steps);
                    getQV(s, q1, v1);
                    q1.insert(q1.end(), v1.begin(), v1.end());
                    e[l] = dist(q1, ref);
                }
                judgeOrder(c, "rk4-order", "integrator on a smooth law", e[0], e[1], e[2], 1e-13);
                // every coordinate kind must be accurate on its own
                for (int i = 0; i < d; ++i) if (!(std::fabs(q1[i] - ref[i]) < 1e-2)) c.fail("rk4-coordinate", "component %d of body %d off by %.3g after %g", i % 3, i / 3, q1[i] - ref[i], T);
            }
        }
        c.nontrivial = n > 0;
        c.shape(n); c.shape(nc); c.shape(which); c.shape(bitsOf(dt));
    }
    c.sample("%d rounds of single integrator steps", rounds);
}

// smooth constrained world: order against a fine run of the same world
void inWorld(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = 4;
    o.neat = 0;
    o.vel = 1.5;
    o.anchors = r.chance(0.2);
    o.loops = 0.3;
    o.massLo = 0.5; o.massHi = 3;
    o.perturb = 0.2;
    o.gens = (1u << G_GRAVITY) | (1u << G_UNIFORM) | (1u << G_ATTRACT) | (1u << G_STATIC) | (1u << G_SPRING);
    o.minQuality = 1e-2;
    Spec s = randomScene(r, o);
    for (auto &k : s.cons) { k.ks = std::fmin(k.ks, 20.0); k.kd = std::fmin(k.kd, 4.0); }
    for (auto &g : s.gens) {
        if (g.kind == G_SPRING) { g.p[4] = 0; g.p[5] = std::fmin(g.p[5], 8.0); g.p[6] = std::fmin(g.p[6], 1.0); } // smooth through zero length
        if (g.kind == G_STATIC) { g.p[0] *= 0.2; g.p[1] *= 0.2; }
    }
    const double T = r.uniform(0.1, 0.3);
    bool ok = true;
    auto finish = [&](int n) {
        std::vector<double> v;
        if (!ok) return v;
        World w(s, SYS_RK4, S_GE);
        Recorder rec;
        attach(rec, w);
        if (n % 3) w.sys->process(T, n);
        else for (int k = 0; k < n; ++k) w.sys->process(T / n, 1);
        if (w.spy->failed || !w.finite()) ok = false;
        for (auto &e : rec.evals) { // stay away from singular configurations and spring cut-outs
            if (!ok) break;
            if (!tame(e.P, 40)) { ok = false; break; }
            const RefSystem R = refSystem(s, e.P);
            if (!(cholQuality(refA(R), R.m) > 3e-3)) { ok = false; break; }
            for (auto &g : s.gens) if (g.kind == G_SPRING) {
                const Pose A = posOf(s, e.P, g.b[0]), B = posOf(s, e.P, g.b[1]);
                const Vec2 ra = rot(A.q[2], g.p[0], g.p[1]), rb = rot(B.q[2], g.p[2], g.p[3]);
                if (std::hypot(A.q[0] + ra.x - B.q[0] - rb.x, A.q[1] + ra.y - B.q[1] - rb.y) < 0.05) ok = false;
            }
        }
        for (auto &p : w.poses()) for (int x = 0; x < 3; ++x) { v.push_back(p.q[x]); v.push_back(p.v[x]); }
        return v;
    };
    const int base = r.chance(0.5) ? 4 : 3;
    std::vector<double> ref = finish(base * 32);
    std::vector<double> e;
    for (int l = 0; l < 3; ++l) { const std::vector<double> v = finish(base << l); if (ok) e.push_back(dist(v, ref)); }
    if (!ok) { c.count("worlds_skipped_not_smooth"); return; }
    double size = 1;
    for (double v : ref) size += std::fabs(v);
    const double noise = 1e-11 * size;
    char d[500]; describe(s, d, sizeof d);
    auto best = [&] { double m = 0; for (size_t i = 0; i + 1 < e.size(); ++i) if (e[i + 1] > noise) m = std::fmax(m, std::log2(e[i] / e[i + 1])); return m; };
    if (!(e[2] > noise)) c.count("orders_below_noise");
    else {
        if (best() < 3.3) { // not yet asymptotic? refine before saying so
            ref = finish(base * 1024);
            e.clear();
            for (int l = 2; l < 8 && ok; ++l) e.push_back(dist(finish(base << l), ref));
            c.count("orders_refined");
            if (ok && e[0] > 4 * noise && e[1] > noise && best() < 3.3)
                c.fail("rk4-world-order", "%s: errors %.3g %.3g %.3g %.3g %.3g %.3g under successive halving of the step: observed order never above %.2f",
                       d, e[0], e[1], e[2], e[3], e[4], e[5], best());
        }
        c.count("orders_judged");
    }
    c.count("worlds_judged");
    countKinds(c, s);
    c.nontrivial = true;
    shapeOf(c, s);
    c.sample("world: %s; error at the finest level %.2g", d, e.back());
}

// one step of the real systems against the step law at their own recorded start
void systemSteps(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.maxBodies = r.chance(0.1) ? 12 : 5;
    o.anchors = r.chance(0.2);
    const Spec s = randomScene(r, o);
    const int sysk = r.chance(0.5) ? SYS_NSV : SYS_EULER;
    World w(s, sysk, r.below(S_COUNT), nullptr, true);
    for (int f = 0; f < 2; ++f) {
        const double dt = r.logUniform(1e-4, 0.1);
        const Poses a = w.poses();
        w.sys->process(dt, 1);
        const Poses b = w.poses();
        if (!tame(b)) break;
        for (size_t i = 0; i < a.size(); ++i) for (int x = 0; x < 3; ++x) {
            const double v = sysk == SYS_NSV ? b[i].v[x] : a[i].v[x];
            if (!near(b[i].q[x], a[i].q[x] + dt * v, 1e-13 * (std::fabs(a[i].q[x]) + std::fabs(dt * v)) + 1e-300))
                c.fail("system-step", "%s: component %d of body %d moved from %.17g to %.17g with velocity %.17g in %g", systemName(sysk), x, (int)i, a[i].q[x], b[i].q[x], v, dt);
        }
        c.count("system_steps");
    }
    c.nontrivial = true; shapeOf(c, s); c.shape(sysk);
}
}

void run_case(Ctx &c) {
    const int k = c.rng.below(10);
    if (k < 4) onStates(c); else if (k < 8) inWorld(c); else systemSteps(c);
}

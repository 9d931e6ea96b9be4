// C22: separate worlds can be simulated concurrently.
// Several threads, each with a history of its own (own systems, solvers,
// integrators, bodies); every thread's results must be those of the same
// history alone.  ThreadSanitizer judges the accesses in the tsan build.
#include "history.h"
#include <atomic>
#include <thread>
const char *const kCheckId = "C22";
using namespace vf;

namespace {
struct Result { uint64_t trace = 0; long steps = 0, solves = 0, toolUses = 0; };

uint64_t hashM(Matrix &m, uint64_t h) {
    h = mix(h, (uint64_t)m.getWidth() * 1000 + m.getHeight());
    for (int i = 0; i < m.getHeight(); ++i) for (int j = 0; j < m.getWidth(); ++j) h = mix(h, bitsOf(m.get(j, i)));
    return h;
}
void fill(Rng &r, Matrix &m, int w, int h) {
    m.initialize(w, h);
    for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) m.set(j, i, r.uniform(-3, 3));
}
// everything the library offers beside the systems
uint64_t tools(Rng &r, uint64_t h) {
    switch (r.below(5)) {
        case 0: {
            const int n = r.range(1, 12), m = r.range(1, 12), k = r.range(1, 12);
            Mat a, b, t, s, v, u;
            fill(r, a, n, m); fill(r, b, k, n);
            a.multiply(b, &t); h = hashM(t, h);
            fill(r, b, n, k); a.transpose(&t); h = hashM(t, h);
            fill(r, b, n, m); a.componentMultiply(b, &t); h = hashM(t, h);
            fill(r, b, k, m); a.transposeMultiply(b, &t); h = hashM(t, h);
            fill(r, b, n, m); a.add(b, &t); a.subtract(b, &t); t.negate(&u); u.scale(1.5, &t); h = hashM(t, h);
            fill(r, s, 1, m); a.leftScale(s, &t); h = hashM(t, h);
            fill(r, s, 1, n); a.rightScale(s, &t); h = hashM(t, h);
            fill(r, v, 1, m); fill(r, u, 1, m);
            h = mix(h, bitsOf(v.dot(u))); h = mix(h, bitsOf(v.vectorMagnitudeSquared()));
            v.madd(u, 0.5); v.pmadd(u, 0.25); h = hashM(v, h);
            h = mix(h, a.equals(a));
            u.set(&v); u.resize(2, 3); h = mix(h, u.getWidth());
            break;
        }
        case 1: {
            const int rows = r.range(1, 10), blocks = r.range(2, 12);
            Sp<> j, t;
            j.initialize(3 * blocks, rows);
            for (int i = 0; i < rows; ++i) for (int e = 0; e < 2; ++e) {
                if (r.chance(0.2)) { j.setEmpty(i, e); continue; }
                j.setBlock(i, e, e * (blocks / 2) + r.below(blocks / 2));
                for (int s = 0; s < 3; ++s) j.set(i, e, s, r.uniform(-2, 2));
            }
            Mat a, v, q;
            j.expand(&a); h = hashM(a, h); j.expandTransposed(&a); h = hashM(a, h);
            j.multiplyTranspose(j, &a); h = hashM(a, h);
            fill(r, v, 1, rows); j.transposeMultiplyVector(v, &a); h = hashM(a, h); j.leftScale(v, &t); t.expand(&a); h = hashM(a, h);
            fill(r, q, 1, 3 * blocks); j.multiply(q, &a); h = hashM(a, h); j.rightScale(q, &t); t.expand(&a); h = hashM(a, h);
            break;
        }
        case 3: { // solvers on their own, also when they have to give up
            const int rows = r.range(1, 8), blocks = r.range(rows, rows + 3);
            Sp<> j;
            j.initialize(3 * blocks, rows);
            for (int i = 0; i < rows; ++i) for (int e = 0; e < 2; ++e) {
                const int b = e == 0 ? i : (i + 1) % blocks;
                if (e && b == i) continue;
                j.setBlock(i, e, b);
                for (int s = 0; s < 3; ++s) j.set(i, e, s, r.uniform(-2, 2) + (e ? 0 : 3));
            }
            Mat w, b, x, l;
            fill(r, w, 1, 3 * blocks); for (int i = 0; i < 3 * blocks; ++i) w.set(0, i, 0.5 + std::fabs(w.get(0, i)));
            fill(r, b, 1, rows); fill(r, l, 2, rows);
            for (int i = 0; i < rows; ++i) { l.set(0, i, -5); l.set(1, i, 5); }
            GaussianEliminationSleSolver ge; GaussSeidelSleSolver gs; ConjugateGradientSleSolver cg;
            ge.solve(j, w, b, nullptr, &x); h = hashM(x, h);
            gs.m_maxIterations = r.range(1, 60); cg.setMaxIterations(r.range(1, 60));
            x.initialize(1, rows); h = mix(h, gs.solve(j, w, b, nullptr, &x)); h = hashM(x, h);
            x.initialize(1, rows); h = mix(h, gs.solveWithLimits(j, w, b, l, &x, nullptr)); h = hashM(x, h);
            x.initialize(1, rows); h = mix(h, cg.solve(j, w, b, nullptr, &x)); h = hashM(x, h);
            break;
        }
        case 2: {
            State s, d;
            const int n = r.range(1, 9), m = r.range(0, 9);
            s.resize(n, m);
            for (int i = 0; i < n; ++i) {
                for (double *a : {s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.f_x, s.f_y, s.t, s.m}) a[i] = r.uniform(-3, 3);
                double x, y;
                s.localToWorld(1, 2, &x, &y, i); h = mix(h, bitsOf(x + y));
                s.velocityAtPoint(1, 2, &x, &y, i); h = mix(h, bitsOf(x + y));
                s.applyForce(1, -1, 2, 3, i); h = mix(h, bitsOf(s.t[i] + s.f_x[i]));
            }
            for (int i = 0; i < 2 * m; ++i) s.r_x[i] = s.r_y[i] = s.r_t[i] = i;
            for (int i = 0; i < m; ++i) s.indexMap[i] = i;
            s.dt = 0.25;
            d.copy(&s);
            for (int i = 0; i < n; ++i) h = mix(h, bitsOf(d.p_x[i]));
            for (int kind = 0; kind < 3; ++kind) {
                std::unique_ptr<OdeSolver> o(kind == 0 ? (OdeSolver *)new EulerOdeSolver : kind == 1 ? (OdeSolver *)new Rk4OdeSolver : (OdeSolver *)new NsvOdeSolver);
                o->start(&d, 0.01);
                for (int guard = 0; guard < 8; ++guard) { const bool done = o->step(&d); o->solve(&d); if (done) break; }
                o->end();
                for (int i = 0; i < n; ++i) h = mix(h, bitsOf(d.p_x[i] + d.v_theta[i]));
            }
            break;
        }
        default: {
            RigidBody a, b;
            SceneOpts o;
            setBody(&a, randomBody(r, o)); setBody(&b, randomBody(r, o));
            double x, y;
            a.localToWorld(1, 2, &x, &y); a.worldToLocal(x, y, &x, &y); h = mix(h, bitsOf(x + y)); h = mix(h, bitsOf(b.energy()));
            Spring s; s.m_body1 = &a; s.m_body2 = &b; s.m_ks = 3; h = mix(h, bitsOf(s.energy()));
            s.getEnds(&x, &y, &x, &y); h = mix(h, bitsOf(x + y));
            a.reset();
            break;
        }
    }
    return h;
}

Result play(uint64_t seed, int ops, bool wide) {
    Result q;
    uint64_t tr = mix(7, seed);
    Hist h(seed);
    Rng t(seed ^ 0x1234567);
    h.maxBodies = wide ? 60 : 7;
    h.setup(h.r.range(1, 2), h.r.chance(0.3));
    if (wide) { for (int i = 0; i < 50; ++i) h.addBody(0, h.newBody()); for (int i = 0; i < 8; ++i) h.addCon(0); }
    else { for (int i = h.r.range(1, 4); i > 0; --i) h.addBody(0, h.newBody()); h.addCon(0); h.addGen(0); }
    h.afterStep = [&](int si, double, int) {
        tr = h.hashSystem(si, tr);
        RigidBodySystem *sys = h.systems[si].p.get(); // timings differ from run to run; asking for them is what is shared
        if (!(sys->getOdeSolveMicroseconds() + sys->getConstraintSolveMicroseconds() + sys->getForceEvalMicroseconds() + sys->getConstraintEvalMicroseconds() >= -4)) tr = mix(tr, 1);
    };
    for (int i = 0; i < ops; ++i) {
        h.random();
        if (t.chance(0.3)) h.step(h.r.below((int)h.systems.size()));
        if (t.chance(0.2)) { tr = tools(t, tr); ++q.toolUses; }
    }
    for (auto &s : h.spies) { tr = mix(tr, (uint64_t)s->calls); tr = mix(tr, (uint64_t)s->failed); q.solves += s->calls; }
    q.steps = h.steps;
    q.trace = tr;
    return q;
}
}

void run_case(Ctx &c) {
    const int n = c.rng.range(2, 6), ops = c.rng.range(10, c.thorough ? 60 : 30);
    const bool wide = c.rng.chance(0.1), twins = c.rng.chance(0.4);
    std::vector<uint64_t> seeds(n);
    for (auto &s : seeds) s = c.rng.next();
    if (twins) for (int i = 1; i < n; ++i) seeds[i] = seeds[0]; // the same calls at the same time
    std::vector<Result> alone(n), together(n);
    auto serial = [&] { for (int i = 0; i < n; ++i) alone[i] = twins && i ? alone[0] : play(seeds[i], ops, wide); };
    const bool before = c.rng.chance(0.5); // whatever is initialised on first use may be so under concurrency
    if (before) serial();
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i) ts.emplace_back([&, i] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        together[i] = play(seeds[i], ops, wide);
    });
    for (auto &t : ts) t.join();
    if (!before) serial();
    for (int i = 0; i < n; ++i) {
        if (together[i].trace != alone[i].trace)
            c.fail("concurrent-result", "thread %d of %d: its worlds gave other results than alone (%ld steps, %ld solves)", i, n, alone[i].steps, alone[i].solves);
        c.count("steps_concurrent", together[i].steps);
        c.count("solves_concurrent", together[i].solves);
        c.count("tool_uses_concurrent", together[i].toolUses);
    }
    c.count("threads", n);
    if (twins) c.count("cases_in_lockstep");
    c.nontrivial = true;
    c.shape(seeds[0]); c.shape(n);
    c.sample("%d threads%s, %d operations each, %ld steps in the first", n, twins ? " in lockstep" : "", ops, together[0].steps);
}

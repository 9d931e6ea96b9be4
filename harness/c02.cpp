// C02: destroying library objects releases every byte they allocated, once.
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if !__has_feature(address_sanitizer)
#define VF_LEDGER 1
#endif
#ifdef VF_LEDGER
#include "heap.h"
#else
namespace heap { long long count = 0, bytes = 0, wrongDelete = 0, total = 0; }
#endif
#include "history.h"
#include "rig.h"
const char *const kCheckId = "C02";
using namespace vf;

namespace {
struct Level {
    long long n = heap::count, b = heap::bytes, w = heap::wrongDelete;
    // memory alive beyond the level; throws nothing, returns text
    bool same(char *buf, size_t cap) const {
        if (heap::wrongDelete != w) { snprintf(buf, cap, "%lld wrong frees (repeated, foreign, overrun or array/scalar mix-up)", heap::wrongDelete - w); return false; }
        if (heap::count != n || heap::bytes != b) { snprintf(buf, cap, "%lld blocks / %lld bytes not returned", heap::count - n, heap::bytes - b); return false; }
        return true;
    }
};

// ---- whole histories; everything the history owns is gone when it returns
struct Tally { long steps = 0, ops = 0, frees = 0; };
void history(uint64_t seed, int shape, bool thorough, Tally &t) {
    Hist h(seed);
    h.maxBodies = shape == 0 ? 90 : shape < 4 ? 2 : 10;
    h.setup(h.r.range(1, 3));
    const int ops = h.r.range(0, shape == 0 ? 25 : thorough ? 120 : 60);
    if (shape == 0) for (int i = 0; i < 70; ++i) h.addBody(0, h.newBody());
    for (int i = 0; i < ops; ++i) {
        h.random();
        if (h.r.chance(0.03)) { const int si = h.r.below((int)h.systems.size()); h.reset(si); h.step(si); }
    }
    t.steps = h.steps; t.ops = h.edits;
    h.afterOp = nullptr;
    switch (h.r.below(4)) { // orders of destruction
        case 0: h.systems.clear(); break;
        case 1: h.cons.clear(); h.gens.clear(); h.systems.clear(); break;
        case 2: h.spies.clear(); h.solvers.clear(); h.odes.clear(); break; // solvers before the systems
        default: break;
    }
}

// ---- single buffers
struct MatBox {
    Matrix m;
    void use(Rng &r) {
        const int w = r.chance(0.15) ? 0 : r.range(1, 12), h = r.chance(0.15) ? 0 : r.range(1, 12);
        switch (r.below(3)) {
            case 0: m.initialize(w, h, 3.0); break;
            case 1: m.initialize(w, h); break;
            default: m.resize(w, h); break;
        }
        if (m.getWidth() != w || m.getHeight() != h) throw "wrong size";
        for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) m.set(j, i, i * 16 + j);
        for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) if (m.get(j, i) != i * 16 + j) throw "wrong contents";
        if (h >= 2 && w >= 1 && r.chance(0.3)) m.fastRowSwap(0, h - 1);
        Matrix t;
        switch (r.below(6)) {
            case 0: m.transpose(&t); break;
            case 1: m.scale(2, &t); break;
            case 2: m.add(m, &t); break;
            case 3: t.set(&m); break;
            case 4: m.transposeMultiply(m, &t); break;
            default: m.negate(&t); break;
        }
        t.destroy();
    }
    void fresh() { // behaves like a new one
        m.initialize(3, 2);
        if (m.getWidth() != 3 || m.getHeight() != 2) throw "wrong size after reuse";
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (m.get(j, i) != 0) throw "stale contents after reuse";
    }
    void destroy() { m.destroy(); }
};
template <int S, int E> struct SpBox {
    SparseMatrix<S, E> m;
    void use(Rng &r) {
        const int blocks = r.chance(0.15) ? 0 : r.range(1, 40), h = r.chance(0.15) ? 0 : r.range(1, 20);
        if (r.chance(0.7)) m.initialize(blocks * S, h); else { m.resize(blocks * S, h); if (h) m.initialize(blocks * S, h); }
        if (m.getWidth() != blocks * S || m.getHeight() != h) throw "wrong size";
        if (blocks) for (int i = 0; i < h; ++i) for (int e = 0; e < E && e < blocks; ++e) {
            m.setBlock(i, e, (i + e) % blocks);
            for (int k = 0; k < S; ++k) m.set(i, e, k, 1 + i + e + k);
        }
        Matrix d;
        if (r.chance(0.5)) m.expand(&d); else m.expandTransposed(&d);
        d.destroy();
        if (r.chance(0.5)) { Matrix v(1, blocks * S, 1.0), t; m.multiply(v, &t); t.destroy(); v.destroy(); }
    }
    void fresh() {
        m.initialize(2 * S, 3);
        if (m.getWidth() != 2 * S || m.getHeight() != 3) throw "wrong size after reuse";
        Matrix d;
        m.expand(&d);
        bool bad = d.getWidth() != 2 * S || d.getHeight() != 3;
        for (int i = 0; i < 3 && !bad; ++i) for (int j = 0; j < 2 * S; ++j) bad = bad || d.get(j, i) != 0;
        d.destroy();
        if (bad) throw "stale contents after reuse";
        m.setBlock(2, E - 1, 1); m.set(2, E - 1, S - 1, 7.0);
        if (m.get(2, E - 1, S - 1) != 7.0) throw "wrong contents after reuse";
    }
    void destroy() { m.destroy(); }
};
struct StateBox {
    SystemState s;
    void use(Rng &r) {
        const int n = r.chance(0.2) ? 0 : r.range(1, 15), nc = r.chance(0.2) ? 0 : r.range(1, 15);
        s.resize(n, nc);
        if (s.n != n || s.n_c != nc) throw "wrong size";
        for (double *a : stateArrays(s)) for (int i = 0; i < n; ++i) a[i] = i;
        for (double *a : stateRowArrays(s)) for (int i = 0; i < 2 * nc; ++i) a[i] = i;
        for (int i = 0; i < nc; ++i) s.indexMap[i] = i;
        s.dt = 1;
        SystemState t;
        if (r.chance(0.5)) t.resize(r.below(4), r.below(4));
        t.copy(&s);
        if (t.n != n || t.n_c != nc) throw "wrong size of copy";
        t.destroy();
    }
    void fresh() {
        s.resize(2, 3);
        if (s.n != 2 || s.n_c != 3) throw "wrong size after reuse";
        for (double *a : stateArrays(s)) for (int i = 0; i < 2; ++i) a[i] = 5;
        for (double *a : stateRowArrays(s)) for (int i = 0; i < 6; ++i) a[i] = 5;
        for (int i = 0; i < 3; ++i) s.indexMap[i] = 5;
    }
    void destroy() { s.destroy(); }
};
// rounds of use / destroy / reuse; after every destroy() the object owns nothing
template <class Box> const char *rounds(Rng &r, char *buf, size_t cap, long *destroys) {
    Level l;
    {
        Box b;
        if (heap::count != l.n) { b.destroy(); return "a new object already owns memory"; }
        const int k = r.range(1, 5);
        for (int i = 0; i < k; ++i) {
            try {
                if (i && r.chance(0.4)) b.fresh();
                const int u = r.below(4);
                for (int q = 0; q < u; ++q) b.use(r);
            } catch (const char *e) { b.destroy(); snprintf(buf, cap, "%s", e); return e; }
            b.destroy();
            if (r.chance(0.2)) b.destroy(); // again: nothing left to do
            ++*destroys;
            if (!l.same(buf, cap)) return buf;
        }
    }
    return l.same(buf, cap) ? nullptr : buf;
}

// ---- solvers and integrators on their own
void tools(uint64_t seed, long *uses) {
    Rng r(seed);
    std::unique_ptr<SleSolver> s = makeSolver(r.below(S_COUNT), false);
    const int k = r.range(0, 6);
    for (int q = 0; q < k; ++q) {
        const int m = r.chance(0.2) ? 0 : r.range(1, 8), n = m + r.range(1, 4);
        Sp<3> J;
        J.initialize(3 * n, m);
        Mat W(1, 3 * n, 1.0), b(1, m), res, lim(2, m);
        for (int i = 0; i < m; ++i) {
            J.setBlock(i, 0, i); J.set(i, 0, 0, 1.5); J.set(i, 0, 2, r.uniform(-1, 1));
            if (r.chance(0.5)) { J.setBlock(i, 1, n - 1); J.set(i, 1, 1, 0.4); }
            b.set(0, i, r.uniform(-2, 2)); lim.set(0, i, -1); lim.set(1, i, 1);
        }
        if (r.chance(0.3)) res.initialize(1, r.below(5), 0.5);
        if (s->supportsLimits() && r.chance(0.6)) s->solveWithLimits(J, W, b, lim, &res, &res);
        else s->solve(J, W, b, r.chance(0.5) ? &res : nullptr, &res);
        ++*uses;
    }
    std::unique_ptr<OdeSolver> o;
    switch (r.below(3)) { case 0: o.reset(new EulerOdeSolver); break; case 1: o.reset(new NsvOdeSolver); break; default: o.reset(new Rk4OdeSolver); break; }
    const int z = r.range(0, 5);
    for (int q = 0; q < z; ++q) {
        State st;
        fillState(r, st, r.below(5), r.below(5));
        o->start(&st, 0.01);
        for (bool done = false; !done;) { done = o->step(&st); o->solve(&st); }
        o->end();
        ++*uses;
    }
}
}

void run_case(Ctx &c) {
    char buf[300] = "";
    const int mode = c.rng.below(8);
    c.nontrivial = true;
    if (mode < 4) {
        const uint64_t seed = c.rng.next();
        const int shape = c.rng.below(16);
        Tally t;
        const long long total = heap::total;
        Level l;
        history(seed, shape, c.thorough, t);
        if (!l.same(buf, sizeof buf)) c.fail("history", "after destroying everything a history of %ld operations and %ld steps used: %s", t.ops, t.steps, buf);
        c.count("histories"); c.count("steps", t.steps); c.count("operations", t.ops);
        c.count("blocks_tracked", heap::total - total);
        c.shape(seed);
        c.sample("history of %ld operations, %ld steps: %lld blocks allocated, all returned", t.ops, t.steps, heap::total - total);
        return;
    }
    const uint64_t seed = c.rng.next();
    c.shape(seed);
    if (mode == 4) {
        long uses = 0;
        Level l;
        tools(seed, &uses);
        if (!l.same(buf, sizeof buf)) c.fail("tools", "after destroying a solver and an integrator used %ld times: %s", uses, buf);
        c.count("tool_uses", uses);
        return;
    }
    Rng r(seed);
    long destroys = 0;
    const int kind = r.below(5);
    static const char *names[] = {"Matrix", "SparseMatrix<3,2>", "SparseMatrix<1,2>", "SparseMatrix<2,1>", "SystemState"};
    const char *bad = nullptr;
    switch (kind) {
        case 0: bad = rounds<MatBox>(r, buf, sizeof buf, &destroys); break;
        case 1: bad = rounds<SpBox<3, 2>>(r, buf, sizeof buf, &destroys); break;
        case 2: bad = rounds<SpBox<1, 2>>(r, buf, sizeof buf, &destroys); break;
        case 3: bad = rounds<SpBox<2, 1>>(r, buf, sizeof buf, &destroys); break;
        default: bad = rounds<StateBox>(r, buf, sizeof buf, &destroys); break;
    }
    if (bad) c.fail("buffer", "%s, destroyed and reused %ld times: %s", names[kind], destroys, bad);
    c.count("buffers_destroyed", destroys);
}

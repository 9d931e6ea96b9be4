// C27: state buffers copy and resize without loss or mix-up.
#include "rig.h"
const char *const kCheckId = "C27";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int K = 3;
    State st[K];
    StateImage model[K];
    for (int i = 0; i < K; ++i) { model[i] = StateImage::of(st[i]); }
    const int ops = r.range(4, 24);
    const int cap = r.chance(0.1) ? 60 : 7;
    int real = 0;
    auto randomSize = [&] { return r.chance(0.25) ? 0 : r.chance(0.3) ? 1 : r.range(1, cap); };
    auto poke = [&](int i) { // rewrite every array of one state, all values distinct
        SystemState &s = st[i];
        const int special = r.chance(0.2) ? r.range(1, 3) : 0; // arrays of nothing but zeros, huge and tiny numbers
        auto value = [&] { return special && r.chance(0.7) ? (special == 1 ? 0.0 : special == 2 ? (r.chance(0.5) ? 1.7976931348623157e308 : -1.7976931348623157e308) : 4.9e-324) : r.uniform(-1e3, 1e3); };
        for (double *a : stateArrays(s)) { const bool zero = special && r.chance(0.4); for (int k = 0; k < s.n; ++k) a[k] = zero ? 0 : value(); }
        for (double *a : stateRowArrays(s)) { const bool zero = special && r.chance(0.4); for (int k = 0; k < 2 * s.n_c; ++k) a[k] = zero ? 0 : value(); }
        for (int k = 0; k < s.n_c; ++k) s.indexMap[k] = r.range(-5, 1000);
        model[i] = StateImage::of(s);
    };
    auto check = [&](int i, const char *op) {
        StateImage now = StateImage::of(st[i]);
        now.dt = model[i].dt;
        if (!(now == model[i])) c.fail("contents", "state %d differs from what was stored in it after %s (n=%d/%d, rows=%d/%d)", i, op, now.n, model[i].n, now.nc, model[i].nc);
    };
    for (int k = 0; k < ops; ++k) {
        const int i = r.below(K);
        const char *op = "";
        switch (r.below(7)) {
            case 0: case 1: { // resize anywhere: exactly the requested size, all of it usable
                const int n = randomSize(), nc = randomSize();
                op = "resize";
                if (n == st[i].n && nc == st[i].n_c) { st[i].resize(n, nc); c.count("same_size_resizes"); break; }
                st[i].resize(n, nc);
                if (st[i].n != n || st[i].n_c != nc) c.fail("size", "asked for %d bodies and %d rows, got %d and %d", n, nc, st[i].n, st[i].n_c);
                poke(i);
                c.count("resizes");
                break;
            }
            case 2: // same size: keeps its contents
                op = "same-size resize";
                st[i].resize(st[i].n, st[i].n_c);
                c.count("same_size_resizes");
                break;
            case 3: case 4: { // copy from another
                const int j = (i + 1 + r.below(K - 1)) % K;
                op = "copy";
                const int on = st[i].n, onc = st[i].n_c;
                st[i].copy(&st[j]);
                StateImage want = model[j];
                StateImage now = StateImage::of(st[i]);
                want.dt = now.dt;
                if (!(now == want)) c.fail("copy", "the copy of a state with %d bodies and %d rows into one with %d and %d differs from it", st[j].n, st[j].n_c, on, onc);
                model[i] = now;
                c.count("copies");
                if (st[j].n == 0 && st[j].n_c > 0) c.count("copies_rows_only");
                if (on != st[i].n || onc != st[i].n_c) c.count("copies_resizing");
                break;
            }
            case 5: op = "rewrite"; poke(i); break;
            default: // give everything back, then use again
                op = "destroy";
                st[i].destroy();
                if (st[i].n != 0 || st[i].n_c != 0) c.fail("destroy", "a destroyed state reports %d bodies and %d rows", st[i].n, st[i].n_c);
                model[i] = StateImage::of(st[i]);
                c.count("destroys");
                break;
        }
        for (int q = 0; q < K; ++q) check(q, op); // the others must not notice
        c.shape((uint64_t)(op[0] * 131 + op[1])); c.shape((uint64_t)st[i].n * 1000 + (uint64_t)st[i].n_c);
        if (st[i].n + st[i].n_c > 0) ++real;
        c.count("operations");
    }
    if (real > 2) c.nontrivial = true;
    c.sample("%d operations on %d states, sizes up to %d", ops, K, cap);
}

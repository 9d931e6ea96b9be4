// C16: sparse block matrices against their dense expansion, in any history.
#include "scene.h"
const char *const kCheckId = "C16";
using namespace vf;

namespace {
template <int S, int E> struct Sh {
    int blocks = 0, h = 0;
    struct Row { int b[E]; double v[E][S]; };
    std::vector<Row> rows;
    void size(int B, int H) {
        blocks = B; h = H;
        Row e;
        for (int k = 0; k < E; ++k) { e.b[k] = -1; for (int i = 0; i < S; ++i) e.v[k][i] = 0; }
        rows.assign(H, e);
    }
    double at(int col, int row) const {
        for (int k = 0; k < E; ++k) if (rows[row].b[k] == col / S) return rows[row].v[k][col % S];
        return 0;
    }
};
double val(Rng &r) { return r.chance(0.15) ? 0 : (double)r.range(-1048576, 1048576); }

void dirty(Rng &r, Mat &t) { // a target with any previous shape, contents and row order
    if (r.chance(0.3)) return;
    t.initialize(r.below(9), r.below(9), 12345.0);
    if (t.getHeight() > 1) t.fastRowSwap(0, t.getHeight() - 1);
}
template <int S, int E> void dirtySparse(Rng &r, Sp<S, E> &t) {
    if (r.chance(0.3)) return;
    const int b = r.range(1, 400), h = r.range(0, 9);
    t.initialize(b * S, h);
    for (int i = 0; i < h; ++i) for (int k = 0; k < E; ++k) {
        t.setBlock(i, k, (r.below(b) / E) * 1 % b);
        for (int j = 0; j < S; ++j) t.set(i, k, j, 777.0);
    }
}

template <int S, int E> void fill(Ctx &c, Sp<S, E> &m, Sh<S, E> &s) {
    Rng &r = c.rng;
    for (int i = 0; i < s.h; ++i) {
        int used[E]; int nu = 0;
        const int mode = r.below(6); // 0: empty row, 1: full, otherwise mixed
        // entries may be filled in any position and any order
        for (int q = 0; q < E; ++q) {
            const int k = q;
            if (mode == 0 || (mode != 1 && r.chance(0.35)) || s.blocks == 0) {
                if (r.chance(0.3)) m.setEmpty(i, k);
                continue;
            }
            int b = 0; bool ok = false;
            for (int tries = 0; tries < 8 && !ok; ++tries) {
                b = r.chance(0.3) ? s.blocks - 1 - r.below(s.blocks < 3 ? s.blocks : 3) : r.below(s.blocks);
                ok = true;
                for (int x = 0; x < nu; ++x) if (used[x] == b) ok = false;
            }
            if (!ok) continue;
            used[nu++] = b;
            m.setBlock(i, k, b);
            s.rows[i].b[k] = b;
            for (int j = 0; j < S; ++j) {
                if (r.chance(0.1)) continue; // untouched entries of a set block are zero
                const double v = val(r);
                m.set(i, k, j, v); s.rows[i].v[k][j] = v;
            }
        }
    }
}

template <int S, int E> void same(Ctx &c, Sp<S, E> &m, const Sh<S, E> &s, const char *op) {
    if (m.getWidth() != s.blocks * S || m.getHeight() != s.h)
        c.fail("shape", "after %s: %dx%d, expected %dx%d", op, m.getWidth(), m.getHeight(), s.blocks * S, s.h);
    for (int i = 0; i < s.h; ++i) for (int k = 0; k < E; ++k) for (int j = 0; j < S; ++j)
        if (!(m.get(i, k, j) == s.rows[i].v[k][j]))
            c.fail("entry", "after %s: stored entry (%d,%d,%d) is %.17g, expected %.17g", op, i, k, j, m.get(i, k, j), s.rows[i].v[k][j]);
}

template <int S, int E> void expandsTo(Ctx &c, Sp<S, E> &m, const Sh<S, E> &s, const char *op) {
    Mat d;
    dirty(c.rng, d);
    m.expand(&d);
    if (d.getWidth() != s.blocks * S || d.getHeight() != s.h) c.fail("expand", "after %s: expansion is %dx%d", op, d.getWidth(), d.getHeight());
    for (int i = 0; i < s.h; ++i) for (int j = 0; j < s.blocks * S; ++j)
        if (!(d.get(j, i) == s.at(j, i)))
            c.fail("expand", "after %s (%d blocks wide): expansion [%d,%d] is %.17g, expected %.17g", op, s.blocks, j, i, d.get(j, i), s.at(j, i));
}

template <int S, int E> void session(Ctx &c) {
    Rng &r = c.rng;
    Sp<S, E> m, n, ts;
    Sp<S, 2> t2;
    Sh<S, E> s, sn;
    auto blocksOf = [&]() {
        switch (r.below(9)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return r.range(200, 300);
            case 3: return r.chance(0.02) ? r.range(32700, 66500) : c.thorough ? r.range(1000, 20000) : r.range(300, 2500);
            default: return r.range(1, 8);
        }
    };
    const int rounds = r.range(1, 5);
    for (int q = 0; q < rounds; ++q) {
        const int B = blocksOf();
        const int H = B > 50 ? r.below(7) : r.chance(0.1) ? r.range(20, 60) : r.below(10);
        if (r.chance(0.15)) m.destroy();
        if (r.chance(0.3)) m.resize(r.below(5) * S, r.below(12)); // any earlier shape
        m.initialize(B * S, H);
        s.size(B, H);
        expandsTo(c, m, s, "initialize");
        fill(c, m, s);
        // overwrite some rows again
        if (H && r.chance(0.5)) {
            const int i = r.below(H);
            for (int k = 0; k < E; ++k) if (r.chance(0.5)) {
                m.setEmpty(i, k); s.rows[i].b[k] = -1;
                for (int j = 0; j < S; ++j) s.rows[i].v[k][j] = 0;
            }
        }
        if (r.chance(0.3)) m.resize(B * S, H); // same size: nothing changes
        same(c, m, s, "filling");
        expandsTo(c, m, s, "filling");
        const int W = B * S;
        {
            Mat d; dirty(r, d);
            m.expandTransposed(&d);
            if (d.getWidth() != H || d.getHeight() != W) c.fail("expandTransposed", "shape %dx%d", d.getWidth(), d.getHeight());
            for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j)
                if (!(d.get(i, j) == s.at(j, i))) c.fail("expandTransposed", "[%d,%d] is %.17g, expected %.17g", i, j, d.get(i, j), s.at(j, i));
        }
        {   // other operand with the same width
            const int H2 = r.below(8);
            n.initialize(W, H2); sn.size(B, H2);
            fill(c, n, sn);
            if (H && H2 && r.chance(0.6)) { // make sure blocks meet, in any entry position
                const int i = r.below(H), j = r.below(H2), k = r.below(E), l = r.below(E);
                bool clash = s.rows[i].b[k] < 0;
                for (int x = 0; x < E; ++x) if (x != l && sn.rows[j].b[x] == s.rows[i].b[k]) clash = true;
                if (!clash) { n.setBlock(j, l, s.rows[i].b[k]); sn.rows[j].b[l] = s.rows[i].b[k];
                    for (int x = 0; x < S; ++x) { const double v = val(r); n.set(j, l, x, v); sn.rows[j].v[l][x] = v; } }
            }
            Mat d; dirty(r, d);
            m.multiplyTranspose(n, &d);
            if (d.getWidth() != H2 || d.getHeight() != H) c.fail("multiplyTranspose", "shape %dx%d, expected %dx%d", d.getWidth(), d.getHeight(), H2, H);
            for (int i = 0; i < H; ++i) for (int j = 0; j < H2; ++j) {
                double v = 0;
                for (int k = 0; k < E; ++k) if (s.rows[i].b[k] >= 0) for (int x = 0; x < S; ++x)
                    v += s.rows[i].v[k][x] * sn.at(s.rows[i].b[k] * S + x, j);
                if (!(d.get(j, i) == v)) c.fail("multiplyTranspose", "[%d,%d] is %.17g, expected %.17g (%d blocks wide)", j, i, d.get(j, i), v, B);
            }
            same(c, n, sn, "multiplyTranspose (right operand)");
            if (r.chance(0.5)) { // with itself, as the solvers use it
                Mat e; dirty(r, e);
                m.multiplyTranspose(m, &e);
                for (int i = 0; i < H; ++i) for (int j = 0; j < H; ++j) {
                    double v = 0;
                    for (int k = 0; k < E; ++k) if (s.rows[i].b[k] >= 0) for (int x = 0; x < S; ++x)
                        v += s.rows[i].v[k][x] * s.at(s.rows[i].b[k] * S + x, j);
                    if (!(e.get(j, i) == v)) c.fail("multiplyTranspose", "self [%d,%d] is %.17g, expected %.17g", j, i, e.get(j, i), v);
                }
            }
        }
        {   // dense operand, possibly with permuted rows
            const int w2 = r.range(1, 3);
            Mat b(w2, W), d;
            for (int i = 0; i < W; ++i) for (int j = 0; j < w2; ++j) b.set(j, i, val(r));
            if (W > 1) b.fastRowSwap(0, W - 1);
            std::vector<double> keep;
            for (int i = 0; i < W; ++i) for (int j = 0; j < w2; ++j) keep.push_back(b.get(j, i));
            dirty(r, d);
            m.multiply(b, &d);
            if (d.getWidth() != w2 || d.getHeight() != H) c.fail("multiply", "shape %dx%d, expected %dx%d", d.getWidth(), d.getHeight(), w2, H);
            for (int i = 0; i < H; ++i) for (int j = 0; j < w2; ++j) {
                double v = 0;
                for (int k = 0; k < E; ++k) if (s.rows[i].b[k] >= 0) for (int x = 0; x < S; ++x)
                    v += s.rows[i].v[k][x] * keep[(size_t)(s.rows[i].b[k] * S + x) * w2 + j];
                if (!(d.get(j, i) == v)) c.fail("multiply", "[%d,%d] is %.17g, expected %.17g (%d blocks wide)", j, i, d.get(j, i), v, B);
            }
            for (int i = 0; i < W; ++i) for (int j = 0; j < w2; ++j)
                if (!(b.get(j, i) == keep[(size_t)i * w2 + j])) c.fail("operand", "multiply changed its operand");
        }
        {
            Mat b(1, H), d;
            for (int i = 0; i < H; ++i) b.set(0, i, val(r));
            dirty(r, d);
            m.transposeMultiplyVector(b, &d);
            if (d.getWidth() != 1 || d.getHeight() != W) c.fail("transposeMultiplyVector", "shape %dx%d, expected 1x%d", d.getWidth(), d.getHeight(), W);
            std::vector<double> want(W, 0.0);
            for (int i = 0; i < H; ++i) for (int k = 0; k < E; ++k) if (s.rows[i].b[k] >= 0) for (int x = 0; x < S; ++x)
                want[s.rows[i].b[k] * S + x] += s.rows[i].v[k][x] * b.get(0, i);
            for (int j = 0; j < W; ++j)
                if (!(d.get(0, j) == want[j])) c.fail("transposeMultiplyVector", "[%d] is %.17g, expected %.17g (%d blocks wide)", j, d.get(0, j), want[j], B);
        }
        if (E <= 2) {
            Mat sc(1, W), sl(1, H);
            for (int i = 0; i < W; ++i) sc.set(0, i, val(r));
            for (int i = 0; i < H; ++i) sl.set(0, i, val(r));
            for (int side = 0; side < 2; ++side) {
                dirtySparse<S, 2>(r, t2);
                const char *op = side ? "leftScale" : "rightScale";
                if (side) m.leftScale(sl, &t2); else m.rightScale(sc, &t2);
                Sh<S, 2> e; e.size(B, H);
                for (int i = 0; i < H; ++i) for (int k = 0; k < E && k < 2; ++k) if (s.rows[i].b[k] >= 0) {
                    e.rows[i].b[k] = s.rows[i].b[k];
                    for (int x = 0; x < S; ++x)
                        e.rows[i].v[k][x] = s.rows[i].v[k][x] * (side ? sl.get(0, i) : sc.get(0, s.rows[i].b[k] * S + x));
                }
                same(c, t2, e, op);
                expandsTo(c, t2, e, op);
            }
        }
        same(c, m, s, "being an operand");
        expandsTo(c, m, s, "being an operand");
        c.count("rounds");
        c.max("max_blocks_wide", B);
        c.max("max_rows", H);
        if (B > 255) c.count("rounds_wider_than_255_blocks");
        c.shape((uint64_t)B * 1000 + H);
        for (auto &x : s.rows) for (int k = 0; k < E; ++k) c.shape((uint64_t)(x.b[k] + 1));
        if (B && H) c.nontrivial = true;
        c.sample("<%d,%d>: %d blocks x %d rows, round %d", S, E, B, H, q);
    }
}
}

void run_case(Ctx &c) {
    switch (c.rng.below(10)) {
        case 0: session<2, 2>(c); c.count("cases_2x2"); break;
        case 1: session<1, 3>(c); c.count("cases_1x3"); break;
        case 2: session<4, 1>(c); c.count("cases_4x1"); break;
        default: session<3, 2>(c); c.count("cases_3x2"); break;
    }
}

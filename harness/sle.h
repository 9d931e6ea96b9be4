// Random (J, W, b) systems handed straight to the linear solvers.
#ifndef VERIF_SLE_H
#define VERIF_SLE_H
#include "scene.h"
namespace vf {

struct Sys {
    int m = 0, blocks = 0;
    struct Row { int b[2] = {-1, -1}; double v[2][3] = {{0}}; };
    std::vector<Row> rows;
    std::vector<double> W, b, lo, hi;
    std::vector<double> A, absA;    // J W J^T and |J||W||J|^T
    double at(int i, int col) const {
        for (int k = 0; k < 2; ++k) if (rows[i].b[k] == col / 3) return rows[i].v[k][col % 3];
        return 0;
    }
    void finish() {
        A.assign((size_t)m * m, 0); absA.assign((size_t)m * m, 0);
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) {
            long double s = 0, t = 0;
            for (int k = 0; k < 2; ++k) if (rows[i].b[k] >= 0) for (int x = 0; x < 3; ++x) {
                const long double p = (long double)rows[i].v[k][x] * W[rows[i].b[k] * 3 + x] * at(j, rows[i].b[k] * 3 + x);
                s += p; t += fabsl(p);
            }
            A[(size_t)i * m + j] = (double)s; absA[(size_t)i * m + j] = (double)t;
        }
    }
    void load(Sp<> &J, Mat &Wm, Mat &r) const {
        J.initialize(3 * blocks, m);
        for (int i = 0; i < m; ++i) for (int k = 0; k < 2; ++k) if (rows[i].b[k] >= 0) {
            J.setBlock(i, k, rows[i].b[k]);
            for (int x = 0; x < 3; ++x) J.set(i, k, x, rows[i].v[k][x]);
        }
        Wm.initialize(1, 3 * blocks);
        for (int i = 0; i < 3 * blocks; ++i) Wm.set(0, i, W[i]);
        r.initialize(1, m);
        for (int i = 0; i < m; ++i) r.set(0, i, b[i]);
    }
    // row-wise residual of a candidate solution and the magnitude it is made of
    void residual(const std::vector<double> &x, std::vector<double> &r, std::vector<double> &scale) const {
        r.assign(m, 0); scale.assign(m, 0);
        for (int i = 0; i < m; ++i) {
            long double s = -(long double)b[i], t = std::fabs(b[i]);
            for (int j = 0; j < m; ++j) { s += (long double)A[(size_t)i * m + j] * x[j]; t += (long double)absA[(size_t)i * m + j] * std::fabs(x[j]); }
            r[i] = (double)s; scale[i] = (double)t;
        }
    }
    bool dominant(double ratio) const {
        for (int i = 0; i < m; ++i) {
            double off = 0;
            for (int j = 0; j < m; ++j) if (j != i) off += std::fabs(A[(size_t)i * m + j]);
            if (!(A[(size_t)i * m + i] > 0) || off > ratio * A[(size_t)i * m + i]) return false;
        }
        return true;
    }
    // smallest relative pivot of Gaussian elimination with full pivoting (0 = singular)
    double pivotQuality() const {
        std::vector<long double> M(A.begin(), A.end());
        long double amax = 0;
        for (auto v : M) amax = fmaxl(amax, fabsl(v));
        if (m == 0) return 1;
        if (!(amax > 0)) return 0;
        long double worst = 1;
        for (int h = 0; h < m; ++h) {
            int pi = h, pj = h;
            for (int i = h; i < m; ++i) for (int j = h; j < m; ++j)
                if (fabsl(M[(size_t)i * m + j]) > fabsl(M[(size_t)pi * m + pj])) { pi = i; pj = j; }
            const long double p = M[(size_t)pi * m + pj];
            worst = fminl(worst, fabsl(p) / amax);
            if (!(fabsl(p) > 0)) return 0;
            for (int j = 0; j < m; ++j) std::swap(M[(size_t)h * m + j], M[(size_t)pi * m + j]);
            for (int i = 0; i < m; ++i) std::swap(M[(size_t)i * m + h], M[(size_t)i * m + pj]);
            for (int i = h + 1; i < m; ++i) {
                const long double f = M[(size_t)i * m + h] / M[(size_t)h * m + h];
                for (int j = h; j < m; ++j) M[(size_t)i * m + j] -= f * M[(size_t)h * m + j];
            }
        }
        return (double)worst;
    }
};

// weights: 0 positive, 1 some zero, 2 mixed sign
inline Sys randomSys(Rng &r, int weights, bool thorough, bool wantDominant = false) {
    Sys s;
    const bool large = r.chance(0.0006);
    for (int tries = 0;; ++tries) {
        s = Sys();
        const bool wide = r.chance(0.08);
        s.m = tries < 20 && large ? r.range(30, 130) : r.chance(0.06) ? 0 : r.chance(0.12) ? r.range(10, thorough ? 40 : 24) : r.range(1, 8);
        s.blocks = wide ? r.range(200, 420) : (s.m == 0 && r.chance(0.5)) ? 0 : r.range(1 + (2 * s.m) / 5, 2 + s.m);
        if (wantDominant) s.blocks = std::max(s.blocks, s.m + r.below(3));
        s.rows.resize(s.m);
        for (int i = 0; i < s.m; ++i) {
            Sys::Row &q = s.rows[i];
            int a = wide && r.chance(0.5) ? s.blocks - 1 - r.below(3) : r.below(s.blocks);
            if (wantDominant && r.chance(0.7)) a = i % s.blocks;
            const int slot = r.below(2);
            q.b[slot] = a;
            if (s.blocks > 1 && r.chance(wantDominant ? 0.4 : 0.7)) {
                int b = r.below(s.blocks - 1);
                q.b[1 - slot] = b >= a ? b + 1 : b;
            }
            for (int k = 0; k < 2; ++k) if (q.b[k] >= 0) for (int x = 0; x < 3; ++x)
                q.v[k][x] = r.chance(0.15) ? 0.0 : r.chance(0.2) ? (r.chance(0.5) ? 1.0 : -1.0) : r.uniform(-3, 3) * ((wantDominant && k != slot) ? 0.25 : 1.0);
        }
        s.W.resize(3 * s.blocks);
        const double spread = r.chance(0.3) ? 100 : 4;
        for (double &w : s.W) {
            w = r.logUniform(1 / spread, spread);
            if (weights >= 1 && r.chance(0.2)) w = 0;
            if (weights == 2 && r.chance(0.3)) w = -w;
        }
        const double bs = r.logUniform(0.01, 1000);
        s.b.resize(s.m);
        for (double &v : s.b) v = r.chance(0.15) ? 0.0 : r.uniform(-bs, bs);
        if (r.chance(0.05)) for (double &v : s.b) v = 0;
        s.finish();
        if (wantDominant) { if (s.dominant(0.5) || tries > 60) return s; continue; }
        if (weights == 0 && !(cholQuality(s.A, s.m) > 1e-5)) { if (tries < 60) continue; s.m = 0; s.rows.clear(); s.b.clear(); s.finish(); }
        return s;
    }
}

struct Frozen { // snapshot of the inputs, to show they stay untouched
    std::vector<double> J, W, r, l, p;
    static void add(Matrix &m, std::vector<double> &o) {
        o.push_back(m.getWidth()); o.push_back(m.getHeight());
        for (int i = 0; i < m.getHeight(); ++i) for (int j = 0; j < m.getWidth(); ++j) o.push_back(m.get(j, i));
    }
    static Frozen of(Sp<> &J, Mat &W, Mat &r, Mat *l, Mat *p) {
        Frozen f;
        Mat d; J.expand(&d); add(d, f.J);
        for (int i = 0; i < J.getHeight(); ++i) for (int k = 0; k < 2; ++k) for (int x = 0; x < 3; ++x) f.J.push_back(J.get(i, k, x));
        add(W, f.W); add(r, f.r);
        if (l) add(*l, f.l);
        if (p) add(*p, f.p);
        return f;
    }
    bool operator==(const Frozen &o) const {
        auto eq = [](const std::vector<double> &a, const std::vector<double> &b) {
            return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double)));
        };
        return eq(J, o.J) && eq(W, o.W) && eq(r, o.r) && eq(l, o.l) && eq(p, o.p);
    }
};
} // namespace vf
#endif

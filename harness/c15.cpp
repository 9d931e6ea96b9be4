// C15: dense matrix operations against an exact integer shadow, in any history.
#include "scene.h"
const char *const kCheckId = "C15";
using namespace vf;

namespace {
struct Sh {
    int w = 0, h = 0;
    std::vector<double> v;
    double &at(int c, int r) { return v[(size_t)r * w + c]; }
    double at(int c, int r) const { return v[(size_t)r * w + c]; }
    void size(int W, int H, double x = 0) { w = W; h = H; v.assign((size_t)W * H, x); }
};
const double kBig = 1048576.0; // products of two such values and sums of many stay exact
double val(Rng &r) {
    switch (r.below(5)) {
        case 0: return 0;
        case 1: return r.range(-3, 3);
        default: return (double)r.range(-1048576, 1048576);
    }
}
void verify(Ctx &c, Mat *m, const Sh *s, int count, const char *op) {
    for (int k = 0; k < count; ++k) {
        if (m[k].getWidth() != s[k].w || m[k].getHeight() != s[k].h)
            c.fail("shape", "after %s matrix %d is %dx%d, expected %dx%d", op, k, m[k].getWidth(), m[k].getHeight(), s[k].w, s[k].h);
        for (int i = 0; i < s[k].h; ++i) for (int j = 0; j < s[k].w; ++j)
            if (!(m[k].get(j, i) == s[k].at(j, i)))
                c.fail("entry", "after %s matrix %d [%d,%d] is %.17g, expected %.17g", op, k, j, i, m[k].get(j, i), s[k].at(j, i));
    }
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int N = 5;
    Mat m[N];
    Sh s[N];
    const bool huge = r.chance(0.0015);
    const int maxDim = huge ? 200 : r.chance(0.1) ? 40 : r.chance(0.5) ? 4 : 9;
    const bool longVectors = r.chance(0.01);
    auto dim = [&]() { return r.chance(0.08) ? 0 : r.range(1, maxDim); };
    std::vector<double> buf;
    auto fresh = [&](int k) {
        buf.resize((size_t)s[k].w * s[k].h + 1);
        for (auto &x : buf) x = val(r);
        m[k].set(buf.data());
        for (size_t i = 0; i < s[k].v.size(); ++i) s[k].v[i] = buf[i];
    };
    auto shaped = [&](int k, int w, int h) { // give matrix k a wanted shape and values
        if (r.chance(0.5)) m[k].resize(w, h); else m[k].initialize(w, h);
        s[k].size(w, h);
        fresh(k);
        if (h > 1 && r.chance(0.4)) {
            const int a = r.below(h), b = r.below(h);
            m[k].fastRowSwap(a, b);
            for (int j = 0; j < w; ++j) std::swap(s[k].at(j, a), s[k].at(j, b));
        }
    };
    auto other = [&](int a) { int b = r.below(N - 1); return b >= a ? b + 1 : b; };
    for (int k = 0; k < N; ++k) {
        if (m[k].getWidth() != 0 || m[k].getHeight() != 0) c.fail("shape", "a new matrix is not empty");
        if (r.chance(0.8)) shaped(k, dim(), dim());
    }
    {   // constructor with size
        const int w = dim(), h = dim();
        const double v = val(r);
        Mat t(w, h, v);
        if (t.getWidth() != w || t.getHeight() != h) c.fail("shape", "Matrix(%d,%d) is %dx%d", w, h, t.getWidth(), t.getHeight());
        for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) if (!(t.get(j, i) == v)) c.fail("entry", "Matrix(w,h,value) entry");
    }
    const int ops = huge ? r.range(6, 15) : c.thorough ? r.range(20, 120) : r.range(15, 50);
    long done = 0;
    for (int o = 0; o < ops; ++o) {
        const int a = r.below(N);
        int b = other(a);
        int t = r.below(N - 2); // distinct from a and b
        for (int k = 0, q = 0; k < N; ++k) { if (k == a || k == b) continue; if (q++ == t) { t = k; break; } }
        const char *op = "";
        const int W = s[a].w, H = s[a].h;
        switch (r.below(24)) {
            case 0: { op = "initialize(w,h,v)"; const int w = dim(), h = dim(); const double v = val(r);
                m[a].initialize(w, h, v); s[a].size(w, h, v); break; }
            case 1: { op = "initialize(w,h)"; const int w = dim(), h = dim(); m[a].initialize(w, h); s[a].size(w, h); break; }
            case 2: { op = "resize"; const int w = dim(), h = dim(); m[a].resize(w, h);
                if (w != W || h != H) { s[a].size(w, h); fresh(a); } break; }
            case 3: { op = "set(c,r,v)"; if (!W || !H) break;
                const int x = r.below(W), y = r.below(H); const double v = val(r); m[a].set(x, y, v); s[a].at(x, y) = v; break; }
            case 4: { op = "add(c,r,v)"; if (!W || !H) break;
                const int x = r.below(W), y = r.below(H); const double v = val(r); m[a].add(x, y, v); s[a].at(x, y) += v; break; }
            case 5: op = "set(data)"; fresh(a); break;
            case 6: op = "set(matrix)"; m[t].set(&m[a]); s[t] = s[a]; break;
            case 7: { op = "fastRowSwap"; if (H < 2) break; const int x = r.below(H), y = r.below(H);
                m[a].fastRowSwap(x, y); for (int j = 0; j < W; ++j) std::swap(s[a].at(j, x), s[a].at(j, y)); break; }
            case 8: op = "destroy"; if (r.chance(0.3)) { m[a].destroy(); s[a].size(0, 0); } break;
            case 9: case 10: { op = "multiply"; shaped(b, dim(), W);
                m[a].multiply(m[b], &m[t]); s[t].size(s[b].w, H);
                for (int i = 0; i < H; ++i) for (int j = 0; j < s[b].w; ++j) { double v = 0; for (int k = 0; k < W; ++k) v += s[a].at(k, i) * s[b].at(j, k); s[t].at(j, i) = v; } break; }
            case 11: { op = "componentMultiply"; shaped(b, W, H); m[a].componentMultiply(m[b], &m[t]); s[t].size(W, H);
                for (size_t i = 0; i < s[t].v.size(); ++i) s[t].v[i] = s[a].v[i] * s[b].v[i]; break; }
            case 12: { op = "transposeMultiply"; shaped(b, dim(), H); m[a].transposeMultiply(m[b], &m[t]); s[t].size(s[b].w, W);
                for (int i = 0; i < W; ++i) for (int j = 0; j < s[b].w; ++j) { double v = 0; for (int k = 0; k < H; ++k) v += s[a].at(i, k) * s[b].at(j, k); s[t].at(j, i) = v; } break; }
            case 13: { op = "leftScale"; shaped(b, 1, H); m[a].leftScale(m[b], &m[t]); s[t].size(W, H);
                for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j) s[t].at(j, i) = s[a].at(j, i) * s[b].at(0, i); break; }
            case 14: { op = "rightScale"; shaped(b, 1, W); m[a].rightScale(m[b], &m[t]); s[t].size(W, H);
                for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j) s[t].at(j, i) = s[a].at(j, i) * s[b].at(0, j); break; }
            case 15: { op = "scale"; const double k = val(r); m[a].scale(k, &m[t]); s[t].size(W, H);
                for (size_t i = 0; i < s[t].v.size(); ++i) s[t].v[i] = s[a].v[i] * k; break; }
            case 16: { op = "subtract"; shaped(b, W, H); m[a].subtract(m[b], &m[t]); s[t].size(W, H);
                for (size_t i = 0; i < s[t].v.size(); ++i) s[t].v[i] = s[a].v[i] - s[b].v[i]; break; }
            case 17: { op = "add"; shaped(b, W, H); m[a].add(m[b], &m[t]); s[t].size(W, H);
                for (size_t i = 0; i < s[t].v.size(); ++i) s[t].v[i] = s[a].v[i] + s[b].v[i]; break; }
            case 18: op = "negate"; m[a].negate(&m[t]); s[t].size(W, H); for (size_t i = 0; i < s[t].v.size(); ++i) s[t].v[i] = -s[a].v[i]; break;
            case 19: { op = "transpose"; m[a].transpose(&m[t]); s[t].size(H, W);
                for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j) s[t].at(i, j) = s[a].at(j, i); break; }
            case 20: { op = "madd"; shaped(b, W, H); const double k = val(r); m[a].madd(m[b], k);
                for (size_t i = 0; i < s[a].v.size(); ++i) s[a].v[i] += s[b].v[i] * k; break; }
            case 21: { op = "pmadd"; shaped(b, W, H); const double k = val(r); m[a].pmadd(m[b], k);
                for (size_t i = 0; i < s[a].v.size(); ++i) s[a].v[i] = k * s[a].v[i] + s[b].v[i]; break; }
            case 22: { op = "dot"; const int h = longVectors ? r.range(100, 5000) : dim(); shaped(a, 1, h); shaped(b, 1, h);
                if (h > 100) c.count("long_dots");
                double d = 0, q = 0; for (int i = 0; i < h; ++i) { d += s[a].v[i] * s[b].v[i]; q += s[a].v[i] * s[a].v[i]; }
                if (!(m[a].dot(m[b]) == d)) c.fail("dot", "dot of height %d: %.17g, expected %.17g", h, m[a].dot(m[b]), d);
                if (!(m[a].vectorMagnitudeSquared() == q)) c.fail("dot", "vectorMagnitudeSquared of height %d: %.17g, expected %.17g", h, m[a].vectorMagnitudeSquared(), q);
                break; }
            default: {
                op = "equals";
                const int mode = r.below(4);
                if (mode == 0) { m[b].set(&m[a]); s[b] = s[a]; }
                else if (mode == 1 && W && H) { m[b].set(&m[a]); s[b] = s[a]; const int x = r.below(W), y = r.below(H); const double d = r.chance(0.5) ? 1 : -1; m[b].add(x, y, d); s[b].at(x, y) += d; }
                bool same = s[a].w == s[b].w && s[a].h == s[b].h;
                const double errs[] = {1e-6, 0.5, 2.0, 0.0};
                const double err = errs[r.below(4)];
                if (same) for (size_t i = 0; i < s[a].v.size(); ++i) if (std::fabs(s[a].v[i] - s[b].v[i]) > err) same = false;
                if (m[a].equals(m[b], err) != same) c.fail("equals", "equals(%g) says %d for %dx%d vs %dx%d", err, !same, s[a].w, s[a].h, s[b].w, s[b].h);
                if (err == 1e-6 && m[a].equals(m[b]) != same) c.fail("equals", "equals() disagrees");
                break;
            }
        }
        verify(c, m, s, N, op);
        for (int k = 0; k < N; ++k) {
            bool big = false;
            for (double x : s[k].v) if (std::fabs(x) > kBig) big = true;
            if (big) fresh(k);
        }
        c.shape(op[0] + 256 * (uint64_t)op[1] + 65536 * (uint64_t)(W * 64 + H));
        ++done;
        if (W > 64 || H > 64) c.count("operations_beyond_64");
    }
    verify(c, m, s, N, "the last overwrite");
    c.count("operations_checked", done);
    c.nontrivial = true;
    c.sample("%ld operations on %d matrices of dimension up to %d", done, N, maxDim);
}

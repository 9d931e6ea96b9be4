// Per-step laws shared by several checks, judged against the reference model.
#ifndef VERIF_LAWS_H
#define VERIF_LAWS_H
#include "scene.h"

namespace vf {

inline std::vector<Pose> statePoses(World &w, const SystemState *s) {
    std::vector<Pose> r(w.bodies.size());
    for (size_t i = 0; i < w.bodies.size(); ++i) {
        const int k = w.bodies[i]->index;
        r[i].q[0] = s->p_x[k]; r[i].q[1] = s->p_y[k]; r[i].q[2] = s->theta[k];
        r[i].v[0] = s->v_x[k]; r[i].v[1] = s->v_y[k]; r[i].v[2] = s->v_theta[k];
    }
    return r;
}

// rows of the last solve recorded by the spy are in the order of w.cons
inline bool spyUsable(World &w, const RefSystem &R) { return (int)w.spy->x.size() == R.m; }

// slack granted to the iterative solvers, per row
inline double solverSlack(World &w, const RefSystem &R, const std::vector<double> &A, int i) {
    const SpySolver &s = *w.spy;
    if (w.solverKind == S_CG) return 1.05 * std::fmax(1e-13 * std::fabs(s.b[i]), 1e-11);
    if (w.solverKind == S_GS) {
        double t = 0;
        for (int j = 0; j < R.m; ++j) if (j != i)
            t += std::fabs(A[(size_t)i * R.m + j]) * std::fmax(1e-3, std::fabs(s.x[j]));
        return 2.2e-12 * t;
    }
    return 0;
}
// a starting guess far from the solution leaves rounding residue in CG's recurrence
inline double cgDrift(World &w, const RefSystem &R, const std::vector<double> &A) {
    if (w.solverKind != S_CG) return 0;
    double t = 0;
    for (int i = 0; i < R.m; ++i) {
        double row = std::fabs(w.spy->b[i]);
        for (int j = 0; j < R.m; ++j) {
            double g = std::fabs(w.spy->x[j]);
            if ((int)w.spy->guess.size() == R.m && std::isfinite(w.spy->guess[j])) g += 1e-3 * std::fabs(w.spy->guess[j]);
            row += std::fabs(A[(size_t)i * R.m + j]) * g;
        }
        t = std::fmax(t, row);
    }
    return 1e-9 * t;
}

// elimination carries the rounding of its largest pivot row into every row
inline double geDrift(World &w, const RefSystem &R, const std::vector<double> &A) {
    if (w.solverKind != S_GE) return 0;
    double t = 0;
    for (int i = 0; i < R.m; ++i) {
        double row = std::fabs(w.spy->b[i]);
        for (int j = 0; j < R.m; ++j) row += std::fabs(A[(size_t)i * R.m + j]) * std::fabs(w.spy->x[j]);
        t = std::fmax(t, row);
    }
    return 1e-13 * t;
}

inline double floorTol(World &w) { return w.solverKind == S_GE ? 1e-11 : w.solverKind == S_CG ? 1e-8 : 1e-9; }

// velocity-level law; returns number of rows judged
inline int nsvLaw(Ctx &c, World &w, const std::vector<Pose> &pre, double dt, const char *key,
                  const std::vector<Pose> *after = nullptr) {
    const RefSystem R = refSystem(w.spec, pre);
    if (!spyUsable(w, R)) c.fail(key, "solver saw %d rows, scene has %d", (int)w.spy->x.size(), R.m);
    const std::vector<double> A = refA(R);
    const std::vector<Pose> post = after ? *after : w.poses();
    const double drift = cgDrift(w, R, A) + geDrift(w, R, A), ext = extent(w.spec, pre);
    int judged = 0;
    for (int i = 0; i < R.m; ++i) {
        const double x = w.spy->x[i];
        if (w.solverKind == S_GS && (x <= R.lo[i] * dt || x >= R.hi[i] * dt)) continue; // saturated
        double r = R.vb[i] + w.nsv->m_biasFactor / dt * R.C[i];
        double rowMag = 1;
        for (int k = 0; k < R.n; ++k) if (k % 3 != 2) rowMag = std::fmax(rowMag, std::fabs(R.J[(size_t)i * R.n + k]));
        double scale = std::fabs(R.vb[i]) + std::fabs(w.nsv->m_biasFactor / dt * R.C[i]);
        for (int k = 0; k < R.n; ++k) {
            const double j = R.J[(size_t)i * R.n + k];
            r += j * post[k / 3].v[k % 3];
            scale += std::fabs(j) * (std::fabs(post[k / 3].v[k % 3]) + std::fabs(pre[k / 3].v[k % 3]));
        }
        for (int k = 0; k < R.m; ++k) scale += std::fabs(A[(size_t)i * R.m + k] * w.spy->x[k]);
        const double tol = 1e-9 * scale + solverSlack(w, R, A, i) + drift + floorTol(w)
            + (1e-12 + 1e-13 * ext * rowMag) * w.nsv->m_biasFactor / dt;
        if (!near(r, 0, tol)) {
            char d[600]; describe(w.spec, d, sizeof d);
            c.fail(key, "row %d of %d: J v' + v_bias + beta/dt C = %.3g (tolerance %.3g), dt=%g beta=%g solver=%s [%s]",
                   i, R.m, r, tol, dt, w.nsv->m_biasFactor, solverName(w.solverKind), d);
        }
        ++judged;
    }
    return judged;
}

// acceleration-level law at the state of an evaluation
inline int accLaw(Ctx &c, World &w, const SystemState *s, const char *key) {
    const std::vector<Pose> P = statePoses(w, s);
    const RefSystem R = refSystem(w.spec, P);
    if (!spyUsable(w, R)) c.fail(key, "solver saw %d rows, scene has %d", (int)w.spy->x.size(), R.m);
    const std::vector<double> A = refA(R);
    const double drift = cgDrift(w, R, A) + geDrift(w, R, A), ext = extent(w.spec, P);
    for (int i = 0; i < R.m; ++i) {
        double r = R.ks[i] * R.C[i], scale = std::fabs(r) + 1e-9;
        double jv = 0, jvs = 0;
        for (int k = 0; k < R.n; ++k) {
            const int b = w.bodies[k / 3]->index;
            const double a = k % 3 == 0 ? s->a_x[b] : k % 3 == 1 ? s->a_y[b] : s->a_theta[b];
            const double f = (k % 3 == 0 ? s->f_x[b] : k % 3 == 1 ? s->f_y[b] : s->t[b]) * R.W[k];
            const double v = P[k / 3].v[k % 3];
            const double j = R.J[(size_t)i * R.n + k], jd = R.Jd[(size_t)i * R.n + k];
            r += j * a + jd * v;
            jv += j * v; jvs += std::fabs(j * v);
            scale += std::fabs(j) * (std::fabs(a) + std::fabs(f)) + std::fabs(jd * v);
        }
        r += R.kd[i] * jv; scale += std::fabs(R.kd[i]) * jvs;
        for (int k = 0; k < R.m; ++k) scale += std::fabs(A[(size_t)i * R.m + k] * w.spy->x[k]);
        const double tol = 1e-9 * scale + solverSlack(w, R, A, i) + drift + floorTol(w)
            + (std::fabs(R.ks[i]) + jvs + scale * 1e-3) * 1e-13 * ext;
        if (!near(r, 0, tol)) {
            char d[600]; describe(w.spec, d, sizeof d);
            c.fail(key, "row %d of %d: J a + J' v + ks C + kd J v = %.3g (tolerance %.3g), %s %s [%s]",
                   i, R.m, r, tol, systemName(w.sysKind), solverName(w.solverKind), d);
        }
    }
    return R.m;
}

struct Rep { double f[3][2][3]; }; // [row][body][x,y,theta]
inline Rep reported(World &w, size_t ci) {
    Rep r;
    const Constraint *k = w.cons[ci];
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 2; ++b) {
        r.f[a][b][0] = k->F_x[a][b]; r.f[a][b][1] = k->F_y[a][b]; r.f[a][b][2] = k->F_t[a][b];
    }
    return r;
}
// total reported generalised constraint force per registered body, with magnitudes
inline void totalReported(World &w, std::vector<double> &F, std::vector<double> &scale) {
    F.assign(3 * w.bodies.size(), 0.0);
    scale.assign(F.size(), 0.0);
    for (size_t i = 0; i < w.cons.size(); ++i) {
        const ConSpec &k = w.spec.cons[i];
        const Rep r = reported(w, i);
        for (int a = 0; a < conRows(k.kind); ++a) for (int b = 0; b < conBodies(k.kind); ++b) {
            if (k.b[b] < 0) continue;
            for (int x = 0; x < 3; ++x) {
                F[3 * k.b[b] + x] += r.f[a][b][x];
                scale[3 * k.b[b] + x] += std::fabs(r.f[a][b][x]);
            }
        }
    }
}

// each reported row force is a multiple of the row's Jacobian at pose set P
inline void multipleOfJ(Ctx &c, World &w, const std::vector<Pose> &P, const char *key) {
    const RefSystem R = refSystem(w.spec, P);
    for (size_t i = 0; i < w.cons.size(); ++i) {
        const ConSpec &k = w.spec.cons[i];
        const Rep f = reported(w, i);
        for (int a = 0; a < conRows(k.kind); ++a) {
            double best = 0, lambda = 0, mag = 0;
            for (int b = 0; b < conBodies(k.kind); ++b) {
                if (k.b[b] < 0) continue;
                for (int x = 0; x < 3; ++x) {
                    const double j = R.rows[i].J[a][3 * b + x];
                    mag = std::fmax(mag, std::fabs(f.f[a][b][x]));
                    if (std::fabs(j) > best) { best = std::fabs(j); lambda = f.f[a][b][x] / j; }
                }
            }
            for (int b = 0; b < conBodies(k.kind); ++b) {
                if (k.b[b] < 0) continue;
                for (int x = 0; x < 3; ++x) {
                    const double want = lambda * R.rows[i].J[a][3 * b + x];
                    if (!near(f.f[a][b][x], want, 1e-9 * (mag + std::fabs(lambda)) + 1e-12)) {
                        char d[600]; describe(w.spec, d, sizeof d);
                        c.fail(key, "constraint %d (%s) row %d body %d component %d: reported %.12g, Jacobian multiple %.12g [%s]",
                               (int)i, conName(k.kind), a, b, x, f.f[a][b][x], want, d);
                    }
                }
            }
        }
    }
}
} // namespace vf
#endif

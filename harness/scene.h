// Scene descriptions (pure data), their construction through the public API,
// and an independent reference model of every constraint and force law.
#ifndef VERIF_SCENE_H
#define VERIF_SCENE_H

#include "core.h"
#include "scs.h"

namespace vf {

using namespace atg_scs;

// ---------------------------------------------------------------- RAII shims
struct Mat : Matrix {
    Mat() {}
    Mat(int w, int h, double v = 0.0) : Matrix(w, h, v) {}
    ~Mat() { destroy(); }
    Mat(const Mat &) = delete;
    Mat &operator=(const Mat &) = delete;
};
template <int S = 3, int E = 2> struct Sp : SparseMatrix<S, E> {
    ~Sp() { this->destroy(); }
};
struct State : SystemState {
    ~State() { destroy(); }
};

// ---------------------------------------------------------------- autodiff
// value + e1 * (d/dq_j) + e2 * (d/dt) + e12 * (d2/dq_j dt)
struct HD {
    double f = 0, a = 0, b = 0, ab = 0;
    HD() {}
    HD(double v) : f(v) {}
    HD(double v, double x, double y, double z) : f(v), a(x), b(y), ab(z) {}
};
inline HD operator+(HD x, HD y) { return HD(x.f + y.f, x.a + y.a, x.b + y.b, x.ab + y.ab); }
inline HD operator-(HD x, HD y) { return HD(x.f - y.f, x.a - y.a, x.b - y.b, x.ab - y.ab); }
inline HD operator-(HD x) { return HD(-x.f, -x.a, -x.b, -x.ab); }
inline HD operator*(HD x, HD y) {
    return HD(x.f * y.f, x.a * y.f + x.f * y.a, x.b * y.f + x.f * y.b,
              x.ab * y.f + x.a * y.b + x.b * y.a + x.f * y.ab);
}
inline HD cosT(HD x) {
    const double c = std::cos(x.f), s = std::sin(x.f);
    return HD(c, -s * x.a, -s * x.b, -s * x.ab - c * x.a * x.b);
}
inline HD sinT(HD x) {
    const double c = std::cos(x.f), s = std::sin(x.f);
    return HD(s, c * x.a, c * x.b, c * x.ab - s * x.a * x.b);
}
inline double cosT(double x) { return std::cos(x); }
inline double sinT(double x) { return std::sin(x); }

// ---------------------------------------------------------------- specs
enum CKind {
    K_FIXPOS, K_FIXROT, K_LINE, K_LINK, K_ROLL, K_CROT, K_CLUTCH, K_FRICTION,
    K_GEAR, K_WELD, K_LIN, K_COUNT
};
inline const char *conName(int k) {
    static const char *n[] = {"fixpos", "fixrot", "line", "link", "roll", "crot",
                              "clutch", "friction", "gear", "weld*", "lin*"};
    return n[k];
}
enum GKind { G_GRAVITY, G_STATIC, G_SPRING, G_MOTOR, G_UNIFORM, G_ATTRACT, G_COUNT };
inline const char *genName(int k) {
    static const char *n[] = {"gravity", "static", "spring", "motor", "uniform*", "attract*"};
    return n[k];
}

struct BodySpec { double px = 0, py = 0, vx = 0, vy = 0, th = 0, w = 0, m = 1, I = 1; };
struct ConSpec {
    int kind = 0;
    int b[2] = {0, 0};              // >= 0 registered body id, -1-k = anchor k
    double p[8] = {0};
    double ks = 10, kd = 1;
    double lo = -1.7976931348623157e308, hi = 1.7976931348623157e308;
    bool neutral = false;
};
struct GenSpec {
    int kind = 0;
    int b[2] = {0, 0};
    double p[8] = {0};
};
struct Spec {
    std::vector<BodySpec> bodies;
    std::vector<BodySpec> anchors;  // never registered
    std::vector<ConSpec> cons;
    std::vector<GenSpec> gens;
    int idleFrames = 0;             // the system ran empty for so many frames before
    double idleDt = 0;
    bool partsFirst = false;        // constraints and generators are registered before the bodies
};

inline int conRows(int kind) {
    switch (kind) {
        case K_FIXPOS: case K_LINK: case K_ROLL: return 2;
        case K_WELD: return 3;
        default: return 1;
    }
}
inline int conBodies(int kind) {
    switch (kind) {
        case K_LINK: case K_ROLL: case K_CLUTCH: case K_GEAR: case K_WELD: case K_LIN: return 2;
        default: return 1;
    }
}
// rows that are derivatives of a geometric error
inline bool conPositional(int kind) {
    return kind == K_FIXPOS || kind == K_FIXROT || kind == K_LINE || kind == K_LINK
        || kind == K_ROLL || kind == K_WELD || kind == K_LIN;
}

struct Pose { double q[3] = {0, 0, 0}, v[3] = {0, 0, 0}; };

template <class T>
void geomError(const ConSpec &c, const T *q1, const T *q2, T *C) {
    switch (c.kind) {
        case K_FIXPOS: {
            const T cs = cosT(q1[2]), sn = sinT(q1[2]);
            C[0] = q1[0] + cs * T(c.p[0]) - sn * T(c.p[1]) - T(c.p[2]);
            C[1] = q1[1] + sn * T(c.p[0]) + cs * T(c.p[1]) - T(c.p[3]);
            break;
        }
        case K_FIXROT: C[0] = q1[2] - T(c.p[0]); break;
        case K_LINE: {
            const T cs = cosT(q1[2]), sn = sinT(q1[2]);
            const T x = q1[0] + cs * T(c.p[0]) - sn * T(c.p[1]) - T(c.p[2]);
            const T y = q1[1] + sn * T(c.p[0]) + cs * T(c.p[1]) - T(c.p[3]);
            C[0] = y * T(c.p[4]) - x * T(c.p[5]);
            break;
        }
        case K_LINK: {
            const T c1 = cosT(q1[2]), s1 = sinT(q1[2]);
            const T c2 = cosT(q2[2]), s2 = sinT(q2[2]);
            C[0] = (q1[0] + c1 * T(c.p[0]) - s1 * T(c.p[1])) - (q2[0] + c2 * T(c.p[2]) - s2 * T(c.p[3]));
            C[1] = (q1[1] + s1 * T(c.p[0]) + c1 * T(c.p[1])) - (q2[1] + s2 * T(c.p[2]) + c2 * T(c.p[3]));
            break;
        }
        case K_ROLL: {
            // base q1 carries a line through local point p0,p1 along p2,p3; wheel q2, radius p4
            const T cs = cosT(q1[2]), sn = sinT(q1[2]);
            const T ox = q1[0] + cs * T(c.p[0]) - sn * T(c.p[1]);
            const T oy = q1[1] + sn * T(c.p[0]) + cs * T(c.p[1]);
            const T dx = cs * T(c.p[2]) - sn * T(c.p[3]);
            const T dy = sn * T(c.p[2]) + cs * T(c.p[3]);
            const T ex = q2[0] - ox, ey = q2[1] - oy;
            const T along = ex * dx + ey * dy;
            const T height = ey * dx - ex * dy;
            // arc rolled off by the wheel relative to the base + distance travelled = 0
            C[0] = (q2[2] - q1[2]) * T(c.p[4]) + along;
            C[1] = T(c.p[4]) - height;
            break;
        }
        case K_WELD: {
            const T cs = cosT(q1[2]), sn = sinT(q1[2]);
            C[0] = q2[0] - q1[0] - cs * T(c.p[0]) + sn * T(c.p[1]);
            C[1] = q2[1] - q1[1] - sn * T(c.p[0]) - cs * T(c.p[1]);
            C[2] = q2[2] - q1[2] - T(c.p[2]);
            break;
        }
        case K_LIN: {
            T s = T(-c.p[6]);
            for (int i = 0; i < 3; ++i) s = s + T(c.p[i]) * q1[i] + T(c.p[3 + i]) * q2[i];
            C[0] = s;
            break;
        }
        default: C[0] = T(0.0); break;
    }
}

struct RefRows {
    int n = 0;
    double C[3] = {0}, J[3][6] = {{0}}, Jd[3][6] = {{0}}, vb[3] = {0};
    double lo[3], hi[3], ks[3] = {0}, kd[3] = {0};
};

inline RefRows refRows(const ConSpec &c, const Pose &A, const Pose &B) {
    RefRows r;
    r.n = conRows(c.kind);
    for (int i = 0; i < 3; ++i) {
        r.lo[i] = -1.7976931348623157e308; r.hi[i] = 1.7976931348623157e308;
        r.ks[i] = c.ks; r.kd[i] = c.kd;
    }
    if (conPositional(c.kind)) {
        for (int j = 0; j < 3 * conBodies(c.kind); ++j) {
            HD q1[3], q2[3], C[3];
            for (int i = 0; i < 3; ++i) {
                q1[i] = HD(A.q[i], j == i ? 1.0 : 0.0, A.v[i], 0.0);
                q2[i] = HD(B.q[i], j == i + 3 ? 1.0 : 0.0, B.v[i], 0.0);
            }
            geomError<HD>(c, q1, q2, C);
            for (int k = 0; k < r.n; ++k) {
                r.C[k] = C[k].f;
                r.J[k][j] = C[k].a;
                r.Jd[k][j] = C[k].ab;
            }
        }
        if (c.kind == K_LIN) r.vb[0] = c.p[7];
        if (c.kind == K_WELD) for (int k = 0; k < 3; ++k) { // every row with settings of its own
            r.vb[k] = c.p[3 + k];
            r.ks[k] *= 1 + k * c.p[6]; r.kd[k] *= 1 + (2 - k) * c.p[6];
            const double f = k == 2 ? c.p[7] : k + 1;
            if (c.p[7] != 0 && std::fabs(c.lo) < 1e300) r.lo[k] = c.lo * f;
            if (c.p[7] != 0 && std::fabs(c.hi) < 1e300) r.hi[k] = c.hi * f;
        }
        if (c.kind == K_LINK) for (int k = 0; k < 2; ++k) { r.lo[k] = -c.hi; r.hi[k] = c.hi; }
        if (c.kind == K_LIN) { r.lo[0] = c.lo; r.hi[0] = c.hi; }
        if (c.kind == K_ROLL) { r.ks[0] = 0; r.kd[0] = 0; }
    } else {
        switch (c.kind) {
            case K_CROT: r.J[0][2] = 1; r.vb[0] = c.p[0]; r.lo[0] = c.lo; r.hi[0] = c.hi; break;
            case K_FRICTION: r.J[0][2] = 1; r.lo[0] = c.lo; r.hi[0] = c.hi; break;
            case K_CLUTCH: r.J[0][2] = -1; r.J[0][5] = 1; r.lo[0] = c.lo; r.hi[0] = c.hi; break;
            case K_GEAR:
                r.J[0][2] = 1; r.J[0][5] = -c.p[0];
                if (c.neutral) r.lo[0] = r.hi[0] = 0;
                break;
        }
    }
    return r;
}

// ---------------------------------------------------------------- user-defined parts
// Poses of unregistered bodies come from the body itself, at rest.
inline Pose poseOf(const RigidBody *b, const SystemState *s) {
    Pose p;
    if (b->index < 0) { p.q[0] = b->p_x; p.q[1] = b->p_y; p.q[2] = b->theta; return p; }
    p.q[0] = s->p_x[b->index]; p.q[1] = s->p_y[b->index]; p.q[2] = s->theta[b->index];
    p.v[0] = s->v_x[b->index]; p.v[1] = s->v_y[b->index]; p.v[2] = s->v_theta[b->index];
    return p;
}
struct UserConstraint : Constraint {
    ConSpec spec;
    long *calls = nullptr;
    UserConstraint(const ConSpec &s) : Constraint(conRows(s.kind), 2), spec(s) {}
    virtual void calculate(Output *o, SystemState *s) {
        if (calls) ++*calls;
        const RefRows r = refRows(spec, poseOf(m_bodies[0], s), poseOf(m_bodies[1], s));
        for (int k = 0; k < r.n; ++k) {
            o->C[k] = r.C[k];
            for (int j = 0; j < 6; ++j) { o->J[k][j] = r.J[k][j]; o->J_dot[k][j] = r.Jd[k][j]; }
            o->v_bias[k] = r.vb[k];
            o->limits[k][0] = r.lo[k]; o->limits[k][1] = r.hi[k];
            o->ks[k] = r.ks[k]; o->kd[k] = r.kd[k];
        }
    }
};
struct UniformField : ForceGenerator {
    double gx = 0, gy = 0;
    virtual void apply(SystemState *s) {
        for (int i = 0; i < s->n; ++i) { s->f_x[i] += s->m[i] * gx; s->f_y[i] += s->m[i] * gy; }
    }
};
// softened mutual attraction of all bodies in the state
struct Attraction : ForceGenerator {
    double k = 0;
    virtual void apply(SystemState *s) {
        for (int i = 0; i < s->n; ++i) for (int j = i + 1; j < s->n; ++j) {
            const double dx = s->p_x[j] - s->p_x[i], dy = s->p_y[j] - s->p_y[i];
            const double f = k * s->m[i] * s->m[j] / (1.0 + dx * dx + dy * dy);
            s->f_x[i] += f * dx; s->f_y[i] += f * dy;
            s->f_x[j] -= f * dx; s->f_y[j] -= f * dy;
        }
    }
};

// ---------------------------------------------------------------- live world
enum SolverKind { S_GE, S_CG, S_GS, S_COUNT };
enum SystemKind { SYS_NSV, SYS_EULER, SYS_RK4, SYS_COUNT };
inline const char *solverName(int k) { static const char *n[] = {"ge", "cg", "gs"}; return n[k]; }
inline const char *systemName(int k) { static const char *n[] = {"nsv", "euler", "rk4"}; return n[k]; }

inline std::unique_ptr<SleSolver> makeSolver(int kind, bool tight = true) {
    switch (kind) {
        case S_GE: return std::unique_ptr<SleSolver>(new GaussianEliminationSleSolver);
        case S_CG: {
            auto *s = new ConjugateGradientSleSolver;
            if (tight) { s->setMaxError(1e-13); s->setMinError(1e-11); s->setMaxIterations(20000); }
            return std::unique_ptr<SleSolver>(s);
        }
        default: {
            auto *s = new GaussSeidelSleSolver;
            if (tight) { s->m_minDelta = 1e-12; s->m_maxIterations = 200000; }
            return std::unique_ptr<SleSolver>(s);
        }
    }
}

double cholQuality(const std::vector<double> &A, int m, const std::vector<double> *b = nullptr,
                   std::vector<double> *x = nullptr);

// Forwards to a real solver and records what passes the boundary.
struct SpySolver : SleSolver {
    SleSolver *inner;
    bool record = false;
    // direct solvers assert on singular systems (a documented precondition): with
    // the guard on, a singular or non-finite system is not handed on but counted
    bool guard = true;
    bool noGuess = false;  // withhold the starting guess
    bool strict = false;   // pass the solver's verdict on to the system, which asserts on failure
    long calls = 0, failed = 0, refused = 0;
    int rows = 0, cols = 0;
    std::vector<double> J, W, b, lo, hi, x;   // last call, J row-major
    std::vector<double> guess;                // what the last call was started from
    void saw(Matrix *g) {
        guess.clear();
        if (!record || !g || noGuess) return;
        for (int i = 0; i < g->getHeight(); ++i) guess.push_back(g->get(0, i));
    }
    std::function<void()> onDone;             // after every call
    explicit SpySolver(SleSolver *s) : SleSolver(s->supportsLimits()), inner(s) {}
    int rowsNow = 0;
    void before(SparseMatrix<3> &Jm, Matrix &Wm, Matrix &r) {
        ++calls;
        rowsNow = r.getHeight();
        if (!record) return;
        Mat d;
        Jm.expand(&d);
        rows = Jm.getHeight(); cols = Jm.getWidth();
        J.resize((size_t)rows * cols); W.resize(cols); b.resize(rows);
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) J[(size_t)i * cols + j] = d.get(j, i);
        for (int j = 0; j < cols; ++j) W[j] = Wm.get(0, j);
        for (int i = 0; i < rows; ++i) b[i] = r.get(0, i);
    }
    bool singular(SparseMatrix<3> &Jm, Matrix &Wm, Matrix &r) {
        if (!guard) return false;
        const int m = Jm.getHeight(), n = Jm.getWidth();
        Mat d;
        Jm.expand(&d);
        std::vector<double> A((size_t)m * m, 0.0);
        for (int i = 0; i < m; ++i) {
            if (!(std::fabs(r.get(0, i)) < 1e120)) return true; // a diverged world
            for (int j = 0; j <= i; ++j) {
                double v = 0;
                for (int k = 0; k < n; ++k) v += d.get(k, i) * Wm.get(0, k) * d.get(k, j);
                A[(size_t)i * m + j] = A[(size_t)j * m + i] = v;
            }
        }
        return !(cholQuality(A, m) > 1e-11);
    }
    bool refuse(Matrix &r, Matrix *result) {
        ++refused; ++failed;
        result->initialize(1, r.getHeight());
        if (record) x.assign(rows, 0.0);
        if (onDone) onDone();
        return true;
    }
    bool after(bool ok, Matrix *res) {
        // conjugate gradients leaves the result unset when it gives up; the system would
        // assert, but is told otherwise below and must not go on with arbitrary memory
        if (!ok && !strict && dynamic_cast<ConjugateGradientSleSolver *>(inner)) res->initialize(1, rowsNow);
        if (record) {
            x.resize(rows);
            for (int i = 0; i < rows && i < res->getHeight(); ++i) x[i] = res->get(0, i);
        }
        if (!ok) ++failed;
        if (onDone) onDone();
        return ok || !strict; // the systems assert on failure; callers look at `failed`
    }
    virtual bool solve(SparseMatrix<3> &Jm, Matrix &Wm, Matrix &r, Matrix *previous, Matrix *result) {
        before(Jm, Wm, r);
        saw(previous);
        lo.clear(); hi.clear();
        if (singular(Jm, Wm, r)) return refuse(r, result);
        if (noGuess) result->initialize(1, r.getHeight()); // its contents serve as a guess too
        return after(inner->solve(Jm, Wm, r, noGuess ? nullptr : previous, result), result);
    }
    virtual bool solveWithLimits(SparseMatrix<3> &Jm, Matrix &Wm, Matrix &r, Matrix &lim,
                                 Matrix *result, Matrix *previous) {
        before(Jm, Wm, r);
        saw(previous);
        if (record) {
            lo.resize(rows); hi.resize(rows);
            for (int i = 0; i < rows; ++i) { lo[i] = lim.get(0, i); hi[i] = lim.get(1, i); }
        }
        if (singular(Jm, Wm, r)) return refuse(r, result);
        if (noGuess) result->initialize(1, r.getHeight());
        return after(inner->solveWithLimits(Jm, Wm, r, lim, result, noGuess ? nullptr : previous), result);
    }
};

// Forwards to a real integrator and calls back at every evaluation.
struct SpyOde : OdeSolver {
    OdeSolver *inner;
    std::function<void(SystemState *)> onSolve;
    explicit SpyOde(OdeSolver *o) : inner(o) {}
    virtual void start(SystemState *s, double dt) { inner->start(s, dt); }
    virtual bool step(SystemState *s) { return inner->step(s); }
    virtual void solve(SystemState *s) { if (onSolve) onSolve(s); inner->solve(s); }
    virtual void end() { inner->end(); }
};

inline void setBody(RigidBody *b, const BodySpec &s) {
    b->p_x = s.px; b->p_y = s.py; b->v_x = s.vx; b->v_y = s.vy;
    b->theta = s.th; b->v_theta = s.w; b->m = s.m; b->I = s.I;
}
inline BodySpec getBody(const RigidBody *b) {
    BodySpec s;
    s.px = b->p_x; s.py = b->p_y; s.vx = b->v_x; s.vy = b->v_y;
    s.th = b->theta; s.w = b->v_theta; s.m = b->m; s.I = b->I;
    return s;
}

inline Constraint *newConstraint(const ConSpec &c, RigidBody *b0, RigidBody *b1) {
    switch (c.kind) {
        case K_FIXPOS: {
            auto *k = new FixedPositionConstraint;
            k->setBody(b0); k->setLocalPosition(c.p[0], c.p[1]); k->setWorldPosition(c.p[2], c.p[3]);
            k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        case K_FIXROT: {
            auto *k = new FixedRotationConstraint;
            k->setBody(b0); k->m_rotation = c.p[0]; k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        case K_LINE: {
            auto *k = new LineConstraint;
            k->setBody(b0); k->m_local_x = c.p[0]; k->m_local_y = c.p[1];
            k->m_p0_x = c.p[2]; k->m_p0_y = c.p[3]; k->m_dx = c.p[4]; k->m_dy = c.p[5];
            k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        case K_LINK: {
            auto *k = new LinkConstraint;
            k->setBody1(b0); k->setBody2(b1);
            k->setLocalPosition1(c.p[0], c.p[1]); k->setLocalPosition2(c.p[2], c.p[3]);
            k->m_ks = c.ks; k->m_kd = c.kd; k->m_maxForce = c.hi; return k;
        }
        case K_ROLL: {
            auto *k = new RollingConstraint;
            k->setBaseBody(b0); k->setRollingBody(b1);
            k->m_local_x = c.p[0]; k->m_local_y = c.p[1]; k->m_dx = c.p[2]; k->m_dy = c.p[3];
            k->m_radius = c.p[4]; k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        case K_CROT: {
            auto *k = new ConstantRotationConstraint;
            k->setBody(b0); k->m_rotationSpeed = c.p[0]; k->m_minTorque = c.lo; k->m_maxTorque = c.hi;
            k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        case K_CLUTCH: {
            auto *k = new ClutchConstraint;
            k->setBody1(b0); k->setBody2(b1); k->m_minTorque = c.lo; k->m_maxTorque = c.hi;
            k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        case K_FRICTION: {
            auto *k = new RotationFrictionConstraint;
            k->setBody(b0); k->m_minTorque = c.lo; k->m_maxTorque = c.hi;
            k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        case K_GEAR: {
            auto *k = new SimpleGearConstraint;
            k->setBody1(b0); k->setBody2(b1); k->m_ratio = c.p[0]; k->m_neutral = c.neutral;
            k->m_ks = c.ks; k->m_kd = c.kd; return k;
        }
        default: {
            auto *k = new UserConstraint(c);
            k->m_bodies[0] = b0; k->m_bodies[1] = b1;
            return k;
        }
    }
}
inline ForceGenerator *newGenerator(const GenSpec &g, RigidBody *b0, RigidBody *b1) {
    switch (g.kind) {
        case G_GRAVITY: { auto *k = new GravityForceGenerator; k->m_g = g.p[0]; return k; }
        case G_STATIC: {
            auto *k = new StaticForceGenerator;
            k->m_body = b0; k->setForce(g.p[0], g.p[1]); k->setPosition(g.p[2], g.p[3]); return k;
        }
        case G_SPRING: {
            auto *k = new Spring;
            k->m_body1 = b0; k->m_body2 = b1;
            k->m_p1_x = g.p[0]; k->m_p1_y = g.p[1]; k->m_p2_x = g.p[2]; k->m_p2_y = g.p[3];
            k->m_restLength = g.p[4]; k->m_ks = g.p[5]; k->m_kd = g.p[6]; return k;
        }
        case G_MOTOR: {
            auto *k = new ConstantSpeedMotor;
            k->m_body0 = b0; k->m_body1 = b1;
            k->m_ks = g.p[0]; k->m_kd = g.p[1]; k->m_maxTorque = g.p[2]; k->m_speed = g.p[3]; return k;
        }
        case G_UNIFORM: { auto *k = new UniformField; k->gx = g.p[0]; k->gy = g.p[1]; return k; }
        default: { auto *k = new Attraction; k->k = g.p[0]; return k; }
    }
}

struct World {
    Spec spec;
    int sysKind, solverKind;
    std::vector<RigidBody *> bodies, anchors;
    std::vector<Constraint *> cons;
    std::vector<ForceGenerator *> gens;
    std::unique_ptr<SleSolver> solver;
    std::unique_ptr<SpySolver> spy;
    std::unique_ptr<OdeSolver> ode;
    std::unique_ptr<SpyOde> odeSpy;
    std::unique_ptr<RigidBodySystem> sys;
    OptimizedNsvRigidBodySystem *nsv = nullptr;

    RigidBody *body(int id) { return id >= 0 ? bodies[id] : anchors[-1 - id]; }

    World(const Spec &s, int systemKind, int solvKind, const std::vector<int> *order = nullptr,
          bool tight = true)
        : spec(s), sysKind(systemKind), solverKind(solvKind) {
        solver = makeSolver(solvKind, tight);
        spy.reset(new SpySolver(solver.get()));
        makeSystem();
        for (int i = 0; i < s.idleFrames; ++i) sys->process(s.idleDt, 1);
        spy->calls = spy->failed = spy->refused = 0;
        for (const BodySpec &b : s.bodies) { auto *r = new RigidBody; setBody(r, b); bodies.push_back(r); }
        for (const BodySpec &b : s.anchors) { auto *r = new RigidBody; setBody(r, b); anchors.push_back(r); }
        for (const ConSpec &c : s.cons)
            cons.push_back(newConstraint(c, body(c.b[0]), conBodies(c.kind) > 1 ? body(c.b[1]) : nullptr));
        for (const GenSpec &g : s.gens) {
            const bool two = g.kind == G_SPRING || g.kind == G_MOTOR;
            gens.push_back(newGenerator(g, (two || g.kind == G_STATIC) ? body(g.b[0]) : nullptr,
                                        two ? body(g.b[1]) : nullptr));
        }
        if (s.partsFirst) { for (auto *g : gens) sys->addForceGenerator(g); for (auto *c : cons) sys->addConstraint(c); }
        if (order) for (int id : *order) sys->addRigidBody(bodies[id]);
        else for (auto *b : bodies) sys->addRigidBody(b);
        if (s.partsFirst) return;
        for (auto *c : cons) sys->addConstraint(c);
        for (auto *g : gens) sys->addForceGenerator(g);
    }
    void makeSystem() {
        nsv = nullptr;
        if (sysKind == SYS_NSV) {
            nsv = new OptimizedNsvRigidBodySystem;
            nsv->initialize(spy.get());
            sys.reset(nsv);
        } else {
            if (sysKind == SYS_EULER) ode.reset(new EulerOdeSolver);
            else ode.reset(new Rk4OdeSolver);
            odeSpy.reset(new SpyOde(ode.get()));
            auto *g = new GenericRigidBodySystem;
            g->initialize(spy.get(), odeSpy.get());
            sys.reset(g);
        }
    }
    ~World() {
        sys.reset();
        for (auto *b : bodies) delete b;
        for (auto *b : anchors) delete b;
        for (auto *c : cons) delete c;
        for (auto *g : gens) delete g;
    }
    World(const World &) = delete;

    // current pose of spec body / anchor `id`
    Pose pose(int id) {
        const RigidBody *b = body(id);
        Pose p;
        p.q[0] = b->p_x; p.q[1] = b->p_y; p.q[2] = b->theta;
        if (id >= 0) { p.v[0] = b->v_x; p.v[1] = b->v_y; p.v[2] = b->v_theta; }
        return p;
    }
    std::vector<Pose> poses() {
        std::vector<Pose> r;
        for (size_t i = 0; i < bodies.size(); ++i) r.push_back(pose((int)i));
        return r;
    }
    // same in any registration order
    uint64_t hash(uint64_t h = 0x1234) {
        for (auto *b : bodies) {
            const double v[] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
            for (double d : v) h = mix(h, bitsOf(d));
        }
        for (size_t i = 0; i < cons.size(); ++i)
            for (int j = 0; j < conRows(spec.cons[i].kind); ++j)
                for (int k = 0; k < conBodies(spec.cons[i].kind); ++k) {
                    h = mix(h, bitsOf(cons[i]->F_x[j][k]));
                    h = mix(h, bitsOf(cons[i]->F_y[j][k]));
                    h = mix(h, bitsOf(cons[i]->F_t[j][k]));
                }
        return h;
    }
    bool finite() {
        for (auto *b : bodies) {
            const double v[] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
            for (double d : v) if (!std::isfinite(d)) return false;
        }
        return true;
    }
};

// ---------------------------------------------------------------- reference model
inline Pose anchorPose(const BodySpec &a) {
    Pose p; p.q[0] = a.px; p.q[1] = a.py; p.q[2] = a.th; return p;
}
inline Pose specPose(const BodySpec &a) {
    Pose p = anchorPose(a); p.v[0] = a.vx; p.v[1] = a.vy; p.v[2] = a.w; return p;
}
inline Pose posOf(const Spec &s, const std::vector<Pose> &P, int id) {
    return id >= 0 ? P[id] : anchorPose(s.anchors[-1 - id]);
}
inline std::vector<Pose> specPoses(const Spec &s) {
    std::vector<Pose> r;
    for (auto &b : s.bodies) r.push_back(specPose(b));
    return r;
}

struct Vec2 { double x, y; };
inline Vec2 rot(double th, double x, double y) {
    return Vec2{std::cos(th) * x - std::sin(th) * y, std::sin(th) * x + std::cos(th) * y};
}

// external generalised forces at a state; aPrev = angular accelerations of the
// previous evaluation (nullptr = zero). out: 3 per body.  scale (optional)
// accumulates magnitudes for tolerances.
inline std::vector<double> refForces(const Spec &s, const std::vector<Pose> &P,
                                     const std::vector<double> *aPrev = nullptr,
                                     std::vector<double> *scale = nullptr) {
    const int n = (int)s.bodies.size();
    std::vector<double> F(3 * n, 0.0);
    if (scale) scale->assign(3 * n, 0.0);
    auto addAt = [&](int id, double lx, double ly, double fx, double fy) {
        if (id < 0) return;
        const Vec2 r = rot(P[id].q[2], lx, ly);
        F[3 * id] += fx; F[3 * id + 1] += fy; F[3 * id + 2] += r.x * fy - r.y * fx;
        if (scale) {
            (*scale)[3 * id] += std::fabs(fx); (*scale)[3 * id + 1] += std::fabs(fy);
            // the point of attack is rounded at the size of the coordinates
            const double wide = 1e-5 * (std::fabs(P[id].q[0]) + std::fabs(P[id].q[1]));
            (*scale)[3 * id + 2] += std::fabs(r.x * fy) + std::fabs(r.y * fx) + (lx != 0 || ly != 0 ? wide * (std::fabs(fx) + std::fabs(fy)) : 0.0);
        }
    };
    for (const GenSpec &g : s.gens) {
        switch (g.kind) {
            case G_GRAVITY:
                for (int i = 0; i < n; ++i) addAt(i, 0, 0, 0, -s.bodies[i].m * g.p[0]);
                break;
            case G_UNIFORM:
                for (int i = 0; i < n; ++i) addAt(i, 0, 0, s.bodies[i].m * g.p[0], s.bodies[i].m * g.p[1]);
                break;
            case G_ATTRACT:
                for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
                    const double dx = P[j].q[0] - P[i].q[0], dy = P[j].q[1] - P[i].q[1];
                    const double f = g.p[0] * s.bodies[i].m * s.bodies[j].m / (1.0 + dx * dx + dy * dy);
                    addAt(i, 0, 0, f * dx, f * dy);
                    addAt(j, 0, 0, -f * dx, -f * dy);
                }
                break;
            case G_STATIC: addAt(g.b[0], g.p[2], g.p[3], g.p[0], g.p[1]); break;
            case G_SPRING: {
                const Pose A = posOf(s, P, g.b[0]), B = posOf(s, P, g.b[1]);
                const Vec2 ra = rot(A.q[2], g.p[0], g.p[1]), rb = rot(B.q[2], g.p[2], g.p[3]);
                const double dx = B.q[0] + rb.x - A.q[0] - ra.x, dy = B.q[1] + rb.y - A.q[1] - ra.y;
                const double vx = (B.v[0] - B.v[2] * rb.y) - (A.v[0] - A.v[2] * ra.y);
                const double vy = (B.v[1] + B.v[2] * rb.x) - (A.v[1] + A.v[2] * ra.x);
                const double l = std::sqrt(dx * dx + dy * dy);
                double fx = vx * g.p[6], fy = vy * g.p[6];
                if (l >= 1e-2) {
                    fx += dx / l * (l - g.p[4]) * g.p[5];
                    fy += dy / l * (l - g.p[4]) * g.p[5];
                }
                addAt(g.b[0], g.p[0], g.p[1], fx, fy);
                addAt(g.b[1], g.p[2], g.p[3], -fx, -fy);
                if (scale) { // the length is rounded at the size of the coordinates, the speed at that of the speeds
                    const double wide = std::fabs(A.q[0]) + std::fabs(A.q[1]) + std::fabs(B.q[0]) + std::fabs(B.q[1]) + std::hypot(ra.x, ra.y) + std::hypot(rb.x, rb.y);
                    const double fast = std::fabs(A.v[0]) + std::fabs(A.v[1]) + std::fabs(B.v[0]) + std::fabs(B.v[1])
                        + std::fabs(A.v[2]) * std::hypot(ra.x, ra.y) + std::fabs(B.v[2]) * std::hypot(rb.x, rb.y);
                    // a strongly compressed short spring magnifies the error of its direction
                    const double turn = l >= 1e-2 ? std::fabs(l - g.p[4]) / l : 0;
                    const double e = 1e-4 * (g.p[5] * wide * (1 + turn) + g.p[6] * fast);
                    for (int q = 0; q < 2; ++q) if (g.b[q] >= 0) {
                        const double arm = q ? std::hypot(rb.x, rb.y) : std::hypot(ra.x, ra.y);
                        (*scale)[3 * g.b[q]] += e; (*scale)[3 * g.b[q] + 1] += e; (*scale)[3 * g.b[q] + 2] += e * arm;
                    }
                }
                break;
            }
            case G_MOTOR: {
                const double w0 = g.b[0] >= 0 ? P[g.b[0]].v[2] : 0.0;
                const double a0 = (g.b[0] >= 0 && aPrev) ? (*aPrev)[g.b[0]] : 0.0;
                const double a1 = aPrev ? (*aPrev)[g.b[1]] : 0.0;
                double t = (g.p[3] - (P[g.b[1]].v[2] - w0)) * g.p[0] - (a1 - a0) * g.p[1];
                if (t > g.p[2]) t = g.p[2];
                if (t < -g.p[2]) t = -g.p[2];
                if (g.b[0] >= 0) { F[3 * g.b[0] + 2] -= t; if (scale) (*scale)[3 * g.b[0] + 2] += std::fabs(t); }
                F[3 * g.b[1] + 2] += t;
                if (scale) (*scale)[3 * g.b[1] + 2] += std::fabs(t);
                break;
            }
        }
    }
    return F;
}

// Full dense Jacobian system of a scene at a state, from the reference model.
struct RefSystem {
    int n = 0, m = 0;                   // 3*bodies, rows
    std::vector<RefRows> rows;          // per constraint
    std::vector<int> first;             // first row of each constraint
    std::vector<double> J, Jd;          // m x n
    std::vector<double> C, vb, lo, hi, ks, kd, W;
};
inline RefSystem refSystem(const Spec &s, const std::vector<Pose> &P) {
    RefSystem r;
    r.n = 3 * (int)s.bodies.size();
    for (const ConSpec &c : s.cons) {
        Pose A = posOf(s, P, c.b[0]);
        Pose B = conBodies(c.kind) > 1 ? posOf(s, P, c.b[1]) : Pose();
        r.first.push_back(r.m);
        r.rows.push_back(refRows(c, A, B));
        r.m += r.rows.back().n;
    }
    r.J.assign((size_t)r.m * r.n, 0.0);
    r.Jd.assign((size_t)r.m * r.n, 0.0);
    for (size_t i = 0; i < s.cons.size(); ++i) {
        const ConSpec &c = s.cons[i];
        const RefRows &k = r.rows[i];
        for (int a = 0; a < k.n; ++a) {
            const int row = r.first[i] + a;
            for (int e = 0; e < conBodies(c.kind); ++e) {
                if (c.b[e] < 0) continue;
                for (int x = 0; x < 3; ++x) {
                    r.J[(size_t)row * r.n + 3 * c.b[e] + x] += k.J[a][3 * e + x];
                    r.Jd[(size_t)row * r.n + 3 * c.b[e] + x] += k.Jd[a][3 * e + x];
                }
            }
            r.C.push_back(k.C[a]); r.vb.push_back(k.vb[a]);
            r.lo.push_back(k.lo[a]); r.hi.push_back(k.hi[a]);
            r.ks.push_back(k.ks[a]); r.kd.push_back(k.kd[a]);
        }
    }
    for (const BodySpec &b : s.bodies) { r.W.push_back(1 / b.m); r.W.push_back(1 / b.m); r.W.push_back(1 / b.I); }
    return r;
}
// A = J W J^T
inline std::vector<double> refA(const RefSystem &r) {
    std::vector<double> A((size_t)r.m * r.m, 0.0);
    for (int i = 0; i < r.m; ++i) for (int j = 0; j <= i; ++j) {
        long double d = 0;
        for (int k = 0; k < r.n; ++k)
            d += (long double)r.J[(size_t)i * r.n + k] * r.W[k] * r.J[(size_t)j * r.n + k];
        A[(size_t)i * r.m + j] = A[(size_t)j * r.m + i] = (double)d;
    }
    return A;
}
// Smallest pivot of the diagonally scaled Cholesky factorisation (0 = singular);
// 1 = perfectly conditioned.  Also solves A x = b when x/b given.
inline double cholQuality(const std::vector<double> &A, int m,
                          const std::vector<double> *b, std::vector<double> *x) {
    if (m == 0) { if (x) x->clear(); return 1.0; }
    std::vector<long double> L((size_t)m * m, 0.0L), d(m);
    for (int i = 0; i < m; ++i) {
        if (!(A[(size_t)i * m + i] > 0)) return 0;
        d[i] = 1.0L / sqrtl((long double)A[(size_t)i * m + i]);
    }
    long double worst = 1.0L;
    for (int i = 0; i < m; ++i) {
        for (int j = 0; j <= i; ++j) {
            long double s = (long double)A[(size_t)i * m + j] * d[i] * d[j];
            for (int k = 0; k < j; ++k) s -= L[(size_t)i * m + k] * L[(size_t)j * m + k];
            if (i == j) {
                if (!(s > 1e-14L)) return 0;
                if (s < worst) worst = s;
                L[(size_t)i * m + i] = sqrtl(s);
            } else L[(size_t)i * m + j] = s / L[(size_t)j * m + j];
        }
    }
    if (b && x) {
        std::vector<long double> y(m);
        for (int i = 0; i < m; ++i) {
            long double s = (long double)(*b)[i] * d[i];
            for (int k = 0; k < i; ++k) s -= L[(size_t)i * m + k] * y[k];
            y[i] = s / L[(size_t)i * m + i];
        }
        for (int i = m - 1; i >= 0; --i) {
            long double s = y[i];
            for (int k = i + 1; k < m; ++k) s -= L[(size_t)k * m + i] * y[k];
            y[i] = s / L[(size_t)i * m + i];
        }
        x->resize(m);
        for (int i = 0; i < m; ++i) (*x)[i] = (double)(y[i] * d[i]);
    }
    return (double)worst;
}
inline double sceneQuality(const Spec &s) {
    const RefSystem r = refSystem(s, specPoses(s));
    return cholQuality(refA(r), r.m);
}

// ---------------------------------------------------------------- scene generation
struct SceneOpts {
    int minBodies = 1, maxBodies = 6;
    unsigned kinds = (1u << K_COUNT) - 1;  // allowed constraint kinds
    bool userRows = false;                 // user-defined rows with biases, gains and limits of their own
    unsigned gens = (1u << G_COUNT) - 1;   // allowed generators
    double attach = 0.85;                  // chance that a body is constrained at all
    double loops = 0.25;                   // chance to try a loop-closing constraint
    double perturb = 0.5;                  // chance that initial errors are non-zero
    bool anchors = false;                  // allow connections to unregistered bodies
    bool limits = false;                   // allow finite force limits
    double vel = 5.0;                      // velocity scale
    double minQuality = 1e-4;
    int maxGens = 4;
    double massLo = 0.1, massHi = 10;
    bool neutral = false;
    double springKd = 0.5;                 // chance of damped springs
    double neat = 0.05;                    // chance of round numbers throughout
    double idle = 0.01;                    // chance that the system ran empty for a long time before
};
inline bool kindOk(const SceneOpts &o, int k) { return (o.kinds >> k) & 1u; }

inline void localOf(const BodySpec &b, double wx, double wy, double *lx, double *ly) {
    const double dx = wx - b.px, dy = wy - b.py;
    *lx = std::cos(b.th) * dx + std::sin(b.th) * dy;
    *ly = -std::sin(b.th) * dx + std::cos(b.th) * dy;
}

inline BodySpec randomBody(Rng &r, const SceneOpts &o) {
    BodySpec b;
    b.px = r.wild(5); b.py = r.wild(5);
    b.th = r.chance(0.2) ? 0.0 : r.uniform(-4, 4);
    if (r.chance(0.05)) b.th = r.uniform(-60, 60);
    if (r.chance(0.04)) b.th = r.range(-5, 5) * 1.5707963267948966;
    b.vx = r.chance(0.15) ? 0.0 : r.uniform(-o.vel, o.vel);
    b.vy = r.chance(0.15) ? 0.0 : r.uniform(-o.vel, o.vel);
    b.w = r.chance(0.15) ? 0.0 : r.uniform(-o.vel, o.vel);
    b.m = r.chance(0.2) ? 1.0 : r.logUniform(o.massLo, o.massHi);
    b.I = r.chance(0.2) ? 1.0 : r.logUniform(o.massLo, o.massHi);
    return b;
}

inline void randomLimits(Rng &r, const SceneOpts &o, ConSpec &c) {
    if (!o.limits) return;
    switch (r.below(9)) {
        case 0: break;
        case 6: c.lo = c.hi = r.logUniform(0.01, 50) * (r.chance(0.5) ? -1 : 1); break; // a constant pull
        case 7: if (r.chance(0.5)) c.lo = 0; else c.hi = 0; break;                      // one side open
        case 8: { const double a = r.wild(20); c.lo = a; c.hi = a + r.logUniform(0.01, 20); break; }
        case 1: c.lo = 0; c.hi = r.logUniform(0.01, 50); break;
        case 2: c.hi = 0; c.lo = -r.logUniform(0.01, 50); break;
        case 3: c.lo = -r.logUniform(0.01, 50); c.hi = r.logUniform(0.01, 50); break;
        case 4: c.lo = c.hi = 0; break;
        default: { const double t = r.logUniform(0.01, 50); c.lo = -t; c.hi = t; } break;
    }
}

// Random scene whose constraint rows are independent (quality-checked).
inline Spec randomScene(Rng &r, const SceneOpts &o) {
    Spec s;
    s.partsFirst = r.chance(0.1);
    if (r.chance(o.idle)) {
        const bool many = r.chance(0.3);
        s.idleFrames = many ? r.range(500, 3000) : r.range(1, 5);
        s.idleDt = many ? 1.0 / 60 : r.logUniform(0.1, 1e5);
    }
    const int nb = r.range(o.minBodies, o.maxBodies);
    if (o.anchors) {
        const int na = r.range(1, 2);
        for (int i = 0; i < na; ++i) { BodySpec a = randomBody(r, o); a.vx = a.vy = a.w = 0; s.anchors.push_back(a); }
    }
    auto partner = [&](int i) -> int { // an earlier body or an anchor
        if (o.anchors && (i == 0 || r.chance(0.4))) return -1 - r.below((int)s.anchors.size());
        return r.below(i);
    };
    const bool perturb = r.chance(o.perturb);
    for (int i = 0; i < nb; ++i) {
        BodySpec b = randomBody(r, o);
        ConSpec first, extra;
        bool haveFirst = false, haveExtra = false;
        const bool rollable = kindOk(o, K_ROLL) && i > 0;
        if (r.chance(o.attach)) {
            std::vector<int> cand;
            if (kindOk(o, K_FIXPOS)) { cand.push_back(K_FIXPOS); if (i == 0) cand.push_back(K_FIXPOS); }
            if (kindOk(o, K_LINE)) cand.push_back(K_LINE);
            if (kindOk(o, K_LINK) && i > 0) { cand.push_back(K_LINK); cand.push_back(K_LINK); cand.push_back(K_LINK); }
            if (rollable) cand.push_back(K_ROLL);
            if (kindOk(o, K_WELD) && (i > 0 || o.anchors)) cand.push_back(K_WELD);
            if (kindOk(o, K_LIN) && (i > 0 || o.anchors)) cand.push_back(K_LIN);
            cand.push_back(-1);
            const int k = cand[r.below((int)cand.size())];
            first.kind = k;
            first.ks = r.chance(0.3) ? 10 : r.uniform(0, 60);
            first.kd = r.chance(0.3) ? 1 : r.uniform(0, 12);
            if (k >= 0) haveFirst = true;
            switch (k) {
                case K_FIXPOS: {
                    first.b[0] = i;
                    first.p[0] = r.wild(2); first.p[1] = r.wild(2);
                    const Vec2 w = rot(b.th, first.p[0], first.p[1]);
                    first.p[2] = b.px + w.x; first.p[3] = b.py + w.y;
                    if (perturb) { first.p[2] += r.uniform(-.1, .1); first.p[3] += r.uniform(-.1, .1); }
                    break;
                }
                case K_LINE: {
                    first.b[0] = i;
                    first.p[0] = r.wild(2); first.p[1] = r.wild(2);
                    const Vec2 w = rot(b.th, first.p[0], first.p[1]);
                    const double a = r.uniform(-4, 4), L = r.chance(0.6) ? 1.0 : r.uniform(0.5, 2.0);
                    first.p[4] = std::cos(a) * L; first.p[5] = std::sin(a) * L;
                    const double t = r.wild(3);
                    first.p[2] = b.px + w.x + t * first.p[4]; first.p[3] = b.py + w.y + t * first.p[5];
                    if (perturb) { first.p[2] += r.uniform(-.1, .1); first.p[3] += r.uniform(-.1, .1); }
                    break;
                }
                case K_LINK: {
                    const int j = r.below(i);
                    first.p[2] = r.wild(2); first.p[3] = r.wild(2); // on j
                    const Vec2 wj = rot(s.bodies[j].th, first.p[2], first.p[3]);
                    const double wx = s.bodies[j].px + wj.x, wy = s.bodies[j].py + wj.y;
                    first.p[0] = r.wild(2); first.p[1] = r.wild(2);
                    const Vec2 wi = rot(b.th, first.p[0], first.p[1]);
                    b.px = wx - wi.x; b.py = wy - wi.y; // move the new body into place
                    if (perturb) { b.px += r.uniform(-.1, .1); b.py += r.uniform(-.1, .1); }
                    first.b[0] = i; first.b[1] = j;
                    if (r.chance(0.5)) { // either body may be listed first
                        first.b[0] = j; first.b[1] = i;
                        std::swap(first.p[0], first.p[2]); std::swap(first.p[1], first.p[3]);
                    }
                    if (o.limits && r.chance(0.5)) first.hi = r.logUniform(0.05, 200);
                    break;
                }
                case K_ROLL: {
                    const int j = r.below(i);
                    first.b[0] = j; first.b[1] = i;
                    first.p[0] = r.wild(2); first.p[1] = r.wild(2);
                    const double a = r.uniform(-4, 4);
                    first.p[2] = std::cos(a); first.p[3] = std::sin(a);
                    const double R = r.chance(0.3) ? 1.0 : r.uniform(0.2, 2.5);
                    first.p[4] = R;
                    const BodySpec &bj = s.bodies[j];
                    const Vec2 off = rot(bj.th, first.p[0], first.p[1]);
                    const Vec2 d = rot(bj.th, first.p[2], first.p[3]);
                    const double t = r.wild(3);
                    b.px = bj.px + off.x + t * d.x - R * d.y;
                    b.py = bj.py + off.y + t * d.y + R * d.x;
                    b.th = bj.th - t / R; // no accumulated slip
                    if (perturb) { b.px += r.uniform(-.05, .05); b.th += r.uniform(-.05, .05); }
                    break;
                }
                case K_WELD: {
                    const int j = partner(i);
                    const BodySpec &bj = j >= 0 ? s.bodies[j] : s.anchors[-1 - j];
                    first.b[0] = j; first.b[1] = i;
                    first.p[0] = r.wild(2); first.p[1] = r.wild(2); first.p[2] = r.uniform(-2, 2);
                    const Vec2 off = rot(bj.th, first.p[0], first.p[1]);
                    b.px = bj.px + off.x; b.py = bj.py + off.y; b.th = bj.th + first.p[2];
                    if (perturb) { b.px += r.uniform(-.1, .1); b.th += r.uniform(-.1, .1); }
                    if (o.userRows && r.chance(0.5)) {
                        for (int x = 3; x < 6; ++x) first.p[x] = r.chance(0.3) ? 0.0 : r.uniform(-1, 1);
                        first.p[6] = r.chance(0.5) ? 0.0 : r.uniform(0, 1);
                        randomLimits(r, o, first);
                        first.p[7] = r.uniform(0.3, 3);
                    }
                    break;
                }
                case K_LIN: {
                    const int j = partner(i);
                    const BodySpec &bj = j >= 0 ? s.bodies[j] : s.anchors[-1 - j];
                    first.b[0] = j; first.b[1] = i;
                    for (int x = 0; x < 6; ++x) first.p[x] = r.uniform(-2, 2);
                    if (std::fabs(first.p[3]) < 0.5) first.p[3] = 0.75;
                    first.p[6] = first.p[0] * bj.px + first.p[1] * bj.py + first.p[2] * bj.th
                        + first.p[3] * b.px + first.p[4] * b.py + first.p[5] * b.th;
                    if (perturb) first.p[6] += r.uniform(-.1, .1);
                    first.p[7] = r.chance(0.5) ? 0.0 : r.uniform(-1, 1);
                    randomLimits(r, o, first);
                    break;
                }
                default: break;
            }
            const bool rotOk = !haveFirst || (k != K_WELD && k != K_LIN);
            if (rotOk && r.chance(haveFirst ? 0.35 : 0.8)) {
                std::vector<int> rc;
                for (int q : {K_FIXROT, K_CROT, K_FRICTION}) if (kindOk(o, q)) rc.push_back(q);
                for (int q : {K_CLUTCH, K_GEAR}) if (kindOk(o, q) && (i > 0 || o.anchors)) { rc.push_back(q); rc.push_back(q); }
                if (!rc.empty()) {
                    haveExtra = true;
                    extra.kind = rc[r.below((int)rc.size())];
                    extra.ks = r.uniform(0, 60); extra.kd = r.uniform(0, 12);
                    extra.b[0] = i;
                    if (extra.kind == K_FIXROT) {
                        extra.p[0] = b.th + (perturb ? r.uniform(-.1, .1) : 0.0);
                    } else if (extra.kind == K_CROT) {
                        extra.p[0] = r.chance(0.3) ? 0.0 : r.uniform(-6, 6);
                        randomLimits(r, o, extra);
                    } else if (extra.kind == K_FRICTION) {
                        randomLimits(r, o, extra);
                    } else {
                        const int j = partner(i);
                        extra.b[0] = i; extra.b[1] = j;
                        if (r.chance(0.5)) { extra.b[0] = j; extra.b[1] = i; }
                        if (extra.kind == K_CLUTCH) randomLimits(r, o, extra);
                        else {
                            extra.p[0] = r.logUniform(0.2, 5) * (r.chance(0.3) ? -1 : 1);
                            if (o.neutral && r.chance(0.3)) extra.neutral = true;
                        }
                    }
                }
            }
        }
        s.bodies.push_back(b);
        if (haveFirst && haveExtra && r.chance(0.5)) std::swap(first, extra);
        if (haveFirst) s.cons.push_back(first);
        if (haveExtra) s.cons.push_back(extra);
    }
    // loop closure between two existing bodies or to the world
    if (r.chance(o.loops) && nb >= 1) {
        const size_t keep = s.cons.size();
        ConSpec c;
        const int i = r.below(nb);
        if (kindOk(o, K_LINK) && nb >= 2 && r.chance(0.6)) {
            int j = r.below(nb - 1); if (j >= i) ++j;
            c.kind = K_LINK; c.b[0] = i; c.b[1] = j;
            c.p[0] = r.wild(2); c.p[1] = r.wild(2);
            const Vec2 w = rot(s.bodies[i].th, c.p[0], c.p[1]);
            localOf(s.bodies[j], s.bodies[i].px + w.x, s.bodies[i].py + w.y, &c.p[2], &c.p[3]);
            s.cons.push_back(c);
        } else if (kindOk(o, K_LINE)) {
            c.kind = K_LINE; c.b[0] = i;
            c.p[0] = r.wild(2); c.p[1] = r.wild(2);
            const Vec2 w = rot(s.bodies[i].th, c.p[0], c.p[1]);
            const double a = r.uniform(-4, 4);
            c.p[2] = s.bodies[i].px + w.x; c.p[3] = s.bodies[i].py + w.y;
            c.p[4] = std::cos(a); c.p[5] = std::sin(a);
            s.cons.push_back(c);
        }
        if (sceneQuality(s) < 0.02) s.cons.resize(keep);
    }
    while (!s.cons.empty() && sceneQuality(s) < o.minQuality) s.cons.pop_back();
    r.shuffle(s.cons);

    // generators
    const int ng = r.range(0, o.maxGens);
    for (int k = 0; k < ng; ++k) {
        GenSpec g;
        g.kind = r.below(G_COUNT);
        if (!((o.gens >> g.kind) & 1u)) continue;
        switch (g.kind) {
            case G_GRAVITY: g.p[0] = r.chance(0.5) ? 9.81 : r.uniform(-12, 12); break;
            case G_UNIFORM: g.p[0] = r.uniform(-6, 6); g.p[1] = r.uniform(-6, 6); break;
            case G_ATTRACT: g.p[0] = r.uniform(-3, 3); break;
            case G_STATIC:
                g.b[0] = r.below(nb);
                g.p[0] = r.wild(20); g.p[1] = r.wild(20); g.p[2] = r.wild(2); g.p[3] = r.wild(2);
                break;
            case G_SPRING: {
                const bool anc = o.anchors && r.chance(0.5);
                if (nb < 2 && !anc) continue;
                g.b[0] = r.below(nb);
                if (anc) g.b[1] = -1 - r.below((int)s.anchors.size());
                else { g.b[1] = r.below(nb - 1); if (g.b[1] >= g.b[0]) ++g.b[1]; }
                if (r.chance(0.5)) std::swap(g.b[0], g.b[1]);
                for (int x = 0; x < 4; ++x) g.p[x] = r.wild(2);
                g.p[4] = r.chance(0.2) ? 0.0 : r.uniform(0, 3);
                g.p[5] = r.uniform(0, 50);
                g.p[6] = r.chance(o.springKd) ? r.uniform(0, 3) : 0.0;
                break;
            }
            case G_MOTOR: {
                const bool anc = o.anchors && r.chance(0.5);
                if (nb < 2 && !anc) continue;
                g.b[1] = r.below(nb);
                if (anc) g.b[0] = -1 - r.below((int)s.anchors.size());
                else { g.b[0] = r.below(nb - 1); if (g.b[0] >= g.b[1]) ++g.b[0]; }
                g.p[0] = r.uniform(0, 3); g.p[1] = r.chance(0.5) ? 0.0 : r.uniform(0, 0.05);
                g.p[2] = r.logUniform(0.1, 100); g.p[3] = r.uniform(-8, 8);
                break;
            }
        }
        s.gens.push_back(g);
    }
    if (r.chance(o.neat)) { // round numbers: exact coincidences, alignments, right angles, equal masses, rest
        auto half = [](double v) { return std::floor(2 * v + 0.5) / 2; };
        const bool rest = r.chance(0.25), alike = r.chance(0.4), upright = r.chance(0.3);
        for (auto *list : {&s.bodies, &s.anchors}) for (auto &b : *list) {
            b.px = half(b.px); b.py = half(b.py);
            b.th = upright ? 0 : std::floor(b.th / 1.5707963267948966 + 0.5) * 1.5707963267948966;
            b.vx = rest ? 0 : half(b.vx); b.vy = rest ? 0 : half(b.vy); b.w = rest ? 0 : half(b.w);
            const double m[] = {0.5, 1, 2, 4};
            b.m = alike ? 1 : m[r.below(4)]; b.I = alike ? 1 : m[r.below(4)];
        }
        for (auto &k : s.cons) {
            k.ks = half(k.ks); k.kd = half(k.kd);
            for (double &v : k.p) v = half(v);
            if (k.kind == K_LINE && k.p[4] == 0 && k.p[5] == 0) k.p[4 + r.below(2)] = r.chance(0.5) ? 1 : -1;
            if (k.kind == K_ROLL) {
                if (k.p[4] == 0) k.p[4] = 1;
                const int q = r.below(4);
                k.p[2] = q == 0 ? 1 : q == 1 ? -1 : 0; k.p[3] = q == 2 ? 1 : q == 3 ? -1 : 0;
            }
            if (k.kind == K_GEAR && k.p[0] == 0) k.p[0] = r.chance(0.5) ? 1 : -1;
        }
        for (auto &g : s.gens) for (double &v : g.p) v = half(v);
        while (!s.cons.empty() && sceneQuality(s) < o.minQuality) s.cons.pop_back();
    }
    return s;
}

// ---------------------------------------------------------------- units and place
// The same scene in other units of mass, length and time, and placed elsewhere.
// (Attraction is no law of nature here: its strength is only kept comparable.)
struct Units {
    double mass = 1, len = 1, time = 1, ox = 0, oy = 0;
    bool plain() const { return mass == 1 && len == 1 && time == 1 && ox == 0 && oy == 0; }
    double vel() const { return len / time; }
    double acc() const { return len / time / time; }
    double force() const { return mass * acc(); }
    double torque() const { return mass * len * acc(); }
    double inertia() const { return mass * len * len; }
};
inline double scaleLimit(double l, double f) { return std::fabs(l) > 1e300 ? l : l * f; }
inline Spec inUnits(const Spec &s, const Units &u) {
    Spec t = s;
    for (auto *list : {&t.bodies, &t.anchors}) for (auto &b : *list) {
        b.px = b.px * u.len + u.ox; b.py = b.py * u.len + u.oy;
        b.vx *= u.vel(); b.vy *= u.vel(); b.w /= u.time;
        b.m *= u.mass; b.I *= u.inertia();
    }
    for (auto &k : t.cons) {
        k.ks /= u.time * u.time; k.kd /= u.time;
        double lim = u.torque();
        switch (k.kind) {
            case K_FIXPOS: case K_LINE:
                k.p[0] *= u.len; k.p[1] *= u.len;
                k.p[2] = k.p[2] * u.len + u.ox; k.p[3] = k.p[3] * u.len + u.oy; break;
            case K_LINK: for (int i = 0; i < 4; ++i) k.p[i] *= u.len; lim = u.force(); break;
            case K_ROLL: k.p[0] *= u.len; k.p[1] *= u.len; k.p[4] *= u.len; break;
            case K_CROT: k.p[0] /= u.time; break;
            case K_WELD: k.p[0] *= u.len; k.p[1] *= u.len;
                k.p[3] *= u.vel(); k.p[4] *= u.vel(); k.p[5] /= u.time;
                k.p[7] *= u.len; lim = u.force(); break;
            case K_LIN:
                k.p[2] *= u.len; k.p[5] *= u.len; k.p[7] *= u.vel();
                k.p[6] = k.p[6] * u.len + (k.p[0] + k.p[3]) * u.ox + (k.p[1] + k.p[4]) * u.oy;
                lim = u.force(); break;
            default: break;
        }
        k.lo = scaleLimit(k.lo, lim); k.hi = scaleLimit(k.hi, lim);
    }
    for (auto &g : t.gens) switch (g.kind) {
        case G_GRAVITY: g.p[0] *= u.acc(); break;
        case G_UNIFORM: g.p[0] *= u.acc(); g.p[1] *= u.acc(); break;
        case G_STATIC: g.p[0] *= u.force(); g.p[1] *= u.force(); g.p[2] *= u.len; g.p[3] *= u.len; break;
        case G_SPRING:
            for (int i = 0; i < 5; ++i) g.p[i] *= u.len;
            g.p[5] *= u.mass / (u.time * u.time); g.p[6] *= u.mass / u.time; break;
        case G_MOTOR:
            g.p[0] *= u.inertia() / u.time; g.p[1] *= u.inertia(); g.p[2] *= u.torque(); g.p[3] /= u.time; break;
        default: g.p[0] /= u.mass * u.time * u.time * (u.len < 1 ? 1 : u.len); break;
    }
    return t;
}
// anything from watch parts to ships, and far from the origin
// (conjugate gradients lose digits when rows are in very different units, so lengths stay)
inline Units randomUnits(Rng &r, int solver, bool away = true) {
    Units u;
    if (r.chance(0.6)) u.mass = r.logUniform(1e-5, 1e6);
    if (r.chance(0.5) && solver != S_CG) u.len = r.logUniform(1e-2, 1e3);
    if (r.chance(0.5)) u.time = r.logUniform(1e-2, 1e2);
    if (away && r.chance(0.5)) { const double R = r.logUniform(10, 1e4); u.ox = r.uniform(-R, R) * u.len; u.oy = r.uniform(-R, R) * u.len; }
    return u;
}
// the largest coordinate or lever in a scene: what positions are rounded at
inline double extent(const Spec &s, const std::vector<Pose> &P) {
    double e = 1;
    for (auto &p : P) e = std::fmax(e, std::fmax(std::fabs(p.q[0]), std::fabs(p.q[1])));
    for (auto &b : s.anchors) e = std::fmax(e, std::fmax(std::fabs(b.px), std::fabs(b.py)));
    for (auto &k : s.cons) for (double v : k.p) e = std::fmax(e, std::fabs(v));
    return e;
}

inline void shapeOf(Ctx &c, const Spec &s) {
    c.shape(s.bodies.size());
    for (auto &k : s.cons) { c.shape(k.kind); c.shape((uint64_t)(k.b[0] + 100)); c.shape((uint64_t)(k.b[1] + 100)); }
    for (auto &g : s.gens) c.shape(100 + g.kind);
    for (auto &b : s.bodies) c.shape(bitsOf(b.m));
}
inline void countKinds(Ctx &c, const Spec &s) {
    static const char *cn[] = {"con_fixpos", "con_fixrot", "con_line", "con_link", "con_roll", "con_crot",
        "con_clutch", "con_friction", "con_gear", "con_user_weld3", "con_user_lin1"};
    static const char *gn[] = {"gen_gravity", "gen_static", "gen_spring", "gen_motor", "gen_user_uniform", "gen_user_attract"};
    for (auto &k : s.cons) c.count(cn[k.kind]);
    for (auto &g : s.gens) c.count(gn[g.kind]);
}
inline void describe(const Spec &s, char *buf, size_t cap) {
    size_t o = 0;
    o += snprintf(buf + o, cap - o, "%d bodies;", (int)s.bodies.size());
    for (auto &k : s.cons) if (o + 40 < cap) o += snprintf(buf + o, cap - o, " %s(%d,%d)", conName(k.kind), k.b[0], conBodies(k.kind) > 1 ? k.b[1] : k.b[0]);
    o += snprintf(buf + o, cap - o, " |");
    for (auto &g : s.gens) if (o + 20 < cap) o += snprintf(buf + o, cap - o, " %s", genName(g.kind));
}

} // namespace vf
#endif

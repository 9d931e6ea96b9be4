// C30: a new object is complete, neutral and the same wherever it is created;
// setters change exactly what they name.
#include "scene.h"
#include <new>
const char *const kCheckId = "C30";
using namespace vf;

namespace {
typedef std::vector<double> Vals;
// the public fields of every class, as numbers, in a fixed order; the second list
// is what a new object must show
void dump(const RigidBody &b, Vals &v) { v = {b.p_x, b.p_y, b.v_x, b.v_y, b.theta, b.v_theta, b.m, b.I, (double)b.index}; }
Vals fresh(const RigidBody *) { return {0, 0, 0, 0, 0, 0, 0, 0, -1}; }

void base(const Constraint &k, Vals &v) {
    v.push_back(k.getConstraintCount()); v.push_back(k.m_bodyCount); v.push_back(k.m_index);
    for (int j = 0; j < Constraint::MaxBodyCount; ++j) v.push_back(k.m_bodies[j] != nullptr);
    for (int i = 0; i < Constraint::MaxConstraintCount; ++i) for (int j = 0; j < Constraint::MaxBodyCount; ++j) {
        v.push_back(k.F_x[i][j]); v.push_back(k.F_y[i][j]); v.push_back(k.F_t[i][j]);
    }
}
Vals freshBase(int rows, int bodies) {
    Vals v = {(double)rows, (double)bodies, -1, 0, 0};
    v.resize(v.size() + 18, 0.0);
    return v;
}
Vals operator+(Vals a, const Vals &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
const double BIG = 1.7976931348623157e308;

void dump(const FixedPositionConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_local_x, k.m_local_y, k.m_world_x, k.m_world_y}; }
Vals fresh(const FixedPositionConstraint *) { return freshBase(2, 1) + Vals{10, 1, 0, 0, 0, 0}; }
void dump(const FixedRotationConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_rotation}; }
Vals fresh(const FixedRotationConstraint *) { return freshBase(1, 1) + Vals{10, 1, 0}; }
void dump(const LineConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_local_x, k.m_local_y, k.m_p0_x, k.m_p0_y, k.m_dx, k.m_dy}; }
Vals fresh(const LineConstraint *) { return freshBase(1, 1) + Vals{10, 1, 0, 0, 0, 0, 0, 0}; }
void dump(const LinkConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_local_x_1, k.m_local_y_1, k.m_local_x_2, k.m_local_y_2, k.m_maxForce}; }
Vals fresh(const LinkConstraint *) { return freshBase(2, 2) + Vals{10, 1, 0, 0, 0, 0, BIG}; }
void dump(const RollingConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_local_x, k.m_local_y, k.m_dx, k.m_dy, k.m_radius}; }
Vals fresh(const RollingConstraint *) { return freshBase(2, 2) + Vals{10, 1, 0, 0, 0, 0, 0}; }
void dump(const ConstantRotationConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_rotationSpeed, k.m_minTorque, k.m_maxTorque}; }
Vals fresh(const ConstantRotationConstraint *) { return freshBase(1, 1) + Vals{10, 1, 0, -BIG, BIG}; }
void dump(const ClutchConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_minTorque, k.m_maxTorque}; }
Vals fresh(const ClutchConstraint *) { return freshBase(1, 2) + Vals{10, 1, -BIG, BIG}; }
void dump(const RotationFrictionConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_minTorque, k.m_maxTorque}; }
Vals fresh(const RotationFrictionConstraint *) { return freshBase(1, 1) + Vals{10, 1, -BIG, BIG}; }
void dump(const SimpleGearConstraint &k, Vals &v) { base(k, v); v = v + Vals{k.m_ks, k.m_kd, k.m_ratio, (double)k.m_neutral}; }
Vals fresh(const SimpleGearConstraint *) { return freshBase(1, 2) + Vals{10, 1, 1, 0}; }

void dump(const GravityForceGenerator &g, Vals &v) { v = {g.m_g}; }
Vals fresh(const GravityForceGenerator *) { return {9.81}; }
void dump(const StaticForceGenerator &g, Vals &v) { v = {g.m_f_x, g.m_f_y, g.m_p_x, g.m_p_y, (double)(g.m_body != nullptr)}; }
Vals fresh(const StaticForceGenerator *) { return {0, 0, 0, 0, 0}; }
void dump(const Spring &g, Vals &v) {
    v = {g.m_restLength, g.m_ks, g.m_kd, g.m_p1_x, g.m_p1_y, g.m_p2_x, g.m_p2_y, (double)(g.m_body1 != nullptr), (double)(g.m_body2 != nullptr)};
}
Vals fresh(const Spring *) { return {1, 0, 0, 0, 0, 0, 0, 0, 0}; }
void dump(const ConstantSpeedMotor &g, Vals &v) { v = {g.m_ks, g.m_kd, g.m_maxTorque, g.m_speed, (double)(g.m_body0 != nullptr), (double)(g.m_body1 != nullptr)}; }
Vals fresh(const ConstantSpeedMotor *) { return {1, 1, 500, 1, 0, 0}; }

void dump(const GaussianEliminationSleSolver &s, Vals &v) { v = {(double)s.supportsLimits()}; }
Vals fresh(const GaussianEliminationSleSolver *) { return {0}; }
void dump(const GaussSeidelSleSolver &s, Vals &v) { v = {(double)s.supportsLimits(), (double)s.m_maxIterations, s.m_minDelta}; }
Vals fresh(const GaussSeidelSleSolver *) { return {1, 128, 1e-1}; }
void dump(const ConjugateGradientSleSolver &s, Vals &v) { v = {(double)s.supportsLimits(), (double)s.getMaxIterations(), s.getMaxError(), s.getMinError()}; }
Vals fresh(const ConjugateGradientSleSolver *) { return {0, 1000, 1e-2, 1e-3}; }

void system(RigidBodySystem &s, Vals &v) {
    v = {(double)s.getRigidBodyCount(), (double)s.getConstraintCount(), (double)s.getForceGeneratorCount(), (double)s.getFullConstraintCount(),
         s.getOdeSolveMicroseconds(), s.getConstraintSolveMicroseconds(), s.getForceEvalMicroseconds(), s.getConstraintEvalMicroseconds(),
         (double)s.state()->n, (double)s.state()->n_c, s.state()->dt};
}
void dump(const GenericRigidBodySystem &s, Vals &v) { system(const_cast<GenericRigidBodySystem &>(s), v); }
Vals fresh(const GenericRigidBodySystem *) { return Vals(11, 0.0); }
void dump(const OptimizedNsvRigidBodySystem &s, Vals &v) { system(const_cast<OptimizedNsvRigidBodySystem &>(s), v); v = v + Vals{s.m_biasFactor, s.timeElapsed()}; }
Vals fresh(const OptimizedNsvRigidBodySystem *) { return Vals(11, 0.0) + Vals{1, 0}; }
void dump(const SystemState &s, Vals &v) {
    v = {(double)s.n, (double)s.n_c, s.dt};
    for (double *a : {s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.f_x, s.f_y, s.t, s.r_x, s.r_y, s.r_t, s.m}) v.push_back(a != nullptr);
    v.push_back(s.indexMap != nullptr);
}
Vals fresh(const SystemState *) { return Vals(20, 0.0); }
void dump(const Matrix &m, Vals &v) { v = {(double)m.getWidth(), (double)m.getHeight()}; }
Vals fresh(const Matrix *) { return {0, 0}; }
void dump(const SparseMatrix<3> &m, Vals &v) { v = {(double)m.getWidth(), (double)m.getHeight()}; }
Vals fresh(const SparseMatrix<3> *) { return {0, 0}; }

// what the object was used for before it died, in the same memory
void use(RigidBody &b, Rng &r) { b.m = b.I = b.p_x = b.v_theta = r.uniform(1, 5); b.index = 3; }
void useCon(Constraint &k, Rng &r) {
    for (auto &row : k.F_x) for (double &f : row) f = r.uniform(1, 5);
    for (auto &row : k.F_t) for (double &f : row) f = r.uniform(1, 5);
    k.m_index = r.below(9);
}
template <class T> void use(T &t, Rng &r, decltype((void)t.m_bodyCount, 0) = 0) { useCon(t, r); t.m_ks = t.m_kd = r.uniform(20, 90); }
void use(GravityForceGenerator &g, Rng &r) { g.m_g = r.uniform(20, 30); }
void use(StaticForceGenerator &g, Rng &r) { g.setForce(r.uniform(1, 2), 3); g.setPosition(4, r.uniform(1, 3)); }
void use(Spring &g, Rng &r) { g.m_ks = g.m_kd = g.m_p1_x = g.m_p2_y = g.m_restLength = r.uniform(2, 9); }
void use(ConstantSpeedMotor &g, Rng &r) { g.m_ks = g.m_kd = g.m_maxTorque = g.m_speed = r.uniform(2, 9); }
void use(GaussianEliminationSleSolver &, Rng &) {}
void use(GaussSeidelSleSolver &s, Rng &r) { s.m_maxIterations = r.range(1, 9); s.m_minDelta = r.uniform(1, 9); }
void use(ConjugateGradientSleSolver &s, Rng &r) { s.setMaxIterations(r.range(1, 9)); s.setMaxError(r.unit()); s.setMinError(r.unit()); }
void use(GenericRigidBodySystem &, Rng &) {}
void use(OptimizedNsvRigidBodySystem &s, Rng &r) { s.m_biasFactor = r.uniform(0, 1); }
void use(SystemState &s, Rng &r) { s.resize(r.range(1, 3), r.below(3)); s.destroy(); s.dt = 3; }
void use(Matrix &m, Rng &r) { m.initialize(r.range(1, 3), r.range(1, 3), 3.0); m.destroy(); }
void use(SparseMatrix<3> &m, Rng &r) { m.initialize(3 * r.range(1, 3), r.range(1, 3)); m.destroy(); }

void judge(Ctx &c, const char *cls, const char *what, const Vals &got, const Vals &want) {
    if (got.size() != want.size()) c.fail("shape", "%s: %d values, %d expected (harness)", cls, (int)got.size(), (int)want.size());
    for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i]))
        c.fail("field", "%s, %s: value %d is %.17g, %.17g expected", cls, what, (int)i, got[i], want[i]);
    c.count("values_compared", (long long)got.size());
}

template <class T> T *make(void *mem, size_t n, Rng &r, int fill) {
    unsigned char *p = (unsigned char *)mem;
    for (size_t i = 0; i < n; ++i) p[i] = fill < 256 ? (unsigned char)fill : (unsigned char)r.below(256);
    return new (mem) T; // without parentheses: nothing but the constructor initialises
}
template <class T> void fields(Ctx &c, const char *cls) {
    Rng &r = c.rng;
    static const int fills[] = {0, 255, 63, 127, 256};
    const int fill = fills[r.below(5)];
    alignas(64) unsigned char mem[sizeof(T)];
    T *t = make<T>(mem, sizeof mem, r, fill);
    Vals v;
    dump(*t, v);
    judge(c, cls, "new", v, fresh((T *)nullptr));
    use(*t, r);
    t->~T();
    t = new (mem) T; // over the remains of its predecessor
    v.clear();
    dump(*t, v);
    judge(c, cls, "new in the memory of a used one", v, fresh((T *)nullptr));
    t->~T();
    c.count(cls);
}

// a new constraint evaluated with only its bodies set must be that of the model with default parameters
void evaluate(Ctx &c, int kind) {
    Rng &r = c.rng;
    ConSpec k;
    k.kind = kind;
    if (kind == K_GEAR) k.p[0] = 1;
    std::unique_ptr<Constraint> x;
    alignas(64) unsigned char mem[2048];
    auto at = [&](size_t n) -> void * { for (size_t i = 0; i < n; ++i) mem[i] = (unsigned char)r.below(256); return mem; };
    Constraint *q = nullptr;
    switch (kind) {
        case K_FIXPOS: q = new (at(sizeof(FixedPositionConstraint))) FixedPositionConstraint; break;
        case K_FIXROT: q = new (at(sizeof(FixedRotationConstraint))) FixedRotationConstraint; break;
        case K_LINE: q = new (at(sizeof(LineConstraint))) LineConstraint; break;
        case K_LINK: q = new (at(sizeof(LinkConstraint))) LinkConstraint; break;
        case K_ROLL: q = new (at(sizeof(RollingConstraint))) RollingConstraint; break;
        case K_CROT: q = new (at(sizeof(ConstantRotationConstraint))) ConstantRotationConstraint; break;
        case K_CLUTCH: q = new (at(sizeof(ClutchConstraint))) ClutchConstraint; break;
        case K_FRICTION: q = new (at(sizeof(RotationFrictionConstraint))) RotationFrictionConstraint; break;
        default: q = new (at(sizeof(SimpleGearConstraint))) SimpleGearConstraint; break;
    }
    RigidBody a, b;
    a.index = 0; b.index = 1;
    q->m_bodies[0] = &a;
    if (conBodies(kind) > 1) q->m_bodies[1] = &b;
    State s;
    s.resize(2, 2);
    Pose P[2];
    for (int i = 0; i < 2; ++i) {
        for (int j = 0; j < 3; ++j) { P[i].q[j] = r.uniform(-4, 4); P[i].v[j] = r.uniform(-4, 4); }
        s.p_x[i] = P[i].q[0]; s.p_y[i] = P[i].q[1]; s.theta[i] = P[i].q[2];
        s.v_x[i] = P[i].v[0]; s.v_y[i] = P[i].v[1]; s.v_theta[i] = P[i].v[2];
        s.m[i] = 1;
    }
    Constraint::Output o;
    memset(&o, 0x7f, sizeof o);
    q->calculate(&o, &s);
    const RefRows R = refRows(k, P[0], P[1]);
    for (int i = 0; i < R.n; ++i) {
        const bool slip = kind == K_ROLL && i == 0; // orientation of the slip row is a convention
        for (int j = 0; j < 3 * conBodies(kind); ++j) {
            if (!near(slip ? std::fabs(o.J[i][j]) : o.J[i][j], slip ? std::fabs(R.J[i][j]) : R.J[i][j], 1e-10))
                c.fail("default-row", "new %s: J[%d][%d] is %.12g, %.12g expected", conName(kind), i, j, o.J[i][j], R.J[i][j]);
        }
        const double want[6] = {slip ? std::fabs(R.C[i]) : R.C[i], R.vb[i], R.lo[i], R.hi[i], R.ks[i], R.kd[i]};
        const double got[6] = {slip ? std::fabs(o.C[i]) : o.C[i], o.v_bias[i], o.limits[i][0], o.limits[i][1], o.ks[i], o.kd[i]};
        static const char *n[] = {"error", "velocity bias", "lower limit", "upper limit", "stiffness", "damping"};
        for (int j = 0; j < 6; ++j) if (!near(got[j], want[j], j ? 0 : 1e-10))
            c.fail("default-row", "new %s: %s of row %d is %.12g, %.12g expected", conName(kind), n[j], i, got[j], want[j]);
        c.count("default_rows");
    }
    q->~Constraint();
}

// every number a user may set, for objects in an arbitrary state
typedef std::vector<double *> Refs;
Refs refs(RigidBody &b) { return {&b.p_x, &b.p_y, &b.v_x, &b.v_y, &b.theta, &b.v_theta, &b.m, &b.I}; }
Refs refs(FixedPositionConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_local_x, &k.m_local_y, &k.m_world_x, &k.m_world_y}; }
Refs refs(FixedRotationConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_rotation}; }
Refs refs(LineConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_local_x, &k.m_local_y, &k.m_p0_x, &k.m_p0_y, &k.m_dx, &k.m_dy}; }
Refs refs(LinkConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_local_x_1, &k.m_local_y_1, &k.m_local_x_2, &k.m_local_y_2, &k.m_maxForce}; }
Refs refs(RollingConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_local_x, &k.m_local_y, &k.m_dx, &k.m_dy, &k.m_radius}; }
Refs refs(ConstantRotationConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_rotationSpeed, &k.m_minTorque, &k.m_maxTorque}; }
Refs refs(ClutchConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_minTorque, &k.m_maxTorque}; }
Refs refs(RotationFrictionConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_minTorque, &k.m_maxTorque}; }
Refs refs(SimpleGearConstraint &k) { return {&k.m_ks, &k.m_kd, &k.m_ratio}; }
Refs refs(GravityForceGenerator &g) { return {&g.m_g}; }
Refs refs(StaticForceGenerator &g) { return {&g.m_f_x, &g.m_f_y, &g.m_p_x, &g.m_p_y}; }
Refs refs(Spring &g) { return {&g.m_restLength, &g.m_ks, &g.m_kd, &g.m_p1_x, &g.m_p1_y, &g.m_p2_x, &g.m_p2_y}; }
Refs refs(ConstantSpeedMotor &g) { return {&g.m_ks, &g.m_kd, &g.m_maxTorque, &g.m_speed}; }
Refs refs(ConjugateGradientSleSolver &) { return {}; }
void more(Constraint &k, Rng &r) {
    for (auto &row : k.F_x) for (double &f : row) f = r.wild(9);
    for (auto &row : k.F_y) for (double &f : row) f = r.wild(9);
    for (auto &row : k.F_t) for (double &f : row) f = r.wild(9);
    k.m_index = r.range(-1, 9);
    if (auto *g = dynamic_cast<SimpleGearConstraint *>(&k)) g->m_neutral = r.chance(0.5);
}
void more(RigidBody &b, Rng &r) { b.index = r.range(-1, 9); }
void more(ForceGenerator &, Rng &) {}
void more(ConjugateGradientSleSolver &s, Rng &r) { s.setMaxIterations(r.range(0, 99)); s.setMaxError(r.unit()); s.setMinError(r.unit()); }
template <class T> void scramble(T &t, Rng &r) { for (double *p : refs(t)) *p = r.wild(9); more(t, r); }

// setters change what they name and nothing else
template <class T, class F> void setter(Ctx &c, const char *name, F call, std::vector<std::pair<int, double>> changed) {
    T t;
    if (c.rng.chance(0.8)) scramble(t, c.rng);
    Vals before, after;
    dump(t, before);
    call(t);
    dump(t, after);
    for (auto &x : changed) before[before.size() - 1 - (size_t)x.first] = x.second;
    judge(c, name, "after the call", after, before);
    c.count("setters");
}
// body setters: the named slot, the other one and everything else as before
template <class T, class F> void bodySetter(Ctx &c, const char *name, int slot, F call) {
    T t;
    RigidBody x, y, z;
    scramble(t, c.rng);
    scramble(z, c.rng);
    RigidBody *was[2] = {c.rng.chance(0.5) ? &x : nullptr, c.rng.chance(0.5) ? &y : nullptr};
    for (int i = 0; i < 2; ++i) t.m_bodies[i] = was[i];
    Vals before, after, zb, za;
    dump(t, before); dump(z, zb);
    RigidBody *to = c.rng.chance(0.9) ? &z : nullptr;
    call(t, to);
    dump(t, after); dump(z, za);
    if (t.m_bodies[slot] != to) c.fail("body", "%s did not set body %d", name, slot);
    if (t.m_bodies[1 - slot] != was[1 - slot]) c.fail("body", "%s changed the other body", name);
    before[3 + (size_t)slot] = to != nullptr;
    judge(c, name, "after the call", after, before);
    judge(c, name, "the body itself", za, zb);
    c.count("setters");
}
void setters(Ctx &c) {
    Rng &r = c.rng;
    const double x = r.wild(9), y = r.wild(9);
    RigidBody b;
    switch (r.below(22)) {
        // positions counted from the end of the list
        case 0: setter<FixedPositionConstraint>(c, "FixedPositionConstraint::setWorldPosition", [&](FixedPositionConstraint &k) { k.setWorldPosition(x, y); }, {{1, x}, {0, y}}); break;
        case 1: setter<FixedPositionConstraint>(c, "FixedPositionConstraint::setLocalPosition", [&](FixedPositionConstraint &k) { k.setLocalPosition(x, y); }, {{3, x}, {2, y}}); break;
        case 2: setter<LinkConstraint>(c, "LinkConstraint::setLocalPosition1", [&](LinkConstraint &k) { k.setLocalPosition1(x, y); }, {{4, x}, {3, y}}); break;
        case 3: setter<LinkConstraint>(c, "LinkConstraint::setLocalPosition2", [&](LinkConstraint &k) { k.setLocalPosition2(x, y); }, {{2, x}, {1, y}}); break;
        case 4: { const int n = r.range(0, 5000); setter<ConjugateGradientSleSolver>(c, "ConjugateGradientSleSolver::setMaxIterations", [&](ConjugateGradientSleSolver &k) { k.setMaxIterations(n); }, {{2, (double)n}}); break; }
        case 5: setter<ConjugateGradientSleSolver>(c, "ConjugateGradientSleSolver::setMaxError", [&](ConjugateGradientSleSolver &k) { k.setMaxError(x); }, {{1, x}}); break;
        case 6: setter<ConjugateGradientSleSolver>(c, "ConjugateGradientSleSolver::setMinError", [&](ConjugateGradientSleSolver &k) { k.setMinError(x); }, {{0, x}}); break;
        case 7: setter<StaticForceGenerator>(c, "StaticForceGenerator::setForce", [&](StaticForceGenerator &k) { k.setForce(x, y); }, {{4, x}, {3, y}}); break;
        case 8: setter<StaticForceGenerator>(c, "StaticForceGenerator::setPosition", [&](StaticForceGenerator &k) { k.setPosition(x, y); }, {{2, x}, {1, y}}); break;
        case 9: bodySetter<LinkConstraint>(c, "LinkConstraint::setBody1", 0, [](LinkConstraint &k, RigidBody *q) { k.setBody1(q); }); break;
        case 10: bodySetter<LinkConstraint>(c, "LinkConstraint::setBody2", 1, [](LinkConstraint &k, RigidBody *q) { k.setBody2(q); }); break;
        case 11: bodySetter<ClutchConstraint>(c, "ClutchConstraint::setBody1", 0, [](ClutchConstraint &k, RigidBody *q) { k.setBody1(q); }); break;
        case 12: bodySetter<ClutchConstraint>(c, "ClutchConstraint::setBody2", 1, [](ClutchConstraint &k, RigidBody *q) { k.setBody2(q); }); break;
        case 13: bodySetter<SimpleGearConstraint>(c, "SimpleGearConstraint::setBody1", 0, [](SimpleGearConstraint &k, RigidBody *q) { k.setBody1(q); }); break;
        case 14: bodySetter<SimpleGearConstraint>(c, "SimpleGearConstraint::setBody2", 1, [](SimpleGearConstraint &k, RigidBody *q) { k.setBody2(q); }); break;
        case 15: bodySetter<RollingConstraint>(c, "RollingConstraint::setBaseBody", 0, [](RollingConstraint &k, RigidBody *q) { k.setBaseBody(q); }); break;
        case 16: bodySetter<RollingConstraint>(c, "RollingConstraint::setRollingBody", 1, [](RollingConstraint &k, RigidBody *q) { k.setRollingBody(q); }); break;
        case 17: switch (r.below(5)) {
            case 0: bodySetter<FixedPositionConstraint>(c, "FixedPositionConstraint::setBody", 0, [](FixedPositionConstraint &k, RigidBody *q) { k.setBody(q); }); break;
            case 1: bodySetter<FixedRotationConstraint>(c, "FixedRotationConstraint::setBody", 0, [](FixedRotationConstraint &k, RigidBody *q) { k.setBody(q); }); break;
            case 2: bodySetter<LineConstraint>(c, "LineConstraint::setBody", 0, [](LineConstraint &k, RigidBody *q) { k.setBody(q); }); break;
            case 3: bodySetter<ConstantRotationConstraint>(c, "ConstantRotationConstraint::setBody", 0, [](ConstantRotationConstraint &k, RigidBody *q) { k.setBody(q); }); break;
            default: bodySetter<RotationFrictionConstraint>(c, "RotationFrictionConstraint::setBody", 0, [](RotationFrictionConstraint &k, RigidBody *q) { k.setBody(q); }); break;
        } break;
        default: {
            // RigidBody::reset: back to the pose, speeds and mass of a new body; membership is not its business
            scramble(b, r);
            const int at = b.index = r.range(-1, 50);
            b.reset();
            Vals v, w = fresh((RigidBody *)nullptr);
            dump(b, v); w.back() = at;
            judge(c, "RigidBody::reset", "after the call", v, w);
            c.count("setters");
        }
    }
}
// using an object changes only what use is meant to change: registration the index,
// evaluation nothing, a step the motion of bodies and the reported forces
void dumpAny(const Constraint &k, Vals &v) {
#define VF_TRY(T) if (auto *x = dynamic_cast<const T *>(&k)) { dump(*x, v); return; }
    VF_TRY(FixedPositionConstraint) VF_TRY(FixedRotationConstraint) VF_TRY(LineConstraint) VF_TRY(LinkConstraint) VF_TRY(RollingConstraint)
    VF_TRY(ConstantRotationConstraint) VF_TRY(ClutchConstraint) VF_TRY(RotationFrictionConstraint) VF_TRY(SimpleGearConstraint)
#undef VF_TRY
}
void dumpAny(const ForceGenerator &k, Vals &v) {
#define VF_TRY(T) if (auto *x = dynamic_cast<const T *>(&k)) { dump(*x, v); return; }
    VF_TRY(GravityForceGenerator) VF_TRY(StaticForceGenerator) VF_TRY(Spring) VF_TRY(ConstantSpeedMotor)
#undef VF_TRY
}
void useOnly(Ctx &c) {
    Rng &r = c.rng;
    SceneOpts o;
    o.kinds = (1u << K_WELD) - 1;
    o.maxBodies = 5;
    o.anchors = r.chance(0.3);
    const Spec s = randomScene(r, o);
    std::vector<std::unique_ptr<RigidBody>> bodies, loose;
    std::vector<std::unique_ptr<Constraint>> cons;
    std::vector<std::unique_ptr<ForceGenerator>> gens;
    for (auto &b : s.bodies) { bodies.emplace_back(new RigidBody); setBody(bodies.back().get(), b); }
    for (auto &b : s.anchors) { loose.emplace_back(new RigidBody); setBody(loose.back().get(), b); }
    auto at = [&](int i) { return i >= 0 ? bodies[i].get() : loose[-1 - i].get(); };
    for (auto &k : s.cons) cons.emplace_back(newConstraint(k, at(k.b[0]), conBodies(k.kind) > 1 ? at(k.b[1]) : nullptr));
    for (auto &g : s.gens) {
        const bool one = g.kind == G_STATIC || g.kind == G_SPRING || g.kind == G_MOTOR, two = g.kind == G_SPRING || g.kind == G_MOTOR;
        gens.emplace_back(newGenerator(g, one ? at(g.b[0]) : nullptr, two ? at(g.b[1]) : nullptr));
    }
    enum { BodyIndex = 1, ConIndex = 2, GenIndex = 4, Motion = 8, Forces = 16 };
    std::vector<Vals> vb, vl, vc, vg;
    std::vector<int> ig;
    auto image = [&](std::vector<Vals> &b, std::vector<Vals> &l, std::vector<Vals> &k, std::vector<Vals> &g) {
        b.assign(bodies.size(), {}); l.assign(loose.size(), {}); k.assign(cons.size(), {}); g.assign(gens.size(), {});
        for (size_t i = 0; i < bodies.size(); ++i) dump(*bodies[i], b[i]);
        for (size_t i = 0; i < loose.size(); ++i) dump(*loose[i], l[i]);
        for (size_t i = 0; i < cons.size(); ++i) dumpAny(*cons[i], k[i]);
        for (size_t i = 0; i < gens.size(); ++i) dumpAny(*gens[i], g[i]);
    };
    auto same = [](double a, double b) { return bitsOf(a) == bitsOf(b); };
    auto did = [&](const char *what, int may) {
        std::vector<Vals> b, l, k, g;
        image(b, l, k, g);
        for (size_t i = 0; i < b.size(); ++i) for (size_t j = 0; j < b[i].size(); ++j)
            if (!same(b[i][j], vb[i][j]) && !(j < 6 && (may & Motion)) && !(j == 8 && (may & BodyIndex)))
                c.fail("side-effect", "%s changed field %d of a body from %.17g to %.17g", what, (int)j, vb[i][j], b[i][j]);
        for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < l[i].size(); ++j)
            if (!same(l[i][j], vl[i][j])) c.fail("side-effect", "%s changed field %d of an unregistered body", what, (int)j);
        for (size_t i = 0; i < k.size(); ++i) for (size_t j = 0; j < k[i].size(); ++j)
            if (!same(k[i][j], vc[i][j]) && !(j == 2 && (may & ConIndex)) && !(j >= 5 && j < 23 && (may & Forces)))
                c.fail("side-effect", "%s changed field %d of a %s constraint from %.17g to %.17g", what, (int)j, conName(s.cons[i].kind), vc[i][j], k[i][j]);
        for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g[i].size(); ++j)
            if (!same(g[i][j], vg[i][j])) c.fail("side-effect", "%s changed field %d of a %s generator", what, (int)j, genName(s.gens[i].kind));
        vb = b; vl = l; vc = k; vg = g;
        c.count("uses_judged");
    };
    image(vb, vl, vc, vg);
    const int solver = r.below(S_COUNT);
    std::unique_ptr<SleSolver> sle(makeSolver(solver, false));
    SpySolver spy(sle.get());
    EulerOdeSolver eu; Rk4OdeSolver rk;
    std::unique_ptr<RigidBodySystem> sys;
    if (r.chance(0.5)) { auto *q = new OptimizedNsvRigidBodySystem; q->initialize(&spy); sys.reset(q); }
    else { auto *q = new GenericRigidBodySystem; q->initialize(&spy, r.chance(0.5) ? (OdeSolver *)&eu : &rk); sys.reset(q); }
    for (auto &b : bodies) sys->addRigidBody(b.get());
    did("adding bodies", BodyIndex);
    for (auto &k : cons) sys->addConstraint(k.get());
    did("adding constraints", ConIndex);
    for (auto &g : gens) sys->addForceGenerator(g.get());
    did("adding force generators", GenIndex);
    for (int f = 0; f < 2; ++f) {
        sys->process(r.logUniform(1e-4, 0.02), r.range(1, 3));
        did("a step", Motion | Forces);
    }
    // evaluations by hand
    State st;
    st.resize((int)bodies.size(), 1);
    for (size_t i = 0; i < bodies.size(); ++i) {
        const RigidBody *b = sys->getRigidBody((int)i);
        st.p_x[i] = b->p_x; st.p_y[i] = b->p_y; st.theta[i] = b->theta; st.v_x[i] = b->v_x; st.v_y[i] = b->v_y; st.v_theta[i] = b->v_theta;
        st.m[i] = b->m; st.a_x[i] = st.a_y[i] = st.a_theta[i] = st.f_x[i] = st.f_y[i] = st.t[i] = 0;
    }
    Constraint::Output out;
    for (auto &k : cons) k->calculate(&out, &st);
    did("evaluating constraints", 0);
    for (auto &g : gens) g->apply(&st);
    did("applying generators", 0);
    double u = 0, x, y;
    for (auto &g : gens) if (auto *q = dynamic_cast<Spring *>(g.get())) { double z, w; u += q->energy(); q->getEnds(&x, &y, &z, &w); }
    for (auto &b : bodies) { u += b->energy(); b->localToWorld(1, 2, &x, &y); b->worldToLocal(1, 2, &x, &y); }
    (void)u;
    did("asking for energies and positions", 0);
    sys->getRigidBodyCount(); sys->getFullConstraintCount(); sys->getOdeSolveMicroseconds(); sys->getConstraintEvalMicroseconds();
    did("asking the system", 0);
    for (int i = (int)cons.size() - 1; i >= 0; --i) if (r.chance(0.5)) sys->removeConstraint(cons[i].get());
    did("removing constraints", ConIndex);
    for (int i = (int)gens.size() - 1; i >= 0; --i) if (r.chance(0.5)) sys->removeForceGenerator(gens[i].get());
    did("removing generators", GenIndex);
    for (int i = (int)bodies.size() - 1; i >= 0; --i) if (r.chance(0.3)) sys->removeRigidBody(bodies[i].get());
    did("removing bodies", BodyIndex);
    if (r.chance(0.5)) { sys->reset(); did("resetting the system", BodyIndex | ConIndex | GenIndex); }
    if (auto *q = dynamic_cast<OptimizedNsvRigidBodySystem *>(sys.get())) { q->initialize(&spy); did("initialising the system again", 0); }
    sys.reset();
    did("destroying the system", BodyIndex | ConIndex | GenIndex);
}
// a new generator must do what its documented defaults say
void generators(Ctx &c) {
    Rng &r = c.rng;
    State s;
    s.resize(2, 0);
    for (int i = 0; i < 2; ++i) {
        s.p_x[i] = r.uniform(-4, 4); s.p_y[i] = r.uniform(-4, 4); s.theta[i] = r.uniform(-4, 4);
        s.v_x[i] = r.uniform(-4, 4); s.v_y[i] = r.uniform(-4, 4); s.v_theta[i] = r.uniform(-4, 4);
        s.a_x[i] = s.a_y[i] = s.a_theta[i] = s.f_x[i] = s.f_y[i] = s.t[i] = 0; s.m[i] = r.logUniform(0.1, 10);
    }
    RigidBody a, b;
    a.index = 0; b.index = 1;
    const int kind = r.below(4);
    alignas(64) unsigned char mem[1024];
    for (auto &x : mem) x = (unsigned char)r.below(256);
    double f[6] = {0, 0, 0, 0, 0, 0};
    ForceGenerator *g;
    if (kind == 0) { g = new (mem) GravityForceGenerator; f[1] = -9.81 * s.m[0]; f[4] = -9.81 * s.m[1]; }
    else if (kind == 1) { auto *q = new (mem) StaticForceGenerator; q->m_body = &a; g = q; }
    else if (kind == 2) { auto *q = new (mem) Spring; q->m_body1 = &a; q->m_body2 = &b; g = q; }
    else {
        auto *q = new (mem) ConstantSpeedMotor; q->m_body0 = &a; q->m_body1 = &b; g = q;
        f[5] = 1 - (s.v_theta[1] - s.v_theta[0]); f[2] = -f[5];
    }
    g->apply(&s);
    const double got[6] = {s.f_x[0], s.f_y[0], s.t[0], s.f_x[1], s.f_y[1], s.t[1]};
    for (int i = 0; i < 6; ++i) if (!near(got[i], f[i], 1e-11))
        c.fail("default-force", "new %s: force component %d is %.12g, %.12g expected", kind == 0 ? "gravity" : kind == 1 ? "static force" : kind == 2 ? "spring" : "motor", i, got[i], f[i]);
    c.count("default_forces");
    g->~ForceGenerator();
}
}

void run_case(Ctx &c) {
    const int what = c.rng.below(40);
    c.nontrivial = true;
    c.shape(what); c.shape(c.rng.s);
    c.sample("class or setter group %d", what);
    switch (what) {
        case 0: fields<RigidBody>(c, "RigidBody"); break;
        case 1: fields<FixedPositionConstraint>(c, "FixedPositionConstraint"); break;
        case 2: fields<FixedRotationConstraint>(c, "FixedRotationConstraint"); break;
        case 3: fields<LineConstraint>(c, "LineConstraint"); break;
        case 4: fields<LinkConstraint>(c, "LinkConstraint"); break;
        case 5: fields<RollingConstraint>(c, "RollingConstraint"); break;
        case 6: fields<ConstantRotationConstraint>(c, "ConstantRotationConstraint"); break;
        case 7: fields<ClutchConstraint>(c, "ClutchConstraint"); break;
        case 8: fields<RotationFrictionConstraint>(c, "RotationFrictionConstraint"); break;
        case 9: fields<SimpleGearConstraint>(c, "SimpleGearConstraint"); break;
        case 10: fields<GravityForceGenerator>(c, "GravityForceGenerator"); break;
        case 11: fields<StaticForceGenerator>(c, "StaticForceGenerator"); break;
        case 12: fields<Spring>(c, "Spring"); break;
        case 13: fields<ConstantSpeedMotor>(c, "ConstantSpeedMotor"); break;
        case 14: fields<GaussianEliminationSleSolver>(c, "GaussianEliminationSleSolver"); break;
        case 15: fields<GaussSeidelSleSolver>(c, "GaussSeidelSleSolver"); break;
        case 16: fields<ConjugateGradientSleSolver>(c, "ConjugateGradientSleSolver"); break;
        case 17: fields<GenericRigidBodySystem>(c, "GenericRigidBodySystem"); break;
        case 18: fields<OptimizedNsvRigidBodySystem>(c, "OptimizedNsvRigidBodySystem"); break;
        case 19: fields<SystemState>(c, "SystemState"); break;
        case 20: fields<Matrix>(c, "Matrix"); break;
        case 21: fields<SparseMatrix<3>>(c, "SparseMatrix"); break;
        case 22: case 23: case 24: case 25: generators(c); break;
        case 26: case 27: useOnly(c); break;
        default: if (what < 34) evaluate(c, c.rng.below(K_WELD)); else setters(c); break;
    }
}

// C08: constraint errors measure the geometry they are named for; an evaluation
// depends on and writes exactly what it should.
#include "rig.h"
const char *const kCheckId = "C08";
using namespace vf;

namespace {
std::vector<double> pack(const Constraint::Output &o, int rows, int nb) {
    std::vector<double> v;
    for (int i = 0; i < rows; ++i) {
        v.push_back(o.C[i]);
        for (int j = 0; j < 3 * nb; ++j) { v.push_back(o.J[i][j]); v.push_back(o.J_dot[i][j]); }
        v.push_back(o.v_bias[i]); v.push_back(o.limits[i][0]); v.push_back(o.limits[i][1]);
        v.push_back(o.ks[i]); v.push_back(o.kd[i]);
    }
    return v;
}
bool sameBits(const std::vector<double> &a, const std::vector<double> &b) {
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i] && !(a[i] == 0 && b[i] == 0)) return false;
    for (double x : a) if (!std::isfinite(x)) return false;
    return true;
}
void sentinel(Constraint::Output &o, double v) {
    double *d = reinterpret_cast<double *>(&o);
    for (size_t i = 0; i < sizeof(o) / sizeof(double); ++i) d[i] = v;
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int kind = r.below(K_WELD);
    const int n = r.range(conBodies(kind), 6);
    State s;
    fillState(r, s, n, 3);
    if (r.chance(0.2)) for (int i = 0; i < n; ++i) s.theta[i] = r.uniform(-100, 100);
    if (r.chance(0.05)) { const double turns = r.logUniform(100, 1e6); for (int i = 0; i < n; ++i) s.theta[i] = r.uniform(-turns, turns); c.count("spun_cases"); }
    if (r.chance(0.2)) for (int i = 0; i < n; ++i) { const double f = r.logUniform(5, 5000); s.p_x[i] *= f; s.p_y[i] *= f; }
    RigidBody b[2];
    b[0].index = r.below(n);
    b[1].index = n > 1 ? (b[0].index + r.range(1, n - 1)) % n : 0;
    const ConSpec k = wildCon(r, kind);
    std::unique_ptr<Constraint> con(newConstraint(k, &b[0], &b[1]));
    const int rows = conRows(kind), nb = conBodies(kind);

    Constraint::Output o1, o2;
    const StateImage before = StateImage::of(s);
    sentinel(o1, 8.5e77);
    con->calculate(&o1, &s);
    if (!(StateImage::of(s) == before)) c.fail("state-written", "%s changed the state", conName(kind));
    const std::vector<double> first = pack(o1, rows, nb);
    sentinel(o2, NAN);
    con->calculate(&o2, &s);
    if (!sameBits(first, pack(o2, rows, nb))) c.fail("output-incomplete", "%s leaves part of its output unwritten or uses old output", conName(kind));

    // against the reference
    const Pose A = stPose(s, b[0].index), B = stPose(s, b[1].index);
    const RefRows ref = refRows(k, A, B);
    double scale = 1;
    for (int x = 0; x < 3; ++x) scale += std::fabs(A.q[x]) + std::fabs(B.q[x]);
    double len = 1;
    for (double x : k.p) len += std::fabs(x);
    scale *= len;
    double C[3] = {0, 0, 0};
    geomError<double>(k, A.q, B.q, C);
    for (int i = 0; i < rows; ++i) {
        double want = C[i];
        if (!conPositional(kind)) want = 0;
        if (kind == K_ROLL && i == 0 && o1.C[0] * want < 0) want = -want; // direction of slip is a convention
        if (!near(o1.C[i], want, 1e-12 * scale * scale))
            c.fail("error", "%s row %d reports error %.12g, geometry says %.12g", conName(kind), i, o1.C[i], want);
        if (o1.v_bias[i] != ref.vb[i]) c.fail("bias", "%s row %d bias %g, expected %g", conName(kind), i, o1.v_bias[i], ref.vb[i]);
        if (o1.limits[i][0] != ref.lo[i] || o1.limits[i][1] != ref.hi[i])
            c.fail("limits", "%s row %d limits [%g,%g], expected [%g,%g]", conName(kind), i, o1.limits[i][0], o1.limits[i][1], ref.lo[i], ref.hi[i]);
        if (o1.ks[i] != ref.ks[i] || o1.kd[i] != ref.kd[i])
            c.fail("gains", "%s row %d gains %g/%g, expected %g/%g", conName(kind), i, o1.ks[i], o1.kd[i], ref.ks[i], ref.kd[i]);
        c.count("rows_judged");
    }
    // everything that is not the named bodies' pose and velocity is irrelevant
    for (int i = 0; i < n; ++i) {
        s.a_x[i] = r.uniform(-99, 99); s.a_y[i] = r.uniform(-99, 99); s.a_theta[i] = r.uniform(-99, 99);
        s.f_x[i] = r.uniform(-99, 99); s.f_y[i] = r.uniform(-99, 99); s.t[i] = r.uniform(-99, 99);
        s.m[i] = r.uniform(0.1, 99);
        if (i == b[0].index || (nb > 1 && i == b[1].index)) continue;
        for (int x = 0; x < 3; ++x) *coord(s, i, x) = r.uniform(-99, 99);
        s.v_x[i] = r.uniform(-99, 99); s.v_y[i] = r.uniform(-99, 99); s.v_theta[i] = r.uniform(-99, 99);
    }
    for (int i = 0; i < 2 * s.n_c; ++i) s.r_x[i] = s.r_y[i] = s.r_t[i] = r.uniform(-99, 99);
    s.dt = r.uniform(0, 1);
    for (int e = 0; e < 2; ++e) { b[e].p_x = r.uniform(-9, 9); b[e].theta = r.uniform(-9, 9); b[e].v_theta = r.uniform(-9, 9); b[e].m = r.uniform(1, 5); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) con->F_x[i][j] = con->F_y[i][j] = con->F_t[i][j] = r.uniform(-9, 9);
    con->m_index = r.below(50);
    sentinel(o2, -3.25);
    con->calculate(&o2, &s);
    if (!sameBits(first, pack(o2, rows, nb))) c.fail("depends-on-unrelated", "%s depends on something other than its parameters and its bodies' states", conName(kind));
    // the same bodies at other positions of another state
    State s2;
    const int n2 = r.range(n, 12);
    fillState(r, s2, n2, 1);
    const int i0 = b[0].index, i1 = b[1].index;
    b[0].index = r.below(n2);
    b[1].index = n2 > 1 ? (b[0].index + r.range(1, n2 - 1)) % n2 : 0;
    const int from[2] = {i0, i1};
    for (int e = 0; e < nb; ++e) {
        const Pose q = stPose(s, from[e]);
        const int t = b[e].index;
        s2.p_x[t] = q.q[0]; s2.p_y[t] = q.q[1]; s2.theta[t] = q.q[2];
        s2.v_x[t] = q.v[0]; s2.v_y[t] = q.v[1]; s2.v_theta[t] = q.v[2];
    }
    sentinel(o2, 0);
    con->calculate(&o2, &s2);
    if (!sameBits(first, pack(o2, rows, nb))) c.fail("depends-on-index", "%s depends on where its bodies are stored", conName(kind));
    c.count(conPositional(kind) ? "positional_cases" : "velocity_cases");
    c.nontrivial = true;
    c.shape(kind); for (double x : k.p) c.shape(bitsOf(x));
    c.sample("%s, bodies %d,%d of %d then %d,%d of %d", conName(kind), i0, i1, n, b[0].index, b[1].index, n2);
}

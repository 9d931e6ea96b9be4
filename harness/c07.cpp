// C07: reported Jacobians are the derivatives of the reported errors.
#include "rig.h"
const char *const kCheckId = "C07";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const int kind = r.below(K_WELD); // built-in kinds only
    State s;
    const int n = r.range(conBodies(kind), 5);
    fillState(r, s, n, 4);
    if (r.chance(0.2)) for (int i = 0; i < n; ++i) s.theta[i] = r.uniform(-100, 100);
    if (r.chance(0.2)) for (int i = 0; i < n; ++i) { const double f = r.logUniform(5, 5000); s.p_x[i] *= f; s.p_y[i] *= f; }
    if (r.chance(0.1)) for (int i = 0; i < n; ++i) s.theta[i] = r.range(-4, 4) * 1.5707963267948966;
    if (r.chance(0.2)) for (int i = 0; i < n; ++i) { const double f = r.logUniform(1e-2, 300); s.v_theta[i] *= f; s.v_x[i] *= f; s.v_y[i] *= f; }
    RigidBody b[2];
    b[0].index = r.below(n);
    b[1].index = n > 1 ? (b[0].index + r.range(1, n - 1)) % n : 0;
    const ConSpec k = wildCon(r, kind);
    std::unique_ptr<Constraint> con(newConstraint(k, &b[0], &b[1]));
    const int rows = con->getConstraintCount(), nb = con->m_bodyCount;
    if (rows != conRows(kind) || nb != conBodies(kind)) c.fail("shape", "%s has %d rows over %d bodies", conName(kind), rows, nb);
    Constraint::Output o, p[4];
    con->calculate(&o, &s);
    double scale = 1;
    for (int e = 0; e < nb; ++e) scale += std::fabs(s.p_x[b[e].index]) + std::fabs(s.p_y[b[e].index]);
    double len = 1;
    for (double x : k.p) len += std::fabs(x);
    scale = (scale + len) * len;
    const double h = 2e-3;
    auto stencil = [&](const std::vector<double *> &vars, const std::vector<double> &dir, double step) {
        std::vector<double> keep;
        for (double *v : vars) keep.push_back(*v);
        const double at[4] = {-2, -1, 1, 2};
        for (int q = 0; q < 4; ++q) {
            for (size_t i = 0; i < vars.size(); ++i) *vars[i] = keep[i] + at[q] * step * dir[i];
            con->calculate(&p[q], &s);
        }
        for (size_t i = 0; i < vars.size(); ++i) *vars[i] = keep[i];
    };
    auto deriv = [&](double m2, double m1, double p1, double p2, double step) { return (m2 - 8 * m1 + 8 * p1 - p2) / (12 * step); };
    const bool positional = conPositional(kind);
    for (int e = 0; e < nb; ++e) for (int x = 0; x < 3; ++x) {
        stencil({coord(s, b[e].index, x)}, {1.0}, h);
        for (int i = 0; i < rows; ++i) {
            const double want = positional ? deriv(p[0].C[i], p[1].C[i], p[2].C[i], p[3].C[i], h) : 0;
            if (positional) {
                if (!near(o.J[i][3 * e + x], want, 1e-9 * scale))
                    c.fail("jacobian", "%s row %d body %d coordinate %d: J=%.12g, derivative of C=%.12g", conName(kind), i, e, x, o.J[i][3 * e + x], want);
                c.count("derivatives_judged");
            } else {
                for (int q = 0; q < 4; ++q) if (p[q].C[i] != 0) c.fail("velocity-row", "%s has error %g", conName(kind), p[q].C[i]);
            }
        }
    }
    // rate along the current velocities
    std::vector<double *> vars; std::vector<double> dir;
    double vmax = 1e-3;
    for (int e = 0; e < nb; ++e) for (int x = 0; x < 3; ++x) {
        vars.push_back(coord(s, b[e].index, x));
        const Pose q = stPose(s, b[e].index);
        dir.push_back(q.v[x]);
        vmax = std::fmax(vmax, std::fabs(q.v[x]));
    }
    const double step = h / vmax;
    stencil(vars, dir, step);
    const RefRows ref = refRows(k, stPose(s, b[0].index), stPose(s, b[1].index));
    for (int i = 0; i < rows; ++i) for (int j = 0; j < 3 * nb; ++j) {
        const double want = deriv(p[0].J[i][j], p[1].J[i][j], p[2].J[i][j], p[3].J[i][j], step);
        if (!near(o.J_dot[i][j], want, 1e-9 * scale * vmax))
            c.fail("jacobian-rate", "%s row %d column %d: J_dot=%.12g, derivative of J along the velocity=%.12g", conName(kind), i, j, o.J_dot[i][j], want);
        c.count("rates_judged");
        if (!positional) {
            if (o.J_dot[i][j] != 0 || !near(o.J[i][j], ref.J[i][j], 1e-15 * len) || o.C[i] != 0)
                c.fail("velocity-row", "%s row %d column %d: J=%g (expected %g) J_dot=%g C=%g", conName(kind), i, j, o.J[i][j], ref.J[i][j], o.J_dot[i][j], o.C[i]);
            for (int q = 0; q < 4; ++q) if (p[q].J[i][j] != o.J[i][j]) c.fail("velocity-row", "%s row is not constant", conName(kind));
        }
    }
    c.count(positional ? "positional_cases" : "velocity_cases");
    c.nontrivial = true;
    c.shape(kind); for (double x : k.p) c.shape(bitsOf(x));
    c.sample("%s, indices %d,%d of %d, theta %.3g, omega %.3g", conName(kind), b[0].index, b[1].index, n, s.theta[b[0].index], s.v_theta[b[0].index]);
}

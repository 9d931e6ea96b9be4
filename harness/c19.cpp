// C19: frames, point velocities and applied forces agree with each other.
#include "rig.h"
const char *const kCheckId = "C19";
using namespace vf;

void run_case(Ctx &c) {
    Rng &r = c.rng;
    State s;
    const int n = r.range(1, 7), i = r.below(n);
    fillState(r, s, n, 2);
    if (r.chance(0.3)) s.theta[i] = r.uniform(-200, 200);
    if (r.chance(0.05)) { s.theta[i] = r.uniform(-1, 1) * r.logUniform(200, 1e9); c.count("spun_bodies"); }
    else if (r.chance(0.2)) s.theta[i] = r.range(-4, 4) * 1.5707963267948966;
    if (r.chance(0.2)) { const double far = r.logUniform(1, 1e8); s.p_x[i] *= far; s.p_y[i] *= far; }
    RigidBody b;
    b.index = r.chance(0.5) ? i : -1;
    b.p_x = s.p_x[i]; b.p_y = s.p_y[i]; b.theta = s.theta[i];
    b.v_x = r.uniform(-9, 9); b.v_theta = r.uniform(-9, 9);
    const double L = r.chance(0.2) ? r.logUniform(10, 1e4) : r.chance(0.1) ? 1e-3 : 3;
    if (r.chance(0.2)) { const double f = r.logUniform(1e-3, 1e3); s.v_x[i] *= f; s.v_y[i] *= f; }
    if (r.chance(0.2)) s.v_theta[i] *= r.chance(0.5) ? r.logUniform(1e-12, 1) : r.logUniform(1, 1e3);
    if (r.chance(0.2)) s.m[i] = r.logUniform(1e-5, 1e6);
    const double x = r.wild(L), y = r.wild(L), x2 = r.wild(L), y2 = r.wild(L);
    const double sc = 1 + L + std::fabs(b.p_x) + std::fabs(b.p_y);

    double wx, wy, wx2, wy2, lx, ly, sx, sy;
    b.localToWorld(x, y, &wx, &wy);
    b.localToWorld(x2, y2, &wx2, &wy2);
    const double ct = std::cos(b.theta), st = std::sin(b.theta);
    if (!near(wx, b.p_x + ct * x - st * y, 1e-13 * sc) || !near(wy, b.p_y + st * x + ct * y, 1e-13 * sc))
        c.fail("to-world", "(%g,%g) at theta=%g maps to (%.12g,%.12g)", x, y, b.theta, wx, wy);
    b.worldToLocal(wx, wy, &lx, &ly);
    if (!near(lx, x, 1e-12 * sc) || !near(ly, y, 1e-12 * sc)) c.fail("round-trip", "(%g,%g) returns as (%.12g,%.12g)", x, y, lx, ly);
    b.worldToLocal(x, y, &lx, &ly);
    b.localToWorld(lx, ly, &sx, &sy);
    if (!near(sx, x, 1e-12 * sc) || !near(sy, y, 1e-12 * sc)) c.fail("round-trip", "world (%g,%g) returns as (%.12g,%.12g)", x, y, sx, sy);
    const double d1 = std::hypot(x2 - x, y2 - y), d2 = std::hypot(wx2 - wx, wy2 - wy);
    if (!near(d1, d2, 1e-12 * sc)) c.fail("not-rigid", "distance %.12g becomes %.12g", d1, d2);
    const double o1 = x * y2 - y * x2, o2 = (wx - b.p_x) * (wy2 - b.p_y) - (wy - b.p_y) * (wx2 - b.p_x);
    if (!near(o1, o2, 1e-11 * sc * sc)) c.fail("not-rigid", "orientation changes");

    const StateImage before = StateImage::of(s);
    s.localToWorld(x, y, &sx, &sy, i);
    if (!near(sx, wx, 1e-13 * sc) || !near(sy, wy, 1e-13 * sc)) c.fail("state-body-disagree", "state maps to (%.12g,%.12g), body to (%.12g,%.12g)", sx, sy, wx, wy);
    double vx, vy;
    s.velocityAtPoint(x, y, &vx, &vy, i);
    if (!(StateImage::of(s) == before)) c.fail("state-written", "a query changed the state");
    const Pose q = stPose(s, i);
    {   // time derivative of the world position along the motion
        const double h = 1e-3 / (1 + std::fabs(q.v[2]));
        double px[4], py[4];
        const double at[4] = {-2, -1, 1, 2};
        for (int k = 0; k < 4; ++k) {
            s.p_x[i] = q.q[0] + at[k] * h * q.v[0]; s.p_y[i] = q.q[1] + at[k] * h * q.v[1]; s.theta[i] = q.q[2] + at[k] * h * q.v[2];
            s.localToWorld(x, y, &px[k], &py[k], i);
        }
        s.p_x[i] = q.q[0]; s.p_y[i] = q.q[1]; s.theta[i] = q.q[2];
        const double dx = (px[0] - 8 * px[1] + 8 * px[2] - px[3]) / (12 * h), dy = (py[0] - 8 * py[1] + 8 * py[2] - py[3]) / (12 * h);
        const double tol = 1e-9 * sc * (1 + std::fabs(q.v[0]) + std::fabs(q.v[1]) + std::fabs(q.v[2]) * L) + 1e-15 * std::fabs(q.q[2]) * 2 * L / h;
        if (!near(vx, dx, tol) || !near(vy, dy, tol)) c.fail("point-velocity", "(%.12g,%.12g), derivative (%.12g,%.12g)", vx, vy, dx, dy);
        if (!near(vx, q.v[0] - q.v[2] * (st * x + ct * y), 1e-13 * (1e-3 * sc + std::fabs(q.v[0]) + std::fabs(q.v[2]) * (L + sc * 1e-2))) || !near(vy, q.v[1] + q.v[2] * (ct * x - st * y), 1e-13 * (1e-3 * sc + std::fabs(q.v[1]) + std::fabs(q.v[2]) * (L + sc * 1e-2))))
            c.fail("point-velocity", "(%.12g,%.12g) is not v + omega x r", vx, vy);
    }
    const double F = r.chance(0.2) ? r.logUniform(1e-3, 1e6) : 50;
    const double fx = r.wild(F), fy = r.wild(F);
    const double f0x = s.f_x[i], f0y = s.f_y[i], t0 = s.t[i];
    s.applyForce(x, y, fx, fy, i);
    const double gx = s.f_x[i] - f0x, gy = s.f_y[i] - f0y, gt = s.t[i] - t0;
    const double ft = 1e-12 * (1 + std::fabs(fx) + std::fabs(fy)) * sc;
    if (!near(gx, fx, ft) || !near(gy, fy, ft)) c.fail("applied-force", "force (%g,%g) adds (%.12g,%.12g)", fx, fy, gx, gy);
    // power balance for any velocity of the body
    const double power = fx * vx + fy * vy, got = gx * q.v[0] + gy * q.v[1] + gt * q.v[2];
    if (!near(power, got, 1e-11 * (1 + std::fabs(fx) + std::fabs(fy)) * (sc * (1 + std::fabs(q.v[2])) * 3 + std::fabs(q.v[0]) + std::fabs(q.v[1])) + 1e-13 * std::fabs(t0 * q.v[2]))) c.fail("power", "force times point velocity %.12g, generalised power %.12g", power, got);
    const double arm = (ct * x - st * y) * fy - (st * x + ct * y) * fx;
    if (!near(gt, arm, ft * 10)) c.fail("applied-torque", "torque %.12g, expected %.12g", gt, arm);
    s.f_x[i] = f0x; s.f_y[i] = f0y; s.t[i] = t0;
    if (!(StateImage::of(s) == before)) c.fail("other-body", "applyForce changed more than its own body's force and torque");
    c.count("points_judged");
    c.nontrivial = true;
    c.shape(bitsOf(x)); c.shape(n * 8 + i);
    c.sample("body %d of %d, theta %.4g, point (%.3g,%.3g)", i, n, b.theta, x, y);
}

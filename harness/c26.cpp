// C26: clutches, gears, friction and drives follow the drivetrain laws.
#include "scene.h"
const char *const kCheckId = "C26";
using namespace vf;

namespace {
struct Torque : ForceGenerator {
    std::vector<std::pair<RigidBody *, double>> load;
    virtual void apply(SystemState *s) { for (auto &l : load) s->t[l.first->index] += l.second; }
};
struct Dev { int kind; int b[2]; double ratio = 1, speed = 0, lo = -1.7976931348623157e308, hi = 1.7976931348623157e308; bool neutral = false; Constraint *con = nullptr; };
void push(Dev &d) { // current settings into the object
    switch (d.kind) {
        case K_FRICTION: { auto *k = static_cast<RotationFrictionConstraint *>(d.con); k->m_minTorque = d.lo; k->m_maxTorque = d.hi; break; }
        case K_CROT: { auto *k = static_cast<ConstantRotationConstraint *>(d.con); k->m_rotationSpeed = d.speed; k->m_minTorque = d.lo; k->m_maxTorque = d.hi; break; }
        case K_CLUTCH: { auto *k = static_cast<ClutchConstraint *>(d.con); k->m_minTorque = d.lo; k->m_maxTorque = d.hi; break; }
        default: { auto *k = static_cast<SimpleGearConstraint *>(d.con); k->m_ratio = d.ratio; k->m_neutral = d.neutral; break; }
    }
}
double clampd(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }

// unique solution of the box-constrained problem of a few coupled rows, by trying every active set
bool boxSolve(const std::vector<double> &A, const std::vector<double> &b, const std::vector<double> &lo,
              const std::vector<double> &hi, std::vector<double> &x) {
    const int m = (int)b.size();
    int total = 1;
    for (int i = 0; i < m; ++i) total *= 3;
    double bestBad = 1e300;
    for (int code = 0; code < total; ++code) {
        int st[6], q = code;
        for (int i = 0; i < m; ++i) { st[i] = q % 3; q /= 3; }
        bool skip = false;
        std::vector<double> y(m, 0.0);
        std::vector<int> fr;
        for (int i = 0; i < m; ++i) {
            if (st[i] == 0) fr.push_back(i);
            else { y[i] = st[i] == 1 ? lo[i] : hi[i]; if (std::fabs(y[i]) > 1e290) skip = true; }
        }
        if (skip) continue;
        const int k = (int)fr.size();
        std::vector<double> M((size_t)k * k), rhs(k), z;
        for (int i = 0; i < k; ++i) {
            rhs[i] = b[fr[i]];
            for (int j = 0; j < m; ++j) if (st[j]) rhs[i] -= A[(size_t)fr[i] * m + j] * y[j];
            for (int j = 0; j < k; ++j) M[(size_t)i * k + j] = A[(size_t)fr[i] * m + fr[j]];
        }
        if (k) { if (!(cholQuality(M, k, &rhs, &z) > 0)) continue; for (int i = 0; i < k; ++i) y[fr[i]] = z[i]; }
        double bad = 0;
        for (int i = 0; i < m; ++i) {
            double g = -b[i];
            for (int j = 0; j < m; ++j) g += A[(size_t)i * m + j] * y[j];
            if (st[i] == 0) bad = std::fmax(bad, std::fmax(lo[i] - y[i], y[i] - hi[i]));
            else if (lo[i] == hi[i]) {}
            else if (st[i] == 1) bad = std::fmax(bad, -g);
            else bad = std::fmax(bad, g);
        }
        if (bad < bestBad) { bestBad = bad; x = y; }
    }
    return bestBad < 1e-10;
}
double unitI = 1, unitT = 1; // units of inertia and time of the current case
double torqueUnit() { return unitI / (unitT * unitT); }
void randLimits(Rng &r, Dev &d) {
    switch (r.below(10)) {
        case 6: d.lo = -r.logUniform(0.05, 200); d.hi = 0; break;
        case 7: d.lo = d.hi = r.logUniform(0.05, 200) * (r.chance(0.5) ? -1 : 1); break;
        case 8: if (r.chance(0.5)) { d.lo = 0; d.hi = 1.7976931348623157e308; } else { d.lo = -1.7976931348623157e308; d.hi = r.chance(0.5) ? 0 : r.logUniform(0.05, 200); } break;
        case 9: { const double a = r.wild(50); d.lo = a; d.hi = a + r.logUniform(0.05, 50); break; }
        case 0: d.lo = -1.7976931348623157e308; d.hi = 1.7976931348623157e308; break;
        case 1: d.lo = d.hi = 0; break;
        case 2: d.lo = 0; d.hi = r.logUniform(0.05, 200); break;
        case 3: d.lo = -r.logUniform(0.05, 200); d.hi = r.logUniform(0.05, 200); break;
        default: { const double t = r.logUniform(0.05, 200); d.lo = -t; d.hi = t; } break;
    }
    d.lo = scaleLimit(d.lo, torqueUnit()); d.hi = scaleLimit(d.hi, torqueUnit());
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const bool chain = r.chance(0.5);
    unitI = r.chance(0.3) ? r.logUniform(1e-5, 1e6) : 1;
    unitT = r.chance(0.2) ? r.logUniform(1e-2, 1e2) : 1;
    if (unitI != 1 || unitT != 1) c.count("cases_in_other_units");
    std::unique_ptr<GaussSeidelSleSolver> gs(new GaussSeidelSleSolver);
    gs->m_minDelta = 1e-13; gs->m_maxIterations = 500000;
    SpySolver spy(gs.get());
    OptimizedNsvRigidBodySystem sys;
    sys.initialize(&spy);
    sys.m_biasFactor = r.chance(0.5) ? 1.0 : r.uniform(0, 1);
    const int nb = chain ? r.range(2, 4) : r.range(1, 8);
    std::vector<std::unique_ptr<RigidBody>> bodies;
    std::vector<double> I, w, th;
    for (int i = 0; i < nb; ++i) {
        bodies.emplace_back(new RigidBody);
        RigidBody &b = *bodies.back();
        b.p_x = r.wild(5); b.p_y = r.wild(5); b.theta = r.uniform(-4, 4);
        b.v_x = r.wild(2); b.v_y = r.wild(2);
        b.v_theta = r.chance(0.15) ? 0.0 : r.uniform(-40, 40) / unitT;
        b.m = r.logUniform(0.1, 10); b.I = r.logUniform(0.2, 5) * unitI;
        sys.addRigidBody(&b);
    }
    Torque load;
    std::vector<double> T(nb, 0.0);
    for (int i = 0; i < nb; ++i) if (r.chance(0.6)) T[i] = r.wild(60) * torqueUnit();
    auto setLoad = [&] { load.load.clear(); for (int i = 0; i < nb; ++i) load.load.push_back({bodies[i].get(), T[i]}); };
    setLoad();
    sys.addForceGenerator(&load);
    std::vector<Dev> dev;
    auto addDev = [&](int kind, int a, int b) {
        Dev d;
        d.kind = kind; d.b[0] = a; d.b[1] = b;
        if (kind == K_GEAR) { d.ratio = !chain && r.chance(0.05) ? 0 : r.logUniform(0.2, 5) * (r.chance(0.3) ? -1 : 1); d.neutral = r.chance(0.25); }
        else randLimits(r, d);
        if (kind == K_CROT) d.speed = r.wild(40) / unitT;
        ConSpec k;
        k.kind = kind; k.p[0] = kind == K_GEAR ? d.ratio : d.speed;
        d.con = newConstraint(k, bodies[a].get(), b >= 0 ? bodies[b].get() : nullptr);
        push(d);
        sys.addConstraint(d.con);
        dev.push_back(d);
    };
    if (chain) { // drive -> clutch/gear -> ... -> friction, all coupled
        for (int i = 0; i + 1 < nb; ++i) { if (r.chance(0.5)) addDev(r.chance(0.5) ? K_CLUTCH : K_GEAR, i, i + 1); else addDev(r.chance(0.5) ? K_CLUTCH : K_GEAR, i + 1, i); }
        if (r.chance(0.6)) addDev(K_CROT, 0, -1);
        if (r.chance(0.7) && dev.size() < 5) addDev(K_FRICTION, r.chance(0.5) ? nb - 1 : r.below(nb), -1);
    } else {
        for (int i = 0; i < nb;) {
            if (i + 1 < nb && r.chance(0.5)) { addDev(r.chance(0.5) ? K_CLUTCH : K_GEAR, i, i + 1); i += 2; }
            else { addDev(r.chance(0.6) ? K_FRICTION : K_CROT, i, -1); i += 1; }
        }
    }
    const int m = (int)dev.size();
    const int frames = r.chance(0.0005) ? r.range(300, 1500) : r.range(2, 14);
    for (int f = 0; f < frames; ++f) {
        if (f && r.chance(0.35)) {
            for (auto &d : dev) if (r.chance(0.5)) {
                if (d.kind == K_GEAR) { if (r.chance(0.5)) d.neutral = !d.neutral; else d.ratio = r.logUniform(0.2, 5); }
                else if (d.kind == K_CROT && r.chance(0.5)) d.speed = r.wild(40) / unitT;
                else randLimits(r, d);
                push(d);
                c.count("setting_changes");
            }
            for (int i = 0; i < nb; ++i) if (r.chance(0.3)) T[i] = r.wild(60) * torqueUnit();
            setLoad();
        }
        const double dt = (r.chance(0.4) ? 1.0 / 60 : r.logUniform(1e-3, 0.05)) * unitT;
        const int steps = frames < 300 && r.chance(0.001) ? r.range(30, 200) : r.chance(0.4) ? r.range(2, 8) : 1;
        if (steps > 8) c.count("finely_substepped_frames");
        if (f >= 300) c.count("frames_past_300");
        const double h = dt / steps;
        I.assign(nb, 0); w.assign(nb, 0); th.assign(nb, 0);
        std::vector<double> vx(nb), vy(nb);
        for (int i = 0; i < nb; ++i) { I[i] = bodies[i]->I; w[i] = bodies[i]->v_theta; th[i] = bodies[i]->theta; vx[i] = bodies[i]->v_x; vy[i] = bodies[i]->v_y; }
        std::vector<double> lam(m, 0.0);
        double table = 0; // the most that the coupled devices transmitted in any substep
        bool ok = true;
        for (int k = 0; k < steps && ok; ++k) {
            for (int i = 0; i < nb; ++i) w[i] += h * T[i] / I[i];
            std::vector<double> J((size_t)m * nb, 0.0), b(m), lo(m), hi(m);
            for (int i = 0; i < m; ++i) {
                const Dev &d = dev[i];
                double *row = &J[(size_t)i * nb];
                switch (d.kind) {
                    case K_FRICTION: row[d.b[0]] = 1; break;
                    case K_CROT: row[d.b[0]] = 1; break;
                    case K_CLUTCH: row[d.b[0]] = -1; row[d.b[1]] = 1; break;
                    default: row[d.b[0]] = 1; row[d.b[1]] = -d.ratio; break;
                }
                double v = 0;
                for (int j = 0; j < nb; ++j) v += row[j] * w[j];
                b[i] = -(v + (d.kind == K_CROT ? d.speed : 0.0));
                lo[i] = d.lo * h; hi[i] = d.hi * h;
                if (d.kind == K_GEAR) { if (d.neutral) lo[i] = hi[i] = 0; else { lo[i] = -1e300; hi[i] = 1e300; } }
            }
            if (chain) {
                std::vector<double> A((size_t)m * m, 0.0);
                for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) for (int q = 0; q < nb; ++q)
                    A[(size_t)i * m + j] += J[(size_t)i * nb + q] * J[(size_t)j * nb + q] / I[q];
                std::vector<double> z;
                const double cq = cholQuality(A, m, &b, &z);
                if (!(cq > 1e-3) || !boxSolve(A, b, lo, hi, lam)) { ok = false; break; }
            } else {
                for (int i = 0; i < m; ++i) {
                    double a = 0;
                    for (int q = 0; q < nb; ++q) a += J[(size_t)i * nb + q] * J[(size_t)i * nb + q] / I[q];
                    lam[i] = clampd(b[i] / a, lo[i], hi[i]);
                }
            }
            double sum = 0;
            for (int i = 0; i < m; ++i) sum += std::fabs(lam[i]) / h;
            table = std::fmax(table, sum);
            for (int q = 0; q < nb; ++q) {
                for (int i = 0; i < m; ++i) w[q] += J[(size_t)i * nb + q] * lam[i] / I[q];
                th[q] += h * w[q];
            }
        }
        sys.process(dt, steps);
        if (!ok) { c.count("frames_without_unique_reference"); break; }
        if (spy.failed) { c.count("solver_gave_up"); break; }
        for (int q = 0; q < nb; ++q) {
            const RigidBody &b = *bodies[q];
            double sc = std::fabs(w[q]) + 1 / unitT + std::fabs(T[q]) * dt / I[q];
            for (int i = 0; i < m; ++i) sc += std::fabs(lam[i]) / I[q];
            if (!near(b.v_theta, w[q], (chain ? 1e-7 : 1e-8) * sc))
                c.fail(chain ? "chain-speed" : "device-speed", "body %d turns at %.12g, drivetrain law %.12g (frame %d, dt=%g steps=%d, %d devices; first device %s lo=%g hi=%g ratio=%g speed=%g neutral=%d)",
                       q, b.v_theta, w[q], f, dt, steps, m, conName(dev[0].kind), dev[0].lo, dev[0].hi, dev[0].ratio, dev[0].speed, (int)dev[0].neutral);
            if (!near(b.theta, th[q], 1e-7 * (std::fabs(th[q]) + sc * unitT))) c.fail("angle", "body %d at angle %.12g, expected %.12g", q, b.theta, th[q]);
            if (!near(b.v_x, vx[q], 1e-13 + 1e-13 * std::fabs(vx[q])) || !near(b.v_y, vy[q], 1e-13 + 1e-13 * std::fabs(vy[q]))) c.fail("translation", "a rotational device changed a translation");
        }
        // plain statements of the law
        for (int q = 0; q < nb; ++q) table += I[q] * std::fabs(w[q]) / h * 1e-2;
        for (auto &d : dev) {
            const double wa = bodies[d.b[0]]->v_theta, wb = d.b[1] >= 0 ? bodies[d.b[1]]->v_theta : 0;
            const double big = 1 / unitT + std::fabs(wa) + std::fabs(wb) * std::fabs(d.ratio);
            if (d.kind == K_GEAR && !d.neutral && !near(wa, d.ratio * wb, 1e-7 * big)) c.fail("gear", "speeds %.12g and %.12g at ratio %.12g", wa, wb, d.ratio);
            const bool free = d.lo < -1e290 && d.hi > 1e290;
            if (d.kind == K_CLUTCH && free && !near(wa, wb, 1e-7 * big)) c.fail("clutch", "speeds %.12g and %.12g across an unlimited clutch", wa, wb);
            if (d.kind == K_CROT && free && !near(wa, -d.speed, 1e-7 * (1 / unitT + std::fabs(d.speed)))) c.fail("drive", "speed %.12g under setting %.12g", wa, d.speed);
            if (d.kind == K_FRICTION && free && !near(wa, 0, 1e-7 / unitT)) c.fail("friction", "speed %.12g under unlimited friction", wa);
            const double rep = d.con->F_t[0][d.kind == K_CLUTCH ? 1 : 0];
            const double i = (double)(&d - dev.data());
            if (!near(rep, lam[(size_t)i] / h, (chain ? 1e-6 : 1e-7) * (torqueUnit() + (chain || steps > 1 ? table : std::fabs(rep)) + std::fabs(T[d.b[0]])) / std::fmin(1.0, h / unitT * 60) + (chain ? 1e-12 : 1e-15) / h)) // the solver's own floor has dimensions
                c.fail("report", "%s reports torque %.10g, law gives %.10g (device %d of %d, %s, h=%g steps=%d table=%g load=%g)", conName(d.kind), rep, lam[(size_t)i] / h, (int)i, m, chain ? "chain" : "set", h, steps, table, T[d.b[0]]);
            const bool lim = d.kind != K_GEAR && (std::fabs(rep - d.lo) < 1e-7 * std::fabs(d.lo) || std::fabs(rep - d.hi) < 1e-7 * std::fabs(d.hi));
            c.count(d.kind == K_GEAR ? (d.neutral ? "gears_in_neutral" : "gears_engaged") : d.kind == K_CLUTCH ? (lim ? "clutches_slipping" : "clutches_locked")
                    : d.kind == K_CROT ? (lim ? "drives_at_limit" : "drives_at_speed") : (lim ? "friction_sliding" : "friction_holding"));
        }
        c.count("frames_judged");
    }
    c.nontrivial = m > 0;
    c.shape(chain); c.shape(nb); for (auto &d : dev) { c.shape(d.kind); c.shape(bitsOf(d.hi)); c.shape(bitsOf(d.ratio)); }
    c.sample("%s of %d bodies, %d devices, first %s", chain ? "chain" : "set", nb, m, m ? conName(dev[0].kind) : "-");
    for (auto &d : dev) { sys.removeConstraint(d.con); delete d.con; }
}

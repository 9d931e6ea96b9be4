// C31: every generator, constraint and integrator is shown the true current state,
// and state() afterwards is what the bodies and constraints report.
#include "history.h"
const char *const kCheckId = "C31";
using namespace vf;

namespace {
typedef std::vector<double> Vals;
void put(Vals &v, const double *a, int n) { v.insert(v.end(), a, a + n); }
Vals motion(const SystemState *s) {
    Vals v;
    for (const double *a : {s->p_x, s->p_y, s->theta, s->v_x, s->v_y, s->v_theta}) put(v, a, s->n);
    return v;
}
Vals forces(const SystemState *s) { Vals v; put(v, s->f_x, s->n); put(v, s->f_y, s->n); put(v, s->t, s->n); return v; }
Vals accels(const SystemState *s) { Vals v; put(v, s->a_x, s->n); put(v, s->a_y, s->n); put(v, s->a_theta, s->n); return v; }
Vals masses(const SystemState *s) { return Vals(s->m, s->m + s->n); }
bool same(const Vals &a, const Vals &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }
bool zero(const Vals &a) { for (double d : a) if (!(d == 0)) return false; return true; }

struct Watch {
    Ctx &c;
    Hist &h;
    bool active = false;
    int si = -1, steps = 0;
    double dt = 0;
    Vals mass, inertia;         // by index
    // current evaluation
    long evals = 0, starts = 0, ends = 0;
    long gensDone = 0, consDone = 0;
    bool seen = false;          // anybody called in this evaluation
    bool known = false;         // whether the motion of the next evaluation is known
    Vals expect;                // motion the evaluation must start from
    bool accKnown = false; Vals acc;
    Vals f;                     // force totals so far
    long judged = 0, later = 0;
    char err[600] = "", key[64] = "";
    Watch(Ctx &c, Hist &h) : c(c), h(h) {}
    void bad(const char *k, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        if (key[0]) return; // first only; thrown once the library has returned
        snprintf(key, sizeof key, "%s", k);
        va_list ap; va_start(ap, fmt); vsnprintf(err, sizeof err, fmt, ap); va_end(ap);
    }
    const char *sysName() { return h.systems[si].nsv ? "velocity-level" : h.systems[si].odeKind == SYS_RK4 ? "RK4" : "Euler"; }
    Vals bodyMotion() {
        const int n = h.systems[si].p->getRigidBodyCount();
        Vals v((size_t)6 * n);
        for (int i = 0; i < n; ++i) {
            const RigidBody *b = h.systems[si].p->getRigidBody(i);
            const double q[6] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
            for (int x = 0; x < 6; ++x) v[(size_t)x * n + i] = q[x];
        }
        return v;
    }
    void begin(int s, double t, int n) {
        active = true; si = s; dt = t; steps = n;
        evals = starts = ends = gensDone = consDone = 0;
        seen = false;
        expect = bodyMotion(); known = true;
        const int k = h.systems[si].p->getRigidBodyCount();
        acc.assign((size_t)3 * k, 0.0); accKnown = true;
        mass.resize(k); inertia.resize(k);
        for (int i = 0; i < k; ++i) { mass[i] = h.systems[si].p->getRigidBody(i)->m; inertia[i] = h.systems[si].p->getRigidBody(i)->I; }
    }
    void shape(const char *who, SystemState *s) {
        Hist::Sys &y = h.systems[si];
        if (s != y.p->state()) { bad("state", "%s was shown a state that is not the system's", who); return; }
        if (s->n != (int)y.bodies.size() || s->n_c != h.rowsOf(y))
            bad("sizes", "%s was shown a state of %d bodies and %d rows; %d and %d are registered (%s)", who, s->n, s->n_c, (int)y.bodies.size(), h.rowsOf(y), sysName());
    }
    // common part of every call inside an evaluation
    void look(const char *who, SystemState *s) {
        if (!active || key[0]) return;
        shape(who, s);
        if (key[0]) return;
        const Vals m = motion(s);
        if (!seen) { // first one of this evaluation
            if (known && !same(m, expect)) bad("motion", "evaluation %ld: %s was shown other positions or velocities than %s (%s)", evals, who, evals ? "the integrator left" : "the bodies have", sysName());
            if (accKnown && !(evals ? same(accels(s), acc) : zero(accels(s)))) bad("acceleration", "evaluation %ld: %s was shown accelerations that are not %s", evals, who, evals ? "those of the last evaluation" : "zero");
            if (evals) ++later;
            expect = m; known = true;
            f.assign((size_t)3 * s->n, 0.0);
            seen = true;
        }
        else if (!same(m, expect)) bad("motion", "evaluation %ld: %s was shown other positions or velocities than the ones called before it (%s)", evals, who, sysName());
        const double sub = dt / steps, stage[4] = {0, 0.5, 0.5, 1};
        const double t = h.systems[si].nsv || h.systems[si].odeKind != SYS_RK4 ? sub : sub * stage[evals % 4];
        if (!near(s->dt, t, 1e-15 * sub)) bad("time", "evaluation %ld: %s was shown dt = %.17g, %.17g expected (%s)", evals, who, s->dt, t, sysName());
        if (!same(masses(s), mass)) bad("mass", "evaluation %ld: %s was shown masses that are not the bodies'", evals, who);
        const Vals g = forces(s);
        if (!(zero(f) ? zero(g) : same(g, f))) bad("force-totals", "evaluation %ld: %s was shown force totals that are not the sum of the generators applied before it", evals, who);
        ++judged;
    }
    void generator(int, SystemState *s, bool before) {
        if (!active) return;
        if (before) {
            look("a force generator", s);
            if (consDone) bad("order", "evaluation %ld: a force generator was applied after constraints were evaluated", evals);
        }
        else { if (!key[0]) f = forces(s); ++gensDone; finish(); }
    }
    void constraint(int id, SystemState *s, bool before) {
        if (!active) return;
        if (before) {
            look("a constraint", s);
            Hist::Sys &y = h.systems[si];
            if (gensDone != (long)y.gens.size()) bad("order", "evaluation %ld: a constraint was evaluated after %ld of %d generators", evals, gensDone, (int)y.gens.size());
            if (!key[0]) {
                const int rows = conRows(h.cons[id].s.kind), at = s->indexMap[h.cons[id].c->m_index];
                if (at < 0 || at + rows > s->n_c) bad("index-map", "the map places a constraint of %d rows at row %d of %d", rows, at, s->n_c);
            }
        }
        else { ++consDone; finish(); }
    }
    // the velocity-level system's integrator is its own: an evaluation ends with its last constraint
    void finish() {
        Hist::Sys &y = h.systems[si];
        if (!y.nsv) return;
        if (gensDone == (long)y.gens.size() && consDone == (long)y.cons.size()) { ++evals; gensDone = consDone = 0; seen = false; known = accKnown = false; }
    }
    void ode(HookOde::Call k, SystemState *s, double v, bool before) {
        if (!active || key[0]) return;
        switch (k) {
            case HookOde::Start:
                if (!before) { if (!same(motion(s), expect)) known = false; break; }
                ++starts;
                shape("the integrator (start)", s);
                if (!key[0] && !same(motion(s), expect)) bad("motion", "substep %ld does not start from %s", starts, starts > 1 ? "where the last one ended" : "the bodies' positions and velocities");
                if (!near(v, dt / steps, 1e-15 * dt)) bad("step-length", "substep of length %.17g in a frame of %.17g with %d substeps", v, dt, steps);
                break;
            case HookOde::Step:
                if (before) {
                    shape("the integrator (step)", s);
                    if (!key[0] && !same(motion(s), expect)) bad("motion", "positions or velocities changed between the integrator's calls (%s)", sysName());
                    if (!key[0] && accKnown && !(evals ? same(accels(s), acc) : zero(accels(s)))) bad("acceleration", "evaluation %ld: the integrator was shown other accelerations than the last evaluation's", evals);
                }
                else { expect = motion(s); known = true; seen = false; gensDone = consDone = 0; }
                break;
            case HookOde::Solve: {
                Hist::Sys &y = h.systems[si];
                if (!before) { expect = motion(s); known = true; acc = accels(s); accKnown = true; ++evals; seen = false; gensDone = consDone = 0; break; }
                if (gensDone != (long)y.gens.size() || consDone != (long)y.cons.size())
                    bad("order", "the integrator was asked to advance after %ld of %d generators and %ld of %d constraints", gensDone, (int)y.gens.size(), consDone, (int)y.cons.size());
                if (y.gens.empty() && !seen) f.assign((size_t)3 * s->n, 0.0);
                look("the integrator (solve)", s);
                break;
            }
            case HookOde::End: ++ends; break;
        }
    }
    void finishFrame() {
        active = false;
        if (key[0]) c.fail(key, "%s", err);
        Hist::Sys &y = h.systems[si];
        const long per = y.nsv ? steps : (y.odeKind == SYS_RK4 ? 4L * steps : steps);
        // without any callee the velocity-level evaluations cannot be seen
        if (!(y.nsv && y.gens.empty() && y.cons.empty()) && evals != per) c.fail("evaluations", "%ld complete evaluations in a frame of %ld (%s)", evals, per, sysName());
        if (!y.nsv && (starts != steps || ends != steps)) c.fail("integrator-calls", "%ld starts and %ld ends in a frame of %d substeps", starts, ends, steps);
        // the state left behind is what bodies and constraints say
        const SystemState *s = y.p->state();
        if (s->n != (int)y.bodies.size() || s->n_c != h.rowsOf(y)) c.fail("sizes", "state() has %d bodies and %d rows after a step; %d and %d are registered", s->n, s->n_c, (int)y.bodies.size(), h.rowsOf(y));
        const Vals now = bodyMotion();
        if (!same(now, motion(s))) c.fail("bodies", "state() differs from the bodies after a step (%s)", sysName());
        if (!y.nsv && !same(now, expect)) c.fail("bodies", "the bodies differ from what the integrator left (%s)", sysName());
        if (!same(masses(s), mass)) c.fail("mass", "state() holds other masses than the bodies after a step");
        std::vector<char> used((size_t)s->n_c, 0);
        for (int id : y.cons) {
            const Constraint *k = h.cons[id].c.get();
            const int rows = conRows(h.cons[id].s.kind), nb = conBodies(h.cons[id].s.kind), at = s->indexMap[k->m_index];
            if (at < 0 || at + rows > s->n_c) c.fail("index-map", "the map places a constraint of %d rows at row %d of %d", rows, at, s->n_c);
            for (int j = 0; j < rows; ++j) {
                if (used[at + j]++) c.fail("index-map", "two constraints share row %d", at + j);
                for (int e = 0; e < nb; ++e) {
                    const size_t x = (size_t)(at + j) * 2 + e;
                    if (bitsOf(k->F_x[j][e]) != bitsOf(s->r_x[x]) || bitsOf(k->F_y[j][e]) != bitsOf(s->r_y[x]) || bitsOf(k->F_t[j][e]) != bitsOf(s->r_t[x]))
                        c.fail("reports", "row %d, body %d: state() holds another constraint force than the constraint reports (%s)", at + j, e, sysName());
                    c.count("reports_matched");
                }
            }
        }
        c.count("frames"); c.count("callbacks_judged", judged); c.count("later_evaluations", later);
        judged = later = 0;
    }
};
}

void run_case(Ctx &c) {
    const uint64_t seed = c.rng.next();
    Hist h(seed);
    Watch w(c, h);
    h.counting = true;
    h.maxBodies = c.rng.chance(0.1) ? 40 : c.rng.range(1, 8);
    h.conHook = [&](int id, SystemState *s, bool b) { w.constraint(id, s, b); };
    h.genHook = [&](int id, SystemState *s, bool b) { w.generator(id, s, b); };
    h.odeHook = [&](HookOde::Call k, SystemState *s, double v, bool b) { w.ode(k, s, v, b); };
    h.setup(h.r.range(1, 3));
    h.beforeStep = [&](int si, double dt, int n) { w.begin(si, dt, n); };
    h.afterStep = [&](int, double, int) { w.finishFrame(); };
    const int ops = h.r.chance(0.001) ? h.r.range(1200, 3000) : h.r.range(10, c.thorough ? 160 : 70);
    for (int i = 0; i < ops; ++i) h.random();
    c.nontrivial = h.steps > 0;
    c.shape(seed);
    c.sample("%ld operations, %ld frames", h.edits, h.steps);
}

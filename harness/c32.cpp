// C32: the extension points: a user's own integrator, solver, constraints and generators
// are called in the documented order with the documented data, and what they answer is used.
#include "scene.h"
const char *const kCheckId = "C32";
using namespace vf;

namespace {
typedef std::vector<double> Vals;
Vals motion(const SystemState *s) {
    Vals v;
    for (const double *a : {s->p_x, s->p_y, s->theta, s->v_x, s->v_y, s->v_theta}) v.insert(v.end(), a, a + s->n);
    return v;
}
Vals rowForces(const SystemState *s) {
    Vals v;
    for (const double *a : {s->r_x, s->r_y, s->r_t}) v.insert(v.end(), a, a + 2 * s->n_c);
    return v;
}
bool same(const Vals &a, const Vals &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }

struct Row { double J[6], Jd[6], C, vb, ks, kd, lo, hi; };
struct Play;
struct FuzzCon : Constraint {
    Play *p; int id;
    FuzzCon(int rows, int bodies, Play *p, int id) : Constraint(rows, bodies), p(p), id(id) {}
    virtual void calculate(Output *o, SystemState *s);
};
struct FuzzGen : ForceGenerator {
    Play *p; int id;
    FuzzGen(Play *p, int id) : p(p), id(id) {}
    virtual void apply(SystemState *s);
};
struct FuzzSolver : SleSolver {
    Play *p;
    FuzzSolver(Play *p, bool lim) : SleSolver(lim), p(p) {}
    bool go(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix *lim, Matrix *out, Matrix *out2);
    virtual bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix *x, Matrix *y) { return go(J, W, b, nullptr, x, y); }
    virtual bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix &l, Matrix *x, Matrix *y) { return go(J, W, b, &l, x, y); }
};
struct FuzzOde : OdeSolver {
    Play *p;
    explicit FuzzOde(Play *p) : p(p) {}
    virtual void start(SystemState *s, double dt);
    virtual bool step(SystemState *s);
    virtual void solve(SystemState *s);
    virtual void end();
};

struct Play {
    Ctx &c;
    Rng &r;
    bool nsv;
    int n = 0;                                  // registered bodies
    std::vector<std::unique_ptr<RigidBody>> bodies, loose;
    std::vector<std::unique_ptr<FuzzCon>> cons;
    std::vector<std::unique_ptr<FuzzGen>> gens;
    OptimizedNsvRigidBodySystem *fast = nullptr;
    std::unique_ptr<RigidBodySystem> sys;
    FuzzSolver solver;
    FuzzOde ode;
    // automaton
    enum At { Idle, Started, Stepped, Forced, Solved, Done } at = Idle;
    double h = 0;
    int substeps = 0, started = 0, ended = 0;
    bool last = false;                          // the integrator called this its last stage
    std::vector<char> genSeen, conSeen;
    long gensSeen = 0, consSeen = 0;
    bool solverCalled = false;
    std::vector<std::vector<Row>> rows;         // by constraint id
    Vals shown;                                 // motion shown in this evaluation
    Vals F;                                     // force totals, 3 per body
    Vals lambda;
    Vals left, leftRows;                        // motion and row forces the integrator left last
    std::vector<int> order;                     // order in which constraints' rows are stacked
    long evals = 0, judgedRows = 0, solves = 0, stages = 0, looseRows = 0;
    double big = 1;                             // scale of state values
    char err[700] = "", key[64] = "";
    Play(Ctx &c, bool nsv, bool lim) : c(c), r(c.rng), nsv(nsv), solver(this, lim), ode(this) {}
    void bad(const char *k, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        if (key[0]) return;
        snprintf(key, sizeof key, "%s", k);
        va_list ap; va_start(ap, fmt); vsnprintf(err, sizeof err, fmt, ap); va_end(ap);
    }
    int rowCount() const { int k = 0; for (auto &x : cons) k += x->getConstraintCount(); return k; }
    // start of an evaluation
    void open(SystemState *s) {
        genSeen.assign(gens.size(), 0); conSeen.assign(cons.size(), 0);
        gensSeen = consSeen = 0;
        solverCalled = false;
        rows.assign(cons.size(), {});
        F.assign((size_t)3 * n, 0.0);
        if (s) shown = motion(s);
    }
    void check(const char *who, SystemState *s) {
        const bool complete = gensSeen == (long)gens.size() && consSeen == (long)cons.size();
        if (nsv && (at != Forced || (complete && !rowCount()))) { at = Forced; open(s); } // without rows the solver need not be consulted
        if (s != sys->state()) bad("state", "%s got a state that is not the system's", who);
        else if (s->n != n || s->n_c != rowCount()) bad("sizes", "%s got a state of %d bodies and %d rows; %d and %d exist", who, s->n, s->n_c, n, rowCount());
        else if (!same(motion(s), shown)) bad("motion", "%s was shown other positions or velocities than %s", who, nsv ? "the ones called before it" : "the integrator set");
    }
    void apply(int id, SystemState *s) {
        if (!nsv && at != Stepped) bad("order", "generator called outside an evaluation");
        check("a generator", s);
        if (consSeen) bad("order", "generator called after constraints");
        if (solverCalled) bad("order", "generator called after the solver");
        if (genSeen[id]++) bad("order", "generator called twice in an evaluation");
        ++gensSeen;
        if (key[0]) return;
        for (int i = 0; i < n; ++i) {
            const double g[3] = {s->f_x[i], s->f_y[i], s->t[i]};
            for (int x = 0; x < 3; ++x) if (!(g[x] == F[(size_t)3 * i + x])) bad("force-totals", "body %d, component %d: total %.12g shown, %.12g applied so far", i, x, g[x], F[(size_t)3 * i + x]);
            if (r.chance(0.3)) continue;
            for (int x = 0; x < 3; ++x) F[(size_t)3 * i + x] += r.wild(30);
            s->f_x[i] = F[(size_t)3 * i]; s->f_y[i] = F[(size_t)3 * i + 1]; s->t[i] = F[(size_t)3 * i + 2];
        }
    }
    void calculate(int id, Constraint::Output *o, SystemState *s) {
        if (!nsv && at != Stepped) bad("order", "constraint called outside an evaluation");
        check("a constraint", s);
        if (gensSeen != (long)gens.size()) bad("order", "constraint called after %ld of %d generators", gensSeen, (int)gens.size());
        if (solverCalled) bad("order", "constraint called after the solver");
        if (conSeen[id]++) bad("order", "constraint called twice in an evaluation");
        ++consSeen;
        FuzzCon &k = *cons[id];
        rows[id].clear();
        const int nb = k.m_bodyCount;
        // whatever is not part of the answer may hold anything
        if (r.chance(0.5)) memset((void *)o, 0x7f, sizeof *o);
        for (int i = 0; i < k.getConstraintCount(); ++i) {
            Row w;
            for (int j = 0; j < 6; ++j) {
                w.J[j] = r.chance(0.2) ? 0 : r.wild(2); w.Jd[j] = r.chance(0.2) ? 0 : r.wild(2);
                if (j < 3 * nb) { o->J[i][j] = w.J[j]; o->J_dot[i][j] = w.Jd[j]; }
            }
            o->C[i] = w.C = r.wild(1); o->v_bias[i] = w.vb = r.wild(2);
            o->ks[i] = w.ks = r.chance(0.2) ? 0 : r.uniform(r.chance(0.1) ? -60 : 0, 60); o->kd[i] = w.kd = r.chance(0.2) ? 0 : r.uniform(r.chance(0.1) ? -20 : 0, 20);
            w.lo = r.chance(0.3) ? -1.7976931348623157e308 : r.uniform(-50, 20); w.hi = r.chance(0.3) ? 1.7976931348623157e308 : w.lo < -50 ? r.wild(9) : w.lo + r.uniform(0, 50);
            o->limits[i][0] = w.lo; o->limits[i][1] = w.hi;
            rows[id].push_back(w);
        }
    }
    bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix *lim, Matrix *x, Matrix *y) {
        if (nsv ? (at != Forced && rowCount()) : at != Stepped) bad("order", "solver called outside an evaluation");
        if (nsv && at != Forced) { at = Forced; open(nullptr); }
        if (gensSeen != (long)gens.size() || consSeen != (long)cons.size()) bad("order", "solver called after %ld of %d generators and %ld of %d constraints", gensSeen, (int)gens.size(), consSeen, (int)cons.size());
        if (solverCalled) bad("order", "solver called twice in an evaluation");
        solverCalled = true;
        if (nsv && solver.supportsLimits() && !lim) bad("limits", "a solver that supports limits was not given them");
        if (lim && !(nsv && solver.supportsLimits())) bad("limits", "solveWithLimits called %s", nsv ? "on a solver that does not support limits" : "by the generic system");
        const int m = rowCount();
        if (!key[0] && m) judgeSystem(J, W, b, lim, m);
        lambda.assign((size_t)m, 0.0);
        for (double &l : lambda) l = r.chance(0.2) ? 0 : r.wild(4);
        x->resize(1, m);
        for (int i = 0; i < m; ++i) x->set(0, i, lambda[i]);
        if (y && y != x) { y->resize(1, m); for (int i = 0; i < m; ++i) y->set(0, i, lambda[i]); }
        ++solves;
        if (nsv) at = Done;
        return true;
    }
    bool fits(double got, double want, double scale) { return near(got, want, 1e-12 * scale + 1e-300); }
    void judgeSystem(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix *lim, int m) {
        if (J.getHeight() != m || J.getWidth() != 3 * n) { bad("shape", "system of %d rows and %d columns for %d rows and %d bodies", J.getHeight(), J.getWidth(), m, n); return; }
        if (b.getHeight() < m) { bad("shape", "right hand side of %d rows for %d", b.getHeight(), m); return; }
        Mat d;
        J.expand(&d);
        Vals w((size_t)3 * n);
        for (int i = 0; i < n; ++i) {
            const RigidBody *q = sys->getRigidBody(i);
            const double want[3] = {1 / q->m, 1 / q->m, 1 / q->I};
            for (int x = 0; x < 3; ++x) { w[(size_t)3 * i + x] = want[x]; if (!fits(W.get(0, 3 * i + x), want[x], want[x])) { bad("weights", "body %d: inverse mass %d is %.17g, %.17g expected", i, x, W.get(0, 3 * i + x), want[x]); return; } }
        }
        for (size_t id = 0; id < cons.size(); ++id) for (int k = 0; k < cons[id]->getConstraintCount(); ++k) {
            const int at = sys->state()->indexMap[cons[id]->m_index] + k;
            if (at < 0 || at >= m) { bad("row-place", "row of a constraint placed at %d of %d", at, m); return; }
            const Row &R = rows[id][k];
            Vals want((size_t)3 * n, 0.0), rate((size_t)3 * n, 0.0);
            bool acts = false;
            for (int e = 0; e < cons[id]->m_bodyCount; ++e) {
                const int i = cons[id]->m_bodies[e]->index;
                if (i < 0) { ++looseRows; continue; }
                acts = true;
                for (int x = 0; x < 3; ++x) { want[(size_t)3 * i + x] = R.J[3 * e + x]; rate[(size_t)3 * i + x] = R.Jd[3 * e + x]; }
            }
            for (int x = 0; x < 3 * n; ++x) if (bitsOf(d.get(x, at) + 0.0) != bitsOf(want[x] + 0.0)) { bad("jacobian", "row %d, column %d is %.17g, %.17g was answered", at, x, d.get(x, at), want[x]); return; }
            if (!acts) continue; // a row on nothing: whatever is asked of it has no effect
            double v = 0, sc = 0;
            const SystemState *s = sys->state();
            auto add = [&](double t) { v -= t; sc += std::fabs(t); };
            for (int i = 0; i < n; ++i) {
                const double q[3] = {s->v_x[i], s->v_y[i], s->v_theta[i]};
                for (int x = 0; x < 3; ++x) {
                    const size_t z = (size_t)3 * i + x;
                    if (nsv) { add(want[z] * q[x]); add(want[z] * h * w[z] * F[z]); }
                    else { add(rate[z] * q[x]); add(want[z] * w[z] * F[z]); add(R.kd * want[z] * q[x]); }
                }
            }
            if (nsv) { add(R.vb); add(fast->m_biasFactor / h * R.C); } else add(R.ks * R.C);
            if (!fits(b.get(0, at), v, sc)) { bad("right-hand-side", "row %d: %.15g handed to the solver, %.15g expected (%s)", at, b.get(0, at), v, nsv ? "velocity level" : "acceleration level"); return; }
            if (lim) {
                const double l[2] = {R.lo * h, R.hi * h};
                for (int x = 0; x < 2; ++x) if (!fits(lim->get(x, at), l[x], std::fabs(l[x])) && lim->get(x, at) != l[x]) { bad("limits", "row %d: %s limit %.17g handed to the solver, %.17g expected", at, x ? "upper" : "lower", lim->get(x, at), l[x]); return; }
            }
            ++judgedRows;
        }
    }
    // what the solver's answer must have become by the time the integrator sees it
    void judgeResults(const SystemState *s) {
        const int m = rowCount();
        Vals sum = F, scale((size_t)3 * n);
        for (int z = 0; z < 3 * n; ++z) scale[z] = std::fabs(F[z]);
        for (size_t id = 0; id < cons.size(); ++id) for (int k = 0; k < cons[id]->getConstraintCount(); ++k) {
            const int at = s->indexMap[cons[id]->m_index] + k;
            for (int e = 0; e < cons[id]->m_bodyCount; ++e) {
                const int i = cons[id]->m_bodies[e]->index;
                if (i < 0) continue;
                const double got[3] = {s->r_x[2 * at + e], s->r_y[2 * at + e], s->r_t[2 * at + e]};
                for (int x = 0; x < 3; ++x) {
                    const double want = rows[id][k].J[3 * e + x] * lambda[at] / (nsv ? h : 1);
                    if (!fits(got[x], want, std::fabs(want))) { bad("row-forces", "row %d, body %d, component %d: force %.15g, the solver's answer gives %.15g", at, e, x, got[x], want); return; }
                    sum[(size_t)3 * i + x] += want; scale[(size_t)3 * i + x] += std::fabs(want);
                }
            }
        }
        (void)m;
        for (int i = 0; i < n; ++i) {
            const RigidBody *q = sys->getRigidBody(i);
            const double a[3] = {s->a_x[i], s->a_y[i], s->a_theta[i]}, f[3] = {s->f_x[i], s->f_y[i], s->t[i]}, w[3] = {1 / q->m, 1 / q->m, 1 / q->I};
            for (int x = 0; x < 3; ++x) {
                const size_t z = (size_t)3 * i + x;
                if (!(f[x] == F[z])) { bad("force-totals", "body %d, component %d: total %.12g shown to the integrator, %.12g applied", i, x, f[x], F[z]); return; }
                if (!fits(a[x], w[x] * sum[z], w[x] * scale[z])) { bad("acceleration", "body %d, component %d: acceleration %.15g, applied and constraint forces give %.15g", i, x, a[x], w[x] * sum[z]); return; }
            }
        }
        c.count("evaluations_judged");
    }
    void scramble(SystemState *s, bool acc) { // a user's integrator may do what it likes
        for (int i = 0; i < n; ++i) if (r.chance(0.8)) {
            s->p_x[i] = r.wild(9); s->p_y[i] = r.wild(9); s->theta[i] = r.wild(3);
            s->v_x[i] = r.wild(9); s->v_y[i] = r.wild(9); s->v_theta[i] = r.wild(9);
            if (acc) { s->a_x[i] = r.wild(9); s->a_y[i] = r.wild(9); s->a_theta[i] = r.wild(9); }
        }
        if (acc) for (int i = 0; i < 2 * s->n_c; ++i) if (r.chance(0.5)) { s->r_x[i] = r.wild(9); s->r_y[i] = r.wild(9); s->r_t[i] = r.wild(9); }
    }
};
void FuzzCon::calculate(Output *o, SystemState *s) { p->calculate(id, o, s); }
void FuzzGen::apply(SystemState *s) { p->apply(id, s); }
bool FuzzSolver::go(SparseMatrix<3> &J, Matrix &W, Matrix &b, Matrix *lim, Matrix *x, Matrix *y) { return p->solve(J, W, b, lim, x, y); }
void FuzzOde::start(SystemState *s, double dt) {
    if (p->at != Play::Idle && p->at != Play::Done) p->bad("order", "start() in the middle of a substep");
    if (!near(dt, p->h, 1e-15 * p->h)) p->bad("step-length", "substep of %.17g, %.17g expected", dt, p->h);
    if (s != p->sys->state() || !same(motion(s), p->left)) p->bad("motion", "start() is not shown %s", p->started ? "what the last substep left" : "the bodies");
    ++p->started;
    p->at = Play::Started;
}
bool FuzzOde::step(SystemState *s) {
    if (p->at != Play::Started && p->at != Play::Solved) p->bad("order", "step() called out of turn");
    if (p->at == Play::Solved && p->last) p->bad("order", "step() called after the integrator said it was done");
    if (!same(motion(s), p->left)) p->bad("motion", "step() is not shown what the integrator left");
    p->at = Play::Stepped;
    p->scramble(s, false);
    p->open(s);
    p->last = p->r.chance(0.45);
    return p->last;
}
void FuzzOde::solve(SystemState *s) {
    Play &q = *p;
    if (q.at != Play::Stepped) q.bad("order", "solve() called out of turn");
    if (q.gensSeen != (long)q.gens.size() || q.consSeen != (long)q.cons.size()) q.bad("order", "solve() called after %ld of %d generators and %ld of %d constraints", q.gensSeen, (int)q.gens.size(), q.consSeen, (int)q.cons.size());
    if (q.rowCount() && !q.solverCalled) q.bad("order", "solve() called without consulting the solver");
    if (!same(motion(s), q.shown)) q.bad("motion", "solve() is not shown the motion of its stage");
    if (!q.key[0]) q.judgeResults(s);
    q.scramble(s, true);
    q.left = motion(s); q.leftRows = rowForces(s);
    q.at = Play::Solved;
    ++q.evals; ++q.stages;
}
void FuzzOde::end() {
    if (p->at != Play::Solved || !p->last) p->bad("order", "end() called out of turn");
    ++p->ended;
    p->at = Play::Done;
}
}

void run_case(Ctx &c) {
    Rng &r = c.rng;
    const bool nsv = r.chance(0.4);
    Play p(c, nsv, r.chance(0.5));
    if (nsv) { p.fast = new OptimizedNsvRigidBodySystem; p.fast->initialize(&p.solver); p.sys.reset(p.fast); p.fast->m_biasFactor = r.chance(0.3) ? 1 : r.wild(2); }
    else { auto *g = new GenericRigidBodySystem; g->initialize(&p.solver, &p.ode); p.sys.reset(g); }
    SceneOpts o;
    auto body = [&] { auto *b = new RigidBody; setBody(b, randomBody(r, o)); return b; };
    for (int i = 0; i < 3; ++i) p.loose.emplace_back(body());
    const int frames = r.chance(0.0004) ? r.range(1100, 3000) : r.range(2, 8);
    for (int f = 0; f < frames; ++f) {
        // edit: any number of members of each kind
        const int nb = r.chance(0.1) ? 0 : r.chance(0.05) ? r.range(20, 90) : r.range(1, 6);
        if (f == 0 || r.chance(0.4)) {
            if (r.chance(0.3)) p.sys->reset();
            else {
                for (auto &k : p.cons) p.sys->removeConstraint(k.get());
                for (auto &g : p.gens) p.sys->removeForceGenerator(g.get());
                for (auto &b : p.bodies) p.sys->removeRigidBody(b.get());
            }
            p.cons.clear(); p.gens.clear(); p.bodies.clear();
            for (int i = 0; i < nb; ++i) { p.bodies.emplace_back(body()); p.sys->addRigidBody(p.bodies.back().get()); }
            p.n = nb;
            const int nc = nb ? r.below(2 * nb + 2) : 0, ng = r.below(5);
            for (int i = 0; i < nc; ++i) {
                const int two = nb >= 1 && r.chance(0.6) ? 2 : 1;
                p.cons.emplace_back(new FuzzCon(r.range(1, 3), two, &p, i));
                FuzzCon &k = *p.cons.back();
                const int a = r.below(nb);
                int b = nb > 1 ? r.below(nb) : a;
                k.m_bodies[0] = p.bodies[a].get();
                if (two == 2) {
                    if (b == a || r.chance(0.15)) k.m_bodies[1] = p.loose[r.below(3)].get();
                    else k.m_bodies[1] = p.bodies[b].get();
                    if (r.chance(0.5)) std::swap(k.m_bodies[0], k.m_bodies[1]);
                }
                else if (r.chance(0.05)) k.m_bodies[0] = p.loose[0].get();
                p.sys->addConstraint(&k);
            }
            for (int i = 0; i < ng; ++i) { p.gens.emplace_back(new FuzzGen(&p, i)); p.sys->addForceGenerator(p.gens.back().get()); }
        }
        else if (r.chance(0.5)) for (auto &b : p.bodies) if (r.chance(0.5)) setBody(b.get(), randomBody(r, o));
        if (r.chance(0.1)) { // another solver of the user's, with or without limits
            p.solver.~FuzzSolver();
            new (&p.solver) FuzzSolver(&p, r.chance(0.5));
            if (nsv) p.fast->initialize(&p.solver); else static_cast<GenericRigidBodySystem *>(p.sys.get())->initialize(&p.solver, &p.ode);
        }
        const double dt = r.logUniform(1e-4, 0.5);
        p.substeps = r.chance(0.5) ? 1 : frames < 1000 && r.chance(0.002) ? r.range(30, 300) : r.range(2, 5);
        if (f >= 1000) c.count("frames_past_1000");
        if (p.substeps > 5) c.count("finely_substepped_frames");
        p.h = dt / p.substeps;
        p.at = Play::Idle; p.started = p.ended = 0;
        p.evals = 0;
        std::vector<Pose> from, loose;
        Vals m;
        for (int i = 0; i < p.n; ++i) {
            const RigidBody *b = p.sys->getRigidBody(i);
            Pose q; const double x[6] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
            for (int j = 0; j < 3; ++j) { q.q[j] = x[j]; q.v[j] = x[3 + j]; }
            from.push_back(q);
        }
        p.left.assign((size_t)6 * p.n, 0.0);
        for (int i = 0; i < p.n; ++i) for (int j = 0; j < 3; ++j) { p.left[(size_t)j * p.n + i] = from[i].q[j]; p.left[(size_t)(3 + j) * p.n + i] = from[i].v[j]; }
        p.solves = 0;
        if (nsv) { p.shown = p.left; p.open(nullptr); p.at = Play::Idle; }
        const double beta = p.fast ? p.fast->m_biasFactor : 0;
        p.sys->process(dt, p.substeps);
        if (p.fast && bitsOf(p.fast->m_biasFactor) != bitsOf(beta)) c.fail("bias-setting", "a step changed the bias factor from %g to %g", beta, p.fast->m_biasFactor);
        if (p.key[0]) c.fail(p.key, "%s", p.err);
        const SystemState *s = p.sys->state();
        const Vals now = motion(s);
        for (int i = 0; i < p.n; ++i) {
            const RigidBody *b = p.sys->getRigidBody(i);
            const double x[6] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
            for (int j = 0; j < 6; ++j) {
                const double want = nsv ? now[(size_t)j * p.n + i] : p.left[(size_t)j * p.n + i];
                if (bitsOf(x[j]) != bitsOf(want)) c.fail("bodies", "body %d, coordinate %d is %.17g after the frame; %s left %.17g", i, j, x[j], nsv ? "the state" : "the integrator", want);
            }
        }
        const Vals rr = nsv ? rowForces(s) : p.leftRows;
        const int m2 = p.rowCount();
        for (size_t id = 0; id < p.cons.size(); ++id) {
            const FuzzCon &k = *p.cons[id];
            for (int j = 0; j < k.getConstraintCount(); ++j) for (int e = 0; e < k.m_bodyCount; ++e) {
                const size_t at = (size_t)2 * (s->indexMap[k.m_index] + j) + e;
                const double got[3] = {k.F_x[j][e], k.F_y[j][e], k.F_t[j][e]};
                for (int x = 0; x < 3; ++x) if (bitsOf(got[x]) != bitsOf(rr[(size_t)x * 2 * m2 + at])) c.fail("reports", "constraint row %d, body %d reports %.17g; %s left %.17g", j, e, got[x], nsv ? "the state" : "the integrator", rr[(size_t)x * 2 * m2 + at]);
            }
            c.count("reports_matched");
        }
        if (nsv) {
            if (m2 && p.solves != p.substeps) c.fail("order", "the solver was consulted %ld times in %d substeps", p.solves, p.substeps);
            if (m2) p.judgeResults(s);
            if (p.key[0]) c.fail(p.key, "%s", p.err);
            if (p.substeps == 1) for (int i = 0; i < p.n; ++i) { // the step itself
                const double a[3] = {s->a_x[i], s->a_y[i], s->a_theta[i]};
                for (int j = 0; j < 3; ++j) {
                    const double v = from[i].v[j] + dt * a[j], q = from[i].q[j] + dt * v;
                    if (!p.fits(now[(size_t)(3 + j) * p.n + i], v, std::fabs(from[i].v[j]) + std::fabs(dt * a[j]))) c.fail("velocity", "body %d, coordinate %d: velocity %.15g, %.15g expected", i, j, now[(size_t)(3 + j) * p.n + i], v);
                    if (!p.fits(now[(size_t)j * p.n + i], q, std::fabs(from[i].q[j]) + dt * (std::fabs(from[i].v[j]) + std::fabs(dt * a[j])))) c.fail("position", "body %d, coordinate %d: position %.15g, %.15g expected", i, j, now[(size_t)j * p.n + i], q);
                }
                c.count("advances_judged");
            }
        }
        else {
            if (p.started != p.substeps || p.ended != p.substeps) c.fail("order", "%d starts and %d ends in a frame of %d substeps", p.started, p.ended, p.substeps);
            if (m2 && p.solves != p.evals) c.fail("order", "the solver was consulted %ld times in %ld evaluations", p.solves, p.evals);
        }
        c.count("frames");
        c.count(nsv ? (p.solver.supportsLimits() ? "limited_solves" : "plain_solves") : "generic_solves", p.solves);
        c.nontrivial = c.nontrivial || p.n > 0;
        c.shape(p.n); c.shape(p.cons.size()); c.shape(m2);
        c.sample("%s system, %d bodies, %d rows, %d generators, %d frames", nsv ? "velocity-level" : "generic", p.n, m2, (int)p.gens.size(), frames);
    }
    c.count("rows_judged", p.judgedRows); c.count("stages", p.stages); c.count("rows_on_unregistered_bodies", p.looseRows);
    // members die before the system they are registered with
    p.sys.reset();
}

// Random histories of valid use of the whole library: any number of systems of
// both kinds sharing solvers and integrators, bodies moving between them,
// edits, resets, destruction.  Only calls a user may make are made: a
// constraint or generator is registered only while its bodies are registered
// with the same system (or have never been registered anywhere and the kind
// supports that), and singular systems are not handed to direct solvers.
#ifndef VERIF_HISTORY_H
#define VERIF_HISTORY_H
#include "scene.h"
namespace vf {

// forwards to a real constraint / generator and counts
typedef std::function<void(int id, SystemState *, bool before)> CallHook;
struct FwdConstraint : Constraint {
    std::unique_ptr<Constraint> in;
    long calls = 0;
    std::vector<int> *log = nullptr;
    const CallHook *hook = nullptr;
    int id = 0;
    explicit FwdConstraint(Constraint *k) : Constraint(k->getConstraintCount(), k->m_bodyCount), in(k) {
        for (int i = 0; i < k->m_bodyCount; ++i) m_bodies[i] = k->m_bodies[i];
    }
    virtual void calculate(Output *o, SystemState *s) {
        ++calls;
        if (log) log->push_back(id);
        if (hook && *hook) (*hook)(id, s, true);
        in->calculate(o, s);
        if (hook && *hook) (*hook)(id, s, false);
    }
};
struct FwdGenerator : ForceGenerator {
    std::unique_ptr<ForceGenerator> in;
    long calls = 0;
    std::vector<int> *log = nullptr;
    const CallHook *hook = nullptr;
    int id = 0;
    explicit FwdGenerator(ForceGenerator *g) : in(g) {}
    virtual void apply(SystemState *s) {
        ++calls;
        if (log) log->push_back(id);
        if (hook && *hook) (*hook)(id, s, true);
        in->apply(s);
        if (hook && *hook) (*hook)(id, s, false);
    }
};
// forwards to a real integrator; tells what is happening, before and after
struct HookOde : OdeSolver {
    enum Call { Start, Step, Solve, End };
    typedef std::function<void(Call, SystemState *, double dt, bool before)> Hook;
    std::unique_ptr<OdeSolver> in;
    const Hook *hook;
    HookOde(OdeSolver *o, const Hook *h) : in(o), hook(h) {}
    void tell(Call k, SystemState *s, double dt, bool before) { if (hook && *hook) (*hook)(k, s, dt, before); }
    virtual void start(SystemState *s, double dt) { tell(Start, s, dt, true); in->start(s, dt); tell(Start, s, dt, false); }
    virtual bool step(SystemState *s) { tell(Step, s, 0, true); const bool d = in->step(s); tell(Step, s, d, false); return d; }
    virtual void solve(SystemState *s) { tell(Solve, s, 0, true); in->solve(s); tell(Solve, s, 0, false); }
    virtual void end() { tell(End, nullptr, 0, true); in->end(); }
};

inline bool anchorOk(int kind) { return kind == K_CLUTCH || kind == K_GEAR || kind == K_WELD || kind == K_LIN; }

// parameters of a constraint that (nearly) holds at the given poses
inline void fitCon(Rng &r, ConSpec &k, const BodySpec &a, const BodySpec &b, double slack) {
    auto jit = [&] { return r.chance(0.5) ? 0.0 : r.uniform(-slack, slack); };
    k.ks = r.uniform(0, 40); k.kd = r.uniform(0, 8);
    switch (k.kind) {
        case K_FIXPOS: {
            k.p[0] = r.wild(2); k.p[1] = r.wild(2);
            const Vec2 w = rot(a.th, k.p[0], k.p[1]);
            k.p[2] = a.px + w.x + jit(); k.p[3] = a.py + w.y + jit();
            break;
        }
        case K_FIXROT: k.p[0] = a.th + jit(); break;
        case K_LINE: {
            k.p[0] = r.wild(2); k.p[1] = r.wild(2);
            const Vec2 w = rot(a.th, k.p[0], k.p[1]);
            const double q = r.uniform(-4, 4);
            k.p[2] = a.px + w.x + jit(); k.p[3] = a.py + w.y; k.p[4] = std::cos(q); k.p[5] = std::sin(q);
            break;
        }
        case K_LINK: {
            k.p[0] = r.wild(2); k.p[1] = r.wild(2);
            const Vec2 w = rot(a.th, k.p[0], k.p[1]);
            localOf(b, a.px + w.x + jit(), a.py + w.y, &k.p[2], &k.p[3]);
            if (r.chance(0.3)) k.hi = r.logUniform(0.5, 500);
            break;
        }
        case K_ROLL: {
            // surface through the foot of the wheel
            const double q = r.uniform(-4, 4);
            k.p[2] = std::cos(q); k.p[3] = std::sin(q); k.p[4] = r.uniform(0.3, 2);
            const Vec2 d = rot(a.th, k.p[2], k.p[3]);
            localOf(a, b.px + k.p[4] * d.y + (b.th - a.th) * k.p[4] * d.x, b.py - k.p[4] * d.x + (b.th - a.th) * k.p[4] * d.y, &k.p[0], &k.p[1]);
            k.p[0] += jit();
            break;
        }
        case K_CROT: k.p[0] = r.uniform(-5, 5); break;
        case K_GEAR: k.p[0] = r.logUniform(0.3, 3); k.neutral = r.chance(0.3); break;
        case K_WELD: {
            const double dx = b.px - a.px + jit(), dy = b.py - a.py;
            k.p[0] = std::cos(a.th) * dx + std::sin(a.th) * dy; k.p[1] = -std::sin(a.th) * dx + std::cos(a.th) * dy;
            k.p[2] = b.th - a.th;
            break;
        }
        case K_LIN: {
            for (int x = 0; x < 6; ++x) k.p[x] = r.uniform(-1.5, 1.5);
            k.p[6] = k.p[0] * a.px + k.p[1] * a.py + k.p[2] * a.th + k.p[3] * b.px + k.p[4] * b.py + k.p[5] * b.th + jit();
            k.p[7] = r.chance(0.5) ? 0 : r.uniform(-1, 1);
            break;
        }
        default: break;
    }
    if (k.kind == K_CROT || k.kind == K_CLUTCH || k.kind == K_FRICTION) { const double t = r.logUniform(0.1, 100); if (r.chance(0.7)) { k.lo = -t; k.hi = t; } }
}
inline void fitGen(Rng &r, GenSpec &g) {
    switch (g.kind) {
        case G_GRAVITY: g.p[0] = r.uniform(-10, 10); break;
        case G_UNIFORM: g.p[0] = r.uniform(-4, 4); g.p[1] = r.uniform(-4, 4); break;
        case G_ATTRACT: g.p[0] = r.uniform(-1, 1); break;
        case G_STATIC: g.p[0] = r.wild(10); g.p[1] = r.wild(10); g.p[2] = r.wild(1); g.p[3] = r.wild(1); break;
        case G_SPRING:
            for (int x = 0; x < 4; ++x) g.p[x] = r.wild(1);
            g.p[4] = r.uniform(0, 2); g.p[5] = r.uniform(0, 20); g.p[6] = r.chance(0.5) ? 0 : r.uniform(0, 1);
            break;
        default: g.p[0] = r.uniform(0, 2); g.p[1] = r.chance(0.5) ? 0 : r.uniform(0, 0.02); g.p[2] = r.logUniform(0.1, 20); g.p[3] = r.uniform(-5, 5); break;
    }
}

struct Hist {
    struct Body { std::unique_ptr<RigidBody> b; int sys = -1; bool fresh = true; };
    struct Con { ConSpec s; int b[2] = {-1, -1}; std::unique_ptr<Constraint> c; FwdConstraint *fwd = nullptr; int sys = -1; };
    struct Gen { GenSpec s; int b[2] = {-1, -1}; std::unique_ptr<ForceGenerator> g; FwdGenerator *fwd = nullptr; int sys = -1; };
    struct Sys {
        std::unique_ptr<RigidBodySystem> p;
        OptimizedNsvRigidBodySystem *nsv = nullptr;
        GenericRigidBodySystem *gen = nullptr;
        int solver = 0, ode = 0, odeKind = SYS_RK4;
        std::vector<int> bodies, cons, gens;   // current members, in no particular order
        long frames = 0;
    };
    Rng r;
    bool counting = false;
    int maxBodies = 12;
    unsigned kinds = (1u << K_COUNT) - 1;
    unsigned genKinds = (1u << G_COUNT) - 1;
    double maxRowsPerBody = 1.8;
    std::vector<Body> bodies;
    std::vector<Con> cons;
    std::vector<Gen> gens;
    std::vector<std::unique_ptr<SleSolver>> solvers;
    std::vector<std::unique_ptr<SpySolver>> spies;
    std::vector<std::unique_ptr<OdeSolver>> odes;
    std::vector<Sys> systems;
    std::vector<int> *callLog = nullptr;       // ids as below, constraints only
    std::vector<int> *genLog = nullptr;
    long steps = 0, edits = 0;
    // observers
    CallHook conHook, genHook;                 // with counting
    HookOde::Hook odeHook;                     // if set before setup()
    std::function<void(int sys, double dt, int steps)> beforeStep, afterStep;
    std::function<void(const char *op)> afterOp;

    explicit Hist(uint64_t seed) : r(seed) {}

    void setup(int nSys, bool tight = false) {
        for (int k = 0; k < S_COUNT; ++k) for (int i = 0; i < 2; ++i) {
            solvers.push_back(makeSolver(k, tight && i == 0));
            spies.emplace_back(new SpySolver(solvers.back().get()));
        }
        for (int i = 0; i < 2; ++i) { odes.emplace_back(new EulerOdeSolver); odes.emplace_back(new Rk4OdeSolver); }
        if (odeHook) for (auto &o : odes) o.reset(new HookOde(o.release(), &odeHook));
        for (int i = 0; i < nSys; ++i) newSystem();
    }
    SpySolver *spyOf(const Sys &s) { return spies[s.solver].get(); }
    int solverKindOf(const Sys &s) const { return s.solver / 2; }

    void makeSystem(Sys &s) {
        s.solver = r.below((int)spies.size());
        s.ode = r.below((int)odes.size());
        s.odeKind = s.ode % 2 ? SYS_RK4 : SYS_EULER;
        if (r.chance(0.5)) {
            s.nsv = new OptimizedNsvRigidBodySystem; s.gen = nullptr;
            s.nsv->initialize(spies[s.solver].get());
            s.p.reset(s.nsv);
        } else {
            s.gen = new GenericRigidBodySystem; s.nsv = nullptr;
            s.gen->initialize(spies[s.solver].get(), odes[s.ode].get());
            s.p.reset(s.gen);
        }
        if (r.chance(0.03)) { // ran empty for a long time
            const double dt = r.logUniform(0.01, 1e4);
            for (int k = r.chance(0.2) ? r.range(100, 1500) : r.range(1, 4); k > 0; --k) s.p->process(dt, 1);
        }
        s.frames = 0;
    }
    int newSystem() { systems.emplace_back(); makeSystem(systems.back()); return (int)systems.size() - 1; }
    int newBody() {
        SceneOpts o;
        Body b;
        b.b.reset(new RigidBody);
        setBody(b.b.get(), randomBody(r, o));
        bodies.push_back(std::move(b));
        return (int)bodies.size() - 1;
    }
    static void drop(std::vector<int> &v, int x) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) { v[i] = v.back(); v.pop_back(); return; } }

    void addBody(int si, int id) {
        systems[si].p->addRigidBody(bodies[id].b.get());
        bodies[id].sys = si; bodies[id].fresh = false;
        systems[si].bodies.push_back(id);
        op("add-body");
    }
    void removeBody(int id) { // with everything that names it
        const int si = bodies[id].sys;
        const bool first = r.chance(0.4); // the body before what names it, or after
        if (first) unlistBody(id);
        for (size_t i = 0; i < cons.size(); ++i) if (cons[i].sys == si && (cons[i].b[0] == id || cons[i].b[1] == id)) removeCon((int)i);
        for (size_t i = 0; i < gens.size(); ++i) if (gens[i].sys == si && (gens[i].b[0] == id || gens[i].b[1] == id)) removeGen((int)i);
        if (!first) unlistBody(id);
    }
    void unlistBody(int id) { // nothing may be stepped while parts that name it are still registered
        const int si = bodies[id].sys;
        systems[si].p->removeRigidBody(bodies[id].b.get());
        drop(systems[si].bodies, id);
        bodies[id].sys = -1;
        op("remove-body");
    }
    void dismantle(int si) { // everything, one by one, in any order
        Sys &s = systems[si];
        while (!s.bodies.empty() || !s.cons.empty() || !s.gens.empty()) {
            const int kind = r.below(3);
            if (kind == 0 && !s.bodies.empty()) unlistBody(pick(s.bodies));
            if (kind == 1 && !s.cons.empty()) removeCon(pick(s.cons));
            if (kind == 2 && !s.gens.empty()) removeGen(pick(s.gens));
        }
    }
    void removeCon(int ci) {
        Sys &s = systems[cons[ci].sys];
        s.p->removeConstraint(cons[ci].c.get());
        drop(s.cons, ci);
        cons[ci].sys = -1;
        op("remove-constraint");
    }
    void removeGen(int gi) {
        Sys &s = systems[gens[gi].sys];
        s.p->removeForceGenerator(gens[gi].g.get());
        drop(s.gens, gi);
        gens[gi].sys = -1;
        op("remove-generator");
    }
    int anchor() {
        std::vector<int> f;
        for (size_t i = 0; i < bodies.size(); ++i) if (bodies[i].fresh) f.push_back((int)i);
        if (f.empty() || r.chance(0.3)) { const int id = newBody(); bodies[id].b->v_x = bodies[id].b->v_y = bodies[id].b->v_theta = 0; return id; }
        return f[r.below((int)f.size())];
    }
    int pick(const std::vector<int> &v) { return v[r.below((int)v.size())]; }
    int rowsOf(const Sys &s) const { int n = 0; for (int c : s.cons) n += conRows(cons[c].s.kind); return n; }

    int addCon(int si) {
        Sys &s = systems[si];
        if (s.bodies.empty()) return -1;
        for (int tries = 0; tries < 8; ++tries) {
            Con k;
            k.s.kind = r.below(K_COUNT);
            if (!((kinds >> k.s.kind) & 1u)) continue;
            if (rowsOf(s) + conRows(k.s.kind) > maxRowsPerBody * s.bodies.size() + 1) return -1;
            k.b[0] = pick(s.bodies);
            if (conBodies(k.s.kind) == 2) {
                if (anchorOk(k.s.kind) && r.chance(0.25)) k.b[1] = anchor();
                else if (s.bodies.size() >= 2) { do k.b[1] = pick(s.bodies); while (k.b[1] == k.b[0]); }
                else continue;
                if (r.chance(0.5)) { int t = k.b[0]; k.b[0] = k.b[1]; k.b[1] = t; }
            }
            RigidBody *a = bodies[k.b[0]].b.get(), *b = k.b[1] >= 0 ? bodies[k.b[1]].b.get() : nullptr;
            fitCon(r, k.s, getBody(a), b ? getBody(b) : BodySpec(), 0.05);
            Constraint *n = newConstraint(k.s, a, b);
            if (counting) { k.fwd = new FwdConstraint(n); n = k.fwd; k.fwd->id = (int)cons.size(); k.fwd->log = callLog; k.fwd->hook = &conHook; }
            k.c.reset(n);
            cons.push_back(std::move(k));
            registerCon(si, (int)cons.size() - 1);
            return (int)cons.size() - 1;
        }
        return -1;
    }
    void registerCon(int si, int ci) {
        systems[si].p->addConstraint(cons[ci].c.get());
        systems[si].cons.push_back(ci);
        cons[ci].sys = si;
        op("add-constraint");
    }
    int addGen(int si) {
        Sys &s = systems[si];
        Gen g;
        g.s.kind = r.below(G_COUNT);
        if (!((genKinds >> g.s.kind) & 1u)) return -1;
        if (g.s.kind == G_STATIC || g.s.kind == G_SPRING || g.s.kind == G_MOTOR) {
            if (s.bodies.empty()) return -1;
            g.b[0] = pick(s.bodies);
            if (g.s.kind != G_STATIC) {
                if (r.chance(0.3)) g.b[1] = anchor();
                else if (s.bodies.size() >= 2) { do g.b[1] = pick(s.bodies); while (g.b[1] == g.b[0]); }
                else return -1;
                if (g.s.kind == G_MOTOR ? bodies[g.b[1]].fresh : r.chance(0.5)) { int t = g.b[0]; g.b[0] = g.b[1]; g.b[1] = t; }
            }
        }
        fitGen(r, g.s);
        ForceGenerator *n = newGenerator(g.s, g.b[0] >= 0 ? bodies[g.b[0]].b.get() : nullptr, g.b[1] >= 0 ? bodies[g.b[1]].b.get() : nullptr);
        if (counting) { g.fwd = new FwdGenerator(n); n = g.fwd; g.fwd->id = (int)gens.size(); g.fwd->log = genLog; g.fwd->hook = &genHook; }
        g.g.reset(n);
        gens.push_back(std::move(g));
        registerGen(si, (int)gens.size() - 1);
        return (int)gens.size() - 1;
    }
    void registerGen(int si, int gi) {
        systems[si].p->addForceGenerator(gens[gi].g.get());
        systems[si].gens.push_back(gi);
        gens[gi].sys = si;
        op("add-generator");
    }
    // whether an unregistered constraint or generator may be registered with a system
    bool usable(int si, const int b[2], int needed, bool anchors) const {
        bool some = needed == 0;
        for (int i = 0; i < needed; ++i) {
            if (b[i] < 0) return false;
            if (bodies[b[i]].sys == si) some = true;
            else if (!(anchors && bodies[b[i]].fresh)) return false;
        }
        return some;
    }
    void forget(Sys &s) { // members of a reset or destroyed system
        for (int b : s.bodies) bodies[b].sys = -1;
        for (int k : s.cons) cons[k].sys = -1;
        for (int g : s.gens) gens[g].sys = -1;
        s.bodies.clear(); s.cons.clear(); s.gens.clear();
    }
    void reset(int si) { systems[si].p->reset(); forget(systems[si]); op("reset"); }
    void replaceSystem(int si) { systems[si].p.reset(); forget(systems[si]); makeSystem(systems[si]); op("destroy-system"); }
    void swapSolver(int si) {
        Sys &s = systems[si];
        s.solver = r.below((int)spies.size());
        if (s.nsv) s.nsv->initialize(spies[s.solver].get());
        else {
            s.ode = r.below((int)odes.size());
            s.odeKind = s.ode % 2 ? SYS_RK4 : SYS_EULER;
            s.gen->initialize(spies[s.solver].get(), odes[s.ode].get());
        }
        op("swap-solver");
    }
    bool calm(Sys &s) { // bring runaway bodies back
        bool was = true;
        SceneOpts o;
        for (int id : s.bodies) {
            RigidBody *b = bodies[id].b.get();
            const double v[] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
            for (double d : v) if (!(std::fabs(d) < 1e3)) { was = false; setBody(b, randomBody(r, o)); break; }
        }
        return was;
    }
    void step(int si) {
        Sys &s = systems[si];
        const double dt = r.chance(0.4) ? 1.0 / 60 : r.logUniform(1e-4, 0.05);
        const int n = r.chance(0.001) ? r.range(30, 300) : r.chance(0.3) ? r.range(2, 5) : 1;
        step(si, dt, n);
    }
    void step(int si, double dt, int n) {
        Sys &s = systems[si];
        if (beforeStep) beforeStep(si, dt, n);
        const long ref = spyOf(s)->refused;
        s.p->process(dt, n);
        ++s.frames; ++steps;
        if (afterStep) afterStep(si, dt, n);
        op("step");
        if (spyOf(s)->refused != ref && !s.cons.empty()) removeCon(pick(s.cons));
        calm(s);
    }
    void op(const char *name) { ++edits; if (afterOp) afterOp(name); }

    // one random operation
    void random() {
        const int si = r.below((int)systems.size());
        Sys &s = systems[si];
        switch (r.below(24)) {
            case 0: case 1: case 2: { // add a body, new or removed earlier
                if ((int)s.bodies.size() >= maxBodies) break;
                std::vector<int> f;
                for (size_t i = 0; i < bodies.size(); ++i) {
                    if (bodies[i].sys != -1) continue;
                    bool named = false; // bodies that currently serve as anchors stay anchors
                    if (bodies[i].fresh) {
                        for (auto &k : cons) named = named || (k.b[0] == (int)i || k.b[1] == (int)i);
                        for (auto &g : gens) named = named || (g.b[0] == (int)i || g.b[1] == (int)i);
                    }
                    if (!named) f.push_back((int)i);
                }
                if (!f.empty() && r.chance(0.4)) addBody(si, f[r.below((int)f.size())]);
                else addBody(si, newBody());
                break;
            }
            case 3: if (!s.bodies.empty()) removeBody(pick(s.bodies)); break;
            case 4: case 5: case 6: addCon(si); break;
            case 7: if (!s.cons.empty()) removeCon(pick(s.cons)); break;
            case 8: case 9: if ((int)s.gens.size() < 8) addGen(si); break;
            case 10: if (!s.gens.empty()) removeGen(pick(s.gens)); break;
            case 11: { // register again something removed earlier
                for (size_t i = 0; i < cons.size(); ++i)
                    if (cons[i].sys == -1 && r.chance(0.3) && usable(si, cons[i].b, conBodies(cons[i].s.kind), anchorOk(cons[i].s.kind))) { registerCon(si, (int)i); break; }
                for (size_t i = 0; i < gens.size(); ++i) {
                    const int k = gens[i].s.kind;
                    const int need = k == G_SPRING || k == G_MOTOR ? 2 : k == G_STATIC ? 1 : 0;
                    if (k == G_MOTOR && gens[i].b[1] >= 0 && bodies[gens[i].b[1]].sys != si) continue;
                    if (gens[i].sys == -1 && r.chance(0.3) && usable(si, gens[i].b, need, need == 2)) { registerGen(si, (int)i); break; }
                }
                break;
            }
            case 12: if (r.chance(0.25)) reset(si); break;
            case 13: if (r.chance(0.25)) replaceSystem(si); break;
            case 14: if (r.chance(0.4)) swapSolver(si); break;
            case 15: { // kick and re-mass bodies from outside
                SceneOpts o;
                for (int id : s.bodies) if (r.chance(0.3)) {
                    RigidBody *b = bodies[id].b.get();
                    b->v_x += r.uniform(-1, 1); b->v_theta += r.uniform(-1, 1); b->m = r.logUniform(0.1, 10); b->I = r.logUniform(0.1, 10);
                }
                op("kick");
                break;
            }
            default: step(si); break;
        }
    }
    ~Hist() { destroyAll(); }
    void destroyAll() {
        afterOp = nullptr;
        systems.clear(); cons.clear(); gens.clear(); bodies.clear();
        spies.clear(); solvers.clear(); odes.clear();
    }
    // everything observable of one system's members
    uint64_t hashSystem(int si, uint64_t h = 0x55) {
        Sys &s = systems[si];
        for (int id : s.bodies) {
            const RigidBody *b = bodies[id].b.get();
            const double v[] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta};
            for (double d : v) h = mix(h, bitsOf(d));
            h = mix(h, bitsOf(b->energy()));
        }
        for (int ci : s.cons) {
            const Constraint *k = cons[ci].c.get();
            for (int j = 0; j < conRows(cons[ci].s.kind); ++j) for (int e = 0; e < conBodies(cons[ci].s.kind); ++e) {
                h = mix(h, bitsOf(k->F_x[j][e])); h = mix(h, bitsOf(k->F_y[j][e])); h = mix(h, bitsOf(k->F_t[j][e]));
            }
        }
        return h;
    }
};
} // namespace vf
#endif

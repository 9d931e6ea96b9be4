// C04: the registry of a system always matches the add/remove history.
#include "history.h"
const char *const kCheckId = "C04";
using namespace vf;

namespace {
struct Tally { long judged = 0, steps = 0, calls = 0, untouched = 0; };
void contents(Ctx &c, Hist &h, const char *op) {
    for (size_t si = 0; si < h.systems.size(); ++si) {
        Hist::Sys &s = h.systems[si];
        const int n = s.p->getRigidBodyCount();
        if (n != (int)s.bodies.size()) c.fail("body-count", "%d bodies reported, %d registered, after %s", n, (int)s.bodies.size(), op);
        if (s.p->getConstraintCount() != (int)s.cons.size()) c.fail("constraint-count", "%d constraints reported, %d registered, after %s", s.p->getConstraintCount(), (int)s.cons.size(), op);
        if (s.p->getForceGeneratorCount() != (int)s.gens.size()) c.fail("generator-count", "%d generators reported, %d registered, after %s", s.p->getForceGeneratorCount(), (int)s.gens.size(), op);
        if (s.p->getFullConstraintCount() != h.rowsOf(s)) c.fail("row-count", "%d rows reported, %d registered, after %s", s.p->getFullConstraintCount(), h.rowsOf(s), op);
        std::vector<char> at(n, 0);
        for (int id : s.bodies) {
            const RigidBody *b = h.bodies[id].b.get();
            if (b->index < 0 || b->index >= n) c.fail("body-index", "a registered body has index %d in a world of %d after %s", b->index, n, op);
            if (at[b->index]++) c.fail("body-index", "two bodies share index %d after %s", b->index, op);
            if (s.p->getRigidBody(b->index) != b) c.fail("listing", "position %d lists another body than the one indexed there after %s", b->index, op);
        }
        std::vector<char> ct(s.cons.size(), 0), gt(s.gens.size(), 0);
        for (int id : s.cons) {
            const int i = h.cons[id].c->m_index;
            if (i < 0 || i >= (int)s.cons.size() || ct[i]++) c.fail("constraint-index", "constraint index %d among %d after %s", i, (int)s.cons.size(), op);
        }
        for (int id : s.gens) {
            const int i = h.gens[id].g->m_index;
            if (i < 0 || i >= (int)s.gens.size() || gt[i]++) c.fail("generator-index", "generator index %d among %d after %s", i, (int)s.gens.size(), op);
        }
    }
}
}

void run_case(Ctx &c) {
    const uint64_t seed = c.rng.next();
    Hist h(seed);
    h.counting = true;
    h.maxBodies = c.rng.chance(0.1) ? 60 : c.rng.range(1, 8);
    h.setup(h.r.range(1, 3));
    Tally t;
    for (auto &b : h.odes) (void)b;
    bool stepping = false;
    std::vector<BodySpec> before;
    h.afterOp = [&](const char *op) { contents(c, h, op); ++t.judged; if (strcmp(op, "step")) c.count(op); };
    h.beforeStep = [&](int, double, int) {
        stepping = true;
        before.clear();
        for (auto &b : h.bodies) before.push_back(getBody(b.b.get()));
        for (auto &k : h.cons) if (k.fwd) k.fwd->calls = 0;
        for (auto &g : h.gens) if (g.fwd) g.fwd->calls = 0;
        // a stationary body would hide a missed one: make every member move
        for (int si = 0; si < (int)h.systems.size(); ++si) (void)si;
    };
    h.afterStep = [&](int si, double dt, int n) {
        stepping = false;
        Hist::Sys &s = h.systems[si];
        const long per = s.nsv ? n : (s.odeKind == SYS_RK4 ? 4L * n : n);
        for (size_t i = 0; i < h.cons.size(); ++i) {
            const long want = h.cons[i].sys == si ? per : 0;
            if (h.cons[i].fwd->calls != want)
                c.fail("constraint-calls", "a %s constraint was evaluated %ld times in a step of %ld evaluations", h.cons[i].sys == si ? "registered" : "removed or foreign", h.cons[i].fwd->calls, per);
            t.calls += want;
        }
        for (size_t i = 0; i < h.gens.size(); ++i) {
            const long want = h.gens[i].sys == si ? per : 0;
            if (h.gens[i].fwd->calls != want)
                c.fail("generator-calls", "a %s generator was applied %ld times in a step of %ld evaluations", h.gens[i].sys == si ? "registered" : "removed or foreign", h.gens[i].fwd->calls, per);
            t.calls += want;
        }
        for (size_t i = 0; i < h.bodies.size(); ++i) {
            const BodySpec now = getBody(h.bodies[i].b.get());
            if (bitsOf(now.m) != bitsOf(before[i].m) || bitsOf(now.I) != bitsOf(before[i].I)) c.fail("mass", "a step changed a body's mass or inertia");
            if (h.bodies[i].sys != si) {
                if (memcmp(&now, &before[i], sizeof now)) c.fail("foreign-body", "a step moved a body that is not registered with the system (%s)", h.bodies[i].sys < 0 ? "nowhere registered" : "registered elsewhere");
                ++t.untouched;
                continue;
            }
            // the displacement is bounded by the velocities of the step; a body left out does not move at all
            const double d[3] = {now.px - before[i].px, now.py - before[i].py, now.th - before[i].th};
            const double v[3] = {s.nsv ? now.vx : before[i].vx, s.nsv ? now.vy : before[i].vy, s.nsv ? now.w : before[i].w};
            const double q[3] = {now.px, now.py, now.th};
            for (int x = 0; x < 3; ++x) {
                if (!std::isfinite(q[x])) continue;
                if ((s.nsv || s.odeKind == SYS_EULER) && n == 1 && !near(d[x], dt * v[x], 1e-12 * (std::fabs(q[x]) + std::fabs(dt * v[x])) + 1e-13))
                    c.fail("body-not-advanced", "body %d coordinate %d moved by %.12g in a step of %.6g at velocity %.12g", (int)i, x, d[x], dt, v[x]);
                if (d[x] == 0 && std::fabs(v[x]) * dt > 1e-9 * (1 + std::fabs(q[x])) && s.cons.empty() && s.gens.empty())
                    c.fail("body-not-advanced", "free body %d did not move along coordinate %d at velocity %g", (int)i, x, v[x]);
            }
            c.count("bodies_advanced");
        }
        ++t.steps;
    };
    contents(c, h, "creation");
    const int ops = h.r.chance(0.001) ? h.r.range(1200, 3000) : h.r.range(10, c.thorough ? 200 : 80);
    for (int i = 0; i < ops; ++i) {
        h.random();
        if (h.r.chance(0.05)) { // remove all of one kind in a chosen order: first, last, already moved
            const int si = h.r.below((int)h.systems.size());
            const int how = h.r.below(3);
            auto next = [&](int n, const std::function<int(int)> &indexOf) {
                int best = 0;
                for (int k = 1; k < n; ++k) if (how == 0 ? indexOf(k) < indexOf(best) : indexOf(k) > indexOf(best)) best = k;
                return how == 2 ? h.r.below(n) : best;
            };
            Hist::Sys &s = h.systems[si];
            switch (h.r.below(4)) {
                case 3: h.dismantle(si); break;
                case 0: while (!s.bodies.empty()) h.removeBody(s.bodies[next((int)s.bodies.size(), [&](int k) { return h.bodies[s.bodies[k]].b->index; })]); break;
                case 1: while (!s.cons.empty()) h.removeCon(s.cons[next((int)s.cons.size(), [&](int k) { return h.cons[s.cons[k]].c->m_index; })]); break;
                default: while (!s.gens.empty()) h.removeGen(s.gens[next((int)s.gens.size(), [&](int k) { return h.gens[s.gens[k]].g->m_index; })]); break;
            }
            c.count("emptied");
        }
    }
    (void)stepping;
    c.count("registry_checks", t.judged); c.count("steps", t.steps); c.count("calls_accounted", t.calls); c.count("foreign_bodies_checked", t.untouched);
    c.nontrivial = t.steps > 0;
    c.shape(seed);
    c.sample("%ld operations judged, %ld steps, %ld evaluations accounted for, %ld foreign body checks", t.judged, t.steps, t.calls, t.untouched);
}

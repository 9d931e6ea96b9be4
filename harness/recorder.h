// A user force generator that applies nothing and records the state of every
// evaluation: where a (sub)step starts, what the motors see, and so on.
#ifndef VERIF_RECORDER_H
#define VERIF_RECORDER_H
#include "laws.h"
namespace vf {
struct Eval { std::vector<Pose> P; std::vector<double> aTheta; };
struct Recorder : ForceGenerator {
    World *w = nullptr;
    std::vector<Eval> evals;
    virtual void apply(SystemState *s) {
        Eval e;
        e.P = statePoses(*w, s);
        for (auto *b : w->bodies) e.aTheta.push_back(s->a_theta[b->index]);
        evals.push_back(std::move(e));
    }
};
// registers a recorder with a world; unregisters nothing (dies after the world)
inline void attach(Recorder &rec, World &w) { rec.w = &w; w.sys->addForceGenerator(&rec); }
inline bool tame(const std::vector<Pose> &P, double lim = 1e8) {
    for (auto &p : P) for (int i = 0; i < 3; ++i) if (!(std::fabs(p.q[i]) < lim && std::fabs(p.v[i]) < lim)) return false;
    return true;
}
} // namespace vf
#endif

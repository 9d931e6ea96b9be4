// A bare SystemState with bodies, for judging single constraints and generators.
#ifndef VERIF_RIG_H
#define VERIF_RIG_H
#include "scene.h"
namespace vf {

inline std::vector<double *> stateArrays(SystemState &s) {
    return {s.a_theta, s.v_theta, s.theta, s.a_x, s.a_y, s.v_x, s.v_y, s.p_x, s.p_y, s.f_x, s.f_y, s.t, s.m};
}
inline std::vector<double *> stateRowArrays(SystemState &s) { return {s.r_x, s.r_y, s.r_t}; }

struct StateImage {
    int n, nc; double dt;
    std::vector<double> v, rows;
    std::vector<int> map;
    static StateImage of(SystemState &s) {
        StateImage i;
        i.n = s.n; i.nc = s.n_c; i.dt = s.dt;
        for (double *a : stateArrays(s)) i.v.insert(i.v.end(), a, a + s.n);
        for (double *a : stateRowArrays(s)) i.rows.insert(i.rows.end(), a, a + 2 * s.n_c);
        i.map.assign(s.indexMap, s.indexMap + s.n_c);
        return i;
    }
    bool operator==(const StateImage &o) const {
        return n == o.n && nc == o.nc && bitsOf(dt) == bitsOf(o.dt) && v.size() == o.v.size() && rows.size() == o.rows.size()
            && (v.empty() || !memcmp(v.data(), o.v.data(), 8 * v.size()))
            && (rows.empty() || !memcmp(rows.data(), o.rows.data(), 8 * rows.size())) && map == o.map;
    }
};

// state with n bodies and n_c rows, every quantity filled with something different
inline void fillState(Rng &r, SystemState &s, int n, int nc) {
    s.resize(n, nc);
    for (double *a : stateArrays(s)) for (int i = 0; i < n; ++i) a[i] = r.uniform(-9, 9);
    for (int i = 0; i < n; ++i) s.m[i] = r.logUniform(0.1, 10);
    for (double *a : stateRowArrays(s)) for (int i = 0; i < 2 * nc; ++i) a[i] = r.uniform(-9, 9);
    for (int i = 0; i < nc; ++i) s.indexMap[i] = i;
    s.dt = r.uniform(0.001, 0.1);
}
inline Pose stPose(const SystemState &s, int i) {
    Pose p;
    p.q[0] = s.p_x[i]; p.q[1] = s.p_y[i]; p.q[2] = s.theta[i];
    p.v[0] = s.v_x[i]; p.v[1] = s.v_y[i]; p.v[2] = s.v_theta[i];
    return p;
}
inline double *coord(SystemState &s, int body, int x) { return (x == 0 ? s.p_x : x == 1 ? s.p_y : s.theta) + body; }

// arbitrary parameters for a constraint kind (no relation to the pose)
inline ConSpec wildCon(Rng &r, int kind) {
    ConSpec k;
    k.kind = kind;
    const double sc = r.chance(0.15) ? 40 : 3;
    for (double &p : k.p) p = r.wild(sc);
    k.ks = r.chance(0.2) ? 0 : r.uniform(0, 80); k.kd = r.chance(0.2) ? 0 : r.uniform(0, 20);
    if (r.chance(0.6)) { k.lo = r.uniform(-50, 20); k.hi = k.lo + r.uniform(0, 60); }
    if (kind == K_LINK) { k.hi = r.chance(0.5) ? 1.7976931348623157e308 : r.uniform(0, 90); }
    if (kind == K_ROLL) { const double a = r.uniform(-4, 4), L = r.chance(0.8) ? 1 : r.uniform(0.3, 3); k.p[2] = std::cos(a) * L; k.p[3] = std::sin(a) * L; }
    if (kind == K_GEAR) k.neutral = r.chance(0.4);
    return k;
}
} // namespace vf
#endif

// What every sampler has to deliver, whatever the shape.
#pragma once
#include "world.hpp"
namespace vh {
static TV vecL(Simulation& s) { TV L; L(0) = s.Lx; L(1) = s.Ly;
#ifdef THREEDIM
    L(2) = s.Lz;
#endif
    return L; }
static void setL(Simulation& s, const TV& L) { s.Lx = L(0); s.Ly = L(1);
#ifdef THREEDIM
    s.Lz = L(2);
#endif
}
static double prodL(const TV& L) { double v = 1; for (int d = 0; d < D; d++) v *= L(d); return v; }
// initial state of sampled particles: everything has Np entries, at rest, undeformed, stress free
static bool initialState(Ctx& c, Simulation& s, const std::string& k) {
    const Particles& P = s.particles; size_t n = s.Np;
    if (!c.check(P.x.size() == n && P.v.size() == n && P.pic.size() == n && P.flip.size() == n && P.eps_pl_dev.size() == n && P.eps_pl_vol.size() == n && P.eps_pl_vol_pradhana.size() == n && P.delta_gamma.size() == n && P.viscosity.size() == n && P.muI.size() == n && P.F.size() == n && P.Bmat.size() == n && P.tau.size() == n, k + ":record-size", str("Np=", n, " x ", P.x.size(), " v ", P.v.size(), " F ", P.F.size(), " muI ", P.muI.size()))) return false;
    for (size_t p = 0; p < n; p++) {
        if (!finite(P.x[p])) { c.fail(k + ":position-not-finite", sv(P.x[p])); return false; }
        if (!(P.v[p].isZero(0) && P.pic[p].isZero(0) && P.flip[p].isZero(0) && P.F[p] == TM(TM::Identity()) && P.tau[p].isZero(0) && P.Bmat[p].isZero(0) && P.eps_pl_dev[p] == 0 && P.eps_pl_vol[p] == 0 && P.eps_pl_vol_pradhana[p] == 0 && P.delta_gamma[p] == 0 && P.viscosity[p] == 0 && P.muI[p] == 0)) { c.fail(k + ":initial-state", str("p=", p, " v=", sv(P.v[p]), " F=", sm(P.F[p]), " tau=", sm(P.tau[p]))); return false; }
    }
    c.count("initial states", n); return true;
}
static bool rel(double a, double b, double t = 1e-11) { return std::abs(a - b) <= t * (std::abs(a) + std::abs(b)); }
// hash of cells of size h for neighbour queries
struct Hash {
    double h; std::map<std::array<long, 3>, std::vector<int>> m; const std::vector<TV>& x;
    std::array<long, 3> key(const TV& p) const { std::array<long, 3> k{0, 0, 0}; for (int d = 0; d < D; d++) k[d] = (long)std::floor(p(d) / h); return k; }
    Hash(const std::vector<TV>& x_, double h_) : h(h_), x(x_) { for (size_t i = 0; i < x.size(); i++) m[key(x[i])].push_back(i); }
    double nearest(const TV& p, int self, int reach = 1) const { double b = 1e300; auto k = key(p); int zr = D == 3 ? reach : 0; for (int i = -reach; i <= reach; i++) for (int j = -reach; j <= reach; j++) for (int l = -zr; l <= zr; l++) { auto it = m.find({k[0] + i, k[1] + j, k[2] + l}); if (it == m.end()) continue; for (int q : it->second) if (q != self) b = std::min(b, (x[q] - p).norm()); } return b; }
};
static bool lessTV(const TV& a, const TV& b) { for (int d = 0; d < D; d++) if (a(d) != b(d)) return a(d) < b(d); return false; }
static void prefill(Rng& r, Simulation& s) {   // sampling again replaces whatever was there
    if (r.chance(0.4)) { int n = r.range(1, 9); s.Np = n; s.particles = Particles(n); for (int i = 0; i < n; i++) { s.particles.x[i] = rvec(r, 1); s.particles.v[i] = rvec(r, 1); s.particles.tau[i].setOnes(); s.particles.F[i] *= 2; s.particles.muI[i] = 3; } }
    s.particle_mass = s.particle_volume = -7;
}
}

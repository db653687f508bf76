// C18: sampling from level-set files.
#include "main.hpp"
#include "vdbshape.hpp"
#include "sampling/regular_sampling_particles_vdb.hpp"
#include "sampling/sampling_particles_vdb.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; VdbShape V = randomVdb(c, D == 3 ? 8 : 12); ObjectVdb o(V.file); TV lo, hi; o.bounds(lo, hi); TV L = hi - lo; bool reg = r.chance(0.5); double N = r.logu(30, D == 3 ? 3000 : 1500);
    Simulation s; s.initialize(false); s.reduce_verbose = true; s.rho = r.logu(1, 1e4); prefill(r, s); double ppc = r.chance(0.3) ? (reg ? (D == 3 ? 8 : 4) : (D == 3 ? 8 : 6)) : r.uni(0.5, 20); bool def = ppc == std::floor(ppc); double vox = V.voxel; c.note = str(c.idx, reg ? " regular " : " poisson ", V.kind, " voxel=", vox, " bounds ", sv(lo), sv(hi), " ppc=", ppc); std::string k = str(reg ? "regular-vdb-" : "poisson-vdb-", V.kind); c.evaluations++;
    double sp = 0, rad = 0, dx = 0;
    if (reg) { sp = D == 3 ? std::cbrt(prodL(L) / N) : std::sqrt(prodL(L) / N); s.dx = dx = sp * (D == 3 ? std::cbrt(ppc) : std::sqrt(ppc)); sp = dx / (D == 3 ? std::cbrt(ppc) : std::sqrt(ppc)); if (def) regularSampleParticlesFromVdb(s, o); else regularSampleParticlesFromVdb(s, o, ppc); }
    else { rad = D == 3 ? std::cbrt(0.7 * prodL(L) / N) : std::sqrt(0.7 * prodL(L) / N); if (def) sampleParticlesFromVdb(s, o, rad); else sampleParticlesFromVdb(s, o, rad, ppc); }
    if (!initialState(c, s, k)) return; const auto& x = s.particles.x; c.check((vecL(s) - L).norm() <= 1e-12 * L.norm(), k + ":domain-size", str(sv(vecL(s)), " want ", sv(L)));
    c.check(rel(s.particle_mass, s.rho * s.particle_volume), k + ":mass", str(s.particle_mass, " ", s.particle_volume)); c.check(rel(s.particle_volume, std::pow(s.dx, D) / ppc), k + ":particles-per-cell", str("volume ", s.particle_volume, " dx ", s.dx, " ppc ", ppc));
    for (const TV& X : x) { if (!c.check(V.sd(X) < vox, k + ":outside", str("particle at ", sv(X), " distance ", V.sd(X), " voxel ", vox))) return; if (!c.check(o.inside(X), k + ":not-inside-test", sv(X))) return; }
    if (reg) {
        c.check(s.dx == dx, k + ":dx", str(s.dx, " was ", dx)); c.check(rel(s.particle_volume, std::pow(sp, D)), k + ":volume", str(s.particle_volume, " want ", std::pow(sp, D)));
        std::set<std::array<int, 3>> have; int want[3] = {1, 1, 1}; bool amb = false; for (int d = 0; d < D; d++) { double q = L(d) / sp; want[d] = (int)std::floor(q + 1e-7); double f = std::abs(q - std::round(q)); if (f > 1e-11 && f < 1e-6) amb = true; } if (amb) { c.skipped++; return; }
        for (const TV& X : x) { std::array<int, 3> id{0, 0, 0}; bool ok = true; for (int d = 0; d < D; d++) { double q = (X(d) - lo(d)) / sp - 0.5; id[d] = (int)std::lround(q); ok &= std::abs(q - id[d]) < 1e-8 * (1 + std::abs(q)) && id[d] >= 0 && id[d] < want[d]; } if (!c.check(ok, k + ":off-lattice", str("particle at ", sv(X), " spacing ", sp))) return; if (!c.check(have.insert(id).second, k + ":duplicate", sv(X))) return; }
        for (int i = 0; i < want[0]; i++) for (int j = 0; j < want[1]; j++) for (int l = 0; l < want[2]; l++) { if (have.count({i, j, l})) continue; TV X = lo; X(0) += (i + 0.5) * sp; X(1) += (j + 0.5) * sp; if (D == 3) X(D - 1) += (l + 0.5) * sp; if (!c.check(!(V.sd(X) < -vox), k + ":not-filled", str("no particle at ", sv(X), " distance ", V.sd(X)))) return; }
        c.count("lattice points", (long)have.size());
    } else {
        double Nb = std::round(prodL(L) / s.particle_volume); c.check(rel(Nb * s.particle_volume, prodL(L), 1e-9) && Nb >= s.Np, k + ":total-volume", str("volume ", s.particle_volume, " of ", prodL(L)));
        Hash h(x, rad * 1.0000001); for (size_t p = 0; p < x.size(); p++) { double e = h.nearest(x[p], p); if (!c.check(e >= rad * (1 - 1e-12), k + ":too-close", str("particle at ", sv(x[p]), " nearest ", e, " radius ", rad))) return; }
        Hash h2(x, 2 * rad); for (int i = 0; i < 60; i++) { TV X; for (int d = 0; d < D; d++) X(d) = r.uni(lo(d), hi(d)); if (V.sd(X) > -2.2 * rad - vox) continue; if (!c.check(h2.nearest(X, -1) <= 2 * rad, k + ":hole", str("nothing within ", 2 * rad, " of ", sv(X)))) return; c.count("fill probes in level sets"); }
        c.count("particles sampled", s.Np);
    }
    c.count(k); c.seen(str(k, def, (int)std::log2(N), V.half)); c.sample(c.note);
}
void finish(Ctx&) {}
}

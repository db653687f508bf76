// C18: regular and Poisson-disk sampling of boxes and cropped shapes.
#include "main.hpp"
#include "samplecheck.hpp"
#include "sampling/regular_sampling_particles.hpp"
#include "sampling/sampling_particles.hpp"
namespace vh {
// documented crop shapes: > 0 inside; distance-like margin so that ties can be skipped
static double cropMargin(int shape, const TV& X, const TV& L, double dx) {
    if (D == 2) return shape == 1 ? 0.05 + 100 * (X(0) - L(0)) * (X(0) - L(0)) - 0.5 * dx - X(1) : 1;
#ifdef THREEDIM
    double R = std::hypot(X(0) - L(0) / 2, X(2) - L(2) / 2); if (shape == 1) return L(0) / 2 - R; if (shape == 2) return std::tanh(X(1)) + 1 - R;
#endif
    return 1;
}
static const char* shapeName(int k) { return k == 0 ? "box" : D == 2 ? "gate" : k == 1 ? "cylinder" : "silo"; }
static void regular(Ctx& c) {
    Rng& r = c.rng; Simulation s; s.initialize(false); s.reduce_verbose = true; int shape = r.chance(0.4) ? 0 : r.below(D == 3 ? 3 : 2); bool defppc = shape == 0 && r.chance(0.15); double ppc = r.chance(0.3) ? r.range(1, 30) : r.chance(0.5) ? (D == 3 ? 8 : 4) : r.uni(0.5, 20); if (defppc) ppc = D == 3 ? 8 : 4;
    bool dec = r.chance(0.45); s.rho = r.logu(1, 1e4); double dx = dec ? r.range(1, 60) * (r.chance(0.5) ? 0.01 : 0.005) : r.logu(1e-3, 2); if (dec) ppc = D == 3 ? r.pick(std::vector<double>{1, 8, 27}) : r.pick(std::vector<double>{1, 4, 9, 16}); if (defppc) ppc = D == 3 ? 8 : 4; s.dx = dx;
    double sp = dx / (D == 3 ? std::cbrt(ppc) : std::sqrt(ppc)); TV L; int want[3] = {1, 1, 1}; double tot = 1; bool amb = false;
    int lim = D == 3 ? 20 : 60;
    for (int d = 0; d < D; d++) {
        double f = dec ? r.range(1, lim) : r.chance(0.1) ? r.uni(0.1, 1) : r.uni(1, lim); L(d) = dec ? f * dx / (D == 3 ? std::round(std::cbrt(ppc)) : std::sqrt(ppc)) : f * sp;
        if (dec && r.chance(0.7)) L(d) = std::strtod(str(std::round(L(d) * 1e7) / 1e7).c_str(), 0);     // as a user would write it
        double q = L(d) / sp; want[d] = (int)std::floor(q + 1e-7); double fr = std::abs(q - std::round(q)); if (fr > 1e-11 && fr < 1e-6) amb = true; if (fr < 1e-11) c.count("whole number of spacings"); tot *= want[d];
    }
    if (amb) { c.skipped++; return; } setL(s, L); prefill(r, s); c.note = str(c.idx, " regular ", shapeName(shape), " L=", sv(L), " dx=", dx, " ppc=", ppc);
    if (defppc) regularSampleParticles(s); else if (shape == 0 && r.chance(0.5)) regularSampleParticles(s, ppc); else regularSampleParticles(s, ppc, shape);
    c.evaluations++; std::string k = str("regular-", shapeName(shape)); const auto& x = s.particles.x; if (!initialState(c, s, k)) return;
    c.check(s.dx == dx && vecL(s) == L, k + ":input-changed", str("dx=", s.dx, " L=", sv(vecL(s))));
    c.check(rel(s.particle_volume, std::pow(sp, D)), k + ":volume", str("volume ", s.particle_volume, " want ", std::pow(sp, D)));
    c.check(rel(s.particle_mass, s.rho * std::pow(sp, D)), k + ":mass", str("mass ", s.particle_mass, " want ", s.rho * std::pow(sp, D)));
    // the lattice, each point once
    std::set<std::array<int, 3>> have; 
    for (const TV& X : x) {
        std::array<int, 3> id{0, 0, 0}; bool ok = true; for (int d = 0; d < D; d++) { double q = X(d) / sp - 0.5; id[d] = (int)std::lround(q); ok &= std::abs(q - id[d]) < 1e-9 * (1 + std::abs(q)) && id[d] >= 0 && id[d] < want[d]; }
        if (!c.check(ok, k + ":off-lattice", str("particle at ", sv(X), " spacing ", sp, " counts ", want[0], "x", want[1], "x", want[2]))) return;
        if (!c.check(have.insert(id).second, k + ":duplicate", str("at ", sv(X)))) return;
        double m = cropMargin(shape, X, L, dx); if (std::abs(m) < 1e-9) { c.skipped++; continue; } if (!c.check(m > 0, k + ":outside-shape", str("particle at ", sv(X), " margin ", m))) return;
    }
    long missing = 0; TV w; for (int i = 0; i < want[0]; i++) for (int j = 0; j < want[1]; j++) for (int l = 0; l < want[2]; l++) { if (have.count({i, j, l})) continue; TV X; X(0) = (i + 0.5) * sp; X(1) = (j + 0.5) * sp; if (D == 3) X(D - 1) = (l + 0.5) * sp; double m = cropMargin(shape, X, L, dx); if (std::abs(m) < 1e-9) { c.skipped++; continue; } if (m > 0) { missing++; w = X; } }
    c.check(missing == 0, k + ":not-filled", str(missing, " lattice points missing, e.g. ", missing ? sv(w) : ""));
    c.count("lattice points", (long)tot); c.count(k); if (have.size() < tot) c.count("cropped samples"); c.seen(str(k, ppc == std::floor(ppc), dec, std::min(want[0], 5), std::min(want[1], 5), std::min(want[2], 5), have.size() < tot));
}
static void poisson(Ctx& c) {
    Rng& r = c.rng; Simulation s; s.initialize(false); s.reduce_verbose = true; int shape = r.chance(0.35) ? 0 : r.below(D == 3 ? 3 : 2); double sc = r.logu(0.02, 20); if (shape == 1 && D == 2) sc = r.logu(0.02, 0.5); if (shape == 2) sc = r.logu(0.5, 5); TV L; for (int d = 0; d < D; d++) L(d) = sc * r.uni(0.4, 1.6); if (D == 3 && r.chance(0.5)) L(D - 1) = L(0);
    double N = r.logu(30, D == 3 ? 1500 : 1200), rad = (D == 3 ? std::cbrt(0.7 * prodL(L) / N) : std::sqrt(0.7 * prodL(L) / N)); s.rho = r.logu(1, 1e4); s.dx = -1; setL(s, L);
    int form = r.below(4); double ppc = form == 0 ? (D == 3 ? 8 : 6) : r.chance(0.5) ? r.range(1, 20) : r.uni(0.5, 20); if (form == 0) shape = 0; unsigned att = form >= 2 ? (D == 3 ? 30 : r.range(30, 200)) : (D == 3 ? 30 : 200), sd = form == 3 ? r.below(1000000) : 42; if (form == 1 && shape == 0 && r.chance(0.5)) form = 4;
    prefill(r, s); c.note = str(c.idx, " poisson ", shapeName(shape), " L=", sv(L), " radius=", rad, " ppc=", ppc, " attempts=", att, " seed=", sd, " form ", form);
    auto sample = [&](Simulation& q, int sh) { switch (form) { case 0: sampleParticles(q, rad); break; case 4: sampleParticles(q, rad, ppc); break; case 1: sampleParticles(q, rad, ppc, sh); break; case 2: sampleParticles(q, rad, ppc, sh, att); break; default: sampleParticles(q, rad, ppc, sh, att, sd); } };
    sample(s, shape); c.evaluations++; std::string k = str("poisson-", shapeName(shape)); if (!initialState(c, s, k)) return; const auto& x = s.particles.x;
    c.check(vecL(s) == L, k + ":input-changed", sv(vecL(s))); if (!c.check(s.dx > 0, k + ":dx", str(s.dx))) return;
    c.check(rel(s.particle_volume, std::pow(s.dx, D) / ppc), k + ":particles-per-cell", str("volume ", s.particle_volume, " dx ", s.dx, " ppc ", ppc));
    c.check(rel(s.particle_mass, s.rho * s.particle_volume), k + ":mass", str("mass ", s.particle_mass, " volume ", s.particle_volume));
    // the same box uncropped: cropping only removes particles
    Simulation u; u.initialize(false); u.reduce_verbose = true; u.rho = s.rho; setL(u, L); Simulation* U = &s; if (shape) { sample(u, 0); U = &u; if (!initialState(c, u, "poisson-box")) return; }
    double Nb = U->Np; c.check(rel(Nb * U->particle_volume, prodL(L)), k + ":total-volume", str(Nb, " particles of volume ", U->particle_volume, " in ", prodL(L)));
    c.check(rel(s.dx, U->dx), k + ":dx-of-crop", str("cropped ", s.dx, " box ", U->dx)); c.check(rel(s.particle_volume, U->particle_volume), k + ":volume-of-crop", str("cropped ", s.particle_volume, " box ", U->particle_volume));
    for (const TV& X : x) { bool in = true; for (int d = 0; d < D; d++) in &= X(d) >= 0 && X(d) <= L(d); if (!c.check(in, k + ":outside-box", sv(X))) return; double m = cropMargin(shape, X, L, s.dx); if (std::abs(m) < 1e-9) { c.skipped++; continue; } if (!c.check(m > 0, k + ":outside-shape", str("particle at ", sv(X), " margin ", m))) return; }
    Hash h(x, rad * 1.0000001); for (size_t p = 0; p < x.size(); p++) { double e = h.nearest(x[p], p); if (!c.check(e >= rad * (1 - 1e-12), k + ":too-close", str("particle ", p, " at ", sv(x[p]), " nearest ", e, " radius ", rad))) return; }
    if (shape) { std::vector<TV> a = x, b; bool amb = false; for (const TV& X : u.particles.x) { double m = cropMargin(shape, X, L, u.dx); if (std::abs(m) < 1e-9) amb = true; if (m > 0) b.push_back(X); } std::sort(a.begin(), a.end(), lessTV); std::sort(b.begin(), b.end(), lessTV); if (amb) c.skipped++; else { c.check(a == b, k + ":crop-of-box", str(a.size(), " particles, ", b.size(), " of the box sample lie in the shape")); if (b.size() < u.Np) c.count("cropped samples"); } }
    // filled: no hole of twice the radius
    Hash hb(U->particles.x, 2 * rad); for (int i = 0; i < 30; i++) { TV X; for (int d = 0; d < D; d++) X(d) = r.chance(0.1) ? (r.chance(0.5) ? 0 : L(d)) : r.uni(0, L(d)); double e = hb.nearest(X, -1); if (!c.check(e <= 2 * rad, k + ":hole", str("nothing within ", 2 * rad, " of ", sv(X)))) return; c.count("fill probes"); }
    if (r.chance(0.3)) { Simulation q; q.initialize(false); q.reduce_verbose = true; q.rho = s.rho; setL(q, L); sample(q, shape); c.check(q.particles.x == x && q.dx == s.dx, k + ":not-repeatable", ""); c.count("samples repeated"); if (form == 3 && x.size() > 3) { unsigned o = sd; sd = o + 1 + r.below(1000); sample(q, shape); c.check(!(q.particles.x == x), k + ":seed-ignored", str(o, " and ", sd)); sd = o; c.count("other seeds"); } }
    c.count(k); c.count("particles sampled", s.Np); c.seen(str(k, form, (int)std::log2(Nb), ppc == std::floor(ppc), (int)std::log2(sc)));
}
void run_case(Ctx& c) { if (c.rng.chance(0.6)) regular(c); else poisson(c); c.sample(c.note); }
void finish(Ctx&) {}
}

// A random but complete simulation set-up, described by plain data so that it can be built twice,
// transformed, or built with other options.
#pragma once
#include "refmodel.hpp"
namespace vh {

struct Sphere : ObjectGeneral { TV c; double r; bool outer;
    Sphere(BC b, double f, TV c_, double r_, bool o) : ObjectGeneral(b, f, ""), c(c_), r(r_), outer(o) {}
    bool inside(const TV& X) const override { return outer ? (X - c).norm() >= r : (X - c).norm() <= r; }
    TV normal(const TV& X) const override { TV n = X - c; if (outer) n = -n; return n.normalized(); } };

struct PlateSpec { double pos; PlateType t; BC bc; double fr, lo, hi; TV vel; double vmin, load; };
struct SphereSpec { BC bc; double fr; TV c; double r; bool outer; };

struct WOpt { bool pbc = true, bounds = true, plastic = true, mibf = true, threads = true, gravity = true, stress = true, grp = true; int nmax = D == 3 ? 40 : 60; double ext = D == 3 ? 4 : 7; double vmin = 1e-3, vmax = 0.5; double strain = 0.05; bool neo = true; int maxFrames = 4; double origin = 20; bool realDt = true; double boundsP = 0.45; double pbcP = 0.15; double bigP = 0.012, longP = 0.025; int longFrames = 250; int nmin = 1; double unitsP = 0.05; };

struct World {
    double dx, E, nu, rho, flip, cw, vs, dt0, pv, Lx = 1, Ly = 1, Lz = 1, fps, cfl = 1e6, cfle = 1e6; bool musl, pbc = false, mibf = false; int threads = 1, endFrame = 1;
    std::string kind; std::vector<TV> x, v; std::vector<TM> B, F, tau; TV g = TV::Zero(); ElasticModel em = ElasticModel::Hencky; PlasticModel pm = PlasticModel::NoPlasticity; uint64_t plSeed = 0;
    std::vector<PlateSpec> plates; std::vector<SphereSpec> spheres; bool haveRef = false; TV ref = TV::Zero(); HardeningLaw hl = HardeningLaw::ExpoImpl; bool forceHl = false;
    std::vector<double> epv, epd;

    std::string desc() const { return str(kind, " Np=", x.size(), " dx=", dx, " flip=", flip, " musl=", musl, " pm=", pmName(pm), " em=", em == ElasticModel::Hencky ? "H" : "N", " plates=", plates.size(), " spheres=", spheres.size(), " pbc=", pbc, " mibf=", mibf, " thr=", threads, " frames=", endFrame, " cfl=", cfl); }
    std::string sig() const { return str(musl, flip >= 0 ? (flip == 0 ? "PIC" : flip == 1 ? "FLIP" : "PF") : (flip < -1 ? "APIC" : "AFLIP"), pmName(pm), em == ElasticModel::Hencky, plates.size(), "/", spheres.size(), pbc, mibf, kind, threads > 1); }

    void build(Simulation& s) const {
        if (!s.is_initialized) s.initialize(false);
        s.reduce_verbose = true; s.dx = dx; s.E = E; s.nu = nu; s.rho = rho; s.flip_ratio = flip; s.use_musl = musl; s.n_threads = threads; s.pbc = pbc; s.Lx = Lx; s.Ly = Ly;
#ifdef THREEDIM
        s.Lz = Lz;
#endif
        s.elastic_model = em; s.plastic_model = pm;
        if (pm != PlasticModel::NoPlasticity) { Rng r(plSeed); randomPlastic(r, s, pm); if (forceHl) s.hardening_law = hl; if (pm == PlasticModel::MCCVisc && s.use_duvaut_lions_formulation) s.visc_exponent = 1; }
        setParticles(s, x); s.particles.v = v; s.particles.Bmat = B; s.particles.F = F; s.particles.tau = tau;
        if (!epv.empty()) { s.particles.eps_pl_vol = epv; s.particles.eps_pl_dev = epd; }
        s.particle_volume = pv; s.particle_mass = rho * pv; s.gravity = g; s.use_mibf = mibf;
        for (auto& p : plates) addPlate(s, p.pos, p.t, p.bc, p.fr, p.lo, p.hi, p.vel, p.vmin, p.load);
        for (auto& p : spheres) s.objects.push_back(std::make_unique<Sphere>(p.bc, p.fr, p.c, p.r, p.outer));
        s.fps = fps; s.cfl = cfl; s.cfl_elastic = cfle; s.end_frame = endFrame; if (haveRef) s.grid_reference_point = ref;
    }
};

inline World randomWorld(Rng& r, const WOpt& o_) {
    // size classes: mostly small; sometimes thousands of particles, a grid of more than 2^16 nodes, a long period, hundreds of steps
    WOpt o = o_; Rng rc(r.next()); double cls = rc.u(); bool lng = false; int cells = 0;
    if (cls < o.bigP) { o.nmax = 1; o.nmin = D == 3 ? rc.range(200, 1200) : rc.range(300, 2500); o.ext = D == 3 ? rc.uni(5, 14) : rc.uni(10, 50); cells = rc.range(12, 60); if (rc.chance(0.1)) { o.ext = D == 3 ? 44 : 280; o.nmin /= 8; } }
    else if (cls < o.bigP + o.longP) { lng = true; o.nmax = 5; o.ext = 3; }
    else if (rc.chance(0.1)) cells = rc.range(8, 40);
    World w; w.dx = r.logu(1e-3, 1); w.E = r.logu(1e4, 1e8); w.nu = r.chance(0.1) ? 0 : r.uni(0, 0.45); w.rho = r.logu(100, 5000); w.flip = flipPick(r); w.musl = r.chance(0.4);
    if (rc.chance(0.06)) w.nu = rc.uni(0.45, 0.495);   // nearly incompressible
    bool units = rc.chance(o.unitsP); if (units) { o.plastic = false; w.dx = rc.logu(1e-5, 1e2); w.rho = rc.logu(1e-9, 1e6); double q = rc.logu(1e-4, 1e3); w.E = w.rho * q * q; }   // any system of units (elastic materials: the return mappings have tolerances in Pa)
    w.threads = o.threads && r.chance(0.3) ? r.range(2, 5) : 1; w.cw = std::sqrt(w.E / w.rho);
    w.x = cloud(r, w.dx, o.nmin > 1 ? o.nmin : r.range(1, o.nmax), w.kind, o.origin, o.ext);
    if (o.pbc && r.chance(o.pbcP)) {
        w.pbc = true; w.Lx = (cells ? cells : r.range(8, 11)) * w.dx; w.Ly = 4 * w.dx; w.Lz = 4 * w.dx; w.kind = "pbc";
        for (auto& x : w.x) { x(0) = r.u() * w.Lx; if (r.chance(0.5)) x(0) = r.chance(0.5) ? r.uni(0, 2) * w.dx : w.Lx - r.uni(0, 2) * w.dx; if (r.chance(0.04)) x(0) = r.chance(0.5) ? 0 : w.Lx; for (int d = 1; d < D; d++) x(d) = r.uni(0.5, 3.5) * w.dx; }
    }
    // coordinates a few ulps from a multiple of the cell size: every floor, comparison and wrap at its limit
    if (rc.chance(0.08)) { auto nudge = [&](double x) { for (int q = rc.range(0, 3); q > 0; q--) x = std::nextafter(x, rc.chance(0.5) ? 1e300 : -1e300); return x; }; for (auto& x : w.x) if (rc.chance(0.3)) { int d = w.pbc ? 0 : rc.range(0, D - 1); double y = nudge(std::round(x(d) / w.dx) * w.dx); if (rc.chance(0.5)) y = nudge(w.pbc && rc.chance(0.5) ? w.Lx - rc.range(0, 5) * w.dx : std::round(x(d) / w.dx) * w.dx); x(d) = w.pbc ? std::min(std::max(y, 0.0), w.Lx) : y; } w.kind += " ulp"; }
    int n = (int)w.x.size(); w.v.resize(n); w.B.assign(n, TM::Zero()); w.F.assign(n, TM::Identity()); w.tau.assign(n, TM::Zero());
    w.pv = std::pow(w.dx, D) / r.uni(2, 9); if (o.gravity && r.chance(0.4)) w.g = rvec(r, units ? 1e-2 * w.E / w.rho / w.dx : 20);
    w.vs = w.cw * r.logu(o.vmin, o.vmax); bool aff = r.chance(0.8), strained = o.stress && r.chance(0.8);
    if (o.plastic && r.chance(0.6)) { w.pm = r.pick(ALL_PM); w.plSeed = r.next(); if (w.pm == PlasticModel::MCC && r.chance(0.2)) { w.forceHl = true; w.hl = HardeningLaw::NoHard; } }
    else if (o.neo && r.chance(0.5)) w.em = ElasticModel::NeoHookean;
    double lam = w.nu * w.E / ((1 + w.nu) * (1 - 2 * w.nu)), mu = w.E / (2 * (1 + w.nu));
    for (int p = 0; p < n; p++) {
        w.v[p] = rvec(r, w.vs); if (aff) w.B[p] = rmat(r, w.vs * w.dx * 0.2);
        if (strained) { TV e = rvec(r, o.strain); w.F[p] = Ffrom(rrot(r), e, rrot(r)); w.tau[p] = w.em == ElasticModel::Hencky ? henckyTau(w.F[p], lam, mu) : neoTau(w.F[p], lam, mu); }
    }
    w.mibf = o.mibf && w.pm != PlasticModel::NoPlasticity && r.chance(0.2);
    if (o.bounds && r.chance(o.boundsP)) {
        TV lo = w.x[0], hi = w.x[0]; for (auto& x : w.x) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
        int nb = r.range(1, 3);
        for (int b = 0; b < nb; b++) {
            BC bc = r.pick(ALL_BC); double f = r.chance(0.3) ? 0 : r.uni(0, 1.5);
            if (r.chance(0.6)) {
                PlateType t = r.pick(allPlates()); TV nn = plateNormal(t); int ax; nn.cwiseAbs().maxCoeff(&ax);
                double pos = (nn(ax) > 0 ? lo(ax) : hi(ax)) + nn(ax) * w.dx * r.uni(-2, 2);
                int oa = ax == 0 ? 1 : 0; double L = -1e15, H = 1e15; if (r.chance(0.3)) { L = lo(oa) + w.dx * r.uni(-1, 2); H = L + w.dx * r.uni(0.5, 5); }
                TV pvel = TV::Zero(); if (r.chance(0.5)) pvel = rvec(r, w.vs);
                double vm = r.chance(0.3) ? 2.0 : 1.0; double lf = r.uni(0, 2); w.plates.push_back({pos, t, bc, f, L, H, pvel, vm, lf});
            } else {
                TV cc; for (int d = 0; d < D; d++) cc(d) = r.uni(lo(d) - 2 * w.dx, hi(d) + 2 * w.dx);
                bool outer = r.chance(0.3); double rad = outer ? r.uni(1, 5) * w.dx : r.uni(0.5, 2.5) * w.dx; w.spheres.push_back({bc, f, cc, rad, outer});
            }
        }
    }
    w.dt0 = w.dx / w.cw * r.logu(0.02, 0.5); w.fps = 1 / w.dt0; w.endFrame = r.range(1, o.maxFrames);
    if (o.realDt && r.chance(0.3)) { w.cfl = r.uni(0.1, 0.6); w.cfle = r.uni(0.1, 0.6); w.fps = w.cw / w.dx / r.uni(0.3, 3); w.endFrame = r.range(1, 3); }
    if (lng) { w.endFrame = rc.range(o.longFrames / 5, o.longFrames); w.kind += " long"; } if (o.nmin > 1) w.kind += " big"; if (units) w.kind += " units";
    if (o.threads && rc.chance(0.05)) w.threads = rc.range(6, 16);
    if (o.grp && !w.pbc && r.chance(0.2)) { w.haveRef = true; w.ref = w.x[0]; for (int d = 0; d < D; d++) w.ref(d) += r.uni(-3, 3) * w.dx; }
    return w;
}

inline TV gridOrg(const Grid& g) { TV o; o(0) = g.xc; o(1) = g.yc;
#ifdef THREEDIM
    o(2) = g.zc;
#endif
    return o; }
inline std::array<const std::vector<T>*, 3> axes(const Grid& g) { return {&g.x, &g.y,
#ifdef THREEDIM
    &g.z
#else
    nullptr
#endif
}; }
inline size_t nodeIndex(const Grid& g, long i, long j, long k) {
#ifdef THREEDIM
    return ((size_t)i * g.y.size() + j) * g.z.size() + k;
#else
    (void)k; return (size_t)i * g.y.size() + j;
#endif
}
inline TV nodePos(const Grid& g, long i, long j, long k) { TV x; x(0) = g.x[i]; x(1) = g.y[j];
#ifdef THREEDIM
    x(2) = g.z[k];
#endif
    (void)k; return x; }
inline size_t gridCount(const Grid& g) {
    size_t n = g.x.size() * g.y.size();
#ifdef THREEDIM
    n *= g.z.size();
#endif
    return n; }
// the viscous Drucker-Prager law jumps at the tip (to its left the shear stress vanishes, to its right it relaxes): rounding decides there
inline bool atTip(const Simulation& s, const TM& F, double slack = 1e-8) {
    bool dp = s.plastic_model == PlasticModel::DPVisc || s.plastic_model == PlasticModel::DPMui; if (!dp && s.plastic_model != PlasticModel::VMVisc) return false;
    Eigen::JacobiSVD<TM> sd(F); double p = -bulk(s) * sd.singularValues().array().log().sum(), tip = s.plastic_model == PlasticModel::VMVisc ? 0 : -s.q_cohesion / (s.plastic_model == PlasticModel::DPMui ? s.mu_1 : s.M); return std::abs(p - tip) <= slack * bulk(s);
}
// positions that contribute to the grid: the particles and, if periodic, their images within 4 cells of the domain
inline void contributors(const Simulation& s, const std::vector<TV>& x, std::vector<int>& id, std::vector<TV>& px) {
    id.clear(); px.clear();
    for (size_t p = 0; p < x.size(); p++) { id.push_back((int)p); px.push_back(x[p]); }
    if (s.pbc) for (size_t p = 0; p < x.size(); p++) for (int k = -1; k <= 1; k += 2) { TV y = x[p]; y(0) += k * s.Lx; if (y(0) > -4 * s.dx && y(0) < s.Lx + 4 * s.dx) { id.push_back((int)p); px.push_back(y); } }
}
// closest distance (cells) of any contributor to a support edge, exact hits excluded
inline double condOf(const Simulation& s, const std::vector<TV>& x, const TV& org) {
    RefGrid G(org, s.dx); std::vector<int> id; std::vector<TV> px; contributors(s, x, id, px); for (auto& y : px) G.weights(y); return G.cond;
}
inline double xScale(const std::vector<TV>& x) { return amax(x); }

} // namespace vh

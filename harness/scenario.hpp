// Random scenario generation and per-step observation of the real Simulation class.
#pragma once
#include "common.hpp"
#include "simulation/simulation.hpp"
#include "objects/object_ground.hpp"
#include "objects/object_bump.hpp"
#include "objects/object_gate.hpp"
#include "objects/object_ramp.hpp"
#include "objects/object_curve.hpp"
#ifdef THREEDIM
#include "objects/object_silo.hpp"
#endif

namespace vh {

constexpr int D = DIMENSION;
constexpr int DEG = SPLINEDEG;

inline TV rvec(Rng& r, double s) { TV v; for (int d = 0; d < D; d++) v(d) = r.uni(-s, s); return v; }
inline TM rmat(Rng& r, double s) { TM m; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i, j) = r.uni(-s, s); return m; }
inline TM rrot(Rng& r) {
#ifdef THREEDIM
    Eigen::Quaterniond q(r.normal(), r.normal(), r.normal(), r.normal()); q.normalize(); return q.toRotationMatrix();
#else
    double a = r.uni(-M_PI, M_PI); TM m; m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return m;
#endif
}
inline TM diag(const TV& v) { return v.asDiagonal(); }
// F = U exp(diag(e)) V^T with the given Hencky strains
inline TM Ffrom(const TM& U, const TV& e, const TM& V) { TV s; for (int d = 0; d < D; d++) s(d) = std::exp(e(d)); return U * diag(s) * V.transpose(); }

inline bool finite(const TV& v) { for (int d = 0; d < D; d++) if (!std::isfinite(v(d))) return false; return true; }
inline bool finite(const TM& m) { for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (!std::isfinite(m(i, j))) return false; return true; }
inline std::string sv(const TV& v) { std::ostringstream o; o.precision(17); o << "("; for (int d = 0; d < D; d++) o << (d ? "," : "") << v(d); o << ")"; return o.str(); }
inline std::string sm(const TM& m) { std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) o << (i + j ? "," : "") << m(i, j); o << "]"; return o.str(); }

inline const char* pmName(PlasticModel m) {
    switch (m) { case PlasticModel::NoPlasticity: return "None"; case PlasticModel::VM: return "VM"; case PlasticModel::DP: return "DP"; case PlasticModel::DPSoft: return "DPSoft";
        case PlasticModel::MCC: return "MCC"; case PlasticModel::VMVisc: return "VMVisc"; case PlasticModel::DPVisc: return "DPVisc"; case PlasticModel::MCCVisc: return "MCCVisc";
        case PlasticModel::DPMui: return "DPMui"; case PlasticModel::MCCMui: return "MCCMui"; }
    return "?";
}
inline const char* hlName(HardeningLaw h) {
    switch (h) { case HardeningLaw::NoHard: return "NoHard"; case HardeningLaw::ExpoExpl: return "ExpoExpl"; case HardeningLaw::ExpoImpl: return "ExpoImpl"; case HardeningLaw::SinhExpl: return "SinhExpl"; case HardeningLaw::SinhImpl: return "SinhImpl"; }
    return "?";
}
inline const char* bcName(BC b) { return b == BC::NoSlip ? "NoSlip" : b == BC::SlipStick ? "SlipStick" : "SlipFree"; }
inline const char* ptName(PlateType t) { switch (t) { case PlateType::top: return "top"; case PlateType::bottom: return "bottom"; case PlateType::left: return "left"; case PlateType::right: return "right"; case PlateType::front: return "front"; default: return "back"; } }
static const std::vector<PlasticModel> ALL_PM = {PlasticModel::NoPlasticity, PlasticModel::VM, PlasticModel::DP, PlasticModel::DPSoft, PlasticModel::MCC, PlasticModel::VMVisc, PlasticModel::DPVisc, PlasticModel::MCCVisc, PlasticModel::DPMui, PlasticModel::MCCMui};
static const std::vector<BC> ALL_BC = {BC::NoSlip, BC::SlipStick, BC::SlipFree};
inline std::vector<PlateType> allPlates() {
    std::vector<PlateType> v = {PlateType::top, PlateType::bottom, PlateType::left, PlateType::right};
    if (D == 3) { v.push_back(PlateType::front); v.push_back(PlateType::back); }
    return v;
}

inline void setParticles(Simulation& s, const std::vector<TV>& xs) {
    s.Np = (unsigned)xs.size();
    s.particles = Particles(s.Np);
    s.particles.x = xs;
}

inline ObjectPlate* addPlate(Simulation& s, double pos, PlateType t, BC bc, double fr, double lo, double hi, TV vel, double vmin = 1, double load = 0) {
#ifdef THREEDIM
    s.plates.push_back(std::make_unique<ObjectPlate>(pos, t, bc, fr, lo, hi, vel(0), vel(1), vel(2), vmin, load));
#else
    s.plates.push_back(std::make_unique<ObjectPlate>(pos, t, bc, fr, lo, hi, vel(0), vel(1), vmin, load));
#endif
    return s.plates.back().get();
}
inline TV plateVel(const ObjectPlate& p) { TV v; v(0) = p.vx_object; v(1) = p.vy_object;
#ifdef THREEDIM
    v(2) = p.vz_object;
#endif
    return v; }

inline double flipPick(Rng& r) {
    switch (r.below(10)) {
        case 0: return 0; case 1: return 1; case 2: return 0.95; case 3: return r.uni(0, 1);
        case 4: return -1; case 5: return -0.95; case 6: return -r.uni(1e-3, 1); case 7: return -1e-12; case 8: return -2; default: return -r.uni(0.5, 1);
    }
}

// Random point clouds in units of dx around a random origin; kind describes the shape.
inline std::vector<TV> cloud(Rng& r, double dx, int n, std::string& kind, double originScale = 20, double maxExtent = 8) {
    TV o = rvec(r, originScale * dx);
    if (r.chance(0.3)) o.setZero();
    std::vector<TV> xs;
    TV ext; for (int d = 0; d < D; d++) ext(d) = r.uni(0.2, maxExtent);
    int k = r.below(7);
    auto box = [&](int m, TV org, TV e) { for (int i = 0; i < m; i++) { TV x; for (int d = 0; d < D; d++) x(d) = org(d) + dx * r.uni(0, e(d)); xs.push_back(x); } };
    switch (k) {
        case 0: kind = "box"; box(n, o, ext); break;
        case 1: { kind = "lattice"; int m = std::max(1, (int)std::floor(std::pow((double)n, 1.0 / D))); double h = r.uni(0.3, 0.7);
            std::vector<int> i(D, 0); for (int c = 0; c < (int)std::pow((double)m, D); c++) { int t = c; TV x; for (int d = 0; d < D; d++) { x(d) = o(d) + dx * h * ((t % m) + 0.5); t /= m; } xs.push_back(x); } break; }
        case 2: { kind = "jittered"; int m = std::max(1, (int)std::floor(std::pow((double)n, 1.0 / D))); double h = 0.5;
            for (int c = 0; c < (int)std::pow((double)m, D); c++) { int t = c; TV x; for (int d = 0; d < D; d++) { x(d) = o(d) + dx * h * ((t % m) + r.uni(0.1, 0.9)); t /= m; } xs.push_back(x); } break; }
        case 3: { kind = "clusters"; int g = r.range(2, 3); for (int i = 0; i < g; i++) { TV org = o; for (int d = 0; d < D; d++) org(d) += dx * r.uni(-10, 10); box(std::max(1, n / g), org, ext * 0.3); } break; }
        case 4: { kind = "line"; TV e = ext; int ax = r.below(D); for (int d = 0; d < D; d++) if (d != ax) e(d) = 0; box(n, o, e); break; }
        case 5: { kind = "gridaligned"; for (int i = 0; i < n; i++) { TV x; for (int d = 0; d < D; d++) x(d) = o(d) + dx * 0.5 * r.range(0, (int)(2 * ext(d))); xs.push_back(x); } break; }
        default: { kind = "single"; box(r.range(1, 2), o, ext); break; }
    }
    return xs;
}

struct MatParam { double E, nu, rho; };

inline void randomMaterial(Rng& r, Simulation& s) {
    s.E = r.logu(1e4, 1e8); s.nu = r.uni(0.0, 0.45); s.rho = r.logu(100, 5000);
    if (r.chance(0.1)) s.nu = 0; else if (r.chance(0.08)) s.nu = r.uni(0.45, 0.495);   // nearly incompressible
}
// random parameters of a plastic model; stress scale relative to E so that yielding is common
inline void randomPlastic(Rng& r, Simulation& s, PlasticModel m) {
    s.plastic_model = m;
    double S = s.E * r.logu(1e-4, 2e-2);
    s.q_max = S * r.uni(0.5, 2); s.q_min = r.chance(0.3) ? s.q_max : s.q_max * r.uni(0.2, 1.5); s.p_min = r.chance(0.5) ? -1e20 : -S * r.uni(0.2, 2);
    s.M = r.uni(0.2, 1.6); s.q_cohesion = r.chance(0.4) ? 0 : S * r.uni(0.01, 1);
    s.xi = r.chance(0.3) ? 0 : r.uni(0.5, 40);
    s.use_pradhana = r.chance(0.6);
    s.visc_exponent = r.chance(0.5) ? 1 : r.uni(0.3, 2.0);
    s.visc_time = r.chance(0.3) ? 0 : r.logu(1e-5, 1e-1);
    s.use_duvaut_lions_formulation = r.chance(0.4);
    s.beta = r.chance(0.4) ? 0 : r.uni(0, 0.5); s.p0 = S * r.uni(0.5, 2);
    s.hardening_law = r.pick(std::vector<HardeningLaw>{HardeningLaw::ExpoExpl, HardeningLaw::ExpoImpl, HardeningLaw::SinhExpl, HardeningLaw::SinhImpl});
    s.rho_s = r.uni(1000, 3000); s.grain_diameter = r.logu(1e-4, 1e-2); s.I_ref = r.uni(0.05, 0.6); s.mu_1 = r.uni(0.2, 0.5); s.mu_2 = s.mu_1 + r.uni(0.05, 0.5);
    if (r.chance(0.4)) s.q_prefac = r.chance(0.5) ? std::sqrt(1.5) : 1.0;
}

// A snapshot of everything observable about the particles
struct Snap {
    std::vector<TV> x, v, pic, flip;
    std::vector<TM> F, B, tau;
    std::vector<T> epd, epv, eppr, dg, visc, muI;
    unsigned Np; double pm, pv; TV gravity;
    std::vector<ObjectPlate> plates;
};
inline Snap snap(const Simulation& s) {
    Snap p; const Particles& q = s.particles;
    p.x = q.x; p.v = q.v; p.pic = q.pic; p.flip = q.flip; p.F = q.F; p.B = q.Bmat; p.tau = q.tau;
    p.epd = q.eps_pl_dev; p.epv = q.eps_pl_vol; p.eppr = q.eps_pl_vol_pradhana; p.dg = q.delta_gamma; p.visc = q.viscosity; p.muI = q.muI;
    p.Np = s.Np; p.pm = s.particle_mass; p.pv = s.particle_volume; p.gravity = s.gravity;
    for (auto& o : s.plates) p.plates.push_back(*o);
    return p;
}

struct StepRec { Snap pre; Grid grid; Snap post; double dt = 0, time = 0; unsigned frame = 0, step = 0; int n = 0; };

// Installs the monitor; calls cb after each step with the full record.
struct StepMonitor {
    StepRec rec; int steps = 0; int limit; std::function<void(StepRec&)> cb; std::function<void()> gridCb; Simulation& s; bool wantGrid = true;
    StepMonitor(Simulation& sim, int lim, std::function<void(StepRec&)> f) : limit(lim), cb(f), s(sim) {
        s.monitor = [this](Simulation::MonitorStage st) {
            if (st == Simulation::MonitorStage::StepBegin) {
                if (steps >= limit) throw StepLimit();
                guard();
                rec.pre = snap(s); rec.dt = s.monitorDt(); rec.time = s.monitorTime(); rec.frame = s.monitorFrame(); rec.step = s.monitorStep();
            } else if (st == Simulation::MonitorStage::GridDone) {
                if (wantGrid) rec.grid = s.monitorGrid();
                if (gridCb) gridCb();
            } else {
                rec.post = snap(s); rec.n = ++steps; if (cb) cb(rec);
            }
        };
    }
    ~StepMonitor() { s.monitor = nullptr; }
    // The fixed grid of a periodic simulation is finite, and fragments flying apart make the adaptive grid
    // arbitrarily large: such a run is ended here, before the step (counted, not judged).
    double maxNodes = 2e6, work = 0, maxWork = 1.5e8;   // nodes x steps x threads a run may use
    void guard() {
        TV lo = s.particles.x[0], hi = lo; for (auto& x : s.particles.x) { if (!finite(x)) throw OutOfDomain("non-finite position"); lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
        double vm = 0; for (auto& v : s.particles.v) vm = std::max(vm, v.norm());
        if (s.pbc) {
            double L[3] = {s.Lx, s.Ly, 0};
#ifdef THREEDIM
            L[2] = s.Lz;
#endif
            if (lo(1) < 0 || hi(1) > L[1] + 2 * s.dx) throw OutOfDomain("periodic grid left in y");
            if (D == 3 && (lo(D - 1) < -3 * s.dx || hi(D - 1) > L[2] + 3 * s.dx)) throw OutOfDomain("periodic grid left in z");
            if (!(lo(0) >= -0.5 * s.dx && hi(0) <= s.Lx + 0.5 * s.dx)) throw OutOfDomain("periodic grid left in x");
            if (s.monitorDt() * vm > 0.5 * s.Lx) throw OutOfDomain("more than half a period per step");
        } else { double n = 1; for (int d = 0; d < D; d++) n *= (hi(d) - lo(d)) / s.dx + 8; if (!(std::max(lo.cwiseAbs().maxCoeff(), hi.cwiseAbs().maxCoeff()) < 1e7 * s.dx)) throw OutOfDomain("flown away"); if (!(n < maxNodes)) throw OutOfDomain("fragments too far apart"); if (n > 2e4) work += n * s.n_threads; if (work > maxWork) throw OutOfDomain("work budget of the run"); }
    }
};

inline double amax(const std::vector<TV>& a) { double m = 0; for (auto& v : a) m = std::max(m, v.cwiseAbs().maxCoeff()); return m; }
inline double amax(const std::vector<TM>& a) { double m = 0; for (auto& v : a) m = std::max(m, v.cwiseAbs().maxCoeff()); return m; }

} // namespace vh

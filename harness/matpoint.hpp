// Material-point driver: drives the real simulation so that each particle sees a prescribed trial
// deformation in every step. Particles are too far apart to share grid nodes, carry no stress into the step
// and an affine velocity B = C D, so that the trial deformation gradient is exactly (I + dt C) F.
#pragma once
#include "scenario.hpp"
#include "refmodel.hpp"
namespace vh {

struct MPState { TM F = TM::Identity(); double epv = 0, epd = 0, epr = 0; };
struct MPRes {
    int step, p; double dt; MPState pre; TM Ftr, F, tau, U, V; TV htr, h; double epv, epd, epr, dg, muI, visc;
    double ptr, qtr, pn, qn;       // trial and returned pressure / shear stress measure (from F)
    double off;                     // largest off-diagonal entry of U^T F V relative to |F|
    double ptau, qtau;              // pressure and shear measure of the stored stress
    bool flipped;                   // U^T F V has a non-positive diagonal entry
};

struct MatPoint {
    Simulation s; int n; double dt; double K, mu, lam, qp; std::vector<MPState> st; std::vector<TM> C; bool first = true;
    std::function<void(int step, int p, MPState& pre, TM& Ftarget)> gen; std::function<void(const MPRes&)> judge; std::vector<TV> x0;

    MatPoint(Rng& r, int n_) : n(n_) {
        s.initialize(false); s.reduce_verbose = true; s.dx = r.logu(1e-2, 1); randomMaterial(r, s);
        s.use_musl = r.chance(0.5); s.flip_ratio = r.chance(0.6) ? -2 : -r.uni(0.01, 1); s.n_threads = r.chance(0.2) ? 3 : 1;
        std::vector<TV> xs; TV o = rvec(r, 3 * s.dx);
        for (int p = 0; p < n; p++) { TV x = o; x(p % D) += 6.5 * s.dx * (p / D + 1); for (int d = 0; d < D; d++) x(d) += s.dx * r.uni(-0.4, 0.4); xs.push_back(x); }
        setParticles(s, xs); x0 = xs; s.particle_volume = std::pow(s.dx, D) / 4; s.particle_mass = s.rho * s.particle_volume; s.gravity.setZero();
        s.cfl = s.cfl_elastic = 1e12; st.resize(n); C.resize(n); dt = r.logu(1e-6, 1e-2);
    }
    void consts() { K = bulk(s); mu = shear(s); lam = lame1(s); qp = s.q_prefac; }
    // run `steps` steps; evolve: keep the particle state between steps instead of asking gen for a fresh one
    void run(int steps, Rng& r, bool evolve) {
        consts(); s.fps = 1 / dt; s.end_frame = steps; int k = 0; std::vector<TM> Ftr(n); std::vector<MPState> pre(n); double useDt = 0;
        double Dm = s.dx * s.dx / (DEG == 3 ? 3 : 4);
        s.monitor = [&](Simulation::MonitorStage g) {
            Particles& q = s.particles;
            if (g == Simulation::MonitorStage::StepBegin) {
                if (k >= steps + 5) throw StepLimit();
                useDt = s.monitorDt();
                for (int p = 0; p < n; p++) {
                    MPState m; if (evolve && k > 0) { m.F = q.F[p]; m.epv = q.eps_pl_vol[p]; m.epd = q.eps_pl_dev[p]; m.epr = q.eps_pl_vol_pradhana[p]; if (!finite(m.F) || !(m.F.determinant() > 1e-12)) m = MPState(); }
                    TM T_; gen(k, p, m, T_); pre[p] = m; TM c_ = (T_ * m.F.inverse() - TM::Identity()) / useDt; Ftr[p] = m.F + useDt * c_ * m.F;
                    q.F[p] = m.F; q.eps_pl_vol[p] = m.epv; q.eps_pl_dev[p] = m.epd; q.eps_pl_vol_pradhana[p] = m.epr; q.Bmat[p] = c_ * Dm; q.tau[p].setZero(); q.v[p].setZero(); q.x[p] = x0[p];
                    q.delta_gamma[p] = r.uni(0.5, 2); q.viscosity[p] = r.uni(0.5, 2);
                }
            } else if (g == Simulation::MonitorStage::StepEnd) {
                for (int p = 0; p < n; p++) {
                    MPRes R; R.step = k; R.p = p; R.dt = useDt; R.pre = pre[p]; R.Ftr = Ftr[p]; R.F = q.F[p]; R.tau = q.tau[p]; R.epv = q.eps_pl_vol[p]; R.epd = q.eps_pl_dev[p]; R.epr = q.eps_pl_vol_pradhana[p]; R.dg = q.delta_gamma[p]; R.muI = q.muI[p]; R.visc = q.viscosity[p];
                    Eigen::JacobiSVD<TM> svd(R.Ftr, Eigen::ComputeFullU | Eigen::ComputeFullV); R.U = svd.matrixU(); R.V = svd.matrixV();
                    TM X = R.U.transpose() * R.F * R.V; R.off = 0; R.flipped = false;
                    for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (i != j) R.off = std::max(R.off, std::abs(X(i, j)));
                    for (int i = 0; i < D; i++) { if (!(X(i, i) > 0)) R.flipped = true; R.h(i) = std::log(X(i, i)); R.htr(i) = std::log(svd.singularValues()(i)); }
                    R.off /= std::max(1e-300, R.F.norm());
                    auto pq = [&](const TV& h, double& pp, double& qq) { double t = h.sum(); pp = -K * t; qq = 2 * qp * mu * (h - t / D * TV::Ones()).norm(); };
                    pq(R.htr, R.ptr, R.qtr); pq(R.h, R.pn, R.qn);
                    double t = R.tau.trace() / D; R.ptau = -t; R.qtau = qp * (R.tau - t * TM::Identity()).norm();
                    judge(R);
                }
                k++;
            }
        };
        s.simulate(); s.monitor = nullptr;
    }
};

inline TV unitDev(Rng& r) {
    TV e; if (r.chance(0.25)) { e = TV::Constant(-1.0); e(r.below(D)) = D - 1; if (r.chance(0.5)) e = -e; } else { e = rvec(r, 1); e -= TV::Constant(e.sum() / D); if (e.norm() < 1e-3) { e.setZero(); e(0) = 1; e(1) = -1; } }
    return e.normalized();
}
// deformation gradient with the given pressure and shear measure
inline TM FofPQ(const MatPoint& m, Rng& r, double p, double q) { TV h = TV::Constant(-p / (m.K * D)) + q / (2 * m.qp * m.mu) * unitDev(r); return Ffrom(rrot(r), h, rrot(r)); }

} // namespace vh

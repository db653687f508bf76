// C19: every time step equals the documented MPM step (USL/MUSL; PIC/FLIP/APIC/AFLIP), per particle.
#include "main.hpp"
#include "refmodel.hpp"
namespace vh {

static Constitutive simpleLaw(const Simulation& s) {
    double lam = lame1(s), mu = shear(s); auto pm = s.plastic_model; auto em = s.elastic_model; double K = bulk(s); double qp = s.q_prefac;
    double qmax = s.q_max, M = s.M, coh = s.q_cohesion;
    return [=](const TM& Ftr, const Snap&, int, double, TM& F, TM& tau) {
        if (pm == PlasticModel::NoPlasticity) { F = Ftr; tau = em == ElasticModel::NeoHookean ? neoTau(F, lam, mu) : henckyTau(F, lam, mu); return true; }
        if (pm != PlasticModel::VM && pm != PlasticModel::DP) return false;
        Eigen::JacobiSVD<TM> svd(Ftr, Eigen::ComputeFullU | Eigen::ComputeFullV);
        TV e = svd.singularValues().array().log().matrix(); double tr = e.sum(); TV dv = e - tr / D * TV::Ones(); double p = -K * tr, q = 2 * qp * mu * dv.norm();
        double y = pm == PlasticModel::VM ? qmax : M * p + coh;
        if (pm == PlasticModel::DP && y < 1e-10) e = (coh / M / K / D) * TV::Ones();
        else if (q > y) e = tr / D * TV::Ones() + dv * (y / q);
        F = Ffrom(svd.matrixU(), e, svd.matrixV()); TV t = lam * e.sum() * TV::Ones() + 2 * mu * e; tau = svd.matrixU() * diag(t) * svd.matrixU().transpose();
        return true;
    };
}

struct Sphere : ObjectGeneral { TV c; double r; bool outer; Sphere(BC b, double f, TV c_, double r_, bool o) : ObjectGeneral(b, f, ""), c(c_), r(r_), outer(o) {}
    bool inside(const TV& X) const override { return outer ? (X - c).norm() >= r : (X - c).norm() <= r; }
    TV normal(const TV& X) const override { TV n = X - c; if (outer) n = -n; return n.normalized(); } };

void run_case(Ctx& c) {
    Rng& r = c.rng;
    Simulation s; s.initialize(false); s.reduce_verbose = true;
    s.dx = r.logu(1e-3, 1); randomMaterial(r, s);
    s.flip_ratio = flipPick(r); s.use_musl = r.chance(0.4);
    s.n_threads = r.chance(0.3) ? r.range(2, 4) : 1;
    double cw = std::sqrt(s.E / s.rho);
    std::string kind; int n = r.range(1, D == 3 ? 40 : 60);
    auto xs = cloud(r, s.dx, n, kind, 20, D == 3 ? 4 : 7);
    s.pbc = r.chance(0.12);
    if (s.pbc) {
        int k = r.range(8, 11); s.Lx = k * s.dx; s.Ly = 4 * s.dx; kind = "pbc";
#ifdef THREEDIM
        s.Lz = 4 * s.dx;
#endif
        for (auto& x : xs) { x(0) = r.uni(0, 1) * s.Lx; if (r.chance(0.5)) x(0) = r.chance(0.5) ? r.uni(0, 2) * s.dx : s.Lx - r.uni(0, 2) * s.dx; for (int d = 1; d < D; d++) x(d) = r.uni(0.5, 3.5) * s.dx; }
    }
    setParticles(s, xs);
    s.particle_volume = std::pow(s.dx, D) / r.uni(2, 9); s.particle_mass = s.rho * s.particle_volume;
    if (r.chance(0.3)) s.gravity = rvec(r, 20);
    double vs = cw * r.logu(1e-3, 0.5); bool shear_ = r.chance(0.8);
    for (unsigned p = 0; p < s.Np; p++) {
        s.particles.v[p] = rvec(r, vs);
        if (shear_) s.particles.Bmat[p] = rmat(r, vs * s.dx * 0.2);
        if (r.chance(0.9)) { TV e = rvec(r, 0.05); s.particles.F[p] = Ffrom(rrot(r), e, rrot(r)); s.particles.tau[p] = henckyTau(s.particles.F[p], lame1(s), shear(s)); }
    }
    s.elastic_model = ElasticModel::Hencky;
    PlasticModel pm = PlasticModel::NoPlasticity;
    if (r.chance(0.55)) { pm = r.chance(0.4) ? r.pick(std::vector<PlasticModel>{PlasticModel::VM, PlasticModel::DP}) : r.pick(ALL_PM); randomPlastic(r, s, pm); if (pm == PlasticModel::MCCMui && r.chance(0.5)) s.hardening_law = HardeningLaw::ExpoExpl; }
    else if (r.chance(0.5)) s.elastic_model = ElasticModel::NeoHookean;
    s.use_mibf = r.chance(0.1) && pm != PlasticModel::NoPlasticity;
    // boundaries
    int nb = 0; TV lo = xs[0], hi = xs[0]; for (auto& x : xs) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
    if (r.chance(0.45)) {
        nb = r.range(1, 3);
        for (int b = 0; b < nb; b++) {
            BC bc = r.pick(ALL_BC); double f = r.chance(0.3) ? 0 : r.uni(0, 1.5);
            if (r.chance(0.5)) {
                PlateType t = r.pick(allPlates()); TV nn = plateNormal(t); int ax; nn.cwiseAbs().maxCoeff(&ax);
                double pos = (nn(ax) > 0 ? lo(ax) : hi(ax)) + nn(ax) * s.dx * r.uni(-2, 2);
                int oa = ax == 0 ? 1 : 0; double L = -1e15, H = 1e15; if (r.chance(0.3)) { L = lo(oa) + s.dx * r.uni(-1, 2); H = L + s.dx * r.uni(0.5, 5); }
                addPlate(s, pos, t, bc, f, L, H, r.chance(0.5) ? TV(TV::Zero()) : rvec(r, vs), r.chance(0.3) ? 2.0 : 1.0, r.uni(0, 2));
            } else {
                TV cc; for (int d = 0; d < D; d++) cc(d) = r.uni(lo(d) - 2 * s.dx, hi(d) + 2 * s.dx);
                bool outer = r.chance(0.3); s.objects.push_back(std::make_unique<Sphere>(bc, f, cc, outer ? r.uni(1, 5) * s.dx : r.uni(0.5, 2.5) * s.dx, outer));
            }
        }
    }
    double dt0 = s.dx / cw * r.logu(0.02, 0.5); s.fps = 1.0 / dt0; s.cfl = 1e6; s.cfl_elastic = 1e6; s.end_frame = r.range(1, 4);
    c.note = str(c.idx, " ", kind, " Np=", s.Np, " flip=", s.flip_ratio, " musl=", s.use_musl, " pm=", pmName(pm), " nb=", nb, " pbc=", s.pbc, " mibf=", s.use_mibf, " thr=", s.n_threads);
    TV org; bool haveOrg = false;
    auto law = simpleLaw(s);
    std::vector<double> off; 
    {
        StepMonitor mon(s, 50, [&](StepRec& R) {
            for (unsigned p = 0; p < R.pre.Np; p++) if (!finite(R.pre.v[p]) || !finite(R.pre.tau[p]) || !finite(R.pre.F[p]) || !finite(R.pre.B[p])) { c.count("ended: non-finite state from the material law"); return; }
            c.evaluations++;
            org(0) = R.grid.xc; org(1) = R.grid.yc;
#ifdef THREEDIM
            org(2) = R.grid.zc;
#endif
            if (!haveOrg) haveOrg = true;
            RefOut ref = refStep(s, R.pre, R.dt, R.pre.gravity, org, law);
            if (ref.ambiguous || ref.cond < 1e-5) { c.skipped++; return; }
            double X = 0; for (auto& x : R.pre.x) X = std::max(X, (x - org).cwiseAbs().maxCoeff());
            double xscale = 0; for (auto& x : R.pre.x) xscale = std::max(xscale, x.cwiseAbs().maxCoeff());
            double eps = 1e-13 * (1 + xscale / s.dx) / ref.cond;  // position rounding in cells, amplified at tiny node masses
            double V = std::max({amax(R.pre.v), amax(ref.post.pic), R.dt * R.pre.gravity.norm(), amax(R.pre.B) / s.dx, 1e-30});
            double nodeV = V; for (auto& kv : ref.grid.g) if (kv.second.m > 0) nodeV = std::max(nodeV, kv.second.vn.cwiseAbs().maxCoeff() * std::min(1.0, kv.second.m / R.pre.pm * 1e3));
            double tol = 1e-9 + 20 * eps;
            if (tol > 1e-5) { c.skipped++; return; }
            if (ref.post.Np != R.post.Np || R.post.x.size() != R.pre.x.size()) { c.fail("step-particle-count", str(R.pre.x.size(), "->", R.post.x.size())); return; }
            double gradV = 0; for (unsigned p = 0; p < R.post.Np; p++) gradV = std::max(gradV, (ref.post.F[p] - R.pre.F[p]).norm());
            for (unsigned p = 0; p < R.post.Np; p++) {
                auto cmp = [&](const char* nm, const TV& a, const TV& b, double sc) { double e = (a - b).cwiseAbs().maxCoeff(); if (!(e <= tol * sc)) { c.fail(std::string("step-") + nm, str("p=", p, " step=", R.n, " got ", sv(a), " want ", sv(b), " err/scale ", e / sc)); return false; } return true; };
                auto cmpm = [&](const char* nm, const TM& a, const TM& b, double sc) { double e = (a - b).cwiseAbs().maxCoeff(); if (!(e <= tol * sc)) { c.fail(std::string("step-") + nm, str("p=", p, " step=", R.n, " got ", sm(a), " want ", sm(b), " err/scale ", e / sc)); return false; } return true; };
                bool ok = cmp("pic", R.post.pic[p], ref.post.pic[p], V) && cmp("flip", R.post.flip[p], ref.post.flip[p], nodeV) && cmpm("affine", R.post.B[p], ref.post.B[p], nodeV * s.dx)
                    && cmp("velocity", R.post.v[p], ref.post.v[p], nodeV);
                TV dxr = R.post.x[p] - ref.post.x[p]; if (s.pbc) dxr(0) -= s.Lx * std::round(dxr(0) / s.Lx);
                ok = ok && cmp("position", R.post.x[p], R.post.x[p] - dxr, V * R.dt + (1e-6) * xscale);
                if (!ok) break;
                if (ref.Fvalid) {
                    double strain = 1 + gradV;
                    if (!cmpm("F", R.post.F[p], ref.post.F[p], 10 * strain * std::max(1.0, nodeV * R.dt / s.dx))) break;
                    Eigen::JacobiSVD<TM> sv_(ref.post.F[p]); if (sv_.singularValues().minCoeff() > 0.05 && ref.post.F[p].determinant() > 0.01) { if (!cmpm("stress", R.post.tau[p], ref.post.tau[p], 100 * s.E / (1 - 2 * s.nu) * strain * std::max(1.0, nodeV * R.dt / s.dx))) break; c.count("stress compared"); }
                }
                c.count("particle-steps compared");
            }
            std::string sig = str(s.use_musl, s.flip_ratio >= 0 ? (s.flip_ratio == 0 ? "PIC" : s.flip_ratio == 1 ? "FLIP" : "PF") : (s.flip_ratio < -1 ? "APIC" : "AFLIP"), pmName(pm), nb, s.pbc, s.use_mibf, kind, R.n, int(s.elastic_model == ElasticModel::Hencky));
            c.seen(sig);
            c.count(s.use_musl ? "MUSL steps" : "USL steps"); if (nb) c.count("steps with boundaries"); if (s.pbc) c.count("periodic steps");
        });
        s.simulate();
    }
    if (s.exit) c.count("solver gave up (exit flag)");
    c.sample(c.note);
}
void finish(Ctx&) {}
}

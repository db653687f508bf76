// C03: uniform and affine motions are reproduced exactly; APIC conserves angular momentum.
#include "main.hpp"
#include "world.hpp"
namespace vh {
static Eigen::Vector3d angMom(const std::vector<TV>& x, const std::vector<TV>& v, const std::vector<TM>& B, const TV& o, double& scale) {
    Eigen::Vector3d L(0, 0, 0); scale = 0;
    for (size_t p = 0; p < x.size(); p++) { Eigen::Vector3d X(0, 0, 0), V(0, 0, 0); Eigen::Matrix3d b = Eigen::Matrix3d::Zero(); for (int d = 0; d < D; d++) { X(d) = x[p](d) - o(d); V(d) = v[p](d); for (int e = 0; e < D; e++) b(d, e) = B[p](d, e); }
        L += X.cross(V) + Eigen::Vector3d(b(2, 1) - b(1, 2), b(0, 2) - b(2, 0), b(1, 0) - b(0, 1)); scale += X.norm() * V.norm() + b.norm(); }
    return L;
}
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.bounds = false; o.gravity = false; int mode = r.below(3); o.maxFrames = 8; o.pbc = mode == 0; World w = randomWorld(r, o); bool stop = false;
    double Dm = w.dx * w.dx / (DEG == 3 ? 3 : 4); int n = (int)w.x.size();
    for (auto& t : w.tau) t.setZero();
    if (mode == 0) {                    // uniform motion
        TV V = rvec(r, w.vs); if (r.chance(0.05)) V.setZero();
        for (int p = 0; p < n; p++) { w.v[p] = V; w.B[p].setZero(); w.F[p] = r.chance(0.5) ? TM(TM::Identity()) : rrot(r); }
        if (w.cfl > 1e5) w.dt0 = std::min(w.dt0, 0.4 * w.dx / w.cw), w.fps = 1 / w.dt0;
        Simulation s; w.build(s); c.note = str(c.idx, " uniform ", w.desc()); auto F0 = w.F;
        StepMonitor mon(s, 3000, [&](StepRec& R) {
            if (stop) return; c.evaluations++;
            double eps = 1e-15 * (1 + (xScale(R.pre.x) + s.Lx * s.pbc) / s.dx); double grow = std::pow(20.0, R.n - 1); if (grow * (1e-12 + 100 * eps) > 1e-6) { stop = true; return; }   // explicit integration may amplify rounding
            double tolv = (1e-11 + 100 * eps * grow + 1e-13 * grow) * (V.cwiseAbs().maxCoeff() + w.cw);
            if (R.n > 1 && condOf(s, R.pre.x, gridOrg(R.grid)) < 1e-6) { c.skipped++; stop = true; return; }
            for (int p = 0; p < n; p++) {
                double ev = (R.post.v[p] - V).cwiseAbs().maxCoeff(), ep = (R.post.pic[p] - V).cwiseAbs().maxCoeff();
                TV dxp = R.post.x[p] - R.pre.x[p] - R.dt * V; if (s.pbc) dxp(0) -= s.Lx * std::round(dxp(0) / s.Lx);
                double ex = dxp.cwiseAbs().maxCoeff(), eF = (R.post.F[p] - F0[p]).cwiseAbs().maxCoeff();
                if (!(ev <= tolv * R.n)) { c.fail("uniform-velocity", str("p=", p, " step=", R.n, " v=", sv(R.post.v[p]), " want ", sv(V))); stop = true; return; }
                if (!(ep <= tolv * R.n)) { c.fail("uniform-grid-velocity", str("p=", p, " step=", R.n, " pic=", sv(R.post.pic[p]), " want ", sv(V))); stop = true; return; }
                if (!(ex <= tolv * R.dt * R.n + 1e-14 * (xScale(R.pre.x) + s.Lx * s.pbc))) { c.fail("uniform-position", str("p=", p, " step=", R.n, " err=", ex)); stop = true; return; }
                if (!(eF <= 1e-8 * R.n + 1e-12 * grow)) { c.fail("uniform-deformation", str("p=", p, " step=", R.n, " F=", sm(R.post.F[p]), " want ", sm(F0[p]))); stop = true; return; }
            }
            c.count("uniform steps"); c.count("particle-steps", n); c.seen(str("U", w.sig(), std::min(R.n, 4)));
        });
        s.simulate();
    } else if (mode == 1) {             // affine field, one step
        TM C = rmat(r, w.vs / w.dx); int k = r.below(4); if (k == 0) C = TM(0.5 * (C - C.transpose())); if (k == 1) { double q = C(0, 1); C.setZero(); C(0, 1) = q; }
        TV v0 = rvec(r, w.vs); w.flip = r.chance(0.4) ? -2 : -r.uni(1e-3, 1); if (r.chance(0.1)) w.flip = -1; w.pm = PlasticModel::NoPlasticity; w.mibf = false; w.endFrame = 1; w.cfl = w.cfle = 1e6; w.fps = 1 / w.dt0; TV x0 = w.x[0];
        for (int p = 0; p < n; p++) { w.v[p] = v0 + C * (w.x[p] - x0); w.B[p] = C * Dm; }
        Simulation s; w.build(s); c.note = str(c.idx, " affine", k, " ", w.desc());
        StepMonitor mon(s, 3, [&](StepRec& R) {
            c.evaluations++; double xs = xScale(R.pre.x); double cond = condOf(s, R.pre.x, gridOrg(R.grid)); if (cond < 1e-6) { c.skipped++; return; }
            double Vm = amax(R.pre.v) + C.cwiseAbs().maxCoeff() * s.dx * 4; double tol = (1e-11 + 1e-14 * (1 + xs / s.dx)) ;
            for (int p = 0; p < n; p++) {
                double e1 = (R.post.v[p] - R.pre.v[p]).cwiseAbs().maxCoeff(), e2 = (R.post.pic[p] - R.pre.v[p]).cwiseAbs().maxCoeff(), e3 = (R.post.B[p] - R.pre.B[p]).cwiseAbs().maxCoeff();
                TM Fw = (TM::Identity() + R.dt * C) * R.pre.F[p]; double e4 = (R.post.F[p] - Fw).cwiseAbs().maxCoeff(); double amp = 1 / cond;
                if (!(e1 <= 10 * tol * Vm) || !(e2 <= 10 * tol * Vm)) { c.fail("affine-velocity", str("p=", p, " v=", sv(R.post.v[p]), " pic=", sv(R.post.pic[p]), " want ", sv(R.pre.v[p]))); return; }
                if (!(e3 <= 10 * tol * Vm * s.dx)) { c.fail("affine-matrix", str("p=", p, " B=", sm(R.post.B[p]), " want ", sm(R.pre.B[p]))); return; }
                if (!(e4 <= 100 * tol * (1 + R.dt * Vm / s.dx) * R.pre.F[p].norm() + 1e-13 * amp * R.dt * Vm / s.dx)) { c.fail("affine-deformation", str("p=", p, " F=", sm(R.post.F[p]), " want ", sm(Fw))); return; }
                c.count("affine particle-steps");
            }
            c.seen(str("A", k, w.sig()));
        });
        s.simulate();
    } else {                            // APIC angular momentum
        w.flip = -2; w.cfl = w.cfle = 1e6; w.fps = 1 / w.dt0; w.endFrame = 1; w.pm = PlasticModel::NoPlasticity; w.mibf = false;
        for (int p = 0; p < n; p++) w.B[p] = rmat(r, w.vs * w.dx);
        Simulation s; w.build(s); c.note = str(c.idx, " angular ", w.desc());
        StepMonitor mon(s, 3, [&](StepRec& R) {
            c.evaluations++; double s0, s1; TV o0 = R.pre.x[0]; auto L0 = angMom(R.pre.x, R.pre.v, R.pre.B, o0, s0); auto L1 = angMom(R.post.x, R.post.v, R.post.B, o0, s1);
            double xs = xScale(R.pre.x); double tol = (1e-11 + 1e-14 * xs / s.dx) * (s0 + s1); double e = (L1 - L0).norm();
            if (!(e <= tol)) { c.fail("angular-momentum", str("L ", L0.transpose(), " -> ", L1.transpose(), " err/scale ", e / (s0 + s1))); return; }
            c.count("angular momentum steps"); if (n > 2) c.seen(str("L", w.sig()));
        });
        s.simulate();
    }
    c.sample(c.note);
}
void finish(Ctx&) {}
}

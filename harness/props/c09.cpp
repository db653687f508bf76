// C09: Kirchhoff stress is the configured elastic law of the stored deformation gradient.
#include "main.hpp"
#include "matpoint.hpp"
#include "world.hpp"
namespace vh {
static bool lawOk(const TM& F, const TM& tau, bool neo, double lam, double mu, std::string& why) {
    Eigen::JacobiSVD<TM> sd(F); double mn = sd.singularValues().minCoeff(), mx = sd.singularValues().maxCoeff(); if (!(mn > 2e-4) || (neo && !(F.determinant() > 1e-6))) return true;
    TM w = neo ? neoTau(F, lam, mu) : henckyTau(F, lam, mu); double cnd = mx / mn; double tol = (lam + 2 * mu) * (1e-12 + 1e-14 * cnd * cnd) * (neo ? 1 + mx * mx * 10 : 20) * 10;
    double e = (tau - w).cwiseAbs().maxCoeff(); if (!(e <= tol)) { why = str("tau=", sm(tau), " law=", sm(w), " err/(lam+2mu)=", e / (lam + 2 * mu), " F=", sm(F)); return false; }
    return true;
}
void run_case(Ctx& c) {
    Rng& r = c.rng;
    if (r.chance(0.35)) {      // every particle of whole simulations
        WOpt o; o.maxFrames = 5; o.strain = r.chance(0.3) ? 0.4 : 0.05; World w = randomWorld(r, o); Simulation s; w.build(s); c.note = str(c.idx, " world ", w.desc()); bool stop = false; bool neo = w.em == ElasticModel::NeoHookean;
        StepMonitor mon(s, 400, [&](StepRec& R) {
            if (stop) return; double lam = lame1(s), mu = shear(s);
            for (unsigned p = 0; p < R.post.Np; p++) { if (!finite(R.post.F[p]) || R.post.F[p].cwiseAbs().maxCoeff() > 1e3 || !(R.post.F[p].determinant() > 1e-9)) { stop = true; c.count("ended: extreme deformation"); return; } c.evaluations++; std::string why; if (!lawOk(R.post.F[p], R.post.tau[p], neo, lam, mu, why)) { c.fail(str("world-law:", pmName(w.pm), neo ? "N" : "H"), str("p=", p, " step ", R.n, " ", why)); stop = true; return; }
                double a = (R.post.tau[p] - R.post.tau[p].transpose()).cwiseAbs().maxCoeff(); if (!(a <= 1e-9 * ((lam + 2 * mu) + R.post.tau[p].norm()))) { c.fail("asymmetric", str("p=", p, " tau=", sm(R.post.tau[p]))); stop = true; return; } }
            c.count("world steps"); c.seen(str("W", w.sig(), std::min(R.n, 4)));
        });
        mon.wantGrid = false; s.simulate(); c.sample(c.note); return;
    }
    int G = D == 3 ? 4 : 5; MatPoint m(r, 3 * G); Simulation& s = m.s; PlasticModel pm = r.chance(0.4) ? PlasticModel::NoPlasticity : r.pick(ALL_PM); bool neo = pm == PlasticModel::NoPlasticity && r.chance(0.5); s.elastic_model = neo ? ElasticModel::NeoHookean : ElasticModel::Hencky;
    if (pm != PlasticModel::NoPlasticity) { s.E = r.logu(1e5, 1e8); randomPlastic(r, s, pm); if (pm == PlasticModel::MCCVisc && s.use_duvaut_lions_formulation) s.visc_exponent = 1; }
    bool mcc = pm == PlasticModel::MCC || pm == PlasticModel::MCCVisc || pm == PlasticModel::MCCMui, iter = mcc || ((pm == PlasticModel::VMVisc || pm == PlasticModel::DPVisc) && (s.visc_exponent != 1 || s.xi > 0));
    m.consts(); double S = mcc ? s.p0 : pm == PlasticModel::NoPlasticity ? s.E : std::max(s.q_cohesion, s.q_max); c.note = str(c.idx, " point ", pmName(pm), neo ? " neo" : " hencky", " E=", s.E, " nu=", s.nu, " musl=", s.use_musl, " flip=", s.flip_ratio, mcc ? hlName(s.hardening_law) : "", " S=", S);
    // groups of three: trial F, F R (rotated reference), R F (rotated body)
    std::vector<TM> T0(3 * G), R0(G); std::vector<MPState> S0(3 * G); std::vector<TM> tau(3 * G), Fn(3 * G); std::vector<int> kind(G); int bad = 0; double epd[64], epv[64];
    m.gen = [&](int, int p, MPState& st, TM& T_) {
        int g = p / 3, j = p % 3;
        if (j == 0) {
            kind[g] = r.below(6); TV h; double sc = pm == PlasticModel::NoPlasticity ? (r.chance(0.2) ? 2.5 : 0.3) : std::min(0.3, 3 * S / (m.mu + m.K));
            h = rvec(r, sc); if (kind[g] == 0) h.setZero(); if (kind[g] == 1) h.setConstant(h(0)); if (kind[g] == 2) h(1) = h(0); if (kind[g] == 3) h(1) = h(0) + r.logu(1e-14, 1e-4);
            if (kind[g] && !mcc && r.chance(0.15)) { h += TV::Constant(neo ? -r.uni(0, 3) : -r.uni(0, 5)); if (!neo && r.chance(0.5)) h(r.below(D)) -= r.uni(0, 1.5); c.count("strongly compressed particles"); }
            S0[p] = MPState(); S0[p].epd = r.uni(0, 0.02); S0[p].epv = mcc ? r.uni(-0.01, 0.01) : 0; if (r.chance(0.7)) S0[p].F = Ffrom(rrot(r), rvec(r, 0.05), rrot(r));
            T0[p] = Ffrom(rrot(r), h, rrot(r)); if (kind[g] == 4) T0[p] = diag(TV(h.array().exp().matrix()));
            R0[g] = rrot(r);
        } else { S0[p] = S0[3 * g]; T0[p] = j == 1 ? TM(T0[3 * g] * R0[g]) : TM(R0[g] * T0[3 * g]); }
        st = S0[p]; T_ = T0[p];
    };
    m.judge = [&](const MPRes& R) {
        if (bad > 3) return; c.evaluations++; auto fail = [&](const std::string& k, const std::string& d) { if (s.exit) { c.count("solver gave up (flagged)"); return; } bad++; c.fail(str(pmName(pm), neo ? "N:" : "H:", k), str(d, " p", R.p, " kind ", kind[R.p / 3])); };
        if (!finite(R.F) || !finite(R.tau)) return fail("not-finite", str("F=", sm(R.F), " trial ", sm(R.Ftr)));
        std::string why; if (!lawOk(R.F, R.tau, neo, m.lam, m.mu, why)) return fail("law", why);
        double sc = m.lam + 2 * m.mu + R.tau.norm(); if (!((R.tau - R.tau.transpose()).cwiseAbs().maxCoeff() <= 1e-10 * sc)) return fail("asymmetric", sm(R.tau));
        bool same = R.epd == R.pre.epd && R.epv == R.pre.epv;
        if (pm == PlasticModel::NoPlasticity || (same && !mcc)) { if (!((R.F - R.Ftr).norm() <= 1e-12 * (1 + R.pre.F.norm() + R.Ftr.norm()))) return fail("elastic-F", str("F=", sm(R.F), " trial ", sm(R.Ftr))); c.count("elastic particles"); } else c.count("yielding particles");
        tau[R.p] = R.tau; Fn[R.p] = R.F; epd[R.p] = R.epd; epv[R.p] = R.epv; int g = R.p / 3;
        if (kind[R.p / 3] == 0 && !(R.tau.norm() <= 1e-11 * sc + (mcc ? 1e-2 : 0))) return fail("rotation-stress", str("tau=", sm(R.tau), " trial ", sm(R.Ftr)));
        if (R.p % 3 == 2) {
            double mn = Eigen::JacobiSVD<TM>(T0[3 * g]).singularValues().minCoeff(); double tt = 1e-10 * sc + 1e-12 * (m.lam + 2 * m.mu) / mn * 10 + (iter ? 0.1 + (mcc ? 2e-3 * S : 0) : 0); TM a = tau[3 * g], b = tau[3 * g + 1], d = tau[3 * g + 2];
            if (!((a - b).cwiseAbs().maxCoeff() <= tt)) return fail("reference-rotation", str("tau(F)=", sm(a), " tau(FR)=", sm(b), " R=", sm(R0[g]), " F=", sm(T0[3 * g])));
            TM e = R0[g] * a * R0[g].transpose(); if (!((e - d).cwiseAbs().maxCoeff() <= tt)) return fail("body-rotation", str("R tau(F) R^T=", sm(e), " tau(RF)=", sm(d), " R=", sm(R0[g]), " F=", sm(T0[3 * g])));
            c.count("rotation pairs"); c.seen(str(pmName(pm), neo, kind[g], same, s.use_musl, s.flip_ratio < -1, mcc ? hlName(s.hardening_law) : ""));
        }
    };
    m.run(3, r, false); c.sample(c.note);
}
void finish(Ctx&) {}
}

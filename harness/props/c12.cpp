// C12: plastic strain bookkeeping.
#include "main.hpp"
#include "matpoint.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; MatPoint m(r, D == 3 ? 10 : 14); Simulation& s = m.s; PlasticModel pm = ALL_PM[1 + r.below((int)ALL_PM.size() - 1)];
    s.E = r.logu(1e5, 1e8); randomPlastic(r, s, pm); bool mcc = pm == PlasticModel::MCC || pm == PlasticModel::MCCVisc || pm == PlasticModel::MCCMui;
    if (pm == PlasticModel::MCC && r.chance(0.2)) s.hardening_law = HardeningLaw::NoHard; if (pm == PlasticModel::MCCVisc && s.use_duvaut_lions_formulation) s.visc_exponent = 1;
    s.use_mibf = r.chance(0.2); m.consts(); double S = mcc ? s.p0 : std::max(s.q_cohesion, s.q_max); bool evolve = r.chance(0.5); double K = m.K, mu = m.mu, qp = m.qp, xi = s.xi;
    bool dpf = pm == PlasticModel::DPSoft || pm == PlasticModel::DPVisc || pm == PlasticModel::DPMui; double slope = pm == PlasticModel::DPMui ? s.mu_1 : s.M;
    c.note = str(c.idx, " ", pmName(pm), mcc ? hlName(s.hardening_law) : "", " E=", s.E, " S=", S, " xi=", xi, " vt=", s.visc_time, " vn=", s.visc_exponent, " DL=", s.use_duvaut_lions_formulation, " prad=", s.use_pradhana, " qp=", qp, " musl=", s.use_musl, " dt=", m.dt);
    m.gen = [&](int k, int, MPState& st, TM& T_) {
        if (!evolve || k == 0 || r.chance(0.02) || std::abs(st.epv) * std::max(xi, 5.0) > 3 || std::abs(st.epd) > 5) {
            st = MPState(); st.epd = r.chance(0.3) ? 0 : r.uni(0, xi > 0 ? 1.5 / xi : 0.1); st.epv = r.chance(0.3) ? 0 : r.uni(-1, 1) / std::max(xi, 20.0); st.epr = r.chance(0.4) ? 0 : r.uni(-1, 1) * S / K; st.F = FofPQ(m, r, S * r.uni(-0.3, 1), S * r.uni(0, 1));
        }
        double a = r.chance(0.15) ? r.uni(0, 0.05) : 1; double p = S * a * (r.chance(0.1) ? r.uni(2, 4) : r.uni(-0.8, 2)), q = S * a * (r.chance(0.1) ? 0 : r.uni(0, 3));
        if (evolve && k && r.chance(0.7)) { T_ = (TM::Identity() + rmat(r, S / (K + mu) * r.uni(0.01, 0.6))) * st.F; Eigen::JacobiSVD<TM> sd(T_); if (sd.singularValues().array().log().matrix().cwiseAbs().maxCoeff() < std::min(0.3, 4 * S / mu)) return; }
        T_ = FofPQ(m, r, p, q);
    };
    int bad = 0;
    m.judge = [&](const MPRes& R) {
        if (bad > 3) return; c.evaluations++;
        auto fail = [&](const std::string& k, const std::string& d) { if (s.exit) { c.count("solver gave up (flagged)"); return; } bad++; c.fail(std::string(pmName(pm)) + ":" + k, str(d, " ptr/S=", R.ptr / S, " qtr/S=", R.qtr / S, " p/S=", R.pn / S, " q/S=", R.qn / S, " epv=", R.pre.epv, "->", R.epv, " epd=", R.pre.epd, "->", R.epd, " epr=", R.pre.epr, "->", R.epr, " dg=", R.dg, " step ", R.step, " p", R.p)); };
        if (!finite(R.F) || !std::isfinite(R.epv) || !std::isfinite(R.epd) || !std::isfinite(R.dg)) return fail("not-finite", "");
        auto dn = [&](const TV& h) { return (h - h.sum() / D * TV::Ones()).norm(); };
        double eps = 1e-13, dv = R.htr.sum() - R.h.sum(), dd = dn(R.htr) - dn(R.h), iv = R.epv - R.pre.epv, id = R.epd - R.pre.epd, slack = (mcc && R.qtr < 1e-6 * std::max(S, std::abs(R.ptr))) ? 1e-5 * std::max(S, std::abs(R.ptr)) / mu : 0, tmui = pm == PlasticModel::MCCMui ? 3e-5 / mu : 0;
        if (mcc && R.qtr < 1e-9 * S) { c.skipped++; slack = 2e-2 * std::max(S, std::abs(R.ptr)) / mu; }                 // no deviatoric direction at all
        double tol = 1e-12 + 1e-10 * (std::abs(R.pre.epv) + std::abs(R.pre.epd)) + eps + slack;
        if (R.off > 1e-9 + slack || R.flipped) return fail("principal-axes", str("off-diagonal ", R.off, " F=", sm(R.F), " trial ", sm(R.Ftr)));
        if (std::abs(iv - dv) > tol) return fail("volumetric", str("increment ", iv, " removed ", dv));
        if (std::abs(id - dd) > tol + tmui) return fail("deviatoric", str("increment ", id, " removed ", dd));
        if (id < -1e-12 - slack - (mcc ? 2e-3 * std::max(S, std::abs(R.ptr)) / mu : 0)) return fail("deviatoric-decreases", str("increment ", id));
        bool moved = (R.F - R.Ftr).norm() > 1e-11 * R.Ftr.norm();
        double want = id / qp / R.dt;
        if (std::abs(R.dg - want) > 1e-8 * std::abs(want) + (1e-12 * (1 + std::abs(R.pre.epd)) + slack + tmui) / qp / R.dt) return fail("shear-rate", str("reported ", R.dg, " increment per time ", want));
        if (!moved && R.epv == R.pre.epv && R.epd == R.pre.epd && R.dg != 0) return fail("shear-rate-elastic", str("reported ", R.dg));
        std::string reg = !moved ? "elastic" : std::abs(dv) > 1e-9 && std::abs(dd) < 1e-9 ? "volumetric" : std::abs(dv) > 1e-9 ? "both" : "shear";
        if (dpf && (s.use_pradhana)) {  // volume correction: accumulates in tip returns, reset otherwise
            bool tip = moved && R.qn < 1e-7 * R.qtr + 1e-9 * S; double w = tip ? R.pre.epr + iv : 0; bool amb = std::abs(R.ptr - K * R.pre.epr + s.q_cohesion / slope * (pm == PlasticModel::DPSoft ? std::exp(-xi * R.pre.epd) : 1)) < 1e-6 * S || R.qtr < 1e-6 * S;
            if (!amb) { if (std::abs(R.epr - w) > 1e-10) return fail(tip ? "volume-correction-tip" : "volume-correction-reset", str("got ", R.epr, " want ", w)); c.count(tip ? "volume correction accumulated" : "volume correction reset"); }
        }
        c.count(std::string(pmName(pm)) + " " + reg); c.seen(str(pmName(pm), mcc ? hlName(s.hardening_law) : "", reg, evolve, s.use_musl, s.use_duvaut_lions_formulation, s.visc_exponent == 1, s.visc_time > 0, xi > 0, qp > 0.8, s.use_pradhana, s.q_cohesion > 0));
    };
    m.run(evolve ? 12 : 4, r, evolve); if (s.exit) c.count("exit flag raised"); c.sample(c.note);
}
void finish(Ctx&) {}
}

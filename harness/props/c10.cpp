// C10: yield criterion and flow rule of the rate-independent models.
#include "main.hpp"
#include "matpoint.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; MatPoint m(r, D == 3 ? 12 : 16); Simulation& s = m.s;
    PlasticModel pm = r.pick(std::vector<PlasticModel>{PlasticModel::VM, PlasticModel::DP, PlasticModel::DPSoft, PlasticModel::DPSoft, PlasticModel::MCC, PlasticModel::MCC, PlasticModel::MCC, PlasticModel::MCC});
    s.E = r.logu(1e5, 1e8); randomPlastic(r, s, pm); if (pm == PlasticModel::MCC && r.chance(0.2)) s.hardening_law = HardeningLaw::NoHard;
    m.consts(); bool mcc = pm == PlasticModel::MCC; double S = mcc ? s.p0 : pm == PlasticModel::VM ? s.q_max : std::max(s.q_cohesion, s.q_max); bool evolve = r.chance(0.4);
    double K = m.K, mu = m.mu, M = s.M, qp = m.qp, f = 2 * qp * qp * mu, em = 2 * qp * mu; HardeningLaw hl = s.hardening_law; bool impl = hl == HardeningLaw::ExpoImpl || hl == HardeningLaw::SinhImpl; bool sinhl = hl == HardeningLaw::SinhExpl || hl == HardeningLaw::SinhImpl;
    double p0 = s.p0, beta = s.beta, xi = s.xi;
    double pmin = hl == HardeningLaw::SinhImpl ? 0.01 : 1e-5;      // the laws keep a positive residual size
    auto pcOf = [&](double epv) { if (hl == HardeningLaw::NoHard) return p0; return std::max(pmin, sinhl ? K * std::sinh(-xi * epv + std::asinh(p0 / K)) : p0 * std::exp(-xi * epv)); };
    double epvR = xi > 0 ? 1.0 / xi : 0.05;
    c.note = str(c.idx, " ", pmName(pm), mcc ? hlName(hl) : "", " E=", s.E, " nu=", s.nu, " S=", S, " M=", M, " coh=", s.q_cohesion, " xi=", xi, " beta=", beta, " p0=", p0, " prad=", s.use_pradhana, " qp=", qp, " musl=", s.use_musl, " dt=", m.dt);
    m.gen = [&](int k, int, MPState& st, TM& T_) {
        double sc = S;
        if (!evolve || k == 0 || r.chance(0.02)) {
            st.epd = r.chance(0.3) ? 0 : r.uni(0, xi > 0 ? 1.5 / xi : 0.1); st.epv = r.chance(0.3) ? 0 : r.uni(-epvR, epvR); st.epr = r.chance(0.4) ? 0 : r.uni(-1, 1) * S / K;
            st.F = FofPQ(m, r, sc * r.uni(-0.3, 1), sc * r.uni(0, 1));
        }
        if (mcc) { double pc = pcOf(st.epv); if (!(pc > 1e-2 * p0) || !(pc < 0.05 * K) || std::abs(st.epv) > 1) { st.epv = 0; pc = p0; } sc = pc; }
        double a = r.chance(0.15) ? r.uni(0, 0.05) : 1;
        double p = sc * a * (r.chance(0.1) ? r.uni(2, 4) : r.uni(-0.8, 2)), q = sc * a * (r.chance(0.1) ? 0 : r.chance(0.15) ? r.uni(2, 5) : r.uni(0, 2));
        if (evolve && k && r.chance(0.7)) { T_ = (TM::Identity() + rmat(r, sc / (K + mu) * r.uni(0.01, 0.6))) * st.F; Eigen::JacobiSVD<TM> sd(T_); TV h = sd.singularValues().array().log().matrix(); if (h.cwiseAbs().maxCoeff() < 4 * sc / mu && h.cwiseAbs().maxCoeff() < 0.3) return; }
        T_ = FofPQ(m, r, p, q);
    };
    int bad = 0;
    m.judge = [&](const MPRes& R) {
        if (bad > 3) return; c.evaluations++;
        auto fail = [&](const std::string& k, const std::string& d) { if (s.exit && hl == HardeningLaw::SinhImpl && mcc) { c.count("SinhImpl solver gave up (flagged)"); return; } bad++; c.fail(std::string(pmName(pm)) + (mcc ? hlName(hl) : "") + ":" + k, str(d, " ptr/S=", R.ptr / S, " qtr/S=", R.qtr / S, " p/S=", R.pn / S, " q/S=", R.qn / S, " epv=", R.pre.epv, "->", R.epv, " epd=", R.pre.epd, "->", R.epd, " epr=", R.pre.epr, " step ", R.step, " p", R.p)); };
        if (!finite(R.F) || !finite(R.tau)) return fail("not-finite", "");
        double sc = std::max({S, std::abs(R.ptr), R.qtr}); double tol = 1e-9 * sc + 1e-12 * (K + mu); if (mcc && R.qtr < 1e-6 * S) tol += 1e-6 * sc;   // no deviatoric direction
        if (std::abs(R.ptau - R.pn) > tol || std::abs(R.qtau - R.qn) > tol) return fail("stress-state", str("stored stress p=", R.ptau, " q=", R.qtau));
        double p = R.ptr, q = R.qtr; bool plastic = false, near = false; std::string reg;
        if (pm == PlasticModel::VM) { plastic = q > s.q_max; near = std::abs(q - s.q_max) < tol; q = std::min(q, s.q_max); reg = plastic ? "yield" : "elastic"; }
        else if (pm == PlasticModel::DP) {
            double y = M * p + s.q_cohesion; near = std::abs(q - y) < tol; 
            if (y < 1e-10) { p = -s.q_cohesion / M; q = 0; plastic = true; reg = "tip"; if (std::abs(y) < tol) return; } else { plastic = q > y; q = std::min(q, y); reg = plastic ? "yield" : "elastic"; }
        } else if (pm == PlasticModel::DPSoft) {
            double t0 = -s.q_cohesion / M, tip = t0 * std::exp(-xi * R.pre.epd), sh = s.use_pradhana ? -K * R.pre.epr : 0, ps = p + sh, y = M * (ps - tip); near = std::abs(ps - tip) < tol || std::abs(q - y) < tol;
            if (near) { c.skipped++; return; }
            if (ps <= tip) { p = tip; q = 0; plastic = true; reg = "tip"; }
            else if (q > y) { plastic = true; double e2 = R.pre.epd + (q - y) / em, tip2 = t0 * std::exp(-xi * e2); if (std::abs(ps - tip2) < tol) { c.skipped++; return; } if (ps < tip2) { p = tip2; q = 0; reg = "softened-tip"; } else { q = M * (ps - tip2); reg = "yield"; } }
            else reg = "elastic";
        } else {
            double pcPre = pcOf(R.pre.epv), y = M * M * (p - pcPre) * (p + beta * pcPre) + q * q; near = std::abs(y) < 1e-6 * pcPre * pcPre; if (near) { c.skipped++; return; }
            plastic = y > 0; reg = plastic ? (p > 0.5 * (1 - beta) * pcPre ? "cap" : "softening") : "elastic";
            if (plastic) {
                double pc = impl ? pcOf(R.epv) : pcPre, pn = R.pn, qn = R.qn, ell = M * M * (pn - pc) * (pn + beta * pc) + qn * qn, et = (q < 1e-6 * S ? 2e-3 : 2e-4) * pcPre * pcPre + 2e-2 * pcPre + 1e-2;
                c.seen(str(pmName(pm), hlName(hl), reg, evolve, qp > 0.8, std::min(3, (int)(q / S)), s.use_musl)); c.count(std::string(hlName(hl)) + " " + reg);
                if (std::abs(ell) > et) return fail("off-surface:" + reg, str("y/pc^2=", ell / (pcPre * pcPre), " pc=", pc));
                double mid = 0.5 * (1 - beta) * pc, lo = std::min(p, mid), hi = std::max(p, mid);
                double dtol = 2e-3 * pcPre + 1e-2;
                if (pn < lo - dtol || pn > hi + dtol) return fail("pressure-range:" + reg, str("mid=", mid));
                if (qn > q + dtol) return fail("shear-increase:" + reg, "");
                // flow rule: q implied by the pressure through the associated flow, then the yield function
                double den = K * M * M * (2 * pn - (1 - beta) * pc);
                if (std::abs(pn - mid) < 5e-3 * pcPre) { c.count("near the top of the ellipse"); return; }
                double dg = (p - pn) / den; double qf = q / (1 + 2 * f * dg); double yf = M * M * (pn - pc) * (pn + beta * pc) + qf * qf;
                // tolerance: the solver stops at |y| < 1e-4 p_c^2 (implicit) or 1e-3 Pa^2, 1e-3 Pa (explicit); p near the ends of the ellipse is clamped
                double slope = std::abs(M * M * (2 * pn - (1 - beta) * pc)) + 4 * qf * qf * f / std::max(1e-300, std::abs(1 + 2 * f * dg)) / std::abs(den);
                double yt = 5e-4 * pcPre * pcPre + 1e-2 * pcPre + slope * 1e-2 + 1e-2;
                if (!(dg > -1e-6 / K) || !(std::abs(yf) < yt)) return fail("flow-rule:" + reg, str("y(flow)/pc^2=", yf / (pcPre * pcPre), " dgamma*K=", dg * K, " pc=", pc));
                return;
            }
        }
        c.seen(str(pmName(pm), mcc ? hlName(hl) : "", reg, evolve, qp > 0.8, s.use_pradhana, xi > 0, s.q_cohesion > 0, s.use_musl)); c.count(std::string(pmName(pm)) + " " + reg);
        if (std::abs(R.pn - p) > tol) return fail("pressure:" + reg, str("want p/S=", p / S));
        if (std::abs(R.qn - q) > tol) return fail("shear:" + reg, str("want q/S=", q / S));
        if (!plastic && !near && !((R.F - R.Ftr).norm() <= 1e-12 * R.Ftr.norm())) return fail("elastic-changed", str("F=", sm(R.F), " trial ", sm(R.Ftr)));
    };
    m.run(evolve ? 12 : 4, r, evolve);
    if (s.exit) { c.count("exit flag raised"); if (!(mcc && hl == HardeningLaw::SinhImpl)) c.fail(std::string(pmName(pm)) + ":exit", "failure flag raised"); } c.sample(c.note);
}
void finish(Ctx&) {}
}

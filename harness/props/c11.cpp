// C11: rate equations of the viscous and mu(I) models. A twin with the rate-independent model sees the same trial states.
#include "main.hpp"
#include "matpoint.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; int n = D == 3 ? 10 : 14; Rng ra = r; MatPoint m(r, n); MatPoint t(ra, n); Simulation& s = m.s; Simulation& u = t.s;
    PlasticModel pm = r.pick(std::vector<PlasticModel>{PlasticModel::VMVisc, PlasticModel::DPVisc, PlasticModel::MCCVisc, PlasticModel::DPMui, PlasticModel::MCCMui});
    bool mcc = pm == PlasticModel::MCCVisc || pm == PlasticModel::MCCMui, mui = pm == PlasticModel::DPMui || pm == PlasticModel::MCCMui;
    double E = r.logu(1e6, 1e8); uint64_t ps = r.next(); bool noHard = pm == PlasticModel::MCCVisc && r.chance(0.15); bool mibf = r.chance(0.4);
    for (Simulation* q : {&s, &u}) { Rng k(ps); q->E = E; randomPlastic(k, *q, pm); q->use_mibf = mibf; if (noHard) q->hardening_law = HardeningLaw::NoHard; if (pm == PlasticModel::MCCVisc && q->use_duvaut_lions_formulation) q->visc_exponent = 1; }
    if (mcc) { u.plastic_model = PlasticModel::MCC; u.M = pm == PlasticModel::MCCMui ? s.mu_1 : s.M; }
    m.consts(); t.consts(); double K = m.K, mu = m.mu, qp = m.qp, f = 2 * qp * qp * mu, xi = s.xi, vt = s.visc_time, n_ = s.visc_exponent, coh = s.q_cohesion, M = mui ? s.mu_1 : s.M; bool DL = s.use_duvaut_lions_formulation;
    double S = mcc ? s.p0 : pm == PlasticModel::VMVisc ? s.q_max : std::max(coh, s.q_max); bool evolve = r.chance(0.4); HardeningLaw hl = s.hardening_law;
    double Q = s.I_ref / (s.grain_diameter * std::sqrt(s.rho_s)), dmu = s.mu_2 - s.mu_1;
    bool impl = hl == HardeningLaw::ExpoImpl || hl == HardeningLaw::SinhImpl, sinhl = hl == HardeningLaw::SinhExpl || hl == HardeningLaw::SinhImpl;
    auto pcOf = [&](double epv) { if (hl == HardeningLaw::NoHard) return s.p0; return std::max(1e-5, sinhl ? K * std::sinh(-xi * epv + std::asinh(s.p0 / K)) : s.p0 * std::exp(-xi * epv)); };
    c.note = str(c.idx, " ", pmName(pm), mcc ? hlName(hl) : "", " E=", s.E, " nu=", s.nu, " S=", S, " M=", M, " coh=", coh, " xi=", xi, " beta=", s.beta, " vt=", vt, " n=", n_, " DL=", DL, " mibf=", mibf, " prad=", s.use_pradhana, " qp=", qp, " musl=", s.use_musl, " dt=", m.dt, " Q=", Q, " mu2-mu1=", dmu);
    bool soft = mcc && r.chance(0.08); std::vector<MPState> P; std::vector<TM> Tg;
    m.gen = [&](int k, int, MPState& st, TM& T_) {
        bool fresh = !evolve || k == 0 || r.chance(0.02) || st.epv * std::max(xi, 5.0) > (soft ? 80 : 2) || st.epv * std::max(xi, 5.0) < -2 || std::abs(st.epd) > 2;
        if (fresh) { st = MPState(); st.epd = r.chance(0.3) ? 0 : r.uni(0, xi > 0 ? 1.5 / xi : 0.1); st.epv = r.chance(0.3) ? 0 : r.uni(-1, 1) / std::max(xi, 20.0); st.epr = r.chance(0.4) ? 0 : r.uni(-1, 1) * S / K; st.F = FofPQ(m, r, S * r.uni(-0.3, 1), S * r.uni(0, 1)); }
        if (soft && (fresh || r.chance(0.3))) st.epv = r.uni(0.5, 60) / std::max(xi, 1.0);
        double sc = S; if (soft) { if (r.chance(0.5)) sc = std::max(1e-6, std::abs(pcOf(st.epv))) * r.logu(0.1, 100); sc = std::min(sc, 3 * S); } else if (mcc) { double pc = pcOf(st.epv); if (!(pc > 1e-2 * s.p0) || !(pc < 0.05 * K)) { st.epv = 0; pc = s.p0; } sc = pc; }
        double a = r.chance(0.15) ? r.uni(0, 0.05) : 1; double p = sc * a * (r.chance(0.1) ? r.uni(2, 4) : r.uni(-0.8, 2)), q = sc * a * (r.chance(0.05) ? 0 : r.chance(0.15) ? r.uni(2, 5) : r.uni(0, 2.5));
        bool atTip = !mcc && pm != PlasticModel::VMVisc && r.chance(0.06); if (atTip) { st.epr = 0; p = -coh / M; }   // volume-preserving shear of a material without cohesion: the pressure is that of the tip, up to rounding or exactly
        bool done = false;
        if (evolve && !fresh && !atTip && r.chance(0.7)) { T_ = (TM::Identity() + rmat(r, sc / (K + mu) * r.uni(0.01, 0.6))) * st.F; Eigen::JacobiSVD<TM> sd(T_); done = sd.singularValues().array().log().matrix().cwiseAbs().maxCoeff() < std::min(0.3, 4 * sc / mu); }
        if (!done) T_ = FofPQ(m, r, p, q);
        P.push_back(st); Tg.push_back(T_);
    };
    std::vector<MPRes> A, B; std::vector<bool> gaveUp; m.judge = [&](const MPRes& R) { A.push_back(R); gaveUp.push_back(s.exit); };
    m.run(evolve ? 10 : 4, r, evolve);
    if (mcc) { size_t g = 0; t.gen = [&](int, int, MPState& st, TM& T_) { if (g < P.size()) { st = P[g]; T_ = Tg[g]; } else { T_ = st.F; } g++; }; t.judge = [&](const MPRes& R) { B.push_back(R); }; Rng r2(1); t.run(std::max<int>(1, (int)A.size() / n), r2, false); if (u.exit) { c.count("rate-independent twin gave up"); } if (B.size() < A.size()) { A.resize(B.size()); } }
    int bad = 0;
    for (size_t i = 0; i < A.size() && bad < 3; i++) {
        const MPRes& R = A[i]; c.evaluations++; double dt = R.dt;
        if (gaveUp[i]) { c.count("solver gave up (flagged)"); continue; }
        auto fail = [&](const std::string& k, const std::string& d) { bad++; c.fail(std::string(pmName(pm)) + (mcc ? hlName(hl) : "") + (mui ? "" : DL ? "DL" : "Pz") + ":" + k, str(d, " ptr/S=", R.ptr / S, " qtr/S=", R.qtr / S, " p/S=", R.pn / S, " q/S=", R.qn / S, " epv=", R.pre.epv, "->", R.epv, " epd=", R.pre.epd, "->", R.epd, " epr=", R.pre.epr, " dg=", R.dg, " muI=", R.muI, " visc=", R.visc, " step ", R.step, " p", R.p)); };
        if (!finite(R.F) || !std::isfinite(R.dg)) { fail("not-finite", ""); continue; }
        // whatever the hardening state: friction between the static and limiting values, a finite viscosity
        if (mui) { if (!(R.muI >= s.mu_1 - 1e-12 && R.muI <= s.mu_2 + 1e-12)) { fail("friction-range", str("mu_1=", s.mu_1, " mu_2=", s.mu_2)); continue; } if (!(R.visc >= 0 && std::isfinite(R.visc))) { fail("viscosity-range", ""); continue; } c.count(soft ? "friction ranges of fully softened materials" : "friction ranges"); }
        if (soft) { c.seen(str("soft", pmName(pm), hlName(hl), DL, xi > 20, R.ptr > 0, (int)std::min(9.0, std::log10(1 + R.qtr)))); continue; }
        double sc = std::max({S, std::abs(R.ptr), R.qtr}), tol = 1e-9 * sc + 1e-12 * (K + mu); std::string reg;
        // wantP, yield value, and whether viscoplastic flow is expected
        double wp = R.ptr, qy = 0; bool flow = false, tip = false, amb = false; double psf = 0, pc = 0;
        if (pm == PlasticModel::VMVisc) {
            double cap = s.p_min * std::exp(-xi * R.pre.epv), y0 = s.q_min + (s.q_max - s.q_min) * std::exp(-xi * R.pre.epd); amb = std::abs(R.ptr - cap) < tol || std::abs(R.qtr - y0) < tol;
            if (R.ptr < cap) { tip = true; wp = 0; } else flow = R.qtr > y0; qy = s.q_min + (s.q_max - s.q_min) * std::exp(-xi * R.epd);
        } else if (!mcc) {
            double sh = s.use_pradhana ? -K * R.pre.epr : 0, tp = -coh / M; psf = R.ptr + sh; qy = M * psf + coh; amb = std::abs(psf - tp) < tol + 1e-4 || std::abs(R.qtr - qy) < tol + 2e-5;
            if (psf < tp) { tip = true; wp = tp; } else flow = R.qtr > qy; psf = pm == PlasticModel::DPMui ? psf - tp + 1e-5 : psf;
        } else {
            const MPRes& X = B[i]; if (u.exit || s.exit) { c.count("solver gave up (flagged)"); continue; }
            double pcPre = pcOf(R.pre.epv), y = M * M * (R.ptr - pcPre) * (R.ptr + s.beta * pcPre) + R.qtr * R.qtr; amb = std::abs(y) < 1e-6 * pcPre * pcPre || R.qtr < 1e-6 * S; flow = y > 0; pc = impl ? pcOf(X.epv) : pcPre;
            wp = X.pn; qy = X.qn; tol = 1e-8 * sc + 1e-11 * (K + mu);
            if (flow && pm == PlasticModel::MCCVisc && DL) { double b = 1 / (1 + vt / dt); wp = (1 - b) * R.ptr + b * X.pn; }
            if (flow && pm == PlasticModel::MCCMui) { if (std::abs(R.qtr - qy - 1e-5) < 1e-4) amb = true; if (R.qtr < qy) amb = true; psf = X.pn + s.beta * pc + 1e-5; if (impl) pc = std::max(pc, X.pn + 1e-5), psf = X.pn + s.beta * pc + 1e-5; if (!(psf > 0) || !(pc - X.pn > 0)) amb = true; }
            if (pm == PlasticModel::MCCVisc && R.qtr < qy) amb = true;
        }
        if (amb && !mcc && pm != PlasticModel::VMVisc && (mui || !DL || vt == 0)) {   // at the tip rounding decides which law applies, but every one of them leaves almost no shear stress
            double gap = std::abs(qy) + M * (tol + 1e-4) + (n_ == 1 ? 0 : 1.1e-2), lim = (mui ? s.mu_2 / s.mu_1 * (gap + 1e-4) : vt == 0 ? gap : gap * std::pow(vt / dt * R.qtr / f + 1, n_)) + tol + 2e-2; double ps = mui ? R.ptr + (s.use_pradhana ? -K * R.pre.epr : 0) : psf;
            if (std::abs(ps + coh / M) < tol + 1e-4) { if (!(R.qn <= lim)) { fail("tip-overstress", str("at most ", lim / S)); continue; } c.count(str(pmName(pm), " at the tip")); if (ps == -coh / M) c.count("exactly at the tip"); } }
        if (amb) { c.skipped++; continue; }
        reg = tip ? "tip" : flow ? "flow" : "elastic"; c.count(str(pmName(pm), " ", reg)); c.seen(str(pmName(pm), mcc ? hlName(hl) : "", reg, DL, n_ == 1, vt > 0, xi > 0, coh > 0, mibf, qp > 0.8, evolve, s.use_musl, s.use_pradhana));
        if (std::abs(R.pn - wp) > tol) { fail("pressure:" + reg, str("want p/S=", wp / S)); continue; }
        if (tip) { if (std::abs(R.qn) > tol) fail("tip-shear", ""); continue; }
        if (!flow) {
            if (!((R.F - R.Ftr).norm() <= 1e-12 * R.Ftr.norm())) { fail("elastic-changed", ""); continue; }
            if (mui && (R.muI != s.mu_1 || R.visc != 0)) fail("elastic-friction", str("want mu_1=", s.mu_1)); if (!mui && mibf && pm != PlasticModel::VMVisc && R.muI != M) fail("elastic-friction", str("want M=", M));
            continue;
        }
        double q = R.qn, qt = R.qtr; if (q > qt + tol) { fail("above-trial", ""); continue; }
        if (q < qy - tol - 3e-2) { fail("below-rate-independent", str("q_y/S=", qy / S)); continue; }
        if (!mui) {
            double dg = (qt - q) / f;
            if (pm == PlasticModel::MCCVisc && DL) { double b = 1 / (1 + vt / dt), w = (1 - b) * qt + b * qy; if (std::abs(q - w) > tol) fail("blend", str("want q/S=", w / S)); else c.count("Duvaut-Lions blends"); continue; }
            double res, slope;
            if (DL) { double a = std::max(0.0, vt * dg / dt); double pw = vt > 0 ? std::pow(a, n_) : 0; res = qt - qy - f * (dg + pw); slope = 1 + (a > 0 ? n_ * std::pow(a, n_ - 1) * vt / dt : 0); }
            else { double a = vt * dg / dt + 1; res = q * std::pow(a, -n_) - qy; slope = 1 + q * n_ * std::pow(a, -n_ - 1) * vt / dt / f; }
            double rt = tol * slope + ((n_ == 1 && (pm != PlasticModel::VMVisc || xi == 0)) ? 0 : 1.1e-2);
            if (pm == PlasticModel::MCCVisc && q <= qy + tol) { if (res > rt) fail("rate-law", str("residual ", res, " at the yield stress")); continue; }
            if (vt == 0 && std::abs(q - qy) > tol + 2e-2 + (pm == PlasticModel::VMVisc ? 2e-2 * sc : 0)) { fail("zero-viscosity", str("q_y/S=", qy / S)); continue; }
            if (!(std::abs(res) <= rt)) { fail("rate-law", str("residual ", res, " allowed ", rt, " q_y/S=", qy / S)); continue; }
            c.count(DL ? "Duvaut-Lions laws" : "Perzyna laws"); if (vt == 0) c.count("zero viscous time");
            if (mibf && pm == PlasticModel::DPVisc && std::abs(psf) > 1e-3 * S) { double w = (q - coh) / psf; if (!(std::abs(R.muI - w) <= 1e-8 * (1 + std::abs(w)) + (tol + 1e-11 * (K + mu) * (1 + std::abs(w))) / std::abs(psf))) { fail("friction", str("want ", w)); continue; } c.count("friction values"); }
            if (mibf && pm == PlasticModel::MCCVisc) { double pcq = impl ? pcOf(R.epv) : pcOf(R.pre.epv), a = (R.pn + s.beta * pcq) * (pcq - R.pn); if (a > 1e-3 * pcq * pcq && pcq > 1e-2 * s.p0) { double w = q / std::sqrt(a); if (!(std::abs(R.muI - w) <= 1e-5 * (1 + w))) { fail("friction", str("want ", w)); continue; } c.count("friction values"); } }
        } else {
            double gd = (qt - q) / (f * dt), meas = pm == PlasticModel::DPMui ? psf : std::sqrt((pc - R.pn) * psf);
            if (!(gd > 0)) { if (qt - q > -tol) { c.skipped++; continue; } fail("shear-rate", ""); continue; }
            double sq = Q * std::sqrt(psf), g = R.dg, mi = s.mu_1 + dmu / (sq / g + 1), vis0 = dmu * meas / sq / (f * dt), rt = (pm == PlasticModel::MCCMui ? 1e-6 * sc + 1e-2 : 1e-8 * sc) + 1e-9 * sc * vis0;
            if (!(rt < 0.02 * sc)) { c.skipped++; continue; }
            if (!(R.muI >= s.mu_1 - 1e-12 && R.muI <= s.mu_2 + 1e-12)) { fail("friction-range", str("mu_1=", s.mu_1, " mu_2=", s.mu_2)); continue; }
            if (pm == PlasticModel::MCCMui && q <= qy + 1e-6 * sc + 1e-2) { c.count("MCCMui at the static surface"); continue; }
            if (!(std::abs(g - gd) <= 1e-7 * gd + 1e-9 * sc / (f * dt))) { fail("shear-rate", str("reported ", g, " from stress ", gd)); continue; }
            double dm = dmu * 1e-11 * (K + mu) / psf + dmu / sq * 1e-9 * sc / (f * dt) + 1e-6 * dmu + (pm == PlasticModel::MCCMui ? dmu / sq * 1e-2 / (f * dt) : 0);
            if (!(std::abs(R.muI - mi) <= dm)) { fail("mu(I)", str("mu(I)=", mi, " allowed ", dm)); continue; }
            double w = qy + (R.muI - s.mu_1) * meas; if (!(std::abs(q - w) <= rt)) { fail("stress-law", str("want q/S=", w / S, " allowed/S ", rt / S)); continue; }
            double wv = (R.muI - s.mu_1) * meas / g; if (!(std::abs(R.visc - wv) <= wv * (1e-5 + 1e-11 * (K + mu) / psf + (pm == PlasticModel::MCCMui ? 1e-11 * (K + mu) / (pc - R.pn) : 0)) + 1e-12)) { fail("viscosity", str("want ", wv)); continue; }
            c.count("mu(I) laws");
        }
    }
    c.sample(c.note);
}
void finish(Ctx&) {}
}

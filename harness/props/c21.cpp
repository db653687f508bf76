// C21: material-induced boundary friction is the internal friction of the material.
#include "main.hpp"
#include "matpoint.hpp"
#include "world.hpp"
namespace vh {
static bool isMui(PlasticModel m) { return m == PlasticModel::DPMui || m == PlasticModel::MCCMui; }
// the friction value every particle carries, step by step
static void particleFriction(Ctx& c) {
    Rng& r = c.rng; MatPoint m(r, D == 3 ? 10 : 14); Simulation& s = m.s; PlasticModel pm = ALL_PM[1 + r.below((int)ALL_PM.size() - 1)];
    s.E = r.logu(1e5, 1e8); randomPlastic(r, s, pm); bool mcc = pm == PlasticModel::MCC || pm == PlasticModel::MCCVisc || pm == PlasticModel::MCCMui;
    if (pm == PlasticModel::MCC && r.chance(0.2)) s.hardening_law = HardeningLaw::NoHard; if (pm == PlasticModel::MCCVisc && s.use_duvaut_lions_formulation) s.visc_exponent = 1;
    s.use_mibf = true; m.consts(); double K = m.K, mu = m.mu, xi = s.xi, coh = s.q_cohesion, M = s.M, base = isMui(pm) ? s.mu_1 : M, S = mcc ? s.p0 : std::max(s.q_cohesion, s.q_max); bool evolve = r.chance(0.5), DL = s.use_duvaut_lions_formulation && pm == PlasticModel::MCCVisc; HardeningLaw hl = s.hardening_law;
    bool impl = hl == HardeningLaw::ExpoImpl || hl == HardeningLaw::SinhImpl, sinhl = hl == HardeningLaw::SinhExpl || hl == HardeningLaw::SinhImpl;
    auto pcOf = [&](double epv) { if (hl == HardeningLaw::NoHard) return s.p0; return std::max(1e-5, sinhl ? K * std::sinh(-xi * epv + std::asinh(s.p0 / K)) : s.p0 * std::exp(-xi * epv)); };
    for (auto& f : s.particles.muI) f = r.uni(2, 3);      // whatever was there before does not matter
    c.note = str(c.idx, " particle ", pmName(pm), mcc ? hlName(hl) : "", " E=", s.E, " S=", S, " M=", M, " mu_1=", s.mu_1, " coh=", coh, " xi=", xi, " beta=", s.beta, " vt=", s.visc_time, " n=", s.visc_exponent, " DL=", DL, " prad=", s.use_pradhana, " qp=", m.qp, " musl=", s.use_musl, " dt=", m.dt);
    int bad = 0; std::vector<double> was(m.n);
    m.gen = [&](int k, int p, MPState& st, TM& T_) {
        if (k == 0 && bad < 3) { c.count("initial values"); if (s.particles.muI[p] != base) { bad++; c.fail(std::string(pmName(pm)) + ":initial-friction", str("particle ", p, " starts with ", s.particles.muI[p], " want ", base)); } }
        bool fresh = !evolve || k == 0 || r.chance(0.05) || std::abs(st.epv) * std::max(xi, 5.0) > 1 || std::abs(st.epd) > 2;
        if (fresh) { st = MPState(); st.epd = r.chance(0.3) ? 0 : r.uni(0, xi > 0 ? 1.5 / xi : 0.1); st.epv = r.chance(0.3) ? 0 : r.uni(-1, 1) / std::max(xi, 20.0); st.epr = r.chance(0.4) ? 0 : r.uni(-1, 1) * S / K; st.F = FofPQ(m, r, S * r.uni(-0.3, 1), S * r.uni(0, 1)); }
        double sc = mcc ? std::min(pcOf(st.epv), 0.05 * K) : S, a = r.chance(0.15) ? r.uni(0, 0.05) : 1, p_ = sc * a * r.uni(-0.8, 2), q_ = sc * a * (r.chance(0.1) ? 0 : r.uni(0, 2.5));
        if (evolve && !fresh && r.chance(0.7)) { T_ = (TM::Identity() + rmat(r, sc / (K + mu) * r.uni(0.01, 0.6))) * st.F; Eigen::JacobiSVD<TM> sd(T_); if (sd.singularValues().array().log().matrix().cwiseAbs().maxCoeff() < std::min(0.3, 4 * sc / mu)) { was[p] = s.particles.muI[p]; return; } }
        T_ = FofPQ(m, r, p_, q_); was[p] = s.particles.muI[p];
    };
    m.judge = [&](const MPRes& R) {
        if (bad > 2) return; c.evaluations++; if (s.exit) { c.count("solver gave up (flagged)"); return; }
        auto fail = [&](const std::string& k, double want) { bad++; c.fail(std::string(pmName(pm)) + (mcc ? hlName(hl) : "") + ":" + k, str("carries ", R.muI, " want ", want, " ptr/S=", R.ptr / S, " qtr/S=", R.qtr / S, " p/S=", R.pn / S, " q/S=", R.qn / S, " epv=", R.pre.epv, "->", R.epv, " step ", R.step, " p", R.p)); };
        bool moved = (R.F - R.Ftr).norm() > 1e-11 * R.Ftr.norm(); std::string reg = moved ? "yielding" : "elastic"; c.count(str(pmName(pm), " ", reg)); c.seen(str(pmName(pm), mcc ? hlName(hl) : "", reg, DL, s.visc_exponent == 1, s.visc_time > 0, coh > 0, evolve, s.use_musl, s.use_pradhana, m.qp > 0.8, (int)std::floor(2 * R.ptr / S), (int)std::floor(2 * R.qtr / S)));
        if (!std::isfinite(R.muI)) return fail("not-finite", base);
        if (isMui(pm)) { if (!(R.muI >= s.mu_1 - 1e-12 && R.muI <= s.mu_2 + 1e-12)) return fail("range", s.mu_2); if (!moved && R.epv == R.pre.epv && R.epd == R.pre.epd && R.muI != s.mu_1) return fail("elastic", s.mu_1); return; }   // the value itself: C11
        if (pm != PlasticModel::DPVisc && pm != PlasticModel::MCC && pm != PlasticModel::MCCVisc) { if (R.muI != M) return fail("constant", M); return; }
        double sc = std::max({S, std::abs(R.ptr), R.qtr}), tol = 1e-9 * sc + 1e-11 * (K + mu);
        if (pm == PlasticModel::DPVisc) {
            double sh = s.use_pradhana ? -K * R.pre.epr : 0, tp = -coh / M, ps = R.ptr + sh, y = M * ps + coh; if (std::abs(ps - tp) < tol || std::abs(R.qtr - y) < tol + 1e-4) { c.skipped++; return; }
            if (ps < tp || R.qtr < y) { if (R.muI != M) fail("static", M); return; }
            if (std::abs(ps) < 1e-3 * S) { c.skipped++; return; } double w = (R.qn - coh) / ps; if (!(std::abs(R.muI - w) <= 1e-8 * (1 + std::abs(w)) + tol * (1 + std::abs(w)) / std::abs(ps))) return fail("mobilised", w);
            c.count("mobilised friction values"); return;
        }
        double pcPre = pcOf(R.pre.epv), y = M * M * (R.ptr - pcPre) * (R.ptr + s.beta * pcPre) + R.qtr * R.qtr; if (std::abs(y) < 1e-6 * pcPre * pcPre || R.qtr < 1e-6 * S || R.qtr < R.qn) { c.skipped++; return; }
        if (y < 0) { if (R.muI != M) fail("static", M); return; }
        // the state the friction is measured at: Duvaut-Lions blends trial and inviscid state
        double b = DL ? 1 / (1 + s.visc_time / R.dt) : 1, p0 = (R.pn - (1 - b) * R.ptr) / b, q0 = (R.qn - (1 - b) * R.qtr) / b, pc = impl ? pcOf(R.epv) : pcPre, a = (p0 + s.beta * pc) * (pc - p0); double t2 = tol / b; if (!(t2 < 1e-6 * pc)) { c.skipped++; return; }
        if (p0 < -s.beta * pc - 1e-6 * pc || p0 > pc + 1e-6 * pc) { if (R.muI != M) fail("beyond-the-ends", M); c.count("values at the ends of the surface"); return; }
        if (!(a > 1e-3 * pc * pc) || !(pc > 1e-2 * s.p0)) { c.skipped++; return; }
        double w = q0 / std::sqrt(a); if (!(std::abs(R.muI - w) <= (1e-6 + 1e4 * t2 / pc) * (1 + w))) return fail("mobilised", w); c.count("mobilised friction values");
        if (pm == PlasticModel::MCC && !impl && !(std::abs(R.muI - M) <= 2e-2 * M)) return fail("critical-state", M);
    };
    m.run(evolve ? 10 : 4, r, evolve); c.sample(c.note);
}
// whole simulations: which friction the boundaries use
static void boundaryFriction(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.boundsP = 1; o.pbcP = 0.08; o.threads = false; o.origin = 3; o.maxFrames = 4; o.longP = 0.01; World w = randomWorld(r, o); w.mibf = false; w.threads = 1;
    int mode = r.below(3); if (mode == 2) { w.em = ElasticModel::Hencky; w.pm = r.pick(std::vector<PlasticModel>{PlasticModel::NoPlasticity, PlasticModel::VM, PlasticModel::DP, PlasticModel::DPSoft, PlasticModel::VMVisc}); } w.mibf = mode != 1; uint64_t ms = r.next(); static const char* mn[] = {"other-boundary-friction", "friction-without-the-option", "constant-friction"};
    c.note = str(c.idx, " ", mn[mode], " ", w.desc()); std::vector<StepRec> A; std::vector<char> ill; bool exitA = false; double M = 0;
    auto go = [&](bool twin, std::function<bool(StepRec&)> f) {
        Simulation s; World q = w; if (twin && mode == 0) { Rng k(ms); for (auto& p : q.plates) p.fr = k.uni(0, 3); for (auto& p : q.spheres) p.fr = k.uni(0, 3); }
        if (twin && mode == 2) { q.mibf = false; for (auto& p : q.plates) p.fr = M; for (auto& p : q.spheres) p.fr = M; }
        q.build(s); M = s.M; StepMonitor mon(s, 40, [&](StepRec& R) { if (!f(R)) throw StepLimit(); if (!twin) { RefOut ro = refStep(s, R.pre, R.dt, R.pre.gravity, gridOrg(R.grid), nullptr); ill.push_back(ro.ambiguous || ro.cond < 1e-3); long h = 0; for (auto& kv : ro.grid.g) h += kv.second.hits; if (h) c.count("steps with contact"); } });
        auto in = s.monitor; int k = 0; s.monitor = [&](Simulation::MonitorStage st) { if (st == Simulation::MonitorStage::StepBegin) { if (mode == 1) { Rng q2(mix(ms, k)); for (auto& f2 : s.particles.muI) f2 = twin ? q2.uni(0, 3) : 0.5; } if (mode == 0) { Rng q2(mix(ms, k)); for (auto& f2 : s.particles.muI) f2 = q2.uni(0, 1.5); } k++; } in(st); };
        try { s.simulate(); } catch (OutOfDomain&) {} catch (StepLimit&) {} if (!twin) exitA = s.exit;
    };
    go(false, [&](StepRec& R) { A.push_back(R); return A.size() < 30; }); size_t k = 0; double growth = 1; (void)exitA;
    go(true, [&](StepRec& R) {
        if (k >= A.size()) return false; const Snap &a = A[k].post, &b = R.post; if (mode == 2 && ill[k]) { c.skipped++; return false; } c.evaluations++;
        for (size_t p = 0; p < a.x.size(); p++) if (!finite(a.F[p]) || !finite(a.v[p]) || !finite(a.tau[p]) || !(a.F[p].cwiseAbs().maxCoeff() < 1e20)) return false;
        if (mode < 2) { for (size_t p = 0; p < a.x.size(); p++) if (a.x[p] != b.x[p] || a.v[p] != b.v[p] || a.F[p] != b.F[p] || a.tau[p] != b.tau[p] || a.B[p] != b.B[p]) { c.fail(mn[mode], str("step ", k, " particle ", p, " v ", sv(a.v[p]), " / ", sv(b.v[p]))); return false; } }
        else { growth *= 30; double tol = 1e-13 * growth + 1e-10, V = std::max({amax(a.v), amax(w.v), 1e-30}) + w.cw * 1e-3; if (tol > 1e-6) return false;
            for (size_t p = 0; p < a.x.size(); p++) { double eF = (a.F[p] - b.F[p]).norm(), ev = (a.v[p] - b.v[p]).cwiseAbs().maxCoeff(), ex = (a.x[p] - b.x[p]).cwiseAbs().maxCoeff(); if (w.pbc && ex > w.Lx / 2) ex = 0; if (!(ev <= tol * V) || !(ex <= tol * w.dx) || !(eF <= 100 * tol * (1 + a.F[p].norm()))) { c.fail(mn[mode], str("step ", k, " particle ", p, " v ", sv(a.v[p]), " with boundary friction ", M, ": ", sv(b.v[p]), " differences v ", ev / V, " x ", ex / w.dx, " F ", eF)); return false; } } }
        c.count(str("paired steps: ", mn[mode])); c.seen(str(mn[mode], w.sig(), std::min<size_t>(k, 5))); k++; return true;
    });
    if (!A.empty() && k == 0 && c.viol.empty()) c.count("pairs without a comparable step"); c.sample(c.note);
}
void run_case(Ctx& c) { if (c.rng.chance(0.5)) particleFriction(c); else boundaryFriction(c); }
void finish(Ctx&) {}
}

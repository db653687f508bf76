// C05: same result for every number of threads and every schedule; bitwise repeatable with one thread; no data races.
// Built with ThreadSanitizer (races), with the delaying OpenMP run-time (schedules) and with the real one.
#include "main.hpp"
#include "world.hpp"
#include "terrain.hpp"
extern "C" { void vh_gomp_seed(uint64_t, int) __attribute__((weak)); void vh_gomp_stats(uint64_t*) __attribute__((weak)); }
namespace vh {
#if defined(__SANITIZE_THREAD__)
static const bool TSAN = true;
#else
static const bool TSAN = false;
#endif
struct Run { std::vector<Snap> s; std::vector<double> dt; std::vector<std::vector<double>> gm, gf; std::vector<std::vector<TV>> gv; bool ended = false, exit = false; std::vector<int> amb; double p0 = 0, xi = 0; }; static int g_fault = 0;
static void go(const World& w, int threads, Run& R, int cap, bool cond, const std::string& dir = "") {
    Simulation a; if (!dir.empty()) { a.initialize(true, dir, "run"); a.save_grid = true; } w.build(a); a.n_threads = threads; if (g_fault == 1) for (auto& p : a.plates) p->bc = (BC)99; if (g_fault == 2) for (auto& p : a.objects) p->bc = (BC)99; if (g_fault == 3) { a.elastic_model = ElasticModel::Hencky; a.plastic_model = w.mibf ? PlasticModel::MCCMui : PlasticModel::MCC; a.hardening_law = (HardeningLaw)99; } if (g_fault == 4) { a.elastic_model = ElasticModel::Hencky; a.plastic_model = PlasticModel::MCCVisc; a.hardening_law = HardeningLaw::ExpoExpl; a.use_duvaut_lions_formulation = true; a.visc_exponent = 2; } bool ill = false; R.p0 = a.p0; R.xi = a.xi;
    StepMonitor m(a, cap, [&](StepRec& q) { R.s.push_back(q.post); R.dt.push_back(q.dt); R.gm.push_back(q.grid.mass); R.gv.push_back(q.grid.v); R.gf.push_back(q.grid.friction); if (cond && !ill) { RefOut o = refStep(a, q.pre, q.dt, q.pre.gravity, gridOrg(q.grid), nullptr); if (o.ambiguous || o.cond < 1e-3) ill = true; } R.amb.push_back(ill); });
    try { a.simulate(); } catch (OutOfDomain&) { R.ended = true; } catch (StepLimit&) { R.ended = true; } R.exit = a.exit;
}
template <class A> static bool sameBits(const std::vector<A>& a, const std::vector<A>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(A))); }
static std::string bitDiff(const Snap& a, const Snap& b) {
#define F(f) if (!sameBits(a.f, b.f)) return #f;
    F(x) F(v) F(pic) F(flip) F(F) F(B) F(tau) F(epd) F(epv) F(eppr) F(dg) F(visc) F(muI)
#undef F
    return ""; }
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.threads = false; o.maxFrames = TSAN ? 2 : 4; o.pbcP = 0.3; World w = randomWorld(r, o); if (w.pm != PlasticModel::NoPlasticity && r.chance(0.3)) w.mibf = true; if (!w.mibf) w.mibf = r.chance(0.1) && w.pm != PlasticModel::NoPlasticity;
    int n = r.chance(0.2) ? r.range(9, 16) : r.range(2, 8); if (r.chance(0.1)) n = (int)w.x.size() + r.range(0, 2); n = std::max(2, std::min(n, TSAN ? 8 : 24)); int cap = TSAN ? 4 : 40; c.note = str(c.idx, " threads=", n, " ", w.desc());
    if (vh_gomp_seed) vh_gomp_seed(r.next(), 1 + r.below(2)); uint64_t st0[5] = {0, 0, 0, 0, 0}, st1[5] = {0, 0, 0, 0, 0}; if (vh_gomp_stats) vh_gomp_stats(st0);
    g_fault = r.chance(0.15) ? r.range(1, 4) : 0; if (g_fault == 1 && w.plates.empty()) g_fault = w.spheres.empty() ? 3 : 2; if (g_fault == 2 && w.spheres.empty()) g_fault = 3; if (g_fault) { w.epv.clear(); c.note += str(" fault ", g_fault); }
    bool save = TSAN && r.chance(0.25); Run A, B; go(w, n, B, cap, false, save ? c.scratch + "/" : ""); if (save) c.count("saving runs"); c.evaluations++; c.count("parallel steps", (long)B.s.size()); if (w.pbc) c.count("periodic parallel steps", (long)B.s.size()); if (w.mibf) c.count("parallel steps with material friction", (long)B.s.size()); if (n > (int)w.x.size()) c.count("more threads than particles"); if (w.musl) c.count("parallel MUSL steps", (long)B.s.size()); if (w.pm != PlasticModel::NoPlasticity) c.count("parallel plastic steps", (long)B.s.size());
    if (vh_gomp_stats) { vh_gomp_stats(st1); c.count("parallel regions", st1[0] - st0[0]); c.count("threads run", st1[1] - st0[1]); c.count("critical sections", st1[2] - st0[2]); c.count("injected delays", st1[3] - st0[3]); c.count("distinct merge orders", st1[4] - st0[4]); }
    c.seen(str(w.sig(), n, TSAN, w.mibf)); c.sample(c.note);
    if (B.exit) c.count("runs whose threads report a failure"); if (TSAN) return;
    go(w, 1, A, cap, true);
    if (r.chance(0.3)) { Run A2; go(w, 1, A2, cap, false); bool allfin = true; for (size_t k = 0; k < std::min(A.s.size(), A2.s.size()); k++) { if (k < A.dt.size() && k < A2.dt.size() && A.dt[k] != A2.dt[k]) { c.fail("not-repeatable:dt", str("step ", k)); return; } bool fin = true; for (auto& F : A.s[k].F) fin &= finite(F) && F.cwiseAbs().maxCoeff() < 1e20; for (auto& v : A.s[k].v) fin &= finite(v); if (!fin) { allfin = false; break; } std::string d = bitDiff(A.s[k], A2.s[k]); if (!d.empty()) { c.fail("not-repeatable:" + d, str("step ", k)); return; } c.count("steps repeated bit for bit"); } if (allfin && A.s.size() != A2.s.size()) { c.fail("not-repeatable:steps", str(A.s.size(), " and ", A2.s.size())); return; } }
    if (A.exit != B.exit && !A.ended && !B.ended) { bool wild = false; for (auto* q : {&A, &B}) for (auto& s : q->s) for (auto& F : s.F) wild |= !finite(F) || F.norm() > 5; if (!wild && g_fault) { c.fail("failure-flag", str(n, " threads ", B.exit, " one thread ", A.exit)); return; } }
    double growth = 1; size_t done = 0; int N = (int)w.x.size(); bool mcc = w.pm == PlasticModel::MCC || w.pm == PlasticModel::MCCVisc || w.pm == PlasticModel::MCCMui, iter = mcc || w.pm == PlasticModel::VMVisc || w.pm == PlasticModel::DPVisc; double mu = w.E / 2 / (1 + w.nu);
    for (size_t k = 0; k < std::min(A.s.size(), B.s.size()); k++) {
        if (A.amb[k]) { c.skipped++; return; } const Snap &a = A.s[k], &b = B.s[k]; growth *= 30; double V = std::max({amax(a.v), amax(w.v), 1e-30}) + w.cw * 1e-3, tol = 1e-13 * growth + 1e-10; if (tol > 1e-5) return;
        if (std::abs(A.dt[k] - B.dt[k]) > tol * A.dt[k]) { c.fail("time-step", str("step ", k, ": ", A.dt[k], " vs ", B.dt[k])); return; }
        if (a.Np != b.Np || a.x.size() != b.x.size()) { c.fail("particle-count", str("step ", k)); return; }
        for (int p = 0; p < N; p++) {
            if (!finite(a.F[p]) || !finite(a.v[p])) { c.count("ended: non-finite state from the material law"); return; }
            auto ev = [&](const TV& x, const TV& y) { return (x - y).cwiseAbs().maxCoeff(); }; TV d = (b.x[p] - a.x[p]).cwiseAbs(); if (w.pbc && d(0) > w.Lx / 2) d(0) = std::abs(d(0) - w.Lx);
            if (!(d.maxCoeff() <= tol * w.dx)) { c.fail("position", str("step ", k, " p=", p, " ", n, " threads ", sv(b.x[p]), " one thread ", sv(a.x[p]))); return; }
            if (!(ev(b.v[p], a.v[p]) <= 10 * tol * V)) { c.fail("velocity", str("step ", k, " p=", p, " ", n, " threads ", sv(b.v[p]), " one thread ", sv(a.v[p]))); return; }
            if (!((b.B[p] - a.B[p]).cwiseAbs().maxCoeff() <= 20 * tol * V * w.dx)) { c.fail("affine", str("step ", k, " p=", p, " ", sm(b.B[p]), " one thread ", sm(a.B[p]))); return; }
            double Fn = std::max(1.0, a.F[p].norm()), eF = (b.F[p] - a.F[p]).cwiseAbs().maxCoeff(), loose = iter ? 0.1 / mu + (mcc ? 2e-2 * A.p0 / mu : 0) : 0, tolF = w.pm == PlasticModel::NoPlasticity ? 10 * tol : 100 * tol + 1e-9;
            if (!(eF <= tolF * Fn)) {
                bool wild = false; if (mcc) { Eigen::JacobiSVD<TM> s1(a.F[p]); wild = k > 1 || !(std::abs(A.xi * a.epv[p]) < 2) || !(std::abs(A.xi * b.epv[p]) < 2) || !(s1.singularValues().minCoeff() > 0.8) || !(s1.singularValues().maxCoeff() < 1.25) || A.exit || B.exit; }
                const TM& Fp = k ? A.s[k - 1].F[p] : w.F[p]; if (w.pm != PlasticModel::NoPlasticity && !((a.F[p] - Fp).norm() < 0.3)) wild = true;
                if (eF <= loose || wild) { c.skipped++; c.count("ended: material solver tolerance"); return; }
                c.fail("deformation", str("step ", k, " p=", p, " ", n, " threads ", sm(b.F[p]), " one thread ", sm(a.F[p]))); return; }
            // decisions: a particle yields with n threads exactly when it yields with one (away from ties)
            if (!iter && w.pm != PlasticModel::NoPlasticity) { double ea = a.epd[p] - (k ? A.s[k - 1].epd[p] : 0), eb = b.epd[p] - (k ? B.s[k - 1].epd[p] : 0); if (!(std::abs(ea - eb) <= 100 * tol + 1e-8)) { c.fail("plastic-strain", str("step ", k, " p=", p, " ", eb, " one thread ", ea)); return; } }
        }
        // grid
        if (A.gm[k].size() != B.gm[k].size()) { c.skipped++; return; } double M = a.pm;
        for (size_t i = 0; i < A.gm[k].size(); i++) {
            if (!(std::abs(A.gm[k][i] - B.gm[k][i]) <= 10 * tol * M * (1 + N))) { c.fail("grid-mass", str("step ", k, " node ", i, " ", B.gm[k][i], " one thread ", A.gm[k][i])); return; }
            if (A.gm[k][i] > 1e-6 * M) {
                if (!((A.gv[k][i] - B.gv[k][i]).cwiseAbs().maxCoeff() <= 1e3 * tol * V * M / A.gm[k][i])) { c.fail("grid-velocity", str("step ", k, " node ", i, " ", sv(B.gv[k][i]), " one thread ", sv(A.gv[k][i]))); return; }
                if (w.mibf && A.gf[k].size() == A.gm[k].size() && !iter && !(std::abs(A.gf[k][i] - B.gf[k][i]) <= 1e4 * tol * (1 + std::abs(A.gf[k][i])))) { c.fail("grid-friction", str("step ", k, " node ", i, " ", B.gf[k][i], " one thread ", A.gf[k][i])); return; }
            }
        }
        done++; c.count("steps compared with one thread"); c.seen(str("D", w.sig(), n, k));
    }
    if (A.s.size() != B.s.size() && !A.ended && !B.ended && !A.exit && !B.exit && done == std::min(A.s.size(), B.s.size())) c.fail("step-count", str(A.s.size(), " vs ", B.s.size()));
}
void finish(Ctx&) {}
}

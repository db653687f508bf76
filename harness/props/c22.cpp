// C22: other units (length, time, mass) and a common velocity change nothing but the numbers that carry them.
#include "main.hpp"
#include "world.hpp"
namespace vh {
struct Units { double L, T, M, V, S, R; Units(double l, double t, double m) : L(l), T(t), M(m), V(l / t), S(m * l * l / t / t / std::pow(l, D)), R(m / std::pow(l, D)) {} };
static double two(Rng& r, int k) { return std::ldexp(1.0, r.range(-k, k)); }
static bool iterative(PlasticModel p) { return p == PlasticModel::MCC || p == PlasticModel::MCCVisc || p == PlasticModel::MCCMui || p == PlasticModel::VMVisc || p == PlasticModel::DPVisc; }
struct Rec { Snap pre, post; double dt, time; bool ill; double cond; };

static void units(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.threads = false; o.maxFrames = 5; o.bigP = 0.004; o.longFrames = 120; World w = randomWorld(r, o);
    bool iter = iterative(w.pm);
    if (w.threads != 1) w.threads = 1;
    int which = r.below(5); Units U(which == 1 || which == 2 ? 1 : two(r, 12), which == 0 || which == 2 ? 1 : two(r, 12), which == 0 || which == 1 ? 1 : two(r, 20));
    if (!(std::abs(std::log2(U.S)) <= 10)) U = Units(U.L, U.T, two(r, 10) * U.T * U.T * std::pow(U.L, D - 2));   // the return mappings treat yield stresses below 1e-10 as none: keep to practical stresses
    if (iter) { if (U.L == 1 && U.T == 1) U = Units(two(r, 12), two(r, 12), 1); U = Units(U.L, U.T, U.T * U.T * std::pow(U.L, D - 2)); }   // iterations stop at residuals in units of stress: the same unit of stress
    bool ramp = r.chance(0.2); double gt = w.endFrame / w.fps * r.uni(0.1, 1.5);
    World u = w; u.dx *= U.L; u.E *= U.S; u.rho *= U.R; u.pv *= std::pow(U.L, D); u.Lx *= U.L; u.Ly *= U.L; u.Lz *= U.L; u.fps /= U.T; u.g *= U.L / U.T / U.T; u.ref *= U.L;
    for (auto& x : u.x) x *= U.L; for (auto& v : u.v) v *= U.V; for (auto& b : u.B) b *= U.V * U.L; for (auto& t : u.tau) t *= U.S;
    for (auto& p : u.plates) { p.pos *= U.L; if (std::abs(p.lo) < 1e14) p.lo *= U.L; if (std::abs(p.hi) < 1e14) p.hi *= U.L; p.vel *= U.V; } for (auto& p : u.spheres) { p.c *= U.L; p.r *= U.L; }
    Simulation a, b; w.build(a); u.build(b); b.visc_time *= U.T; b.rho_s *= U.R; b.grain_diameter *= U.L; b.min_dt *= U.T; b.stress_tolerance *= U.S; if (ramp) { a.gravity_special = b.gravity_special = true; a.gravity_time = gt; b.gravity_time = gt * U.T; }
    c.note = str(c.idx, " units length x", U.L, " time x", U.T, " mass x", U.M, " ramp=", ramp, " ", w.desc());
    bool mcc = w.pm == PlasticModel::MCC || w.pm == PlasticModel::MCCVisc || w.pm == PlasticModel::MCCMui; double mu = w.E / 2 / (1 + w.nu), loose = iter ? 0.1 / mu + (mcc ? 2e-2 * a.p0 / mu : 0) : 0;   // a changed iteration count
    std::vector<Rec> A; bool ended = false, endedB = false; int cap = w.kind.find("big") != std::string::npos ? 4 : 60;
    {   StepMonitor M(a, cap, [&](StepRec& R) { A.push_back({R.pre, R.post, R.dt, R.time, false, 1}); }); M.wantGrid = false; try { a.simulate(); } catch (OutOfDomain& e) { ended = true; c.count(std::string("ended: ") + e.what()); } catch (StepLimit&) { ended = true; } }
    size_t k = 0; bool stop = false;
    {   StepMonitor M(b, cap, [&](StepRec& R) {
            if (stop) return; if (k >= A.size()) { k++; if (!ended) { c.fail("unit-steps", str("more steps than the ", A.size(), " of the original")); stop = true; } return; }
            Rec& L = A[k++]; int n = (int)L.pre.Np; for (int p = 0; p < n; p++) if (!finite(L.post.x[p]) || !finite(L.post.v[p]) || !finite(L.post.F[p]) || !finite(L.post.tau[p]) || !finite(L.post.B[p]) || amax(L.post.F) > 1e6) { stop = true; c.count("ended: non-finite state"); return; }
            c.evaluations++;
            auto fail = [&](const char* key, const std::string& d) { c.fail(std::string("unit-") + key, str("step ", k, " ", d)); stop = true; };
            if (!(std::abs(R.dt - L.dt * U.T) <= 1e-9 * R.dt) || !(std::abs(R.time - L.time * U.T) <= 1e-9 * (R.time + R.dt))) return fail("time-step", str("dt ", R.dt, " at ", R.time, " want ", L.dt * U.T, " at ", L.time * U.T));
            // powers of two commute with every operation; the tolerance only allows for differently rounded library functions
            double tol = 1e-9, xs = amax(L.post.x), V = std::max({amax(L.pre.v), amax(L.post.v), amax(L.post.pic), 1e-30}), Bs = std::max({amax(L.pre.B), amax(L.post.B), V * w.dx * 1e-3}), Ts = std::max({amax(L.pre.tau), amax(L.post.tau), w.E * 1e-9});
            for (int p = 0; p < n; p++) {
                auto dv = [](const TV& x, const TV& y) { return (x - y).cwiseAbs().maxCoeff(); }; auto dm = [](const TM& x, const TM& y) { return (x - y).cwiseAbs().maxCoeff(); };
                if (!(dv(R.post.x[p] / U.L, L.post.x[p]) <= tol * (w.dx + V * L.dt) + 1e-14 * xs)) return fail("position", str("p=", p, " ", sv(R.post.x[p] / U.L), " want ", sv(L.post.x[p])));
                if (!(dv(R.post.v[p] / U.V, L.post.v[p]) <= tol * V) || !(dv(R.post.pic[p] / U.V, L.post.pic[p]) <= tol * V)) return fail("velocity", str("p=", p, " ", sv(R.post.v[p] / U.V), " want ", sv(L.post.v[p])));
                if (!(dm(R.post.B[p] / U.V / U.L, L.post.B[p]) <= tol * Bs)) return fail("affine", str("p=", p, " ", sm(R.post.B[p] / U.V / U.L), " want ", sm(L.post.B[p])));
                if (iter && !(dm(R.post.F[p], L.post.F[p]) <= tol) && (dm(R.post.F[p], L.post.F[p]) <= loose || a.exit || b.exit)) { c.count("material solver tolerance"); continue; }
                if (!(dm(R.post.F[p], L.post.F[p]) <= tol * std::max(1.0, L.post.F[p].norm()))) return fail("deformation", str("p=", p, " ", sm(R.post.F[p]), " want ", sm(L.post.F[p])));
                if (!(dm(R.post.tau[p] / U.S, L.post.tau[p]) <= 1e-8 * std::max(Ts, w.E))) return fail("stress", str("p=", p, " ", sm(R.post.tau[p] / U.S), " want ", sm(L.post.tau[p])));
                double es = std::max({1.0, std::abs(L.post.epd[p]), std::abs(L.post.epv[p]), std::abs(L.post.eppr[p])}); if (!(std::abs(R.post.epd[p] - L.post.epd[p]) <= tol * es) || !(std::abs(R.post.epv[p] - L.post.epv[p]) <= tol * es) || !(std::abs(R.post.eppr[p] - L.post.eppr[p]) <= tol * es)) return fail("plastic-strain", str("p=", p, " ", R.post.epd[p], " ", R.post.epv[p], " ", R.post.eppr[p], " want ", L.post.epd[p], " ", L.post.epv[p], " ", L.post.eppr[p]));
                if (std::isfinite(L.post.muI[p]) && !(std::abs(R.post.muI[p] - L.post.muI[p]) <= tol * (1 + std::abs(L.post.muI[p])))) return fail("friction", str("p=", p, " ", R.post.muI[p], " want ", L.post.muI[p]));
            }
            for (size_t i = 0; i < L.post.plates.size(); i++) if (!(std::abs(R.post.plates[i].pos_object / U.L - L.post.plates[i].pos_object) <= tol * (w.dx + std::abs(L.post.plates[i].pos_object)))) return fail("plate", str("plate ", i, " at ", R.post.plates[i].pos_object / U.L, " want ", L.post.plates[i].pos_object));
            c.count("steps in other units"); if (iter) c.count("steps of iterative models in other units"); c.count("particle-steps in other units", n); if (U.L != 1) c.count("other length"); if (U.T != 1) c.count("other time"); if (U.M != 1) c.count("other mass"); if (w.pm != PlasticModel::NoPlasticity) c.count("plastic steps in other units"); if (w.plates.size() + w.spheres.size()) c.count("steps with boundaries in other units");
            c.seen(str("units", w.sig(), U.L != 1, U.T != 1, U.M != 1, std::min<size_t>(k, 8)));
        }); M.wantGrid = false;
        auto in = b.monitor; b.monitor = [&](Simulation::MonitorStage st) {
            if (st == Simulation::MonitorStage::StepBegin && !stop && k < A.size()) { const Snap& P = A[k].pre; Particles& q = b.particles; q.x = P.x; for (auto& x : q.x) x *= U.L; q.v = P.v; for (auto& x : q.v) x *= U.V; q.Bmat = P.B; for (auto& x : q.Bmat) x *= U.V * U.L; q.F = P.F; q.tau = P.tau; for (auto& x : q.tau) x *= U.S; q.eps_pl_dev = P.epd; q.eps_pl_vol = P.epv; q.eps_pl_vol_pradhana = P.eppr; q.muI = P.muI; }
            in(st); };
        try { b.simulate(); } catch (OutOfDomain&) { endedB = true; } catch (StepLimit&) { endedB = true; } b.monitor = nullptr; }
    if (!stop && !ended && !endedB && k != A.size()) c.fail("unit-steps", str(k, " steps, original ", A.size()));
    if (!stop && !ended && !endedB && a.exit != b.exit) c.fail("unit-flag", str(a.exit, " vs ", b.exit));
}

static void frame(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.bounds = false; o.pbc = false; o.realDt = false; o.threads = false; o.maxFrames = 5; o.longP = 0.01; World w = randomWorld(r, o); w.cfl = 1e9;
    TV V = rvec(r, w.vs * r.logu(0.1, 10)); if (r.chance(0.3)) { int d = r.below(D); for (int e = 0; e < D; e++) if (e != d) V(e) = 0; }
    World u = w; for (auto& v : u.v) v += V; Simulation a, b; w.build(a); u.build(b); c.note = str(c.idx, " frame V=", sv(V), " ", w.desc());
    std::vector<Rec> A; bool mcc = w.pm == PlasticModel::MCC || w.pm == PlasticModel::MCCVisc || w.pm == PlasticModel::MCCMui; double mu = w.E / 2 / (1 + w.nu), loose = iterative(w.pm) ? 0.1 / mu + (mcc ? 2e-2 * a.p0 / mu : 0) : 0;
    {   StepMonitor M(a, 25, [&](StepRec& R) { bool fin = true; for (unsigned p = 0; p < R.pre.Np; p++) fin = fin && finite(R.post.x[p]) && finite(R.post.v[p]) && finite(R.pre.tau[p]) && finite(R.pre.B[p]) && finite(R.pre.F[p]); if (!fin) throw OutOfDomain("non-finite state");
            RefOut q = refStep(a, R.pre, R.dt, R.pre.gravity, gridOrg(R.grid), nullptr); A.push_back({R.pre, R.post, R.dt, R.time, q.ambiguous || q.cond < 1e-5, q.cond}); });
        try { a.simulate(); } catch (OutOfDomain& e) { c.count(std::string("ended: ") + e.what()); } catch (StepLimit&) {} }
    size_t k = 0; bool stop = false; double dtb = 0; int n = (int)w.x.size();
    b.monitor = [&](Simulation::MonitorStage st) {
        if (st == Simulation::MonitorStage::StepBegin) {
            if (stop || k >= A.size()) throw StepLimit(); const Snap& P = A[k].pre; Particles& q = b.particles; q.x = P.x; q.v = P.v; for (auto& v : q.v) v += V; q.Bmat = P.B; q.F = P.F; q.tau = P.tau; q.eps_pl_dev = P.epd; q.eps_pl_vol = P.epv; q.eps_pl_vol_pradhana = P.eppr; q.muI = P.muI; dtb = b.monitorDt();
            if (!(std::abs(dtb - A[k].dt) <= 1e-12 * dtb)) { c.count("ended: other step length"); throw StepLimit(); }
        } else if (st == Simulation::MonitorStage::StepEnd) {
            const Rec& L = A[k]; Snap R = snap(b); k++; double xs = amax(L.pre.x) / w.dx, tol = 1e-9 + 20e-13 * (1 + xs) / L.cond; if (L.ill || tol > 1e-5) { c.skipped++; return; } c.evaluations++;
            double S = std::max({amax(L.pre.v), amax(L.post.v), amax(L.post.pic), R.gravity.norm() * L.dt, V.norm(), 1e-30}), G = 0; for (int p = 0; p < n; p++) G = std::max({G, L.post.B[p].norm() / w.dx, (L.post.F[p] - L.pre.F[p]).norm() / L.dt * w.dx, L.post.flip[p].norm(), L.dt * w.pv * L.pre.tau[p].norm() / w.dx / (w.rho * w.pv)}); S += G;
            for (int p = 0; p < n; p++) {
                auto fail = [&](const char* key, const std::string& d) { c.fail(std::string("frame-") + key, str("step ", k, " p=", p, " x=", sv(L.pre.x[p]), " ", d)); stop = true; };
                if (!((R.x[p] - L.post.x[p] - L.dt * V).cwiseAbs().maxCoeff() <= tol * S * L.dt + 1e-13 * xs * w.dx)) return fail("position", str(sv(R.x[p]), " want ", sv(L.post.x[p] + L.dt * V)));
                if (!((R.v[p] - L.post.v[p] - V).cwiseAbs().maxCoeff() <= 10 * tol * S)) return fail("velocity", str(sv(R.v[p]), " want ", sv(L.post.v[p] + V)));
                if (!((R.B[p] - L.post.B[p]).cwiseAbs().maxCoeff() <= 10 * tol * S * w.dx)) return fail("affine", str(sm(R.B[p]), " want ", sm(L.post.B[p])));
                if (!((L.post.F[p] - L.pre.F[p]).norm() < 0.3)) continue;
                if (mcc) { Eigen::JacobiSVD<TM> sd(L.post.F[p]); if (!(std::abs(a.xi * L.post.epv[p]) < 2) || !(sd.singularValues().minCoeff() > 0.8) || !(sd.singularValues().maxCoeff() < 1.25)) continue; }
                double e = (R.F[p] - L.post.F[p]).cwiseAbs().maxCoeff(), Fn = std::max(1.0, L.post.F[p].norm()), tF = (w.pm == PlasticModel::NoPlasticity ? 10 : 100) * tol * std::max(1.0, S * L.dt / w.dx) + 1e-8;
                if (!(e <= tF * Fn)) { if (a.exit || b.exit || e <= loose || (atTip(a, L.post.F[p]) && atTip(a, R.F[p]))) { c.count("material solver tolerance"); continue; } return fail("deformation", str(sm(R.F[p]), " want ", sm(L.post.F[p]))); }
                c.count("particle-steps in another frame of reference");
            }
            c.count("steps in another frame of reference"); c.seen(str("frame", w.sig(), std::min<size_t>(k, 8)));
        } };
    try { b.simulate(); } catch (StepLimit&) {} b.monitor = nullptr;
}
void run_case(Ctx& c) { if (c.rng.chance(0.7)) units(c); else frame(c); c.sample(c.note); }
void finish(Ctx&) {}
}

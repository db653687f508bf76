// C16: periodic boundaries are seamless: range, records, balances, and paired runs shifted cyclically by whole cells.
#include "main.hpp"
#include "world.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.pbcP = 1; o.boundsP = 0; o.maxFrames = 8; World w = randomWorld(r, o); int n = (int)w.x.size(), cells = (int)std::lround(w.Lx / w.dx); w.Ly = r.range(4, 7) * w.dx; w.Lz = r.range(4, 6) * w.dx;
    double sy = w.Ly - 3.5 * w.dx; if (r.chance(0.4)) for (auto& x : w.x) for (int d = 1; d < D; d++) x(d) += r.u() * sy * (d == 1); if (r.chance(0.2)) for (auto& x : w.x) if (r.chance(0.3)) x(0) = r.chance(0.5) ? 0 : w.Lx;
    if (r.chance(0.2)) for (auto& x : w.x) if (r.chance(0.5)) x(0) = std::min(w.Lx, w.dx * r.range(0, 2 * cells) * 0.5);
    double stream = r.sgn() * r.uni(0, 0.6) * w.dx / w.dt0; if (w.cfl < 1e5) stream = r.sgn() * r.uni(0, 1) * w.cw; bool flow = r.chance(0.7); if (flow) for (auto& v : w.v) { v(0) += stream; v(1) *= 0.1; }
    if (r.chance(0.5)) w.g(1) *= 0.01; bool plates = r.chance(0.4);
    if (plates) for (int k = r.range(1, 2); k > 0; k--) { std::vector<PlateType> ts = {PlateType::top, PlateType::bottom}; if (D == 3) { ts.push_back(PlateType::front); ts.push_back(PlateType::back); } PlateType t = r.pick(ts); bool up = t == PlateType::top || t == PlateType::front; double L = up ? 3.5 * w.dx : 0.5 * w.dx; TV vel = r.chance(0.5) ? TV(TV::Zero()) : rvec(r, w.vs * 0.3); w.plates.push_back({L + r.uni(-1, 1) * w.dx, t, r.pick(ALL_BC), r.chance(0.3) ? 0 : r.uni(0, 1), -1e15, 1e15, vel, r.chance(0.3) ? 3.0 : 1.0, r.uni(0, 3)}); }
    int m = r.range(1, cells - 1); double sh = m * w.dx; auto wrap = [&](double x) { double y = x + sh; if (y > w.Lx) y -= w.Lx; else if (y == w.Lx && (m & 1)) y = 0; return y; };
    World u = w; for (auto& x : u.x) x(0) = wrap(x(0)); u.threads = r.chance(0.3) ? r.range(1, 4) : w.threads;
    c.note = str(c.idx, " shift ", m, "/", cells, " ", w.desc(), " flow=", flow, " stream=", stream); Simulation a, b; w.build(a); u.build(b);
    struct Rec { Snap pre, post; double dt; bool ill; double cond; }; std::vector<Rec> A; bool bad = false; bool mibf = w.mibf; uint64_t ms = r.next();
    auto muI = [&](Simulation& s, int k) { if (mibf) { Rng q(mix(ms, k)); for (auto& x : s.particles.muI) x = q.uni(0, 1.2); } };
    {
        StepMonitor M(a, 25, [&](StepRec& R) {
            if (bad) return; c.evaluations++;
            auto sz = [&](size_t k) { return k == (size_t)n; }; Particles& q = a.particles;
            if (a.Np != (unsigned)n || !sz(q.x.size()) || !sz(q.v.size()) || !sz(q.pic.size()) || !sz(q.flip.size()) || !sz(q.F.size()) || !sz(q.Bmat.size()) || !sz(q.tau.size()) || !sz(q.muI.size()) || !sz(q.eps_pl_vol.size()) || !sz(q.eps_pl_dev.size()) || !sz(q.eps_pl_vol_pradhana.size()) || !sz(q.delta_gamma.size()) || !sz(q.viscosity.size())) { c.fail("images-persist", str("step ", R.n, " Np=", a.Np, " of ", n)); bad = true; return; }
            bool fin = true; for (int p = 0; p < n; p++) fin = fin && finite(R.post.x[p]) && finite(R.post.v[p]) && finite(R.pre.tau[p]) && finite(R.pre.B[p]) && finite(R.pre.F[p]); if (!fin) throw OutOfDomain("non-finite state");
            double vm = std::max(amax(R.post.pic), amax(R.pre.v));
            if (vm * R.dt < 0.9 * w.Lx) for (int p = 0; p < n; p++) { double x = R.post.x[p](0); if (!(x >= 0 && x <= w.Lx)) { c.fail("left-the-period", str("p=", p, " x=", x, " Lx=", w.Lx, " was ", R.pre.x[p](0), " step ", R.n)); bad = true; return; }
                double jump = R.post.x[p](0) - R.pre.x[p](0) - R.dt * R.post.pic[p](0), k = std::round(jump / w.Lx); if (!(std::abs(jump - k * w.Lx) <= 1e-12 * (w.Lx + vm * R.dt))) { c.fail("wrap", str("p=", p, " moved from ", R.pre.x[p](0), " to ", x, " with v dt=", R.dt * R.post.pic[p](0), " Lx=", w.Lx)); bad = true; return; } if (k != 0) c.count("crossings"); if (x == 0 || x == w.Lx) c.count("particles exactly on the seam"); }
            // mass of one period and momentum
            double s = 0; TV mom = TV::Zero(); const Grid& g = R.grid; auto ax = axes(g); long K = D == 3 ? (long)ax[2]->size() : 1;
            for (long i = 0; i < (long)g.x.size(); i++) { double X = g.x[i]; if (!(X > -0.5 * w.dx && X < w.Lx - 0.5 * w.dx)) continue; for (long j = 0; j < (long)g.y.size(); j++) for (long k = 0; k < K; k++) { size_t id = nodeIndex(g, i, j, k); s += g.mass[id]; if (g.mass[id] > 0) mom += g.mass[id] * g.v[id]; } }
            if (!(std::abs(s / R.pre.pm - n) <= 1e-9 * n)) { c.fail("period-mass", str("one period holds ", s / R.pre.pm, " of ", n, " step ", R.n)); bad = true; return; } c.count("period mass checked");
            if (w.plates.empty()) {
                TV p0 = TV::Zero(), p1 = TV::Zero(); double sc = 0, st = 0; for (int p = 0; p < n; p++) { p0 += R.pre.v[p]; p1 += R.post.v[p]; sc += R.pre.v[p].norm() + R.post.v[p].norm() + R.pre.B[p].norm() / w.dx * 10; st += R.dt * w.pv * R.pre.tau[p].norm() / w.dx * 10 / (w.rho * w.pv); }
                TV want = p0 + (double)n * R.dt * R.pre.gravity; double tol = 1e-10 * (sc + st + n * R.dt * R.pre.gravity.norm());
                if (!((p1 - want).cwiseAbs().maxCoeff() <= tol)) { c.fail("momentum", str("step ", R.n, " got ", sv(p1), " want ", sv(want))); bad = true; return; } c.count("momentum balances"); }
            RefOut q2 = refStep(a, R.pre, R.dt, R.pre.gravity, gridOrg(R.grid), nullptr); A.push_back({R.pre, R.post, R.dt, q2.ambiguous || q2.cond < 1e-5, q2.cond});
            // against the reference step in which images act as ordinary material
            Rec& L = A.back(); double xs = w.Lx / w.dx, eps = 1e-13 * (1 + xs) / q2.cond, tol = 1e-9 + 20 * eps; if (!L.ill && tol < 1e-5) {
                double V = std::max({amax(R.pre.v), amax(q2.post.pic), R.dt * R.pre.gravity.norm(), amax(R.pre.B) / w.dx, 1e-30}), nv = V; for (auto& kv : q2.grid.g) if (kv.second.m > 0) nv = std::max(nv, kv.second.vn.cwiseAbs().maxCoeff() * std::min(1.0, kv.second.m / R.pre.pm * 1e3)); for (auto& p : R.pre.plates) nv = std::max(nv, plateVel(p).norm());
                for (int p = 0; p < n; p++) { if (!((R.post.pic[p] - q2.post.pic[p]).cwiseAbs().maxCoeff() <= tol * nv) || !((R.post.v[p] - q2.post.v[p]).cwiseAbs().maxCoeff() <= tol * nv) || !((R.post.B[p] - q2.post.B[p]).cwiseAbs().maxCoeff() <= tol * nv * w.dx)) { c.fail("seam-interaction", str("step ", R.n, " p=", p, " x=", sv(R.pre.x[p]), " v got ", sv(R.post.v[p]), " want ", sv(q2.post.v[p]), " pic ", sv(R.post.pic[p]), " want ", sv(q2.post.pic[p]))); bad = true; return; } }
                c.count("reference steps"); }
        });
        auto in = M.s.monitor; int k = 0; a.monitor = [&](Simulation::MonitorStage st) { if (st == Simulation::MonitorStage::StepBegin) muI(a, k++); in(st); };
        try { a.simulate(); } catch (OutOfDomain& e) { c.count(std::string("ended: ") + e.what()); } catch (StepLimit&) { c.count("ended: step limit"); }
    }
    if (bad) return;
    {
        size_t k = 0; bool stop = false; double dtb = 0;
        b.monitor = [&](Simulation::MonitorStage st) {
            if (stop) return;
            if (st == Simulation::MonitorStage::StepBegin) {
                if (k >= A.size()) throw StepLimit(); const Snap& P = A[k].pre; Particles& q = b.particles; q.x = P.x; for (auto& x : q.x) x(0) = wrap(x(0)); q.v = P.v; q.Bmat = P.B; q.F = P.F; q.tau = P.tau; q.eps_pl_dev = P.epd; q.eps_pl_vol = P.epv; q.eps_pl_vol_pradhana = P.eppr; q.muI = P.muI; dtb = b.monitorDt();
                if (!(std::abs(dtb - A[k].dt) <= 1e-7 * A[k].dt)) { stop = true; c.count("ended: other step length"); throw StepLimit(); }
            } else if (st == Simulation::MonitorStage::StepEnd) {
                const Rec& L = A[k]; Snap R = snap(b); k++; if (L.ill) { c.skipped++; return; } double tol = 1e-9 + 20e-13 * (1 + w.Lx / w.dx) / L.cond + 10 * std::abs(dtb / L.dt - 1); if (tol > 1e-5) { c.skipped++; return; } c.evaluations++;
                double V = std::max({amax(L.pre.v), amax(L.post.v), amax(L.post.pic), R.gravity.norm() * L.dt, 1e-30}); for (auto& q : L.pre.plates) V = std::max(V, plateVel(q).norm());
                // nodes of tiny mass may carry any velocity: scale by the largest velocity gradient seen
                double G = 0; for (int p = 0; p < n; p++) G = std::max({G, L.post.B[p].norm() / w.dx, (L.post.F[p] - L.pre.F[p]).norm() / L.dt * w.dx, L.post.flip[p].norm()}); V += G;
                bool mcc = w.pm == PlasticModel::MCC || w.pm == PlasticModel::MCCVisc || w.pm == PlasticModel::MCCMui, iter = mcc || w.pm == PlasticModel::VMVisc || w.pm == PlasticModel::DPVisc; double mu = w.E / 2 / (1 + w.nu), loose = iter ? 0.1 / mu + (mcc ? 2e-2 * a.p0 / mu : 0) : 0;
                for (int p = 0; p < n; p++) {
                    auto fail = [&](const char* key, const std::string& d) { c.fail(std::string("shift-") + key, str("step ", k, " p=", p, " x=", sv(L.pre.x[p]), " ", d)); stop = true; };
                    TV d = R.x[p] - L.post.x[p]; d(0) -= sh; d(0) -= w.Lx * std::round(d(0) / w.Lx); if (!(d.cwiseAbs().maxCoeff() <= tol * V * L.dt + 1e-12 * w.Lx)) return fail("position", str(sv(R.x[p]), " vs ", sv(L.post.x[p])));
                    if (!((R.v[p] - L.post.v[p]).cwiseAbs().maxCoeff() <= 10 * tol * V)) return fail("velocity", str(sv(R.v[p]), " vs ", sv(L.post.v[p])));
                    if (!((R.B[p] - L.post.B[p]).cwiseAbs().maxCoeff() <= 10 * tol * V * w.dx)) return fail("affine", str(sm(R.B[p]), " vs ", sm(L.post.B[p])));
                    if (!((L.post.F[p] - L.pre.F[p]).norm() < 0.3)) continue;   // near-inverted trial states have no unique axes
                    if (mcc) { Eigen::JacobiSVD<TM> sd(L.post.F[p]); if (!(std::abs(a.xi * L.post.epv[p]) < 2) || !(sd.singularValues().minCoeff() > 0.8) || !(sd.singularValues().maxCoeff() < 1.25)) continue; }
                    double e = (R.F[p] - L.post.F[p]).cwiseAbs().maxCoeff(), Fn = std::max(1.0, L.post.F[p].norm()), tF = (w.pm == PlasticModel::NoPlasticity ? 10 : 100) * tol * std::max(1.0, V * L.dt / w.dx) + 1e-8;
                    if (!(e <= tF * Fn)) { if (a.exit || b.exit || e <= loose || (atTip(a, L.post.F[p]) && atTip(a, R.F[p]))) { c.count("material solver tolerance"); continue; } return fail("deformation", str(sm(R.F[p]), " vs ", sm(L.post.F[p]))); }
                    c.count("particle-steps compared");
                }
                c.count("shifted steps"); if (w.musl) c.count("shifted MUSL steps"); if (mibf && plates) c.count("shifted steps with material friction"); if (plates) c.count("shifted steps with plates");
                c.seen(str(w.sig(), m, flow, std::min((int)k, 8), plates));
            } };
        try { b.simulate(); } catch (StepLimit&) {} b.monitor = nullptr;
    }
    c.sample(c.note);
}
void finish(Ctx&) {}
}

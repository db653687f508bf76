// C08: the adaptive grid covers the stencils, lies on one lattice and stays tight.
#include "main.hpp"
#include "world.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.bounds = false; o.stress = r.chance(0.3); o.gravity = r.chance(0.3); o.pbc = r.chance(0.3); o.pbcP = 0.4; o.nmax = 20; o.maxFrames = 1; o.origin = r.chance(0.2) ? 500 : 10; World w = randomWorld(r, o);
    int mode = r.below(6); w.endFrame = r.chance(0.04) ? r.range(30, 59) : r.range(2, 10); w.cfl = w.cfle = 1e9; w.fps = 1 / w.dt0; int n = (int)w.x.size();
    double reach = 0;
    if (!w.pbc && mode < 4) {          // ballistic motion: PIC velocity = particle velocity for separated or uniform particles
        w.pm = PlasticModel::NoPlasticity; w.mibf = false; w.em = ElasticModel::Hencky; w.g.setZero(); for (auto& t : w.tau) t.setZero(); for (auto& F : w.F) F.setIdentity(); for (auto& B : w.B) B.setZero(); w.E = 1e-6; w.cw = std::sqrt(w.E / w.rho);
        TV V; for (int d = 0; d < D; d++) V(d) = r.pick(std::vector<double>{0, 1, -1, 2, -3, 0.5, -0.5, r.uni(-3, 3), r.uni(-0.3, 0.3)}) * w.dx / w.dt0;
        bool groups = mode == 1 || mode == 3; TV ctr = TV::Zero(); for (auto& x : w.x) ctr += x / n;
        if (mode == 2 && r.chance(0.7)) { TV o0; for (int d = 0; d < D; d++) o0(d) = w.dx * r.range(-8, 8); for (auto& x : w.x) for (int d = 0; d < D; d++) x(d) = o0(d) + w.dx * 0.5 * r.range(0, 8); w.kind = "aligned"; }
        for (int p = 0; p < n; p++) { TV v = V; if (groups) for (int d = 0; d < D; d++) v(d) = w.x[p](d) > ctr(d) ? V(d) : (mode == 1 ? -V(d) : 0.3 * V(d)); w.v[p] = v; }
        if (groups) w.flip = r.chance(0.5) ? 0 : -2;
        reach = 3;
    }
    if (r.chance(0.4) && !w.pbc) { w.haveRef = true; w.ref = w.x[0]; for (int d = 0; d < D; d++) w.ref(d) += r.uni(-8, 8) * w.dx; if (r.chance(0.2)) w.ref.setZero(); TV q = w.ref; for (int d = 0; d < D; d++) if (std::abs(q(d) - w.x[0](d)) > 60 * w.dx) w.haveRef = false; } else w.haveRef = false;
    Simulation s; w.build(s); c.note = str(c.idx, " mode", mode, " ", w.desc(), " ref=", w.haveRef); bool stop = false; TV first = TV::Zero();
    StepMonitor mon(s, 60, [&](StepRec& R) {
        if (stop) return; c.evaluations++;
        const Grid& g = R.grid; auto ax = axes(g); auto bad = [&](const std::string& k, const std::string& d) { c.fail(k, str("step ", R.n, ": ", d)); stop = true; };
        if (g.mass.size() != gridCount(g) || g.v.size() != gridCount(g) || g.flip.size() != gridCount(g)) return bad("grid-size", str(g.mass.size(), " vs ", gridCount(g)));
        std::vector<int> id; std::vector<TV> px; contributors(s, R.pre.x, id, px); TV org = gridOrg(g); double xs = xScale(R.pre.x); double eps = 1e-13 * (xs / s.dx + 100);
        for (int d = 0; d < D; d++) {
            const std::vector<T>& a = *ax[d]; if (a.empty()) return bad("grid-empty", str("axis ", d));
            if (a[0] != org(d)) return bad("grid-origin", str("axis ", d, " first node ", a[0], " origin ", org(d)));
            for (size_t i = 1; i < a.size(); i++) if (std::abs(a[i] - a[i - 1] - s.dx) > 1e-9 * s.dx + 1e-14 * xs) return bad("spacing", str("axis ", d, " nodes ", i - 1, ",", i, ": ", a[i] - a[i - 1], " dx ", s.dx));
            double mn = 1e300, mx = -1e300; for (auto& y : px) { mn = std::min(mn, y(d)); mx = std::max(mx, y(d)); }
            double h = 0.5 * (DEG + 1) - 1e-6 - eps;    // nodes closer than this carry weight
            double firstNeeded = std::ceil((mn - org(d)) / s.dx - h), lastNeeded = std::floor((mx - org(d)) / s.dx + h);
            if (firstNeeded < 0) return bad("stencil-below", str("axis ", d, " lowest particle ", (mn - org(d)) / s.dx, " cells above the first node"));
            if (lastNeeded > (double)a.size() - 1) return bad("stencil-above", str("axis ", d, " highest particle ", (mx - a.back()) / s.dx, " cells above the last node"));
            if (!s.pbc) {
                double lo = mn, hi = mx; if (R.n == 1 && w.haveRef) { lo = std::min(lo, w.ref(d)); hi = std::max(hi, w.ref(d)); }
                if ((lo - a[0]) / s.dx > 4.5 || (a.back() - hi) / s.dx > 4.5) return bad("not-tight", str("axis ", d, " margins ", (lo - a[0]) / s.dx, " / ", (a.back() - hi) / s.dx, " cells"));
                if (R.n == 1 && w.haveRef && (w.ref(d) < a[0] - 1e-9 * s.dx || w.ref(d) > a.back() + 1e-9 * s.dx)) return bad("reference-point", str("axis ", d));
                if (R.n == 1) first(d) = a[0];
                double k = (a[0] - first(d)) / s.dx; if (std::abs(k - std::round(k)) > 1e-7 + eps) return bad("lattice", str("axis ", d, " shifted by ", k, " cells"));
                if (R.n > 1 && std::abs(k) > 0.5) c.count("grid origin moved");
            }
        }
        c.count("steps checked"); if (reach > 0) { double m = 0; for (auto& v : R.post.pic) m = std::max(m, v.cwiseAbs().maxCoeff() * R.dt / s.dx); if (m > 0.9) c.count("steps with displacement of a cell or more"); }
        c.seen(str(mode, w.kind, w.haveRef, s.pbc, w.flip < 0, std::min(R.n, 4), (long)g.x.size(), (long)g.y.size()));
    });
    s.simulate(); c.sample(c.note);
}
void finish(Ctx&) {}
}

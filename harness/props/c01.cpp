// C01: mass and particles are conserved by every time step.
#include "main.hpp"
#include "world.hpp"
namespace vh {
static bool sizes(const Particles& q, size_t n, std::string& bad) {
    auto c = [&](size_t m, const char* nm) { if (m != n && bad.empty()) bad = str(nm, "=", m, " expected ", n); };
    c(q.x.size(), "x"); c(q.v.size(), "v"); c(q.pic.size(), "pic"); c(q.flip.size(), "flip"); c(q.F.size(), "F"); c(q.Bmat.size(), "Bmat"); c(q.tau.size(), "tau"); c(q.eps_pl_dev.size(), "eps_pl_dev");
    c(q.eps_pl_vol.size(), "eps_pl_vol"); c(q.eps_pl_vol_pradhana.size(), "eps_pl_vol_pradhana"); c(q.delta_gamma.size(), "delta_gamma"); c(q.viscosity.size(), "viscosity"); c(q.muI.size(), "muI");
    return bad.empty();
}
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.maxFrames = 5; World w = randomWorld(r, o);
    if (r.chance(0.1)) for (size_t p = 1; p < w.x.size(); p++) if (r.chance(0.3)) w.x[p] = w.x[p - 1];   // coincident particles
    Simulation s; w.build(s); c.note = str(c.idx, " ", w.desc());
    size_t n0 = w.x.size(); double pm0 = s.particle_mass, pv0 = s.particle_volume; bool stop = false;
    StepMonitor mon(s, 3000, [&](StepRec& R) {
        if (stop) return;
        c.evaluations++;
        std::string bad;
        if (s.Np != n0) { c.fail("particle-count", str("Np ", n0, " -> ", s.Np, " step ", R.n)); stop = true; }
        if (!sizes(s.particles, n0, bad)) { c.fail("record-size", str(bad, " step ", R.n)); stop = true; }
        if (s.particle_mass != pm0 || s.particle_volume != pv0) { c.fail("particle-mass", str(pm0, "->", s.particle_mass)); stop = true; }
        const Grid& g = R.grid;
        if (g.mass.size() != gridCount(g)) { c.fail("grid-size", str(g.mass.size(), " nodes, lattice ", gridCount(g))); stop = true; return; }
        TV org = gridOrg(g); RefGrid G(org, s.dx); std::vector<int> id; std::vector<TV> px; contributors(s, R.pre.x, id, px);
        for (auto& y : px) G.each(y, [&](Node& N, double wt, const TV&, const TV&) { N.m += wt; });
        double eps = 1e-13 * (1 + (xScale(R.pre.x) + (s.pbc ? s.Lx : 0)) / s.dx); double tol = 1e-12 + 30 * eps; if (tol > 1e-7) { c.skipped++; return; }
        double sum = 0, psum = 0, refsum = 0; long nz = 0, N2 = 0; auto ax = axes(g); long K = D == 3 ? (long)ax[2]->size() : 1;
        for (long i = 0; i < (long)g.x.size() && !stop; i++) for (long j = 0; j < (long)g.y.size() && !stop; j++) for (long k = 0; k < K; k++) {
            double m = g.mass[nodeIndex(g, i, j, k)];
            if (s.pbc && (g.x[i] < -1.5 * s.dx || g.x[i] > s.Lx + 1.5 * s.dx)) { if (!(m >= 0) || !std::isfinite(m)) { c.fail("node-mass-invalid", str("node ", i, ",", j, ",", k, " m=", m)); stop = true; break; } continue; }   // beyond the reach of any particle: how far the images extend is free
            auto it = G.g.find({i, j, D == 3 ? k : 0}); double ref = it == G.g.end() ? 0 : it->second.m; N2++;
            if (!(m >= 0) || !std::isfinite(m)) { c.fail("node-mass-invalid", str("node ", i, ",", j, ",", k, " m=", m)); stop = true; break; }
            if (ref == 0 && m > 1e-9 * tol * pm0 && m > 1e-22 * pm0 * n0) {   // outside every support (rounding of the position allows only vanishing weights)
                bool near = m <= tol * tol * pm0; if (!near) { c.fail("mass-outside-support", str("node ", i, ",", j, ",", k, " m/mp=", m / pm0)); stop = true; break; } }
            if (std::abs(m / pm0 - ref) > tol * (1 + ref)) { c.fail("node-mass", str("node ", i, ",", j, ",", k, " m/mp=", m / pm0, " want ", ref, " step ", R.n)); stop = true; break; }
            sum += m; refsum += ref; if (m > 0) nz++;
            double X = g.x[i]; if (s.pbc && X > -0.5 * s.dx && X < s.Lx - 0.5 * s.dx) psum += m;
        }
        if (stop) return;
        double want = (double)n0;
        if (!s.pbc && std::abs(sum / pm0 - want) > tol * (n0 + 1) * 4) { c.fail("total-mass", str("grid ", sum / pm0, " particles ", want, " step ", R.n)); stop = true; return; }
        if (s.pbc && std::abs(psum / pm0 - (double)n0) > tol * (n0 + 1) * 4) { c.fail("period-mass", str("one period holds ", psum / pm0, " of ", n0)); stop = true; return; }
        c.count("steps checked"); c.count("nodes compared", N2); c.count("nodes with mass", nz); if (s.pbc) c.count("periodic steps");
        c.seen(str(w.sig(), std::min(R.n, 6)));
    });
    mon.gridCb = [&] { };
    s.simulate();
    if (r.chance(0.15) && !s.exit && !stop) { s.simulate(); c.count("continued simulations"); }
    std::string bad; if (!stop) { c.check(s.Np == n0 && sizes(s.particles, n0, bad), "after-run", bad); }
    c.sample(c.note);
}
void finish(Ctx&) {}
}

// C13: the boundary response of every grid node, against an independent collision map.
#include "main.hpp"
#include "world.hpp"
#include "terrain.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.boundsP = 1; o.pbcP = 0.08; o.maxFrames = 4; o.origin = 3; World w = randomWorld(r, o); Simulation s; std::string ter;
    if (w.plates.empty() || r.chance(0.3)) { }
    if (r.chance(0.3) && !w.pbc) {
        BC bc = r.pick(ALL_BC); double f = r.chance(0.3) ? 0 : r.uni(0, 1.5); Terrain t = randomTerrain(r, bc, f); ter = t.name + bcName(bc); double k = r.logu(2e-3, 2e-2) / w.dx; TV ctr = TV::Zero(); for (auto& x : w.x) ctr += x / (double)w.x.size();
        for (auto& x : w.x) x = t.at + (x - ctr) * k; for (auto& p : w.plates) { int ax = 0; plateNormal(p.t).cwiseAbs().maxCoeff(&ax); int oa = ax == 0 ? 1 : 0; p.pos = t.at(ax) + (p.pos - ctr(ax)) * k; if (p.lo > -1e14) { p.lo = t.at(oa) + (p.lo - ctr(oa)) * k; p.hi = t.at(oa) + (p.hi - ctr(oa)) * k; } }
        for (auto& q : w.spheres) { q.c = t.at + (q.c - ctr) * k; q.r *= k; } if (w.haveRef) w.ref = t.at + (w.ref - ctr) * k;
        w.dx *= k; w.pv *= std::pow(k, D); for (auto& b : w.B) b *= k; w.dt0 *= k; w.fps /= k;
        s.initialize(false); if (r.chance(0.5)) { w.build(s); s.objects.push_back(std::move(t.o)); } else { s.objects.push_back(std::move(t.o)); w.build(s); }
    } else w.build(s);
    bool mibf = w.mibf; uint64_t ms = r.next(); c.note = str(c.idx, " ", w.desc(), " terrain=", ter); bool stop = false;
    StepMonitor mon(s, 40, nullptr); auto inner = s.monitor; RefOut* ref = nullptr; std::unique_ptr<RefOut> hold;
    mon.gridCb = [&]() {
        if (stop) return; StepRec& R = mon.rec; for (unsigned p = 0; p < R.pre.Np; p++) if (!finite(R.pre.v[p]) || !finite(R.pre.tau[p]) || !finite(R.pre.B[p])) { stop = true; return; }
        Grid g = s.monitorGrid(); hold.reset(new RefOut(refStep(s, R.pre, R.dt, R.pre.gravity, gridOrg(g), nullptr))); ref = hold.get(); c.evaluations++;
        double xs = xScale(R.pre.x), eps0 = 1e-13 * (1 + xs / s.dx), V0 = std::max({amax(R.pre.v), R.dt * R.pre.gravity.norm(), amax(R.pre.B) / s.dx * 4, R.dt * R.pre.pv * amax(R.pre.tau) / s.dx / R.pre.pm, 1e-30}); int nx = g.x.size(), ny = g.y.size(), nz = 1;
#ifdef THREEDIM
        nz = g.z.size();
#endif
        for (auto& kv : ref->grid.g) {
            Node& N = kv.second; if (!(N.m > 1e-9 * R.pre.pm)) continue; if (N.amb) { c.skipped++; continue; } const Key& k = kv.first; if (k[0] < 0 || k[0] >= nx || k[1] < 0 || k[1] >= ny || k[2] < 0 || k[2] >= nz) continue;
            TV X = nodePos(g, k[0], k[1], k[2]); if (s.pbc && (X(0) < -s.dx || X(0) > s.Lx + s.dx)) continue;
            size_t i = nodeIndex(g, k[0], k[1], k[2]); double amp = std::pow(R.pre.pm / N.m, 1.0 / (DEG)), tol = (1e-9 + 50 * eps0 * amp) ; if (tol > 1e-4) { c.skipped++; continue; }
            double V = std::max({V0, N.vfree.cwiseAbs().maxCoeff(), N.v.cwiseAbs().maxCoeff()}); for (auto& p : R.pre.plates) V = std::max(V, plateVel(p).norm()); if (s.use_mibf) V *= 1 + std::abs(N.mibf);
            double fm = 1; for (auto& ob : s.objects) fm = std::max(fm, 1 + ob->friction); for (auto& p : R.pre.plates) fm = std::max(fm, 1 + p.friction);
            if (!finite(TV(g.v[i])) || !((g.v[i] - N.v).cwiseAbs().maxCoeff() <= tol * V * fm)) { c.fail(N.hits ? "node-response" : "node-no-contact", str("node ", sv(X), " got ", sv(g.v[i]), " want ", sv(N.v), " before contact ", sv(N.vfree), " contacts ", N.hits, " mass/pm ", N.m / R.pre.pm, " step ", R.n)); stop = true; return; }
            if (s.use_mibf) { if (!(std::abs(g.friction[i] - N.mibf) <= tol * (1 + std::abs(N.mibf)) * 10)) { c.fail("node-friction", str("node ", sv(X), " got ", g.friction[i], " want ", N.mibf, " step ", R.n)); stop = true; return; } c.count("material friction nodes"); if (N.hits) c.count("contacts with material friction"); }
            if (!N.hits) { c.count("free nodes"); continue; }
            c.count("contact nodes"); if (N.hits > 1) c.count("nodes with several contacts");
        }
        for (auto& q : w.plates) { c.seen(str("plate", ptName(q.t), bcName(q.bc), q.fr > 0, q.lo > -1e14, q.vel.norm() > 0, mibf, w.musl)); c.count(str("plate ", ptName(q.t), " ", bcName(q.bc))); }
        for (auto& q : w.spheres) c.seen(str("sphere", bcName(q.bc), q.fr > 0, q.outer, mibf)); if (!ter.empty()) { c.seen(str("terrain", ter, mibf)); c.count("terrain " + ter); }
        c.seen(str(w.plates.size(), w.spheres.size(), ter, mibf, w.pbc, w.kind, R.n, w.threads > 1));
    };
    int k = 0; s.monitor = [&](Simulation::MonitorStage st) {
        if (st == Simulation::MonitorStage::StepBegin && mibf) { Rng q(mix(ms, k++)); int kind = q.below(4); for (auto& m : s.particles.muI) m = kind == 0 ? 0.5 : kind == 1 ? q.uni(0, 1.5) : kind == 2 ? q.uni(-0.5, 1) : q.logu(1e-3, 10); }
        inner(st); };
    s.simulate(); if (s.exit) c.count("exit flag raised"); c.sample(c.note);
}
void finish(Ctx&) {}
}

// C17: saved files against the recorded in-memory state of each frame.
#include "main.hpp"
#include "world.hpp"
#include "ply.hpp"
namespace vh {
struct Shot { Snap p; Grid g; double t = 0; };
static const char* ax3[] = {"x", "y", "z"}; static const char* vx3[] = {"vx", "vy", "vz"};
static std::set<std::string> particleFields(const World& w) {
    std::set<std::string> f = {"p", "q", "Je"}; for (int d = 0; d < D; d++) { f.insert(ax3[d]); f.insert(vx3[d]); }
    if (w.pm != PlasticModel::NoPlasticity) { f.insert("eps_pl_vol"); f.insert("eps_pl_dev"); f.insert("delta_gamma"); bool mui = w.pm == PlasticModel::DPMui || w.pm == PlasticModel::MCCMui; if (mui || (w.mibf && (w.pm == PlasticModel::DPVisc || w.pm == PlasticModel::MCCVisc))) f.insert("muI"); if (mui) f.insert("viscosity"); }
    return f;
}
static bool checkParticles(Ctx& c, const Simulation& s, const World& w, const std::string& f, const Shot& S, int frame) {
    Ply P = readPly(f); if (!P.ok) { c.fail("particle-file", str("frame ", frame, ": ", P.err)); return false; }
    if (P.n != S.p.x.size()) { c.fail("particle-count", str("frame ", frame, ": ", P.n, " of ", S.p.x.size())); return false; }
    std::set<std::string> have(P.names.begin(), P.names.end()); if (have.size() != P.names.size()) { c.fail("duplicate-field", f); return false; }
    for (auto& k : particleFields(w)) if (!have.count(k)) { c.fail("field-missing:" + k, str("frame ", frame)); return false; }
    auto exact = [&](const std::string& k, std::function<double(size_t)> v) { int i = P.find(k); if (i < 0) return true; for (size_t p = 0; p < P.n; p++) if (!same(P.col[i][p], v(p))) { c.fail("value:" + k, str("frame ", frame, " particle ", p, " file ", P.col[i][p], " memory ", v(p))); return false; } c.count("values compared", (long)P.n); return true; };
    auto near = [&](const std::string& k, std::function<double(size_t)> v, std::function<double(size_t)> tol) { int i = P.find(k); for (size_t p = 0; p < P.n; p++) { double a = v(p), t = tol(p); if (!std::isfinite(a) || !std::isfinite(t)) continue; if (!(std::abs(P.col[i][p] - a) <= t)) { c.fail("value:" + k, str("frame ", frame, " particle ", p, " file ", P.col[i][p], " memory ", a)); return false; } } c.count("values compared", (long)P.n); return true; };
    for (int d = 0; d < D; d++) { if (!exact(ax3[d], [&](size_t p) { return S.p.x[p](d); })) return false; if (!exact(vx3[d], [&](size_t p) { return S.p.v[p](d); })) return false; }
    double qp = s.q_prefac; auto pr = [&](size_t p) { return -S.p.tau[p].trace() / D; };
    if (!near("p", pr, [&](size_t p) { return 1e-12 * S.p.tau[p].norm(); })) return false;
    if (!near("q", [&](size_t p) { TM t = S.p.tau[p]; double a = 0, m = -pr(p); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { double v = t(i, j) - (i == j ? m : 0); a += v * v; } return qp * std::sqrt(a); }, [&](size_t p) { return 1e-12 * qp * S.p.tau[p].norm(); })) return false;
    if (!near("Je", [&](size_t p) { return S.p.F[p].determinant(); }, [&](size_t p) { return 1e-12 * std::pow(S.p.F[p].norm(), D); })) return false;
    return exact("eps_pl_vol", [&](size_t p) { return S.p.epv[p]; }) && exact("eps_pl_dev", [&](size_t p) { return S.p.epd[p]; }) && exact("delta_gamma", [&](size_t p) { return S.p.dg[p]; }) && exact("muI", [&](size_t p) { return S.p.muI[p]; }) && exact("viscosity", [&](size_t p) { return S.p.visc[p]; });
}
static bool checkGrid(Ctx& c, const World& w, const std::string& f, const Shot& S, int frame) {
    Ply P = readPly(f); if (!P.ok) { c.fail("grid-file", str("frame ", frame, ": ", P.err)); return false; } const Grid& g = S.g; size_t n = gridCount(g);
    if (P.n != n) { c.fail("grid-node-count", str("frame ", frame, ": ", P.n, " of ", n)); return false; }
    std::vector<std::string> need = {"mass"}; for (int d = 0; d < D; d++) { need.push_back(ax3[d]); need.push_back(vx3[d]); } if (w.mibf) need.push_back("friction"); for (auto& k : need) if (P.find(k) < 0) { c.fail("grid-field-missing:" + k, str("frame ", frame)); return false; }
    long K = D == 3 ? (long)axes(g)[2]->size() : 1; int im = P.find("mass"), fi = w.mibf ? P.find("friction") : -1;
    for (long i = 0; i < (long)g.x.size(); i++) for (long j = 0; j < (long)g.y.size(); j++) for (long k = 0; k < K; k++) {
        size_t id = nodeIndex(g, i, j, k); TV X = nodePos(g, i, j, k); auto bad = [&](const char* key, double a, double b) { c.fail(str("grid-value:", key), str("frame ", frame, " node ", id, " file ", a, " memory ", b)); return false; };
        for (int d = 0; d < D; d++) { double a = P.col[P.find(ax3[d])][id]; if (!same(a, X(d))) return bad(ax3[d], a, X(d)); a = P.col[P.find(vx3[d])][id]; if (!same(a, g.v[id](d))) return bad(vx3[d], a, g.v[id](d)); }
        double a = P.col[im][id]; if (!same(a, g.mass[id])) return bad("mass", a, g.mass[id]); if (g.mass[id] == 0 && fi >= 0 && !std::isfinite(P.col[fi][id])) { c.fail("grid-not-finite", str("frame ", frame, " node ", id)); return false; }
        if (fi >= 0 && !same(P.col[fi][id], g.friction[id])) return bad("friction", P.col[fi][id], g.friction[id]);
    }
    c.count("grid nodes compared", (long)n); return true;
}
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.maxFrames = 6; o.nmax = D == 3 ? 25 : 40; World w = randomWorld(r, o); if (r.chance(0.1)) w.endFrame = r.range(9, 14); wipe(c.scratch);
    Simulation s; std::string dir = c.scratch + (r.chance(0.5) ? "/out/" : "/"), name = r.chance(0.5) ? "my_sim" : str("run", c.idx, ".b"); bool pre = r.chance(0.15); if (pre) { mkdir(dir.c_str(), 0777); mkdir((dir + name).c_str(), 0777); std::ofstream(dir + name + "/particles_f0.ply") << "old contents that are longer than nothing"; }
    s.initialize(true, dir, name); w.build(s); s.save_grid = r.chance(0.6); bool grid = s.save_grid; std::string base = dir + name + "/"; double frameDt = 1 / w.fps;
    c.note = str(c.idx, " ", w.desc(), " grid=", grid, " dir=", dir == c.scratch + "/" ? "existing" : "new"); std::map<int, Shot> shots; Shot last; bool have = false, stop = false; bool nonfin = false; int steps = 0; std::string end;
    auto online = [&](int fr) {   // what is on disk while the run goes on
        if (!shots.count(fr)) { shots[fr] = have ? last : Shot{snap(s), Grid(), 0}; if (!have && fr != 0) { c.fail("frame-number", str("run starts at frame ", fr)); stop = true; return; }
            if (have && !(std::abs(last.t - fr * frameDt) <= 1.2 * s.min_dt + 1e-9 * frameDt * fr)) { c.fail("frame-time", str("frame ", fr, " at time ", last.t, " want ", fr * frameDt)); stop = true; return; } }
        std::istringstream q(slurp(base + "last_written.txt")); int lw = -1; q >> lw; if (lw != fr) { c.fail("last-written", str("marker ", lw, " during frame ", fr)); stop = true; return; }
        if (!exists(str(base, "particles_f", fr, ".ply"))) { c.fail("frame-not-written", str("frame ", fr)); stop = true; return; } if (exists(str(base, "particles_f", fr + 1, ".ply")) ) { c.fail("frame-too-early", str("frame ", fr + 1)); stop = true; } };
    StepMonitor mon(s, 400, nullptr); auto in = s.monitor; int lastFrame = -1;
    s.monitor = [&](Simulation::MonitorStage st) {
        if (!stop && st == Simulation::MonitorStage::StepBegin) { int f = (int)s.monitorFrame(); if (f != lastFrame) { online(f); lastFrame = f; } }
        in(st); if (!stop && st == Simulation::MonitorStage::StepEnd) { steps++; last.p = mon.rec.post; for (size_t p = 0; p < last.p.x.size(); p++) if (!finite(last.p.x[p]) || !finite(last.p.v[p]) || !finite(last.p.tau[p]) || !(last.p.F[p].cwiseAbs().maxCoeff() < 1e20) || !finite(last.p.F[p])) nonfin = true; last.g = s.monitorGrid(); last.t = mon.rec.time + mon.rec.dt; have = true; } };
    bool ended = false; mon.wantGrid = false; try { s.simulate(); } catch (OutOfDomain& e) { ended = true; c.count(std::string("ended: ") + e.what()); } catch (StepLimit&) { ended = true; c.count("ended: step limit"); }
    if (stop) return; int lastF = (int)s.monitorFrame(); if (!ended && !s.exit) { if (lastF != w.endFrame) { c.fail("frames-written", str("last frame ", lastF, " of ", w.endFrame)); return; } online(lastF); if (stop) return; }
    if (s.exit) c.count("runs ended by a failure");
    // every frame, after the run
    int top = shots.empty() ? -1 : shots.rbegin()->first; for (int f = 0; f <= top; f++) {
        if (!shots.count(f)) { c.fail("frame-skipped", str(f)); return; } c.evaluations++;
        if (!checkParticles(c, s, w, str(base, "particles_f", f, ".ply"), shots[f], f)) return; c.count("particle files");
        if (grid && f > 0) { if (!checkGrid(c, w, str(base, "grid_f", f, ".ply"), shots[f], f)) return; c.count("grid files"); c.evaluations++; }
        for (auto& k : particleFields(w)) c.count("field " + k); c.seen(str(w.sig(), grid, f, D, s.q_prefac));
    }
    for (auto& n : listDir(base)) { int f = -1; char q; if (sscanf(n.c_str(), "particles_f%d.pl%c", &f, &q) == 2 && f > top) { c.fail("extra-frame", n); return; } if (sscanf(n.c_str(), "grid_f%d.pl%c", &f, &q) == 2 && (f > top || !grid || f < 1)) { c.fail("extra-grid-frame", n); return; } }
    {   std::istringstream q(slurp(base + "info.txt")); double ef = -1, fps = -1, dx = -1, np = -1, pv = -1; q >> ef >> fps >> dx >> np >> pv; auto e = [](double a, double b) { return std::abs(a - b) <= 1e-5 * std::abs(b); };
        if (!e(ef, w.endFrame) || !e(fps, w.fps) || !e(dx, w.dx) || np != w.x.size() || !e(pv, w.pv)) { c.fail("info-file", str("got ", ef, " ", fps, " ", dx, " ", np, " ", pv, " want ", w.endFrame, " ", w.fps, " ", w.dx, " ", w.x.size(), " ", w.pv)); return; } c.count("information files"); }
    {   bool ok1, ok2; std::string a = slurp(base + "initial_setup.cpp", &ok1), b = slurp(std::string(SRC_DIR) + "/mpm.cpp", &ok2); if (!ok1 || !ok2 || a != b || b.empty()) { c.fail("setup-copy", str(a.size(), " vs ", b.size(), " bytes")); return; } c.count("set-up copies"); }
    if (!ended && !s.exit) { std::istringstream q(slurp(base + "info_timing.txt")); long n = -1; q >> n; if (n != steps) { c.fail("timing-file", str("steps ", n, " of ", steps)); return; } c.count("timing files"); }
    // averages on request
    if (!ended && !s.exit && have && r.chance(0.5)) {
        TM ca, ki; double J; s.computeAvgData(ca, ki, J); TM a = TM::Zero(), b = TM::Zero(); double js = 0, sc = 0; bool fin = true; for (size_t p = 0; p < w.x.size(); p++) { double j = last.p.F[p].determinant() * std::exp(last.p.epv[p]); js += j; a += last.p.tau[p]; b += last.p.tau[p] * j; sc += last.p.tau[p].norm() * (1 + std::abs(j)); fin = fin && std::isfinite(j) && finite(last.p.tau[p]); }
        if (fin && js > 1e-3 * w.x.size()) { a /= js; b /= js; sc = sc / js; double nj = js / w.x.size();
            if (!((ca - a).norm() <= 1e-10 * sc) || !((ki - b).norm() <= 1e-10 * sc) || !(std::abs(J - nj) <= 1e-10 * (1 + std::abs(nj)))) { c.fail("averages", str("J ", J, " want ", nj, " cauchy ", sm(ca), " want ", sm(a), " kirchhoff ", sm(ki), " want ", sm(b))); return; }
            s.saveAvgData(); auto csv = [&](const char* k, const TM& m) { std::string t = slurp(str(base, "avg_", k, "_frame_", lastF, ".csv")); for (auto& ch : t) if (ch == ',') ch = ' '; std::istringstream q(t); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { double v = NAN; q >> v; if (!(std::abs(v - m(i, j)) <= 1e-5 * std::abs(m(i, j)) + 1e-300)) { c.fail(str("average-file:", k), str(v, " want ", m(i, j))); return false; } } return true; };
            if (!csv("cauchy", ca) || !csv("kirchh", ki)) return; std::istringstream q(slurp(str(base, "avg_J_frame_", lastF, ".csv"))); double v = NAN; q >> v; if (!(std::abs(v - J) <= 1e-5 * std::abs(J))) { c.fail("average-file:J", str(v, " want ", J)); return; } c.count("averages"); }
    }
    // saving does not change the simulation
    if (w.threads == 1 && have && !ended && !nonfin && r.chance(0.6)) {
        Simulation t; w.build(t); Snap q; int n = 0; { StepMonitor m2(t, 400, [&](StepRec& R) { q = R.post; n++; }); m2.wantGrid = false; try { t.simulate(); } catch (std::exception&) {} }
        bool eq = n == steps && q.x.size() == last.p.x.size(); for (size_t p = 0; eq && p < q.x.size(); p++) for (int d = 0; d < D; d++) { eq = eq && same(q.x[p](d), last.p.x[p](d)) && same(q.v[p](d), last.p.v[p](d)); for (int e = 0; e < D; e++) eq = eq && same(q.F[p](d, e), last.p.F[p](d, e)) && same(q.tau[p](d, e), last.p.tau[p](d, e)); }
        if (!eq) { c.fail("saving-changes-result", str("steps ", n, " vs ", steps)); return; } c.count("runs repeated without saving");
    }
    c.sample(c.note); wipe(c.scratch);
}
void finish(Ctx&) {}
}

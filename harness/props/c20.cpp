// C20: invalid set-ups leave everything untouched; failures inside a step end the run; valid runs never fail.
#include "main.hpp"
#include "world.hpp"
#include "matpoint.hpp"
#include "ply.hpp"
namespace vh {
static void tree(const std::string& d, const std::string& rel, std::map<std::string, std::string>& o) { for (auto& n : listDir(d)) { std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { o[rel + n + "/"] = ""; tree(f, rel + n + "/", o); } else o[rel + n] = slurp(f); } }
static bool bits(const std::vector<TV>& a, const std::vector<TV>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) for (int d = 0; d < D; d++) if (!same(a[i](d), b[i](d))) return false; return true; }
static bool bits(const std::vector<TM>& a, const std::vector<TM>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) for (int d = 0; d < D * D; d++) if (!same(a[i].data()[d], b[i].data()[d])) return false; return true; }
static bool bits(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
static std::string differs(const Snap& a, const Snap& b) {
    if (a.Np != b.Np || a.pm != b.pm || a.pv != b.pv) return "particle number, mass or volume"; if (!bits(a.x, b.x)) return "position"; if (!bits(a.v, b.v)) return "velocity"; if (!bits(a.pic, b.pic) || !bits(a.flip, b.flip)) return "velocity increments"; if (!bits(a.F, b.F)) return "deformation"; if (!bits(a.B, b.B)) return "affine velocity"; if (!bits(a.tau, b.tau)) return "stress";
    if (!bits(a.epd, b.epd) || !bits(a.epv, b.epv) || !bits(a.eppr, b.eppr)) return "plastic strain"; if (!bits(a.dg, b.dg) || !bits(a.visc, b.visc) || !bits(a.muI, b.muI)) return "friction, viscosity or shear rate"; if (a.gravity != b.gravity) return "gravity";
    if (a.plates.size() != b.plates.size()) return "plates"; for (size_t i = 0; i < a.plates.size(); i++) { const ObjectPlate &p = a.plates[i], &q = b.plates[i]; if (p.pos_object != q.pos_object || p.pos_lower != q.pos_lower || p.pos_upper != q.pos_upper || plateVel(p) != plateVel(q) || p.bc != q.bc || p.friction != q.friction) return str("plate ", i); } return "";
}
static int topFrame(const std::string& base) { int top = -1; for (auto& n : listDir(base)) { int f; char q; if (sscanf(n.c_str(), "particles_f%d.pl%c", &f, &q) == 2) top = std::max(top, f); } return top; }

static void solverFailures(Ctx& c) {      // return mappings that cannot be solved raise the flag, and the flag ends the run
    Rng& r = c.rng; int n = 10; MatPoint m(r, n); Simulation& s = m.s; PlasticModel pm = r.pick(std::vector<PlasticModel>{PlasticModel::VMVisc, PlasticModel::DPVisc, PlasticModel::MCC, PlasticModel::MCCVisc, PlasticModel::MCCMui}); s.E = r.logu(1e6, 1e8); randomPlastic(r, s, pm); bool mcc = pm != PlasticModel::VMVisc && pm != PlasticModel::DPVisc;
    if (mcc) s.hardening_law = r.chance(0.7) ? HardeningLaw::SinhImpl : HardeningLaw::ExpoImpl; else s.visc_exponent = r.uni(0.2, 2.5); bool dlFault = pm == PlasticModel::MCCVisc && r.chance(0.6); if (dlFault) { s.use_duvaut_lions_formulation = true; s.visc_exponent = r.chance(0.5) ? r.uni(0.3, 0.9) : r.uni(1.1, 3); s.hardening_law = r.chance(0.5) ? HardeningLaw::ExpoExpl : HardeningLaw::NoHard; } else if (pm == PlasticModel::MCCVisc && s.use_duvaut_lions_formulation) s.visc_exponent = 1;
    m.consts(); double K = m.K, mu = m.mu, f = 2 * m.qp * m.qp * mu, S = mcc ? s.p0 : pm == PlasticModel::VMVisc ? s.q_max : std::max(s.q_cohesion, s.q_max); double xi = s.xi, vt = s.visc_time, ne = s.visc_exponent; bool DL = s.use_duvaut_lions_formulation; int quiet = r.range(0, 3);
    c.note = str(c.idx, " solver ", pmName(pm), " E=", s.E, " S=", S, " xi=", xi, " vt=", vt, " n=", ne, " DL=", DL, " dt=", m.dt, " first violent step ", quiet);
    m.gen = [&](int k, int, MPState& st, TM& T_) { st = MPState(); if (k < quiet) { T_ = FofPQ(m, r, 0.3 * S, 0.01 * S * std::min(1.0, mcc ? s.mu_1 : 1.0)); return; } st.F = FofPQ(m, r, 0.2 * S, 0); T_ = FofPQ(m, r, S * r.uni(dlFault ? 2 : -0.5, dlFault ? 3 : mcc ? 40 : 2), S * r.uni(0.1, mcc && !dlFault ? 40 : 3)); };
    int flaggedAt = -1, lastStep = -1; std::vector<MPRes> A; std::vector<int> must(8, 0);
    m.judge = [&](const MPRes& R) { lastStep = std::max(lastStep, R.step); if (s.exit && flaggedAt < 0) flaggedAt = R.step; if (!s.exit) A.push_back(R); if (dlFault && R.step >= quiet && finite(R.Ftr)) { double pc = s.p0, y = s.M * s.M * (R.ptr - pc) * (R.ptr + s.beta * pc) + R.qtr * R.qtr; if (y > 0.1 * pc * pc && R.step < 8) must[R.step] = 1; } };
    m.run(quiet + r.range(1, 3), r, false); c.evaluations++;
    if (flaggedAt >= 0) { c.count("runs stopped by a failing return mapping"); if (lastStep > flaggedAt) { c.fail("run-goes-on", str("flag raised in step ", flaggedAt, ", last step ", lastStep)); return; } if (s.exit != 1) { c.fail("flag-lost", ""); return; } Snap a = snap(s); int calls = 0; s.monitor = [&](Simulation::MonitorStage) { calls++; }; s.simulate(); s.monitor = nullptr; std::string d = differs(a, snap(s)); if (calls || !d.empty()) c.fail("restart-after-failure", d); }
    for (int k = 0; k < 8; k++) if (must[k]) { c.count("invalid viscous exponent"); if (flaggedAt < 0 || flaggedAt > k) c.fail("invalid-exponent-not-flagged", str("step ", k)); break; }
    if (mcc) return;
    for (auto& R : A) {      // not flagged: the rate equation must have been solved
        double sc = std::max({S, std::abs(R.ptr), R.qtr}), tol = 1e-9 * sc + 1e-12 * (K + mu), qy, q = R.qn, qt = R.qtr;
        if (pm == PlasticModel::VMVisc) { double cap = s.p_min * std::exp(-xi * R.pre.epv), y0 = s.q_min + (s.q_max - s.q_min) * std::exp(-xi * R.pre.epd); if (R.ptr < cap + tol || qt < y0 + tol) continue; qy = s.q_min + (s.q_max - s.q_min) * std::exp(-xi * R.epd); }
        else { double psf = R.ptr - (s.use_pradhana ? K * R.pre.epr : 0); qy = s.M * psf + s.q_cohesion; if (psf < -s.q_cohesion / s.M + tol + 1e-4 || qt < qy + tol + 2e-5) continue; }
        double dg = (qt - q) / f, res, slope; if (DL && pm == PlasticModel::DPVisc) { continue; }     // the Drucker-Prager iteration is the Perzyna one
        if (DL) { double a = std::max(0.0, vt * dg / R.dt), pw = vt > 0 ? std::pow(a, ne) : 0; res = qt - qy - f * (dg + pw); slope = 1 + (a > 0 ? ne * std::pow(a, ne - 1) * vt / R.dt : 0); } else { double a = vt * dg / R.dt + 1; res = q * std::pow(a, -ne) - qy; slope = 1 + q * ne * std::pow(a, -ne - 1) * vt / R.dt / f; }
        c.evaluations++; if (!(std::abs(res) <= tol * slope + 1.1e-2)) { c.fail("unsolved-not-flagged", str(pmName(pm), " residual ", res, " q/S=", q / S, " qy/S=", qy / S, " step ", R.step)); return; } c.count("unflagged returns solved");
    }
    c.seen(str("solver", pmName(pm), flaggedAt >= 0, quiet, dlFault, hlName(s.hardening_law)));
}
void run_case(Ctx& c) {
    Rng& r = c.rng; int mode = r.below(10); if (mode == 8) return solverFailures(c);
    WOpt o; o.maxFrames = 5; o.nmax = 25; World w = randomWorld(r, o); wipe(c.scratch); std::string dir = c.scratch + "/o/", name = "n"; bool save = r.chance(0.6); double frames = w.endFrame;
    if (mode <= 2) {
        if (mode == 1) { w.pm = r.pick(std::vector<PlasticModel>(ALL_PM.begin() + 1, ALL_PM.end())); w.plSeed = r.next(); w.em = ElasticModel::NeoHookean; w.mibf = r.chance(0.5); }
        Simulation s; int how = r.below(5); if (mode == 0) { s.save_sim = save; }
        if (mode == 1) s.initialize(save, dir, name);
        if (mode == 2) {
            if (how == 0) { std::ofstream(c.scratch + "/o") << "a file"; } else if (how == 1) { mkdir(dir.c_str(), 0777); std::ofstream(dir + name) << "a file"; } else if (how == 2) { mkdir(dir.c_str(), 0777); mkdir((dir + name).c_str(), 0777); mkdir((dir + name + "/initial_setup.cpp").c_str(), 0777); } else if (how == 3) { dir = c.scratch + "/missing/deeper/"; } else { dir = c.scratch + "/o/"; std::ofstream(c.scratch + "/o") << "a file"; name = "x/y"; }
            std::map<std::string, std::string> t0, t1; tree(c.scratch, "", t0); s.initialize(true, dir, name); tree(c.scratch, "", t1); for (auto& kv : t0) if (!t1.count(kv.first) || t1[kv.first] != kv.second) { c.fail("initialize-changes-files", kv.first); return; }
        }
        bool was = s.is_initialized; if (mode == 0) s.is_initialized = true; w.build(s); s.is_initialized = mode == 0 ? false : was; for (size_t p = 0; p < w.x.size(); p++) { s.particles.muI[p] = r.uni(0, 1); s.particles.delta_gamma[p] = r.u(); }
        c.note = str(c.idx, " mode ", mode, " how ", how, " ", w.desc()); Snap a = snap(s); std::map<std::string, std::string> t0, t1; tree(c.scratch, "", t0); int calls = 0; s.monitor = [&](Simulation::MonitorStage) { calls++; throw OutOfDomain("x"); };
        for (int k = r.range(1, 2); k > 0; k--) { try { s.simulate(); } catch (OutOfDomain&) {} } s.monitor = nullptr; tree(c.scratch, "", t1); c.evaluations++;
        const char* nm = mode == 0 ? "uninitialised" : mode == 1 ? "incompatible" : "no-output"; if (calls) { c.fail(str(nm, ":stepped"), ""); return; } std::string d = differs(a, snap(s)); if (!d.empty()) { c.fail(str(nm, ":state-changed"), d); return; } if (t0 != t1) { c.fail(str(nm, ":files-changed"), ""); return; }
        c.count(nm); c.seen(str(nm, how, w.sig(), save));
        if (mode < 2 && r.chance(0.3)) {     // corrected afterwards, the simulation runs as a fresh one
            if (mode == 0) s.initialize(false); else { s.elastic_model = ElasticModel::Hencky; s.save_sim = false; } World v = w; if (mode == 1) v.em = ElasticModel::Hencky; Simulation f; f.initialize(false); v.build(f); Snap A = a, B = a; bool end = false; auto go = [&](Simulation& q, Snap& S) { q.n_threads = 1; bool bad = false; StepMonitor m(q, 60, [&](StepRec& R) { bad = bad || q.exit; for (auto& y : R.post.v) bad = bad || !finite(y) || y.norm() > 1e3 * w.cw; for (auto& y : R.post.F) bad = bad || !finite(y) || !(y.norm() < 1e6); for (auto& y : R.post.tau) bad = bad || !finite(y); if (!bad) S = R.post; }); m.wantGrid = false; try { q.simulate(); } catch (std::exception&) { end = true; } };
            f.particles.muI = a.muI; f.particles.delta_gamma = a.dg; go(s, A); go(f, B); d = differs(A, B); if (!d.empty()) { c.fail(str(nm, ":corrected-run-differs"), d); return; } c.count("corrected runs"); }
        c.sample(c.note); return;
    }
    // failures inside a step
    w.pbc = w.pbc && mode != 4; bool judged = true; const char* nm = "valid"; int failStep = -1; int when = r.below(4);
    if (mode == 5 || mode == 6) { w.em = ElasticModel::Hencky; w.pm = mode == 6 ? PlasticModel::MCCMui : r.pick(std::vector<PlasticModel>{PlasticModel::MCC, PlasticModel::MCCVisc, PlasticModel::MCCMui}); w.plSeed = r.next(); w.forceHl = true; w.hl = HardeningLaw::ExpoExpl; }
    if (mode == 7 || mode == 9) { std::vector<PlasticModel> ok = {PlasticModel::NoPlasticity, PlasticModel::VM, PlasticModel::DP, PlasticModel::DPSoft, PlasticModel::DPMui}; w.pm = r.pick(ok); w.plSeed = r.next(); if (w.pm != PlasticModel::NoPlasticity) w.em = ElasticModel::Hencky; else w.mibf = false; }
    else if (mode == 3 || mode == 4) { if (w.pm != PlasticModel::NoPlasticity) w.pm = r.pick(std::vector<PlasticModel>{PlasticModel::VM, PlasticModel::DP, PlasticModel::DPSoft, PlasticModel::DPMui}); }
    if (r.chance(0.5)) w.threads = r.range(2, 6); w.endFrame = r.range(1, 6); Simulation s; if (save) s.initialize(true, dir, name); w.build(s); s.save_grid = r.chance(0.3); std::string base = dir + name + "/";
    if (mode == 3) { nm = "invalid plate condition"; addPlate(s, 1e6 * w.dx, PlateType::bottom, BC::NoSlip, 0, -1e15, 1e15, TV::Zero()); } if (mode == 4) { nm = "invalid object condition"; s.objects.push_back(std::make_unique<Sphere>(BC::NoSlip, 0, TV(TV::Zero()), 1e7 * w.dx, false)); } if (mode == 5) nm = "invalid hardening law"; if (mode == 6) { nm = "hardening law not available"; }
    c.note = str(c.idx, " ", nm, " at step ", when, " save=", save, " ", w.desc()); int steps = 0, frameAt = -1, flagged = -1; bool ended = false; Snap pre0 = snap(s);
    StepMonitor mon(s, 120, nullptr); mon.wantGrid = false; auto in = s.monitor;
    s.monitor = [&](Simulation::MonitorStage st) {
        in(st);
        if (st == Simulation::MonitorStage::StepBegin) {
            frameAt = (int)s.monitorFrame();
            if (mode != 7 && mode != 9 && failStep < 0 && steps >= when) { failStep = steps; BC bad = static_cast<BC>(r.chance(0.5) ? 7 : -1); if (mode == 3) s.plates.back()->bc = bad; if (mode == 4) s.objects.back()->bc = bad; if (mode == 5) s.hardening_law = static_cast<HardeningLaw>(9); if (mode == 6) s.hardening_law = HardeningLaw::NoHard; }
            if (flagged >= 0) { c.fail("run-goes-on", str("flag raised in step ", flagged)); flagged = -2; throw OutOfDomain("stop"); }
        } else if (st == Simulation::MonitorStage::StepEnd) { if (s.exit && flagged == -1) flagged = steps; steps++; } };
    try { s.simulate(); } catch (OutOfDomain& e) { ended = true; } catch (StepLimit&) { ended = true; } s.monitor = nullptr; if (flagged == -2) return; c.evaluations++;
    bool fin = true; for (auto& x : mon.rec.pre.x) fin = fin && finite(x); for (auto& x : mon.rec.pre.tau) fin = fin && finite(x); for (auto& x : mon.rec.pre.v) fin = fin && finite(x); for (auto& x : mon.rec.pre.B) fin = fin && finite(x);
    if (mode == 7 || mode == 9) { if (s.exit) { c.fail("valid-run-failed", str(pmName(w.pm), " step ", flagged)); return; } if (!ended && (int)s.monitorFrame() != w.endFrame) { c.fail("valid-run-incomplete", str("frame ", s.monitorFrame(), " of ", w.endFrame)); return; } c.count("valid runs"); c.seen(str("valid", w.sig())); return; }
    if (failStep < 0) { c.count("ended before the fault"); return; } if (!fin) { c.skipped++; return; }
    if (flagged != failStep) { if (ended && flagged < 0 && steps <= failStep) { c.count("ended before the fault"); return; } c.fail(str("not-flagged: ", nm), str("fault in step ", failStep, ", flag ", flagged, " steps ", steps)); return; }
    if (steps != failStep + 1) { c.fail("run-goes-on", str("flag raised in step ", flagged, " of ", steps)); return; }
    if (save) { int top = topFrame(base); if (top != frameAt) { c.fail("frame-after-failure", str("files up to frame ", top, ", failure in frame ", frameAt)); return; } if (exists(base + str("grid_f", frameAt + 1, ".ply"))) { c.fail("grid-frame-after-failure", ""); return; } std::istringstream q(slurp(base + "last_written.txt")); int lw = -1; q >> lw; if (lw != frameAt) { c.fail("marker-after-failure", str(lw)); return; } c.count("failing runs with output"); }
    {   std::map<std::string, std::string> t0, t1; tree(c.scratch, "", t0); Snap a = snap(s); int calls = 0; s.monitor = [&](Simulation::MonitorStage) { calls++; }; s.simulate(); s.monitor = nullptr; tree(c.scratch, "", t1); std::string d = differs(a, snap(s)); if (calls || !d.empty() || t0 != t1) { c.fail("restart-after-failure", d); return; } }
    c.count(nm); c.seen(str(nm, w.sig(), failStep, save, w.threads)); c.sample(c.note); wipe(c.scratch);
}
void finish(Ctx&) {}
}

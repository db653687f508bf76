// C06: memory safety and freedom from undefined behaviour / uninitialised values.
// The same workload is built with AddressSanitizer+UBSan, run under valgrind, and run twice with differently
// filled stack and heap; for the latter each case reports a digest of everything it computed.
#include "main.hpp"
#include "world.hpp"
#include "terrain.hpp"
#include "matpoint.hpp"
#include "ply.hpp"
#include "samplecheck.hpp"
#include "sampling/regular_sampling_particles.hpp"
#include "sampling/sampling_particles.hpp"
namespace vh {
struct Dig { uint64_t h = 1469598103934665603ull; long n = 0; bool open = true;
    void raw(const void* p, size_t k) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < k; i++) { h ^= c[i]; h *= 1099511628211ull; } n++; }
    void d(double v) { if (std::isnan(v)) v = NAN; raw(&v, 8); }
    template <class A> void vec(const std::vector<A>& v) { size_t k = v.size(); raw(&k, sizeof k); if (k) raw(v.data(), k * sizeof(A)); }
    void snapshot(const Snap& s) { vec(s.x); vec(s.v); vec(s.pic); vec(s.flip); vec(s.F); vec(s.B); vec(s.tau); vec(s.epd); vec(s.epv); vec(s.eppr); vec(s.dg); vec(s.visc); vec(s.muI); d(s.pm); d(s.pv); for (int i = 0; i < D; i++) d(s.gravity(i)); for (auto& p : s.plates) { d(p.pos_object); d(p.pos_lower); d(p.pos_upper); } }
    void gridvals(const Grid& g, bool mibf) { vec(g.x); vec(g.y); if (D == 3) vec(*axes(g)[2]); vec(g.mass); vec(g.v); vec(g.force); if (mibf) vec(g.friction); } };
static bool tame(const Snap& s) { for (size_t p = 0; p < s.F.size(); p++) if (!finite(s.F[p]) || !finite(s.v[p]) || !finite(s.tau[p]) || !(s.F[p].cwiseAbs().maxCoeff() < 1e20) || !(std::abs(s.epv[p]) < 1e20) || !(std::abs(s.epd[p]) < 1e20)) return false; return true; }
void run_case(Ctx& c) {
    Rng& r = c.rng; Dig dg; int mode = r.below(10); bool serial = getenv("VH_SERIAL") != nullptr; c.evaluations++;
    if (mode < 7) {
        WOpt o; o.pbcP = 0.3; o.maxFrames = 5; o.strain = r.chance(0.3) ? 0.4 : 0.05; if (getenv("VH_TINY")) { o.nmax = 8; o.maxFrames = 2; o.ext = 3; } World w = randomWorld(r, o); if (w.pm != PlasticModel::NoPlasticity && r.chance(0.3)) w.mibf = true; w.threads = serial || r.chance(0.6) ? 1 : r.range(2, 8);
        bool save = r.chance(0.3), shift = !w.pbc && r.chance(0.3); int wholeCells = 0; std::string tn;
        if (!w.pbc && r.chance(0.15)) { wholeCells = r.range(1, 3); w.endFrame = 4; TV v = TV::Zero(); for (int d = 0; d < D; d++) v(d) = r.range(-wholeCells, wholeCells); for (auto& q : w.v) q = v * w.dx * w.fps; for (auto& b : w.B) b.setZero(); w.flip = r.chance(0.5) ? 1 : -2; w.g.setZero(); w.plates.clear(); w.spheres.clear(); for (auto& t : w.tau) t.setZero(); for (auto& F : w.F) F.setIdentity(); w.cfl = w.cfle = 1e6; }
        Simulation s; if (save) { wipe(c.scratch); s.initialize(true, c.scratch + "/", "run"); s.save_grid = r.chance(0.7); }
        Terrain T; if (shift) { T = randomTerrain(r, r.pick(ALL_BC), r.uni(0, 1)); tn = T.name; double k = r.logu(1e-3, 2e-2) / w.dx; TV ctr = TV::Zero(); for (auto& x : w.x) ctr += x / (double)w.x.size(); for (auto& x : w.x) x = T.at + (x - ctr) * k; for (auto& p : w.plates) { p.pos = T.at(0) + (r.uni(-3, 3)) * w.dx * k; } for (auto& sp : w.spheres) { sp.c = T.at + (sp.c - ctr) * k; sp.r *= k; } w.haveRef = false; w.dx *= k; w.pv *= std::pow(k, D); for (auto& b : w.B) b *= k; w.fps /= k; }
        w.build(s); if (shift) s.objects.push_back(std::move(T.o)); if (r.chance(0.2)) { s.gravity_special = true; s.gravity_time = r.uni(0, 3) / w.fps; }
        c.note = str(c.idx, " ", w.desc(), save ? " saving" : "", wholeCells ? " whole cells" : "", " ", tn); c.count("simulations"); if (save) c.count("saving simulations"); if (tn.size()) c.count("simulations with terrain"); if (w.pbc) c.count("periodic simulations"); if (w.mibf) c.count("simulations with material friction"); if (w.threads > 1) c.count("multi-threaded simulations"); c.count(str("model ", pmName(w.pm))); if (wholeCells) c.count("simulations moving by whole cells");
        bool fl = false;
        StepMonitor mon(s, getenv("VH_TINY") ? 4 : 60, [&](StepRec& R) { c.count("steps"); size_t n = gridCount(R.grid); if (R.grid.mass.size() != n || R.grid.v.size() != n || R.grid.force.size() != n || R.grid.flip.size() != n) c.fail("grid-array-size", str(n)); fl |= s.exit; if (dg.open && (!tame(R.post) || fl)) dg.open = false; if (dg.open) { dg.snapshot(R.post); dg.gridvals(R.grid, w.mibf); dg.d(R.dt); c.count("steps in digests"); } });
        mon.maxNodes = 3e5; try { s.simulate(); } catch (OutOfDomain& e) { c.count(std::string("ended: ") + e.what()); } catch (StepLimit&) { c.count("ended: step limit"); }
        if (save && dg.open) { std::vector<std::string> f = listDir(c.scratch + "/run"); std::sort(f.begin(), f.end()); for (auto& n : f) if (n.find(".ply") != std::string::npos) { std::string t = slurp(c.scratch + "/run/" + n); dg.raw(n.data(), n.size()); dg.raw(t.data(), t.size()); c.count("files in digests"); } }
        c.seen(str(w.sig(), save, wholeCells, tn));
    } else if (mode < 9) {
        int n = 6; MatPoint m(r, n); Simulation& s = m.s; if (serial) s.n_threads = 1; PlasticModel pm = r.pick(ALL_PM); s.elastic_model = pm == PlasticModel::NoPlasticity && r.chance(0.5) ? ElasticModel::NeoHookean : ElasticModel::Hencky; if (pm != PlasticModel::NoPlasticity) { randomPlastic(r, s, pm); if (pm == PlasticModel::MCC && r.chance(0.2)) s.hardening_law = HardeningLaw::NoHard; } s.use_mibf = pm != PlasticModel::NoPlasticity && r.chance(0.3);
        double sc = r.chance(0.3) ? 2.0 : r.logu(1e-4, 0.3); bool ev = r.chance(0.5); m.consts(); c.note = str(c.idx, " point ", pmName(pm), " ", hlName(s.hardening_law), " scale ", sc); c.count("driven points"); c.count(str("model ", pmName(pm)));
        m.gen = [&](int k, int, MPState& st, TM& T_) { if (!ev || k == 0) { st = MPState(); st.epd = r.uni(0, 0.02); st.epv = r.uni(-0.02, 0.02); st.epr = r.chance(0.5) ? r.uni(-0.01, 0.01) : 0; } TV h = rvec(r, sc); if (r.chance(0.1)) h.setZero(); if (r.chance(0.1)) h.setConstant(h(0)); T_ = Ffrom(rrot(r), h, rrot(r)) ; if (ev && k) T_ = T_ * st.F; };
        m.judge = [&](const MPRes& R) { c.count("driven steps"); if (s.exit || !finite(R.F) || !(R.F.cwiseAbs().maxCoeff() < 1e20)) dg.open = false; if (!dg.open) return; dg.raw(&R.F, sizeof R.F); dg.raw(&R.tau, sizeof R.tau); dg.d(R.epv); dg.d(R.epd); dg.d(R.epr); dg.d(R.dg); dg.d(R.muI); dg.d(R.visc); };
        m.run(3, r, ev); c.seen(str("point", pmName(pm), hlName(s.hardening_law), (int)std::log10(sc), ev, s.use_mibf));
    } else {
        Simulation s; s.initialize(false); s.reduce_verbose = true; TV L; for (int d = 0; d < D; d++) L(d) = r.uni(0.3, 2); setL(s, L); s.dx = r.uni(0.1, 0.5); bool reg = r.chance(0.5); int shape = r.below(3); c.note = str(c.idx, " sampling ", reg, " shape ", shape, " L=", sv(L), " dx=", s.dx); c.count("samplings");
        if (reg) regularSampleParticles(s, D == 3 ? 8 : 4, shape); else sampleParticles(s, r.uni(0.05, 0.2), D == 3 ? 8 : 6, shape); dg.snapshot(snap(s)); dg.d(s.dx); c.seen(str("sampling", reg, shape, s.Np > 0));
        if (s.Np > 0 && s.Np < 300) { s.fps = 1e4; s.end_frame = 2; s.gravity(1) = -9.81; s.plates.clear(); addPlate(s, 0, PlateType::bottom, BC::SlipFree, 0.5, -1e15, 1e15, TV::Zero()); StepMonitor mon(s, 10, [&](StepRec& R) { c.count("steps"); dg.snapshot(R.post); dg.gridvals(R.grid, false); }); try { s.simulate(); } catch (StepLimit&) {} }
    }
    c.digest(dg.h, dg.n); c.sample(c.note);
}
void finish(Ctx&) {}
}

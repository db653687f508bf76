// C07: time-step limits, frame times, termination, prefix independence.
#include "main.hpp"
#include "world.hpp"
namespace vh {
struct Run { std::vector<double> dt, t; std::vector<unsigned> frame; std::vector<Snap> atFrame; double end = 0; bool out = false; };
static Run go(Ctx& c, const World& w, double minDt, unsigned endFrame, double fps, double cfl, double cfle, bool judge, double vmul) {
    Simulation s; World q = w; q.endFrame = (int)endFrame; q.fps = fps; q.cfl = cfl; q.cfle = cfle; q.build(s); s.min_dt = minDt; for (auto& v : s.particles.v) v *= vmul;
    Run R; double fdt = 1.0 / fps; double lastT = 0; unsigned lastF = 0; bool stop = false; double rnd = 1e-15 * endFrame * fdt * 8;
    StepMonitor mon(s, 20000, [&](StepRec& S) {
        R.dt.push_back(S.dt); R.t.push_back(S.time); R.frame.push_back(S.frame); R.end = S.time + S.dt;
        if ((S.frame + 1) * fdt - R.end < 1.1 * minDt) R.atFrame.push_back(S.post);
        if (!judge || stop) return;
        c.evaluations++;
        double vm = 0; for (auto& v : S.pre.v) vm = std::max(vm, v.norm());
        double lim = cfle * s.dx / std::sqrt(s.E / s.rho); const char* which = "elastic"; if (vm > 1e-10 && cfl * s.dx / vm < lim) { lim = cfl * s.dx / vm; which = "speed"; }
        double left = (S.frame + 1) * fdt - S.time; if (left < lim) { lim = left; which = "frame"; }
        double want = std::max(lim, minDt);
        if (lim < minDt) which = "minimum";
        double tol = 1e-9 * want + rnd; c.count(std::string("dt limited by ") + which);
        if (!(S.dt > 0)) { c.fail("dt-not-positive", str("step ", S.n, " dt=", S.dt)); stop = true; }
        else if (S.dt > want + tol) { c.fail(std::string("dt-above-limit:") + which, str("step ", S.n, " dt=", S.dt, " limit ", want, " vmax=", vm)); stop = true; }
        else if (S.dt < want - tol) { c.fail(std::string("dt-below-limit:") + which, str("step ", S.n, " dt=", S.dt, " limit ", want, " vmax=", vm)); stop = true; }
        if (S.n > 1 && std::abs(S.time - lastT) > rnd + 1e-12 * S.time) { c.fail("time-sequence", str("step ", S.n, " starts at ", S.time, " previous ended at ", lastT)); stop = true; }
        if (S.n == 1 && (S.time != 0 || S.frame != 0)) { c.fail("start", str("first step at t=", S.time, " frame ", S.frame)); stop = true; }
        if (S.frame != lastF) { double b = S.frame * fdt; if (S.frame != lastF + 1 || std::abs(S.time - b) > 1.2 * minDt + rnd * S.n) { c.fail("frame-time", str("frame ", S.frame, " (after ", lastF, ") starts at ", S.time, " expected ", b)); stop = true; } c.count("frame boundaries"); }
        if (S.time > (S.frame + 1) * fdt) { c.fail("frame-overrun", str("step at t=", S.time, " still in frame ", S.frame)); stop = true; }
        lastT = S.time + S.dt; lastF = S.frame;
    });
    mon.wantGrid = false;
    try { s.simulate(); } catch (OutOfDomain&) { R.out = true; return R; } catch (StepLimit&) { R.out = true; c.count("ended: step limit"); return R; }
    if (judge && !stop && !s.exit) {
        if (std::abs(R.end - endFrame * fdt) > 1.2 * minDt + rnd * R.dt.size()) c.fail("end-time", str("ended at ", R.end, " expected ", endFrame * fdt));
        if (R.atFrame.size() != endFrame) c.fail("frame-count", str(R.atFrame.size(), " frames of ", endFrame));
        c.count("simulations completed");
    }
    if (s.exit) R.out = true;
    return R;
}
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.pbc = r.chance(0.2); o.realDt = false; o.threads = false; o.nmax = 25; o.ext = 3; World w = randomWorld(r, o);
    if (w.pm == PlasticModel::MCC || w.pm == PlasticModel::MCCVisc || w.pm == PlasticModel::MCCMui) w.pm = PlasticModel::DP;
    double wave = w.dx / w.cw; double cfl = r.logu(0.05, 0.6), cfle = r.logu(0.05, 0.6); if (r.chance(0.1)) cfl = r.chance(0.5) ? 1 : cfle;
    double fdt = wave * r.logu(0.02, 6); double vmul = r.chance(0.1) ? 0 : r.chance(0.15) ? r.uni(1, 3) * w.cw / std::max(amax(w.v), 1e-30) : r.chance(0.2) ? 1e-11 / std::max(amax(w.v), 1e-30) * r.logu(0.1, 10) : 1;
    if (r.chance(0.15)) fdt = std::pow(2.0, std::floor(std::log2(fdt)));
    unsigned end = (unsigned)r.range(1, 6); if (r.chance(0.04)) { end = (unsigned)r.range(20, 250); fdt = std::min(fdt, wave * 0.3); c.count("long runs"); } double minDt = r.chance(0.7) ? 1e-14 : fdt * r.logu(1e-9, 1e-4); minDt = std::min(minDt, fdt * 1e-6 + 1e-300);
    if (r.chance(0.1)) { // minimum active
        minDt = wave * cfle * 1.5; fdt = minDt * (r.range(5, 20) + 0.37); end = 1; c.count("minimum-step cases"); 
        w.v.assign(w.v.size(), TV::Zero()); }
    c.note = str(c.idx, " fps=", 1 / fdt, " end=", end, " cfl=", cfl, " cfle=", cfle, " min_dt=", minDt, " vmul=", vmul, " ", w.desc());
    Run A = go(c, w, minDt, end, 1 / fdt, cfl, cfle, true, vmul);
    if (!A.out && c.viol.empty() && r.chance(0.5)) {
        unsigned more = end + (unsigned)r.range(1, 3); Run B = go(c, w, minDt, more, 1 / fdt, cfl, cfle, false, vmul);
        if (!B.out || B.atFrame.size() >= end) {
            if (B.atFrame.size() < end) { c.fail("prefix-frames", str(B.atFrame.size())); return; }
            for (unsigned k = 0; k < end && k < A.atFrame.size(); k++) { double e = 0; for (size_t p = 0; p < A.atFrame[k].x.size(); p++) { double q = (A.atFrame[k].x[p] - B.atFrame[k].x[p]).cwiseAbs().maxCoeff(); if (!(q <= e)) e = q; }
                double tol = 1e-9 * w.dx; if (e > tol) { c.fail("prefix-state", str("frame ", k + 1, " differs by ", e / w.dx, " cells between ", end, " and ", more, " frames")); return; } c.count("prefix frames compared"); }
        }
    }
    c.seen(str((int)std::floor(std::log2(fdt / wave)), end, (int)(cfl * 10), (int)(cfle * 10), vmul == 0 ? 0 : vmul == 1 ? 1 : 2, minDt > 1e-13)); c.sample(c.note);
}
void finish(Ctx&) {}
}

// C04: renumbering, translation, mirroring and exchange of axes commute with the simulation.
#include "main.hpp"
#include "world.hpp"
namespace vh {
struct Sym { int perm[3]; double sg[3]; TV t; std::vector<int> idx;        // new axis d takes old axis perm[d] with sign sg[d]
    TV vec(const TV& a) const { TV b; for (int d = 0; d < D; d++) b(d) = sg[d] * a(perm[d]); return b; }
    TV pos(const TV& a) const { return vec(a) + t; }
    TM mat(const TM& m) const { TM b; for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) b(i, j) = sg[i] * sg[j] * m(perm[i], perm[j]); return b; }
    PlateType plate(PlateType p, double& pos, double& lo, double& hi) const {
        TV n = vec(plateNormal(p)); int ax; n.cwiseAbs().maxCoeff(&ax); double s = n(ax);
        pos = sg[ax] * pos + t(ax);
        int oldAx; plateNormal(p).cwiseAbs().maxCoeff(&oldAx);
        if (std::abs(lo) < 1e14) { int o = ax == 0 ? 1 : 0; double a = sg[o] * lo + t(o), b = sg[o] * hi + t(o); lo = std::min(a, b); hi = std::max(a, b); }
        if (ax == 0) return s > 0 ? PlateType::left : PlateType::right; if (ax == 1) return s > 0 ? PlateType::bottom : PlateType::top; return s > 0 ? PlateType::back : PlateType::front;
    }
};
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.pbc = false; o.maxFrames = 5; o.threads = false; o.realDt = true; World w = randomWorld(r, o);
    int n = (int)w.x.size(); int kind = r.below(4); bool renum = r.chance(0.7), trans = kind == 0 || r.chance(0.5), mirror = kind == 1 || r.chance(0.25), swap = kind == 2 || r.chance(0.25);
    if (mirror) { // make the extent a whole number of cells so that the mirrored lattice exists
        w.haveRef = false; TV lo = w.x[0], hi = lo; for (auto& x : w.x) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
        TV far = lo; for (int d = 0; d < D; d++) far(d) = lo(d) + w.dx * std::ceil((hi(d) - lo(d)) / w.dx + 0.3);
        for (int k = 0; k < 2; k++) { w.x.push_back(k ? far : lo); w.v.push_back(rvec(r, w.vs)); w.B.push_back(rmat(r, w.vs * w.dx * 0.1)); w.F.push_back(TM::Identity()); w.tau.push_back(TM::Zero()); }
        n = (int)w.x.size();
    }
    Sym S; for (int d = 0; d < 3; d++) { S.perm[d] = d; S.sg[d] = 1; } S.t.setZero();
    if (swap) for (int d = D - 1; d > 0; d--) std::swap(S.perm[d], S.perm[r.below(d + 1)]);
    if (mirror) { bool any = false; for (int d = 0; d < D; d++) if (r.chance(0.5)) { S.sg[d] = -1; any = true; } if (!any) S.sg[r.below(D)] = -1; }
    bool far = r.chance(0.1) && w.kind.find("gridaligned") == std::string::npos && w.kind.find("ulp") == std::string::npos; if (trans) S.t = rvec(r, w.dx * (far ? r.logu(30, 5000) : r.logu(0.1, 30)));
    for (int p = 0; p < n; p++) S.idx.push_back(p);
    if (renum) for (int p = n - 1; p > 0; p--) std::swap(S.idx[p], S.idx[r.below(p + 1)]);
    if (D == 3 && swap) for (auto& p : w.plates) { p.lo = -1e15; p.hi = 1e15; }     // extents are not available for every orientation
    else if (D == 3) for (auto& p : w.plates) if (p.t == PlateType::front || p.t == PlateType::back) { p.lo = -1e15; p.hi = 1e15; }
    World u = w; u.g = S.vec(w.g); u.ref = S.pos(w.ref);
    for (int p = 0; p < n; p++) { int q = S.idx[p]; u.x[p] = S.pos(w.x[q]); u.v[p] = S.vec(w.v[q]); u.B[p] = S.mat(w.B[q]); u.F[p] = S.mat(w.F[q]); u.tau[p] = S.mat(w.tau[q]); }
    for (auto& p : u.plates) { p.t = S.plate(p.t, p.pos, p.lo, p.hi); p.vel = S.vec(p.vel); }
    for (auto& p : u.spheres) p.c = S.pos(p.c);
    c.note = str(c.idx, " ", renum ? "renumber " : "", trans ? "translate " : "", mirror ? "mirror " : "", swap ? "swap " : "", w.desc());
    Simulation a, b; w.build(a); u.build(b);
    std::vector<Snap> sa, sb; std::vector<double> da, db, amb;
    bool ill = false, illb = false, ended = false;
    {   StepMonitor m(a, 400, [&](StepRec& R) { if (sa.size() < 40) { sa.push_back(R.post); da.push_back(R.dt); }
            // ambiguity: a tiny-weight node or a node on a surface makes the comparison ill-conditioned from here on
            if (!ill) { RefOut q = refStep(a, R.pre, R.dt, R.pre.gravity, gridOrg(R.grid), nullptr); if (q.ambiguous || q.cond < 1e-3) ill = true; } amb.push_back(ill); });
        try { a.simulate(); } catch (OutOfDomain&) { ended = true; } catch (StepLimit&) { ended = true; } }
    {   StepMonitor m(b, 400, [&](StepRec& R) { if (sb.size() < 40) { sb.push_back(R.post); db.push_back(R.dt); } 
            // far from the origin positions on an edge of a support are rounded off it
            if (far && !illb) { RefOut q = refStep(b, R.pre, R.dt, R.pre.gravity, gridOrg(R.grid), nullptr); if (q.ambiguous || q.cond < 1e-3) illb = true; } if (illb && sb.size() <= amb.size()) amb[sb.size() - 1] = true; }); m.wantGrid = far; try { b.simulate(); } catch (OutOfDomain&) { ended = true; } catch (StepLimit&) { ended = true; } }
    double growth = 1; size_t done = 0;
    for (size_t k = 0; k < std::min(sa.size(), sb.size()); k++) {
        if (amb[k]) { c.skipped++; break; }
        c.evaluations++;
        double xs = std::max(xScale(sa[k].x), xScale(sb[k].x)) / w.dx; double V = std::max({amax(sa[k].v), amax(w.v), 1e-30}) + w.cw * 1e-3; growth *= 30;
        double tol = 1e-12 * (1 + xs) * growth + 1e-9; if (tol > 1e-5) break;
        if (std::abs(da[k] - db[k]) > tol * da[k]) { c.fail("time-step", str("step ", k, ": ", da[k], " vs ", db[k])); return; }
        for (int p = 0; p < n; p++) { int q = S.idx[p];
            bool fin = finite(sa[k].F[q]) && finite(sa[k].v[q]); if (!fin) { c.count("ended: non-finite state from the material law"); return; }
            auto ev = [&](const TV& x, const TV& y) { return (x - y).cwiseAbs().maxCoeff(); }; auto em = [&](const TM& x, const TM& y) { return (x - y).cwiseAbs().maxCoeff(); };
            if (!(ev(sb[k].x[p], S.pos(sa[k].x[q])) <= tol * w.dx + 1e-14 * xs * w.dx)) { c.fail("position", str("step ", k, " p=", p, " got ", sv(sb[k].x[p]), " want ", sv(S.pos(sa[k].x[q])))); return; }
            if (!(ev(sb[k].v[p], S.vec(sa[k].v[q])) <= 10 * tol * V)) { c.fail("velocity", str("step ", k, " p=", p, " got ", sv(sb[k].v[p]), " want ", sv(S.vec(sa[k].v[q])))); return; }
            double Fn = std::max(1.0, sa[k].F[q].norm());
            // iterative return mappings stop at tolerances (1e-2 Pa, 1e-4 p0): a small difference ends the comparison, a large one counts
            bool mcc = w.pm == PlasticModel::MCC || w.pm == PlasticModel::MCCVisc || w.pm == PlasticModel::MCCMui, iter = mcc || w.pm == PlasticModel::VMVisc || w.pm == PlasticModel::DPVisc;
            double mu = w.E / 2 / (1 + w.nu), loose = iter ? 0.1 / mu + (mcc ? 2e-2 * a.p0 / mu : 0) : 0, tolF = w.pm == PlasticModel::NoPlasticity ? 10 * tol : 100 * tol + 1e-8, eF = em(sb[k].F[p], S.mat(sa[k].F[q]));
            if (!(eF <= tolF * Fn)) {
                bool wild = false;    // the Cam-Clay solvers are only compared for moderate hardening and strain (see DESIGN.md)
                if (mcc) { double h = std::abs(a.xi * sa[k].epv[q]); Eigen::JacobiSVD<TM> sd(sa[k].F[q]), sd2(sb[k].F[p]); wild = k > 1 || !(h < 2) || !(sd.singularValues().minCoeff() > 0.8) || !(sd.singularValues().maxCoeff() < 1.25) || !(std::abs(a.xi * sb[k].epv[p]) < 2) || a.exit || b.exit; }
                const TM& Fp = k ? sa[k - 1].F[q] : w.F[q]; if (w.pm != PlasticModel::NoPlasticity && !((sa[k].F[q] - Fp).norm() < 0.3)) wild = true;   // near-inverted trial states have no unique axes
                if (atTip(a, sa[k].F[q]) && atTip(a, sb[k].F[p])) wild = true;
                if (eF <= loose || wild) { c.skipped++; c.count("ended: material solver tolerance"); return; }
                c.fail("deformation", str("step ", k, " p=", p, " got ", sm(sb[k].F[p]), " want ", sm(S.mat(sa[k].F[q])))); return; }
        }
        done++; c.count("steps compared"); if (w.pm != PlasticModel::NoPlasticity) c.count("plastic steps compared"); if (w.plates.size()) c.count("steps with plates");
        c.count(renum ? "renumbered" : "same numbering"); if (trans) c.count("translated"); if (mirror) c.count("mirrored"); if (swap) c.count("axes exchanged");
        c.seen(str(w.sig(), renum, trans, mirror, swap, k));
    }
    if (sa.size() != sb.size() && !ill && !illb && !ended && !a.exit && !b.exit && done == std::min(sa.size(), sb.size())) c.fail("step-count", str(sa.size(), " vs ", sb.size()));
    c.sample(c.note);
}
void finish(Ctx&) {}
}

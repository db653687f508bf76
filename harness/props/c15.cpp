// C15: analytic terrain objects: inside test, normals, and no particle passes through.
#include "main.hpp"
#include "world.hpp"
#include "terrain.hpp"
namespace vh {
// documented surface: implicit function phi (>0 outside, <0 inside), its gradient
struct Doc { std::function<double(const TV&)> phi; std::function<TV(const TV&)> grad; };
static Doc height(std::function<double(double)> y, std::function<double(double)> dy, bool below) {
    double s = below ? -1 : 1; Doc d; d.phi = [=](const TV& X) { return s * (X(1) - y(X(0))); }; d.grad = [=](const TV& X) { TV g = TV::Zero(); g(0) = -s * dy(X(0)); g(1) = s; return g; }; return d;
}
void run_case(Ctx& c) {
    Rng& r = c.rng; BC bc = r.pick(ALL_BC); double fr = r.uni(0, 1); Doc d; std::unique_ptr<ObjectGeneral> o; std::string nm; std::function<TV()> surf; int k = r.below(D == 3 ? 6 : 5); double par = 0; bool exactOn = false, onIs = false;
    auto rz = [&](double x, double y) { TV X = rvec(r, 3); X(0) = x; X(1) = y; return X; };
    switch (k) {
        case 0: { nm = "ground"; par = r.chance(0.3) ? 0 : r.uni(-5, 5); o = std::make_unique<ObjectGround>(bc, fr, nm, par); d = height([=](double) { return par; }, [](double) { return 0.0; }, false); surf = [&, par] { return rz(r.uni(-10, 10), par); }; exactOn = true; onIs = true; break; }
        case 1: nm = "bump"; o = std::make_unique<ObjectBump>(bc, fr, nm); d = height(surfBump, [](double x) { double a = 25 * (x - 0.43); return -25 * 0.0475 * std::sinh(a) / (std::cosh(a) * std::cosh(a)); }, false); surf = [&] { double x = r.chance(0.1) ? 0.43 : 0.43 + r.sgn() * r.logu(1e-4, 3); return rz(x, surfBump(x)); }; break;
        case 2: { nm = "gate"; par = r.chance(0.3) ? 0.016 : r.uni(0.001, 0.5); o = par == 0.016 ? std::make_unique<ObjectGate>(bc, fr, nm) : std::make_unique<ObjectGate>(bc, fr, nm, par); double h = par; d = height([=](double x) { return surfGate(x, h); }, [](double x) { return 200 * x; }, true); surf = [&, h] { double x = r.chance(0.1) ? 0 : r.sgn() * r.logu(1e-4, 2); return rz(x, surfGate(x, h)); }; break; }
        case 3: nm = "ramp"; o = std::make_unique<ObjectRamp>(bc, fr, nm); d = height(surfRamp, [](double x) { double q = std::cosh(100 * x); return -10 / (q * q); }, false); surf = [&] { double x = r.chance(0.1) ? 0 : r.sgn() * r.logu(1e-5, 2); return rz(x, surfRamp(x)); }; break;
        case 4: nm = "curve"; o = std::make_unique<ObjectCurve>(bc, fr, nm); d = height(surfCurve, [](double x) { return 2 * x; }, false); surf = [&] { double x = r.chance(0.1) ? 0 : r.sgn() * r.logu(1e-4, 20); return rz(x, surfCurve(x)); }; break;
        default: {
#ifdef THREEDIM
            nm = "silo"; par = r.chance(0.3) ? -1 : -r.uni(0.1, 4); o = std::make_unique<ObjectSilo>(bc, fr, nm, par); double cut = par;
            d.phi = [](const TV& X) { return std::tanh(X(1)) + 1 - std::hypot(X(0), X(2)); };
            d.grad = [](const TV& X) { double R = std::hypot(X(0), X(2)), q = std::cosh(X(1)); TV g; g(0) = -X(0) / R; g(1) = 1 / (q * q); g(2) = -X(2) / R; return g; };
            surf = [&, cut] { double y = r.uni(cut + 1e-3, 3), a = r.chance(0.2) ? 0.5 * M_PI * r.range(-2, 2) : r.uni(-M_PI, M_PI), R = std::tanh(y) + 1; TV X; X(0) = R * std::cos(a); X(1) = y; X(2) = R * std::sin(a); return X; };
#endif
            break; }
    }
    c.note = str(c.idx, " ", nm, " par=", par, " ", bcName(bc)); c.check(o->bc == bc && o->friction == fr, "attributes", nm);
    for (int i = 0; i < 60; i++) {
        c.evaluations++; TV X = surf(); TV g = d.grad(X), n0 = g.normalized(); double curv = 800; auto bad = [&](const char* key, const std::string& w) { c.fail(nm + ":" + key, str("surface point ", sv(X), " ", w)); };
        TV n = o->normal(X); if (!finite(n)) { bad("normal-not-finite", sv(n)); break; }
        if (!(std::abs(n.norm() - 1) <= 1e-12)) { bad("normal-not-unit", sv(n)); break; }
        if (!((n - n0).norm() <= 1e-9)) { bad("normal-direction", str("got ", sv(n), " want ", sv(n0))); break; }
        if (exactOn && o->inside(X) != onIs) { bad("surface-point", str("inside ", o->inside(X))); break; }
        TV m = o->normal(X); if (m != n) { bad("normal-unstable", str(sv(n), " then ", sv(m))); break; }
        for (int j = 0; j < 3; j++) {     // along the normal on both sides
            double e = r.logu(1e-9, 1e-6) * (1 + X.cwiseAbs().maxCoeff()), lim = e * e * curv + 1e-13 * (1 + X.cwiseAbs().maxCoeff());
            for (int sg = -1; sg <= 1; sg += 2) { TV Y = X + sg * e * n0; double ph = d.phi(Y); if (std::abs(ph) < lim || (nm == "silo" && Y(1) <= par)) { c.skipped++; continue; } if (o->inside(Y) != (ph < 0)) { bad("inside", str("at ", sv(Y), " got ", o->inside(Y))); i = 1000; break; } c.count("points next to the surface"); }
        }
        {   double e = r.logu(1e-9, 1e-5); TV Y = X - e * n0; TV q = o->normal(Y); if (!finite(q) || !(std::abs(q.norm() - 1) <= 1e-12) || !((q - n0).norm() <= 2e-2 + 2 * e * curv)) { bad("normal-inside", str("depth ", e, " got ", sv(q), " want ", sv(n0))); break; } }
        {   double e = r.logu(1e-5, 0.5); TV Y = X - e * n0; Y(D - 1) += D == 3 && nm != "silo" ? r.uni(-5, 5) : 0; TV q = o->normal(Y); if (!finite(q) || !(std::abs(q.norm() - 1) <= 1e-12) || (nm != "silo" && !(q(1) * n0(1) > 0))) { bad("normal-deep", str("depth ", e, " got ", sv(q))); break; } }
        TV Y = X + rvec(r, r.logu(1e-6, 3)); double ph = d.phi(Y); bool want = ph < 0; if (nm == "silo" && Y(1) < par) want = false; if (std::abs(ph) > 1e-12 * (1 + Y.cwiseAbs().maxCoeff()) && !(nm == "silo" && std::abs(Y(1) - par) < 1e-12)) { if (o->inside(Y) != want) { bad("inside-random", str("at ", sv(Y), " got ", o->inside(Y))); break; } if (o->inside(Y) != o->inside(TV(Y))) { bad("inside-unstable", sv(Y)); break; } c.count(want ? "points inside" : "points outside"); }
        c.seen(str(nm, want, (int)std::floor(std::log10(std::abs(ph) + 1e-12)), X(0) > 0, D == 3 ? X(D - 1) > 0 : 0)); c.count(nm + " normals");
    }
    if (!c.viol.empty() && c.viol.back().idx == c.idx) return;
    // particles pressed against the terrain: no-slip terrain of any shape, flat ground with any condition
    if (!r.chance(0.35)) return;
    WOpt w_; w_.bounds = false; w_.pbc = false; w_.origin = 1; w_.gravity = false; w_.grp = false; w_.nmax = D == 3 ? 25 : 40; w_.ext = 4; w_.strain = 0.01; World w = randomWorld(r, w_); if (w.kind == "clusters") return;
    BC b2 = nm == "ground" ? bc : BC::NoSlip; TV at = surf(); if (nm == "curve") { at = rz(r.uni(-1, 1), 0); at(1) = surfCurve(at(0)); } if (nm == "gate") { at = rz(r.uni(-0.05, 0.05), 0); at(1) = surfGate(at(0), par); } if (nm == "bump") { at = rz(0.43 + r.uni(-0.2, 0.2), 0); at(1) = surfBump(at(0)); }
    double k2 = r.logu(1e-3, 5e-3) / w.dx; TV n = d.grad(at).normalized(); TV ctr = TV::Zero(); double rad = 0; for (auto& x : w.x) ctr += x / (double)w.x.size(); for (auto& x : w.x) rad = std::max(rad, (x - ctr).norm());
    double gap = r.uni(0, 2) * w.dx * k2; for (auto& x : w.x) { x = at + n * (rad * k2 + gap) + (x - ctr) * k2; } w.dx *= k2; w.pv *= std::pow(k2, D); w.cfl = 0.4; w.cfle = 0.4;
    for (auto& x : w.x) if (d.phi(x) < 0 || (nm == "silo" && x(1) < par + 20 * w.dx)) { c.count("body does not fit the terrain"); return; }
    double v = w.cw * r.uni(0.02, 0.4); for (auto& u : w.v) u = -n * v + rvec(r, 0.2 * v); for (auto& b : w.B) b.setZero(); w.g = -n * r.logu(0.01, 1) * v * v / (3 * w.dx); w.fps = v / w.dx; w.endFrame = r.range(3, 8);
    if (w.flip > 0 || (w.flip < 0 && w.flip >= -1)) { if (r.chance(0.5)) w.flip = -2; }
    Simulation s; w.build(s); s.objects.push_back(nm == "ground" ? std::unique_ptr<ObjectGeneral>(new ObjectGround(b2, fr, nm, par)) : nm == "bump" ? std::unique_ptr<ObjectGeneral>(new ObjectBump(b2, fr, nm)) : nm == "gate" ? std::unique_ptr<ObjectGeneral>(new ObjectGate(b2, fr, nm, par)) : nm == "ramp" ? std::unique_ptr<ObjectGeneral>(new ObjectRamp(b2, fr, nm)) : nm == "curve" ? std::unique_ptr<ObjectGeneral>(new ObjectCurve(b2, fr, nm)) : nullptr);
    if (!s.objects.back()) {
#ifdef THREEDIM
        s.objects.back().reset(new ObjectSilo(b2, fr, nm, par));
#endif
    }
    c.note += str(" press ", w.desc()); bool stop = false; long contact = 0; double R0 = (0.5 * (DEG + 1) + 1) * std::sqrt((double)D) * s.dx;
    StepMonitor mon(s, 400, [&](StepRec& R) {
        if (stop) return; for (auto& x : R.post.x) if (!finite(x)) throw OutOfDomain("non-finite position"); double vm = amax(R.post.v); if (!(vm < 20 * v + w.cw)) throw OutOfDomain("fragments faster than the waves"); c.evaluations++;
        for (unsigned p = 0; p < R.post.Np; p++) { const TV& x = R.post.x[p]; double lip = d.grad(x).norm(); if (d.phi(x) < 0) contact++; if (d.phi(x) > -R0 * 0.5 * lip) continue;
            bool out = false; for (int a = 0; a < 400 && !out; a++) { TV q = rvec(r, 1); q *= R0 / std::max(1e-9, q.norm()) * r.uni(0.3, 1); if (d.phi(TV(x + q)) > 0 || (nm == "silo" && x(1) + q(1) < par)) out = true; } TV y = x + R0 * d.grad(x).normalized(); if (d.phi(y) > 0) out = true;
            if (!out) { c.fail(nm + ":penetration", str("particle ", p, " at ", sv(x), " step ", R.n, " phi=", d.phi(x), " dx=", s.dx, " ", bcName(b2))); stop = true; return; } }
    });
    mon.wantGrid = false; s.simulate(); if (contact) c.count("runs with particles pressed into " + nm); c.count("press runs"); c.seen(str("press", nm, bcName(b2), w.sig())); c.sample(c.note);
}
void finish(Ctx&) {}
}

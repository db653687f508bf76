// C14: prescribed motion, extent and inside test of plates; material held by no-slip plates.
#include "main.hpp"
#include "world.hpp"
namespace vh {
static int axisOf(PlateType t) { return (t == PlateType::left || t == PlateType::right) ? 0 : (t == PlateType::bottom || t == PlateType::top) ? 1 : 2; }
static void insideTest(Ctx& c, Rng& r, const ObjectPlate& p, double L, const char* when) {
    int ax = axisOf(p.plate_type); TV n = plateNormal(p.plate_type);
    for (int k = 0; k < 6; k++) {
        TV X; for (int d = 0; d < D; d++) X(d) = r.uni(-20, 20) * L; X(ax) = p.pos_object + n(ax) * L * (r.chance(0.15) ? 0.0 : r.sgn() * r.logu(1e-6, 10)); int o = 1 - ax;
        if (ax < 2) { double lo = p.pos_lower, hi = p.pos_upper; if (lo > -1e14 && r.chance(0.7)) { double e = r.chance(0.5) ? lo : hi; X(o) = e + L * r.sgn() * r.logu(1e-6, 3); } }
        bool onSurf = X(ax) == p.pos_object; double mg; bool want = plateInside(p, X, mg); if (!onSurf && mg < 1e-12 * (L + X.cwiseAbs().maxCoeff())) { c.skipped++; continue; }
        bool got = p.inside(X); c.count(got ? "points inside" : "points outside"); if (onSurf) c.count("points on the surface"); c.evaluations++;
        if (got != want) { c.fail(str("inside:", ptName(p.plate_type)), str(when, " point ", sv(X), " pos=", p.pos_object, " lower=", p.pos_lower, " upper=", p.pos_upper, " got ", got)); return; }
        TV Y = X; Y += TV::Zero(); if (p.inside(Y) != got) { c.fail("inside-unstable", sv(X)); return; }
    }
}
void run_case(Ctx& c) {
    Rng& r = c.rng; bool carry = r.chance(0.35); WOpt o; o.maxFrames = 6; o.boundsP = carry ? 0 : 1; o.pbcP = 0.05; if (carry) { o.pbc = false; o.plastic = r.chance(0.3); } World w = randomWorld(r, o); w.spheres.clear();
    if (!carry) { for (auto& p : w.plates) { p.vmin = r.chance(0.5) ? 1 : r.uni(1.5, 50); p.load = r.chance(0.3) ? 0 : r.uni(0, 5); if (r.chance(0.8)) p.vel = rvec(r, w.vs); } 
        if (w.plates.empty()) { w.plates.push_back({r.uni(-3, 3) * w.dx, r.pick(allPlates()), r.pick(ALL_BC), r.uni(0, 1), r.chance(0.5) ? -1e15 : r.uni(-5, 0) * w.dx, r.chance(0.5) ? 1e15 : r.uni(0, 5) * w.dx, rvec(r, w.vs), r.uni(1, 10), r.uni(0, 5)}); } }
    TV pv = rvec(r, w.vs);
    if (carry) {   // the whole support of every particle is inside a no-slip plate
        TV lo = w.x[0], hi = lo; for (auto& x : w.x) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); } PlateType t = r.pick(allPlates()); int ax = axisOf(t); TV n = plateNormal(t); double pos = n(ax) > 0 ? hi(ax) + 30 * w.dx : lo(ax) - 30 * w.dx; int oa = 1 - std::min(ax, 1); double L = -1e15, H = 1e15; if (r.chance(0.5) && ax < 2) { L = lo(oa) - 30 * w.dx; H = hi(oa) + 30 * w.dx; }
        double q = w.vs * 5 * w.dt0 / w.dx; if (q > 1) pv /= q; w.plates.clear(); w.plates.push_back({pos, t, BC::NoSlip, r.uni(0, 1), L, H, pv, r.chance(0.5) ? 1 : r.uni(1.5, 20), r.uni(0, 4)});
        for (auto& v : w.v) { double a = 0.5 * w.dx / std::max(1e-300, v.norm() * w.dt0 * 10); if (a < 1) v *= a; } for (auto& t_ : w.tau) t_.setZero(); for (auto& f : w.F) f.setIdentity(); if (w.musl && w.flip != 0) w.flip = -2;   // stress-free: a node of tiny mass is not thrown out of the plate
    }
    Simulation s; w.build(s); double frame = 1 / w.fps; if (w.haveRef && carry) s.grid_reference_point = 2e10 * TV::Ones();
    c.note = str(c.idx, carry ? " carry " : " move ", w.desc(), " plate ", ptName(w.plates[0].t), " vmin=", w.plates[0].vmin, " load=", w.plates[0].load); bool stop = false; std::vector<TV> path(w.plates.size(), TV::Zero());
    for (auto& p : s.plates) insideTest(c, r, *p, w.dx, "initially"); TV pvNow = pv;
    StepMonitor mon(s, 300, [&](StepRec& R) {
        if (stop) return; c.evaluations++;
        if (R.post.plates.size() != w.plates.size()) { c.fail("plate-count", ""); stop = true; return; }
        for (size_t i = 0; i < w.plates.size(); i++) {
            const PlateSpec& q = w.plates[i]; const ObjectPlate &a = R.pre.plates[i], &b = R.post.plates[i]; int ax = axisOf(q.t); double te = q.load * frame; bool amb = q.vmin != 1 && std::abs(R.time - te) < 1e-9 * (frame + R.time) && q.load > 0;
            if (amb) { if (carry) { stop = true; return; } c.skipped++; path[i].setConstant(NAN); continue; }
            double f = R.time < te ? 1 / q.vmin : 1; TV v = q.vel * f; path[i] += v * R.dt; if (carry) pvNow = v;
            auto bad = [&](const char* k, const std::string& d) { c.fail(str(k, ":", ptName(q.t)), str("plate ", i, " step ", R.n, " ", d)); stop = true; };
            if (!((plateVel(b) - v).cwiseAbs().maxCoeff() <= 1e-14 * (v.norm() + 1e-300))) return bad("velocity", str("got ", sv(plateVel(b)), " want ", sv(v), " time ", R.time, " loading until ", te));
            if (!((plateVel(a) - v).cwiseAbs().maxCoeff() <= 1e-14 * (v.norm() + 1e-300))) return bad("contact-velocity", str("got ", sv(plateVel(a)), " want ", sv(v), " time ", R.time, " loading until ", te));
            double tp = 1e-14 * (std::abs(a.pos_object) + std::abs(v.norm() * R.dt)); double wp = a.pos_object + R.dt * v(ax);
            if (!(std::abs(b.pos_object - wp) <= tp)) return bad("position", str("got ", b.pos_object, " want ", wp, " was ", a.pos_object));
            double tv = ax < 2 ? v(1 - ax) : 0;
            if (ax < 2) for (int e = 0; e < 2; e++) { double x0 = e ? a.pos_upper : a.pos_lower, x1 = e ? b.pos_upper : b.pos_lower; if (!(std::abs(x1 - (x0 + R.dt * tv)) <= 1e-14 * (std::abs(x0) + std::abs(R.dt * tv)))) return bad("extent", str(e ? "upper" : "lower", " got ", x1, " want ", x0 + R.dt * tv)); }
            if (std::isfinite(path[i](0)) && !(std::abs(b.pos_object - q.pos - path[i](ax)) <= 1e-11 * (std::abs(q.pos) + std::abs(b.pos_object) + path[i].norm()))) return bad("path", str("got ", b.pos_object, " want ", q.pos + path[i](ax)));
            if (b.bc != q.bc || b.friction != q.fr || b.plate_type != q.t) return bad("attributes", "");
            c.count(f == 1 ? "steps at the prescribed velocity" : "steps while loading"); if (v.norm() > 0) c.count(str("moving ", ptName(q.t))); c.seen(str(ptName(q.t), bcName(q.bc), f != 1, q.lo > -1e14, v.norm() > 0, std::min(R.n, 10), w.musl, w.pbc));
            if (r.chance(0.3)) insideTest(c, r, *s.plates[i], w.dx, "during the run");
        }
        if (carry) {
            double xs = xScale(R.pre.x), V = std::max({w.plates[0].vel.norm(), amax(R.pre.v) * 1e-3}), tol = 1e-9 * V + 1e-15 * xs / R.dt;
            for (unsigned p = 0; p < R.post.Np; p++) { TV u = (R.post.x[p] - R.pre.x[p]) / R.dt; if (!((u - pvNow).cwiseAbs().maxCoeff() <= tol + 1e-13 * xs / R.dt)) { c.fail("not-carried", str("p=", p, " step ", R.n, " moved with ", sv(u), " plate ", sv(pvNow))); stop = true; return; }
                if (w.flip < -1 || w.flip == 0) if (!((R.post.v[p] - pvNow).cwiseAbs().maxCoeff() <= 1e-9 * V)) { c.fail("held-velocity", str("p=", p, " v=", sv(R.post.v[p]), " plate ", sv(pvNow))); stop = true; return; } }
            c.count("steps with held material");
        }
    });
    mon.wantGrid = false; s.simulate(); if (s.exit) c.count("exit flag raised"); c.sample(c.note);
}
void finish(Ctx&) {}
}

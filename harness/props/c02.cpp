// C02: momentum changes only by gravity; pure PIC never gains kinetic energy without forces.
#include "main.hpp"
#include "world.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; WOpt o; o.bounds = false; o.maxFrames = 6; o.pbc = false; int mode = r.below(10);
    World w = randomWorld(r, o); if (r.chance(0.5)) w.g = rvec(r, std::min(20.0, 0.1 * w.cw * w.cw / w.dx));
    bool ke = mode < 2; if (ke) { w.flip = 0; w.g.setZero(); for (auto& t : w.tau) t.setZero(); for (auto& F : w.F) F.setIdentity(); w.endFrame = 1; }
    bool far = r.chance(0.15); if (far) { TV sh = rvec(r, 1); for (auto& x : w.x) x += sh * w.dx * 500; w.ref += sh * w.dx * 500; }
    Simulation s; w.build(s);
    TV gfin = w.g; bool ramp = !ke && r.chance(0.35); double gt = 0; if (ramp) { s.gravity_special = true; gt = r.chance(0.1) ? 0 : w.endFrame / w.fps * r.uni(0.1, 1.5); s.gravity_time = gt; }
    c.note = str(c.idx, " ", w.desc(), " ramp=", ramp, " ke=", ke); bool stop = false;
    StepMonitor mon(s, 3000, [&](StepRec& R) {
        if (stop) return;
        c.evaluations++; int n = (int)R.pre.Np;
        TV g = gfin; if (ramp && R.time < gt) g = gfin * (R.time / gt);
        TV d = TV::Zero(); double V = 0, ts = 0;
        for (int p = 0; p < n; p++) if (!finite(R.pre.v[p]) || !finite(R.pre.tau[p]) || !finite(R.pre.B[p])) { c.count("ended: non-finite state from the material law"); stop = true; return; }
        for (int p = 0; p < n; p++) { if (!finite(R.post.v[p])) { c.fail("velocity-not-finite", str("p=", p, " step=", R.n)); stop = true; return; }
            d += R.post.v[p] - R.pre.v[p]; V = std::max({V, R.pre.v[p].norm(), R.post.v[p].norm(), R.pre.B[p].norm() / s.dx * 4}); ts += R.pre.tau[p].norm(); }
        TV want = (double)n * R.dt * g; double fs = ts * R.dt * s.particle_volume / s.dx / s.particle_mass;
        double tol = 1e-10 * (n * V + fs + want.norm()) + 1e-300; double e = (d - want).norm();
        if (!(e <= tol)) { c.fail("momentum", str("step ", R.n, " sum dv=", sv(d), " want ", sv(want), " err/scale ", e / tol * 1e-10)); stop = true; return; }
        if (ke && amax(R.pre.tau) == 0) { double k0 = 0, k1 = 0; for (int p = 0; p < n; p++) { k0 += R.pre.v[p].squaredNorm(); k1 += R.post.v[p].squaredNorm(); }
            c.count("PIC energy steps"); if (k0 - k1 > 1e-6 * k0) c.count("PIC steps with dissipation"); if (!(k1 <= k0 * (1 + 1e-11))) { c.fail("pic-energy", str("kinetic energy ", k0, " -> ", k1)); stop = true; } }
        if (want.norm() > 1e-4 * (n * V)) c.count("steps with gravity dominant"); if (fs > 1e-3 * n * V) c.count("steps with stresses"); if (ramp && R.time < gt) c.count("steps inside the gravity ramp");
        c.seen(str(w.sig(), ramp, std::min(R.n, 5))); c.count("steps checked");
    });
    mon.wantGrid = false; s.simulate(); c.sample(c.note);
}
void finish(Ctx&) {}
}

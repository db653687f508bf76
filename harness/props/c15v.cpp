// C15: level sets from file: inside test, normals, bounds against the exact distance.
#include "main.hpp"
#include "vdbshape.hpp"
namespace vh {
void run_case(Ctx& c) {
    Rng& r = c.rng; VdbShape V = randomVdb(c, 12); BC bc = r.pick(ALL_BC); double fr = r.uni(0, 1); ObjectVdb o(V.file, bc, fr, "level"); double vox = V.voxel; c.note = str(c.idx, " level set ", V.kind, " voxel=", vox, " band=", V.half); c.check(o.bc == bc && o.friction == fr && o.name == "level", "vdb:attributes", "");
    Eigen::Vector3d a, b; V.surfaceBounds(a, b); TV lo, hi; o.bounds(lo, hi); for (int d = 0; d < D; d++) { c.check(lo(d) <= a(d) && hi(d) >= b(d), "vdb:bounds-cut", str("axis ", d, " ", lo(d), "..", hi(d), " surface ", a(d), "..", b(d))); c.check(lo(d) >= a(d) - (V.half + 1.001) * vox && hi(d) <= b(d) + (V.half + 1.001) * vox, "vdb:bounds-loose", str("axis ", d, " ", lo(d), "..", hi(d), " surface ", a(d), "..", b(d))); }
    double kap = V.box ? 0 : 1; 
    for (int i = 0; i < 300; i++) {
        TV X; bool far = r.chance(0.15); for (int d = 0; d < D; d++) { double m = far ? 30 * vox : 3 * vox; X(d) = r.uni(a(d) - m, b(d) + m); } 
        int face = -1; auto faceU = [&]() { Eigen::Vector3d x3 = Eigen::Vector3d::Zero(); for (int d = 0; d < D; d++) x3(d) = X(d); return Eigen::Vector3d((x3 - (V.lo + V.hi) / 2).cwiseAbs() - (V.hi - V.lo) / 2); };
        if (V.box && r.chance(0.4)) { int d = r.below(D); double s = r.chance(0.5) ? 1 : -1; X(d) = (s > 0 ? V.hi(d) : V.lo(d)) + (r.chance(0.5) ? 1 : -1) * r.logu(2e-4, 1) * vox; }
        if (V.box) { Eigen::Vector3d u = faceU(); int best; double m = u.maxCoeff(&best); bool flat = best < D && m < (V.half - 1.1) * vox; for (int d = 0; d < 3; d++) if (d != best && u(d) > m - 2.2 * vox) flat = false; for (int d = 0; d < 3; d++) if (d != best && u(d) > -1.1 * vox) flat = false; if (flat) face = best; }   // here the interpolated distance is the exact one
        double q = V.sd(X); c.evaluations++;
        double e = face >= 0 ? 1e-4 * vox : V.box || V.cen.size() > 1 ? 1.0 * vox : 0.35 * vox; bool in = o.inside(X);
        if (std::abs(q) > e) { if (!c.check(in == (q < 0), str("vdb:inside"), str("at ", sv(X), " distance/voxel ", q / vox, " got ", in))) return; c.count("level-set points judged"); if (face >= 0 && std::abs(q) < 0.3 * vox) c.count("points close to a flat face"); } else c.skipped++;
        if (o.inside(X) != in) { c.fail("vdb:inside-unstable", sv(X)); return; }
        // normal: within a voxel of the surface, where the exact distance is smooth and the slice is not tangent
        if (std::abs(q) < 1.0 * vox) {
            double h = 1e-4 * vox; TV g; bool smooth = true; for (int d = 0; d < D; d++) { TV A = X, B = X; A(d) += h; B(d) -= h; g(d) = (V.sd(A) - V.sd(B)) / (2 * h); }
            for (int t = 0; t < 12 && smooth; t++) { TV Y = X; for (int d = 0; d < D; d++) Y(d) += r.uni(-2.6, 2.6) * vox; TV g2; for (int d = 0; d < D; d++) { TV A = Y, B = Y; A(d) += h; B(d) -= h; g2(d) = (V.sd(A) - V.sd(B)) / (2 * h); } if ((g2.normalized()).dot(g.normalized()) < 0.3) smooth = false; }
            if (!V.box && V.cen.size() > 1) { double m1 = 1e300, m2 = 1e300; for (size_t j = 0; j < 2; j++) { Eigen::Vector3d x3 = Eigen::Vector3d::Zero(); for (int d = 0; d < D; d++) x3(d) = X(d); double s1 = (x3 - V.cen[j]).norm() - V.rad[j]; if (s1 < m1) { m2 = m1; m1 = s1; } else m2 = s1; } if (m2 - m1 < 5 * vox) smooth = false; }
            if (V.box) { Eigen::Vector3d x3 = Eigen::Vector3d::Zero(); for (int d = 0; d < D; d++) x3(d) = X(d); Eigen::Vector3d u = (x3 - (V.lo + V.hi) / 2).cwiseAbs() - (V.hi - V.lo) / 2; int best; u.maxCoeff(&best); for (int d = 0; d < 3; d++) if (d != best && u(d) > -3.1 * vox) smooth = false; if (D == 2 && best == 2) smooth = false; }
            if (D == 2 && g.norm() < 0.5) smooth = false;
            TV n = o.normal(X); if (!finite(n)) { c.fail("vdb:normal-not-finite", sv(X)); return; }
            if (smooth) { if (!c.check(std::abs(n.norm() - 1) < 1e-9, "vdb:normal-not-unit", str("at ", sv(X), " ", sv(n)))) return; double lim = V.box ? 0.9999 : 0.97; if (!c.check(n.dot(g.normalized()) > lim, "vdb:normal-direction", str("at ", sv(X), " got ", sv(n), " want ", sv(TV(g.normalized())), " distance/voxel ", q / vox))) return; c.count("level-set normals judged"); c.seen(str(V.kind, V.half, (int)(4 * q / vox), (int)(2 * n(0)), (int)(2 * n(1)))); }
            else c.skipped++;
        }
    }
    (void)kap; c.sample(c.note);
}
void finish(Ctx&) {}
}

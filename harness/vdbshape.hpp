// Level sets written with OpenVDB and read back by the repository's ObjectVdb.
#pragma once
#include "objects/object_vdb.hpp"
#include <openvdb/tools/LevelSetSphere.h>
#include "samplecheck.hpp"
namespace vh {
struct VdbShape {
    std::string file, kind; double voxel = 0.1, half = 3; std::vector<Eigen::Vector3d> cen; std::vector<double> rad; Eigen::Vector3d lo, hi; bool box = false;
    // exact signed distance (negative inside)
    double sd(const TV& X) const {
        Eigen::Vector3d x = Eigen::Vector3d::Zero(); for (int d = 0; d < D; d++) x(d) = X(d);
        if (box) { Eigen::Vector3d q = (x - (lo + hi) / 2).cwiseAbs() - (hi - lo) / 2; double o = q.cwiseMax(0).norm(), i = std::min(q.maxCoeff(), 0.0); return o + i; }
        double b = 1e300; for (size_t i = 0; i < cen.size(); i++) b = std::min(b, (x - cen[i]).norm() - rad[i]); return b;
    }
    void surfaceBounds(Eigen::Vector3d& a, Eigen::Vector3d& b) const { if (box) { a = lo; b = hi; return; } a = Eigen::Vector3d::Constant(1e300); b = -a; for (size_t i = 0; i < cen.size(); i++) { a = a.cwiseMin(cen[i] - Eigen::Vector3d::Constant(rad[i])); b = b.cwiseMax(cen[i] + Eigen::Vector3d::Constant(rad[i])); } }
};
static VdbShape randomVdb(Ctx& c, int maxVox = 14) {
    Rng& r = c.rng; static bool init = (openvdb::initialize(), true); (void)init; VdbShape s; s.voxel = r.logu(0.01, 1); s.half = r.pick(std::vector<double>{2, 3, 3, 4}); s.file = c.scratch + "/shape.vdb"; int k = r.below(3);
    auto cz = [&](double R) { Eigen::Vector3d v; for (int d = 0; d < 3; d++) v(d) = r.uni(-20, 20) * s.voxel; if (D == 2) v(2) = r.uni(-0.3, 0.3) * R; return v; };
    openvdb::FloatGrid::Ptr g;
    if (k == 2) {      // box, values written directly
        s.kind = "box"; s.box = true; Eigen::Vector3d e; for (int d = 0; d < 3; d++) e(d) = r.uni(4, maxVox) * s.voxel; Eigen::Vector3d m = cz(e(2)); s.lo = m - e; s.hi = m + e;
    } else { s.kind = k ? "two spheres" : "sphere"; for (int i = 0; i <= k; i++) { double R = r.uni(4, maxVox) * s.voxel; s.rad.push_back(R); s.cen.push_back(cz(R)); } }
    g = openvdb::FloatGrid::create((float)(s.half * s.voxel)); g->setTransform(openvdb::math::Transform::createLinearTransform(s.voxel)); g->setGridClass(openvdb::GRID_LEVEL_SET);
    Eigen::Vector3d a, b; s.surfaceBounds(a, b); int m = (int)s.half + 2; auto acc = g->getAccessor(); auto sd3 = [&](const Eigen::Vector3d& x) { if (s.box) { Eigen::Vector3d q = (x - (s.lo + s.hi) / 2).cwiseAbs() - (s.hi - s.lo) / 2; return q.cwiseMax(0).norm() + std::min(q.maxCoeff(), 0.0); } double bb = 1e300; for (size_t i = 0; i < s.cen.size(); i++) bb = std::min(bb, (x - s.cen[i]).norm() - s.rad[i]); return bb; };
    // filled interior: every voxel inside is active with its distance, as the class asks for
    for (int i = (int)std::floor(a(0) / s.voxel) - m; i <= (int)std::ceil(b(0) / s.voxel) + m; i++) for (int j = (int)std::floor(a(1) / s.voxel) - m; j <= (int)std::ceil(b(1) / s.voxel) + m; j++) for (int l = (int)std::floor(a(2) / s.voxel) - m; l <= (int)std::ceil(b(2) / s.voxel) + m; l++) { double q = sd3(Eigen::Vector3d(i, j, l) * s.voxel); if (q < s.half * s.voxel) acc.setValue(openvdb::Coord(i, j, l), (float)q); }
    openvdb::GridPtrVec gs; gs.push_back(g); openvdb::io::File f(s.file); f.write(gs); f.close(); return s;
}
}

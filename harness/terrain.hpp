// The repository's analytic terrain objects, with a point on each surface.
#pragma once
#include "scenario.hpp"
namespace vh {
struct Terrain { std::string name; std::unique_ptr<ObjectGeneral> o; TV at; };
// surface of each object as documented: height y(x) (material above unless `below`)
inline double surfBump(double x) { return 0.0475 / std::cosh(25 * (x - 0.43)); }
inline double surfGate(double x, double h) { return h + 100 * x * x; }
inline double surfRamp(double x) { return 0.1 * std::tanh(-100 * x); }
inline double surfCurve(double x) { return x * x; }
inline Terrain randomTerrain(Rng& r, BC bc, double f) {
    Terrain t; t.at = rvec(r, 0.5); int k = r.below(D == 3 ? 6 : 5); double x;
    switch (k) {
        case 0: { double y = r.uni(-1, 1); t.name = "ground"; t.o = std::make_unique<ObjectGround>(bc, f, "g", y); t.at(1) = y; break; }
        case 1: x = 0.43 + r.uni(-0.15, 0.15); t.name = "bump"; t.o = std::make_unique<ObjectBump>(bc, f, "b"); t.at(0) = x; t.at(1) = surfBump(x); break;
        case 2: { double h = r.uni(0.005, 0.1); x = r.uni(-0.05, 0.05); t.name = "gate"; t.o = std::make_unique<ObjectGate>(bc, f, "g", h); t.at(0) = x; t.at(1) = surfGate(x, h); break; }
        case 3: x = r.uni(-0.04, 0.04); t.name = "ramp"; t.o = std::make_unique<ObjectRamp>(bc, f, "r"); t.at(0) = x; t.at(1) = surfRamp(x); break;
        case 4: x = r.uni(-1.5, 1.5); t.name = "curve"; t.o = std::make_unique<ObjectCurve>(bc, f, "c"); t.at(0) = x; t.at(1) = surfCurve(x); break;
        default: {
#ifdef THREEDIM
            double cut = -r.uni(0.5, 3), y = r.uni(cut, 2), a = r.uni(-M_PI, M_PI), R = std::tanh(y) + 1; t.name = "silo"; t.o = std::make_unique<ObjectSilo>(bc, f, "s", cut); t.at(0) = R * std::cos(a); t.at(1) = y; t.at(2) = R * std::sin(a);
#endif
            break; }
    }
    return t;
}
} // namespace vh

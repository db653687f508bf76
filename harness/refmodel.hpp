// Independent reference implementation of one MPM time step (sparse grid, textbook B-splines).
#pragma once
#include "scenario.hpp"
#include <array>
#include <unordered_map>

namespace vh {

// Uniform B-spline of degree DEG centred at 0, by the Cox-de Boor recursion on knots -(p+1)/2 .. (p+1)/2
inline double bspl(int p, double u) {            // support |u| < (p+1)/2
    if (p == 0) return (u >= -0.5 && u < 0.5) ? 1.0 : 0.0;
    double h = 0.5 * (p + 1);
    return ((h + u) * bspl(p - 1, u + 0.5) + (h - u) * bspl(p - 1, u - 0.5)) / p;
}
inline double dbspl(int p, double u) { return bspl(p - 1, u + 0.5) - bspl(p - 1, u - 0.5); }

struct Node { double m = 0; TV mv = TV::Zero(); TV f = TV::Zero(); double fr = 0; TV v = TV::Zero(); TV vold = TV::Zero(); TV vn = TV::Zero(); TV mv2 = TV::Zero(); TV vfree = TV::Zero(); bool amb = false; int hits = 0; double mibf = 0; };
typedef std::array<long, 3> Key;
struct KeyHash { size_t operator()(const Key& k) const { return (size_t)(k[0] * 73856093ll ^ k[1] * 19349663ll ^ k[2] * 83492791ll); } };
typedef std::unordered_map<Key, Node, KeyHash> SGrid;

struct Weights { Key base; std::array<std::array<double, 6>, 3> w, g, xi; int n; };

struct RefGrid {
    TV org; double dx; SGrid g; bool edge = false; double cond = 1;    // cond: closest non-exact distance (in cells) of a particle to the edge of a node's support
    RefGrid(TV o, double h) : org(o), dx(h) {}
    Weights weights(const TV& x) {
        Weights W; W.n = DEG + 3; W.base = {0, 0, 0};
        for (int d = 0; d < D; d++) {
            double s = (x(d) - org(d)) / dx; long b = (long)std::floor(s) - (DEG + 1) / 2 - 0; W.base[d] = b;
            for (int i = 0; i < W.n; i++) {
                double u = s - (double)(b + i); double e = std::abs(std::abs(u) - 0.5 * (DEG + 1));
                if (e < 1e-13 * std::max(1.0, std::abs(s))) { W.w[d][i] = 0; W.g[d][i] = 0; if (DEG == 2 && std::abs(s) * std::max(std::abs(s), std::abs(x(d)) / dx) * 1.1e-16 > 2e-13) edge = true; }   // edge: on the edge of a support, but rounded so far off it that the weight may count
                else { if (std::abs(u) < 0.5 * (DEG + 1)) cond = std::min(cond, e); W.w[d][i] = bspl(DEG, u); W.g[d][i] = dbspl(DEG, u) / dx; }
                W.xi[d][i] = org(d) + (double)(b + i) * dx;
            }
        }
        if (D == 2) { W.w[2].fill(1); W.g[2].fill(0); W.xi[2].fill(0); }
        return W;
    }
    template <class Fn> void each(const TV& x, Fn fn, bool create = true) {
        Weights W = weights(x); int nz = D == 3 ? W.n : 1;
        for (int i = 0; i < W.n; i++) for (int j = 0; j < W.n; j++) for (int k = 0; k < nz; k++) {
            double w = W.w[0][i] * W.w[1][j] * W.w[2][k];
            if (w == 0) continue;
            TV gr; gr(0) = W.g[0][i] * W.w[1][j] * W.w[2][k]; gr(1) = W.w[0][i] * W.g[1][j] * W.w[2][k];
            TV xi; xi(0) = W.xi[0][i]; xi(1) = W.xi[1][j];
#ifdef THREEDIM
            gr(2) = W.w[0][i] * W.w[1][j] * W.g[2][k]; xi(2) = W.xi[2][k];
#endif
            Key key = {W.base[0] + i, W.base[1] + j, D == 3 ? W.base[2] + k : 0};
            if (create) fn(g[key], w, gr, xi); else { auto it = g.find(key); if (it != g.end()) fn(it->second, w, gr, xi); }
        }
    }
    TV pos(const Key& k) const { TV x; for (int d = 0; d < D; d++) x(d) = org(d) + (double)k[d] * dx; return x; }
};

// --- boundary reference -------------------------------------------------------------------------
// Coulomb slip with friction mu against a surface with outward unit normal n, relative velocity vr.
// stick: the surface may not be left (SlipStick); otherwise separation is free (SlipFree).
inline TV slipMap(const TV& vr, const TV& n, double mu, bool stick, bool frictionAlsoWhenSeparating) {
    double vn = vr.dot(n); TV vt = vr - vn * n;
    if (!stick && vn >= 0) return vr;
    double loss = mu > 0 ? mu * std::abs(vn) : 0;
    if (vn > 0 && !frictionAlsoWhenSeparating) loss = 0;
    double t = vt.norm();
    if (loss == 0) return vt;
    if (t <= loss) return TV::Zero();
    return vt * ((t - loss) / t);
}
inline TV plateNormal(PlateType t) {
    TV n = TV::Zero();
    switch (t) { case PlateType::left: n(0) = 1; break; case PlateType::right: n(0) = -1; break; case PlateType::bottom: n(1) = 1; break; case PlateType::top: n(1) = -1; break;
        case PlateType::back: if (D == 3) n(D - 1) = 1; break; case PlateType::front: if (D == 3) n(D - 1) = -1; break; }
    return n;
}
// signed clearance: >0 outside, <=0 inside ; also returns ambiguity margin
inline bool plateInside(const ObjectPlate& p, const TV& X, double& margin) {
    TV n = plateNormal(p.plate_type);
    int ax = (p.plate_type == PlateType::left || p.plate_type == PlateType::right) ? 0 : (p.plate_type == PlateType::bottom || p.plate_type == PlateType::top) ? 1 : 2;
    double c = n(ax) * (X(ax) - p.pos_object);
    margin = std::abs(c); bool in = c <= 0;
    if (ax < 2) { int o = 1 - ax; in = in && X(o) > p.pos_lower && X(o) < p.pos_upper; margin = std::min(margin, std::min(std::abs(X(o) - p.pos_lower), std::abs(X(o) - p.pos_upper))); }
    return in;
}

struct RefOut { Snap post; bool ambiguous = false; double cond = 1; RefGrid grid; bool Fvalid = true; RefOut(RefGrid g) : grid(g) {} };

// Elastic Kirchhoff stress from the definition, via the symmetric eigenproblem of b = F F^T
inline TM henckyTau(const TM& F, double lam, double mu) {
    TM b = F * F.transpose(); Eigen::SelfAdjointEigenSolver<TM> es(b);
    TV e; for (int d = 0; d < D; d++) e(d) = std::max(0.5 * std::log(es.eigenvalues()(d)), std::log(1e-4));
    TV t = lam * e.sum() * TV::Ones() + 2 * mu * e;
    return es.eigenvectors() * diag(t) * es.eigenvectors().transpose();
}
inline TM neoTau(const TM& F, double lam, double mu) { return mu * (F * F.transpose() - TM::Identity()) + lam * std::log(F.determinant()) * TM::Identity(); }
inline double lame1(const Simulation& s) { return s.nu * s.E / ((1 + s.nu) * (1 - 2 * s.nu)); }
inline double shear(const Simulation& s) { return s.E / (2 * (1 + s.nu)); }
inline double bulk(const Simulation& s) { return lame1(s) + 2 * shear(s) / D; }

typedef std::function<bool(const TM& Ftr, const Snap& pre, int p, double dt, TM& F, TM& tau)> Constitutive;

// one complete step; grid nodes at org + k*dx. `ghosts`: periodic images to add in P2G (indices,positions)
inline RefOut refStep(const Simulation& s, const Snap& pre, double dt, TV gravity, TV org, Constitutive cons) {
    RefOut R(RefGrid(org, s.dx)); RefGrid& G = R.grid; Snap& q = R.post; q = pre;
    int n = (int)pre.Np; double fr = s.flip_ratio; bool apic = fr < 0; double Dinv = (DEG == 3 ? 3.0 : 4.0) / (s.dx * s.dx);
    std::vector<int> id; std::vector<TV> px;
    for (int p = 0; p < n; p++) { id.push_back(p); px.push_back(pre.x[p]); }
    if (s.pbc) for (int p = 0; p < n; p++) for (int k = -1; k <= 1; k += 2) { TV x = pre.x[p]; x(0) += k * s.Lx; if (x(0) > -4 * s.dx && x(0) < s.Lx + 4 * s.dx) { id.push_back(p); px.push_back(x); } }
    for (size_t a = 0; a < id.size(); a++) { int p = id[a];
        G.each(px[a], [&](Node& N, double w, const TV& g, const TV& xi) {
            if (w <= 1e-25) return;
            N.m += w * pre.pm; N.mv += w * pre.pm * pre.v[p]; if (apic) N.mv += w * pre.pm * (Dinv * (pre.B[p] * (xi - px[a])));
            N.f += -pre.pv * (pre.tau[p] * g); if (s.use_mibf) N.fr += w * pre.muI[p] * pre.pm; });
    }
    for (auto& kv : G.g) { Node& N = kv.second; if (!(N.m > 0)) continue;
        TV v0 = N.mv / N.m; TV v = v0 + dt * (N.f / N.m + gravity); TV X = G.pos(kv.first) + dt * v; N.vold = v0; N.vfree = v; double mibf = N.fr / N.m; N.mibf = mibf;
        double tol = 1e-9 * (s.dx + X.cwiseAbs().maxCoeff());
        for (auto& o : s.objects) {
            bool in = o->inside(X);
            for (int d = 0; d < D; d++) for (int sg = -1; sg <= 1; sg += 2) { TV Y = X; Y(d) += sg * tol; if (o->inside(Y) != in) R.ambiguous = N.amb = true; }
            if (!in) continue;
            N.hits++;
            if (o->bc == BC::NoSlip) v.setZero(); else v = slipMap(v, o->normal(X), s.use_mibf ? mibf : o->friction, o->bc == BC::SlipStick, false);
        }
        for (auto& o : pre.plates) { double mg; bool in = plateInside(o, X, mg); if (mg < tol) R.ambiguous = N.amb = true; if (!in) continue; N.hits++;
            TV vo = plateVel(o);
            if (o.bc == BC::NoSlip) v = vo; else v = vo + slipMap(v - vo, plateNormal(o.plate_type), s.use_mibf ? mibf : o.friction, o.bc == BC::SlipStick, true);
        }
        N.v = v; N.vn = v;
    }
    double a = std::abs(fr);
    for (int p = 0; p < n; p++) {
        TV pic = TV::Zero(), dv = TV::Zero(); TM B = TM::Zero();
        G.each(pre.x[p], [&](Node& N, double w, const TV&, const TV& xi) { if (!(N.m > 0)) return; pic += w * N.v; dv += w * (N.v - N.vold); B += w * N.v * (xi - pre.x[p]).transpose(); }, false);
        q.pic[p] = pic; q.flip[p] = fr >= -1 ? dv : TV::Zero(); q.B[p] = apic ? B : TM::Zero();
        q.v[p] = fr < -1 ? pic : TV(a * (pre.v[p] + dv) + (1 - a) * pic);
        q.x[p] = pre.x[p] + dt * pic;
        if (s.pbc) { if (q.x[p](0) > s.Lx) q.x[p](0) -= s.Lx; else if (q.x[p](0) < 0) q.x[p](0) += s.Lx; }
    }
    if (s.use_musl) {
        for (size_t k = 0; k < id.size(); k++) { int p = id[k];
            G.each(px[k], [&](Node& N, double w, const TV&, const TV& xi) { if (w <= 1e-25) return; N.mv2 += w * pre.pm * q.v[p]; if (apic) N.mv2 += w * pre.pm * (Dinv * (q.B[p] * (xi - px[k]))); }); }
        for (auto& kv : G.g) if (kv.second.m > 0) kv.second.vn = kv.second.mv2 / kv.second.m;
    }
    for (int p = 0; p < n; p++) {
        TM L = TM::Zero();
        G.each(pre.x[p], [&](Node& N, double w, const TV& g, const TV&) { if (!(N.m > 0)) return; L += N.vn * g.transpose(); }, false);
        TM Ftr = pre.F[p] + dt * L * pre.F[p];
        TM F, tau; if (!cons || !cons(Ftr, pre, p, dt, F, tau)) { R.Fvalid = false; F = Ftr; tau = TM::Zero(); }
        q.F[p] = F; q.tau[p] = tau;
    }
    R.cond = G.cond; if (G.edge) R.ambiguous = true;
    return R;
}

} // namespace vh

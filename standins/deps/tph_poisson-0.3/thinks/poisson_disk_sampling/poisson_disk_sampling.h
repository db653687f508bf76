// Stand-in for thinks::PoissonDiskSampling (downloaded by the repository at configure time).
// Bridson's algorithm, same signature and contract: points in [x_min, x_max], pairwise distance >= radius,
// deterministic in the seed, throws std::invalid_argument on invalid arguments.
#pragma once
#include <array>
#include <vector>
#include <cmath>
#include <cstdint>
#include <stdexcept>
namespace thinks {
template <typename F, std::size_t N>
std::vector<std::array<F, N>> PoissonDiskSampling(F radius, const std::array<F, N>& x_min, const std::array<F, N>& x_max,
                                                  std::uint32_t max_sample_attempts = 30, std::uint32_t seed = 0) {
    if (!(radius > 0)) throw std::invalid_argument("radius must be positive");
    for (std::size_t d = 0; d < N; d++) if (!(x_max[d] > x_min[d])) throw std::invalid_argument("invalid bounds");
    if (max_sample_attempts == 0) throw std::invalid_argument("max_sample_attempts must be positive");
    std::uint64_t s = seed * 0x9E3779B97F4A7C15ull + 77;
    auto rnd = [&]() { std::uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; return F((z >> 11) * (1.0 / 9007199254740992.0)); };
    const F h = radius / std::sqrt(F(N));
    std::array<long, N> n; std::size_t tot = 1;
    for (std::size_t d = 0; d < N; d++) { n[d] = long((x_max[d] - x_min[d]) / h) + 1; tot *= n[d]; }
    std::vector<long> cell(tot, -1);
    std::vector<std::array<F, N>> out; std::vector<long> active;
    auto cidx = [&](const std::array<F, N>& p) { std::array<long, N> c; for (std::size_t d = 0; d < N; d++) { c[d] = long((p[d] - x_min[d]) / h); if (c[d] >= n[d]) c[d] = n[d] - 1; if (c[d] < 0) c[d] = 0; } return c; };
    auto lin = [&](const std::array<long, N>& c) { std::size_t l = 0; for (std::size_t d = 0; d < N; d++) l = l * n[d] + c[d]; return l; };
    auto add = [&](const std::array<F, N>& p) { cell[lin(cidx(p))] = (long)out.size(); active.push_back((long)out.size()); out.push_back(p); };
    auto near = [&](const std::array<F, N>& p) {
        auto c = cidx(p); std::array<long, N> o; o.fill(-2);
        while (true) {
            std::array<long, N> q; bool ok = true;
            for (std::size_t d = 0; d < N; d++) { q[d] = c[d] + o[d]; if (q[d] < 0 || q[d] >= n[d]) ok = false; }
            if (ok) { long k = cell[lin(q)]; if (k >= 0) { F r2 = 0; for (std::size_t d = 0; d < N; d++) { F e = out[k][d] - p[d]; r2 += e * e; } if (r2 < radius * radius) return true; } }
            std::size_t d = 0; while (d < N && ++o[d] > 2) { o[d] = -2; d++; }
            if (d == N) break;
        }
        return false;
    };
    std::array<F, N> p0; for (std::size_t d = 0; d < N; d++) p0[d] = x_min[d] + rnd() * (x_max[d] - x_min[d]);
    add(p0);
    while (!active.empty()) {
        std::size_t a = std::size_t(rnd() * active.size()); if (a >= active.size()) a = active.size() - 1;
        auto base = out[active[a]]; bool found = false;
        for (std::uint32_t t = 0; t < max_sample_attempts; t++) {
            std::array<F, N> v; F r2;
            do { r2 = 0; for (std::size_t d = 0; d < N; d++) { v[d] = 2 * rnd() - 1; r2 += v[d] * v[d]; } } while (r2 > 1 || r2 < 0.25);
            std::array<F, N> q; bool in = true;
            for (std::size_t d = 0; d < N; d++) { q[d] = base[d] + 2 * radius * v[d]; if (q[d] < x_min[d] || q[d] > x_max[d]) in = false; }
            if (in && !near(q)) { add(q); found = true; break; }
        }
        if (!found) { active[a] = active.back(); active.pop_back(); }
    }
    return out;
}
} // namespace thinks

// Shared harness infrastructure: seeded RNG, case driver, violation/coverage report.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <functional>
#include <stdexcept>
#include <limits>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }          // [0,1)
    double uni(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }                      // inclusive
    bool chance(double p) { return u() < p; }
    double sgn() { return (next() & 1) ? 1.0 : -1.0; }
    double normal() { double a = std::max(u(), 1e-300), b = u(); return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b); }
    template <class A> const A& pick(const std::vector<A>& v) { return v[below((int)v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567)); return r.next(); }
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct StepLimit : std::runtime_error { StepLimit() : std::runtime_error("step limit") {} };

struct OutOfDomain : std::runtime_error { OutOfDomain(const std::string& w) : std::runtime_error(w) {} };

struct Violation { std::string key, detail; int idx; };

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Ctx {
    uint64_t seed = 1;
    int idx = 0;
    bool thorough = false;
    Rng rng;
    std::string scratch;        // private scratch directory of this shard
    std::string note;           // description of the current case
    // accumulated
    std::vector<Violation> viol;
    std::map<std::string, long> counts;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<int, std::pair<uint64_t, long>> digests;
    void digest(uint64_t h, long n) { digests[idx] = {h, n}; }
    long evaluations = 0, skipped = 0;
    bool replay = false;

    void fail(const std::string& key, const std::string& detail) {
        if (viol.size() < 200) viol.push_back({key, detail + " | case " + note, idx});
        if (replay) fprintf(stderr, "FAIL %s: %s\n", key.c_str(), detail.c_str());
    }
    bool check(bool ok, const std::string& key, const std::string& detail) { if (!ok) fail(key, detail); return ok; }
    void count(const std::string& k, long n = 1) { counts[k] += n; }
    void seen(uint64_t h) { distinct.insert(h); }
    void seen(const std::string& s) { distinct.insert(hstr(s)); }
    void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
    std::string fmt(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
};

template <class... A> std::string str(A&&... a) { std::ostringstream o; o.precision(12); (void)std::initializer_list<int>{(o << a, 0)...}; return o.str(); }

void run_case(Ctx& c);    // one per property harness
void finish(Ctx& c);      // optional aggregate checks

} // namespace vh

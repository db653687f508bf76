// Minimal reader for binary little-endian PLY files.
#pragma once
#include "common.hpp"
#include <fstream>
#include <dirent.h>
namespace vh {
struct Ply { bool ok = false; std::string err; size_t n = 0; std::vector<std::string> names; std::vector<std::vector<double>> col;
    int find(const std::string& s) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == s) return (int)i; return -1; } };
inline std::string slurp(const std::string& f, bool* ok = nullptr) { std::ifstream i(f, std::ios::binary); if (ok) *ok = (bool)i; std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline bool exists(const std::string& f) { struct stat st; return stat(f.c_str(), &st) == 0; }
inline Ply readPly(const std::string& f) {
    Ply P; bool ok; std::string d = slurp(f, &ok); if (!ok) { P.err = "cannot open " + f; return P; }
    size_t e = d.find("end_header\n"); if (d.compare(0, 4, "ply\n") || e == std::string::npos) { P.err = "no PLY header in " + f; return P; }
    std::istringstream h(d.substr(0, e)); std::string l; std::vector<int> ty; int elems = 0; bool bin = false;
    while (std::getline(h, l)) { std::istringstream q(l); std::string a, b, c; q >> a >> b >> c; if (a == "format") bin = b == "binary_little_endian"; else if (a == "element") { elems++; if (b != "vertex") P.err = "element " + b; P.n = std::stoul(c); } else if (a == "property") { P.names.push_back(c); ty.push_back((b == "double" || b == "float64") ? 8 : (b == "float" || b == "float32") ? 4 : 0); if (!ty.back()) P.err = "type " + b; } }
    if (!bin) P.err = "not binary"; if (elems != 1) P.err = "elements"; if (!P.err.empty()) return P;
    size_t rec = 0; for (int t : ty) rec += t; const char* p = d.data() + e + 11; size_t left = d.size() - e - 11; if (left != rec * P.n) { P.err = str("payload of ", left, " bytes, want ", rec * P.n); return P; }
    P.col.assign(P.names.size(), std::vector<double>(P.n)); for (size_t i = 0; i < P.n; i++) for (size_t k = 0; k < ty.size(); k++) { if (ty[k] == 8) { double v; memcpy(&v, p, 8); P.col[k][i] = v; } else { float v; memcpy(&v, p, 4); P.col[k][i] = v; } p += ty[k]; }
    P.ok = true; return P;
}
inline std::vector<std::string> listDir(const std::string& d) { std::vector<std::string> o; if (DIR* q = opendir(d.c_str())) { while (dirent* e = readdir(q)) { std::string n = e->d_name; if (n != "." && n != "..") o.push_back(n); } closedir(q); } std::sort(o.begin(), o.end()); return o; }
inline void wipe(const std::string& d) { for (auto& n : listDir(d)) { std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { wipe(f); rmdir(f.c_str()); } else unlink(f.c_str()); } }
inline bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
} // namespace vh

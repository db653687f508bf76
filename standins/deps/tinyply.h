// Stand-in for the tinyply single-header library (the repository downloads it at configure time).
// Implements the subset of the API the project uses, writing standard PLY.
// Like the original it keeps pointers to the caller's buffers and reads them in write().
#ifndef tinyply_h
#define tinyply_h
#include <vector>
#include <string>
#include <stdint.h>
#include <cstddef>
#include <ostream>
#include <cstring>
#include <stdexcept>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
struct PlyFile {
    struct Group { std::vector<std::string> keys; Type t; size_t count; const uint8_t* data; };
    struct Element { std::string name; size_t count; std::vector<Group> groups; };
    std::vector<Element> elements;
    static const char* tname(Type t) { return t == Type::FLOAT64 ? "double" : t == Type::FLOAT32 ? "float" : t == Type::INT32 ? "int" : "uint"; }
    static size_t tsize(Type t) { return t == Type::FLOAT64 ? 8 : 4; }
    void add_properties_to_element(const std::string& elementKey, const std::vector<std::string> propertyKeys, const Type type,
                                   const size_t count, const uint8_t* data, const Type listType, const size_t listCount) {
        (void)listType; (void)listCount;
        Element* e = nullptr;
        for (auto& x : elements) if (x.name == elementKey) e = &x;
        if (!e) { elements.push_back({elementKey, count, {}}); e = &elements.back(); }
        if (e->count != count) throw std::runtime_error("tinyply: element count mismatch for " + propertyKeys[0]);
        e->groups.push_back({propertyKeys, type, count, data});
    }
    void write(std::ostream& os, bool isBinary) {
        os << "ply\n" << (isBinary ? "format binary_little_endian 1.0\n" : "format ascii 1.0\n");
        for (auto& e : elements) {
            os << "element " << e.name << " " << e.count << "\n";
            for (auto& g : e.groups) for (auto& k : g.keys) os << "property " << tname(g.t) << " " << k << "\n";
        }
        os << "end_header\n";
        for (auto& e : elements)
            for (size_t i = 0; i < e.count; i++)
                for (auto& g : e.groups) {
                    size_t n = g.keys.size() * tsize(g.t);
                    if (isBinary) os.write(reinterpret_cast<const char*>(g.data + i * n), (std::streamsize)n);
                    else for (size_t k = 0; k < g.keys.size(); k++) {
                        double v = 0; if (g.t == Type::FLOAT64) memcpy(&v, g.data + i * n + 8 * k, 8);
                        os << v << " ";
                    }
                }
    }
};
} // namespace tinyply
#endif

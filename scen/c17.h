// C17: catalogue of library computations on private data.  Each is a deterministic function of
// (seed, size): it draws its inputs from the seed, calls the library and reports every result.
#pragma once
#include "../sim/core.h"
#include <vector>

namespace c17 {
struct Out {
    std::string s;
    Out& d(double v) { char b[48]; snprintf(b, sizeof b, "%a ", v); s += b; return *this; }
    Out& i(long long v) { char b[32]; snprintf(b, sizeof b, "%lld ", v); s += b; return *this; }
    Out& t(const std::string& v) { s += '"'; s += v; s += "\" "; return *this; }
};
struct Arg {
    sim::Rng r;
    int size;               // 0..3
    std::string uniq;       // a name no other call uses (labels, file names)
    std::string dir;        // a directory with a few files that nobody changes
    std::string tmp;        // a directory where files named after uniq may be created
};
typedef void (*Fn)(Arg&, Out&);
struct Kind { const char* name; Fn fn; int logev; bool allocfault; int maxrep; };
void common_kinds(std::vector<Kind>& v);
void geom_kinds(std::vector<Kind>& v);
void box2_kind(std::vector<Kind>& v);
void box3_kind(std::vector<Kind>& v);
inline double num(sim::Rng& r) {
    static const double few[] = {0, 0, 1, -1, 0.5, 2, 30, 90, 180, 3.5};      // different calls meet on the same values
    switch (r.below(7)) {
        case 5: case 6: return few[r.below(10)];
        case 0: return (double)r.range(-10, 10);
        case 1: return (double)r.range(-1000000, 1000000) * 1e-6;
        case 2: return (double)r.range(-100000, 100000) * 1e-3;
        case 3: return (double)r.range(0, 40) * 0.25;
        default: return (double)r.range(-700000, 700000) * 1e-3;
    }
}
}  // namespace c17

#include "c18.h"
#include "profiler_util.h"
#include "../sim/sched.h"
#include <rofl/common/functions.h>
#include <rofl/common/grid.h>
#include <rofl/common/interval_indices.h>
#include <rofl/common/label_set.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/morton_tree.h>
#include <rofl/common/param_map.h>
#include <rofl/common/peak_finder_d.h>
#include <rofl/common/profiler.h>
#include <algorithm>
#include <iterator>
#include <sstream>

namespace c18 {
namespace {
using sim::Rng;
using sim::u64;

template <size_t D> struct GridObj : Object {
    typedef rofl::Grid<D, int, int> G;
    G g;
    GridObj(Rng r, int size) {
        typename G::Indices mn, dim;
        for (size_t d = 0; d < D; ++d) { mn[d] = (int)r.range(-4, 4); dim[d] = (int)r.range(1, 2 + size); }
        g.initBounds(mn, dim);
        for (size_t p = 0; p < g.size(); ++p) g.value(g.getIndices((int)p)) = (int)r.range(-99, 99);
    }
    std::string query(u64 q, u64 a) const override {
        Out o;
        typename G::Indices i = g.getIndices((int)(a % g.size()));
        switch (q % 5) {
            case 0: o.i(g.value(i)); break;
            case 1: o.i(g.getPos(i)); break;
            case 2: i[0] += (int)(a % 3) * 100; o.i(g.inside(i)); break;
            case 3: o.i((long long)g.size()); for (size_t d = 0; d < D; ++d) o.i(i[d]); break;
            default: for (size_t p = 0; p < g.size(); ++p) o.i(g.value(g.getIndices((int)p))); break;
        }
        return o.s;
    }
    std::string describe() const override {
        Out o;
        for (size_t p = 0; p < g.size(); ++p) { typename G::Indices i = g.getIndices((int)p); o.i(g.value(i)).i(g.getPos(i)); for (size_t d = 0; d < D; ++d) o.i(i[d]); }
        return o.s;
    }
};
struct HeapObj : Object {
    rofl::MinMaxHeap<int> h;
    HeapObj(Rng r, int size) { int n = 1 + (int)r.below(4u + 6u * (unsigned)size); for (int k = 0; k < n; ++k) h.push((int)r.range(0, 20)); }
    std::string query(u64 q, u64) const override {
        Out o;
        switch (q % 7) {
            case 0: o.i(h.top()); break;
            case 1: o.i(h.bottom()); break;
            case 2: o.i(h.nextTop()); break;
            case 3: o.i(h.nextBottom()); break;
            case 4: o.i((long long)h.size()).i(h.empty()); break;
            case 5: for (int x : h) o.i(x); break;
            default: { std::ostringstream ss; h.print(ss); o.t(ss.str()); }
        }
        return o.s;
    }
    std::string describe() const override { Out o; for (int x : h) o.i(x); return o.i(h.top()).i(h.bottom()).s; }
};
struct LabelObj : Object {
    rofl::LabelSet s, t;
    LabelObj(Rng r, int size) { for (int k = 0; k < 2 + 3 * size; ++k) { s.insert((int)r.range(0, 12)); if (r.chance(70)) t.insert((int)r.range(0, 12)); } }
    static std::string show(const rofl::LabelSet& x) { Out o; for (int e : x) o.i(e); return o.s; }
    std::string query(u64 q, u64 a) const override {
        Out o;
        int l = (int)(a % 13);
        const rofl::LabelSet &u = a & 16 ? s : t, &v = a & 16 ? t : s;
        switch (q % 10) {
            case 0: o.i(u.inside(l)); break;
            case 1: o.i((long long)u.size()).i(u.empty()); break;
            case 2: o.i(u == v).i(u != v).i(u == u); break;
            case 3: o.t(show(u.unionSet(l))); break;
            case 4: o.t(show(u.unionSet(v))); break;
            case 5: o.t(show(u.intersectionSet(v))); break;
            case 6: o.t(show(u.differenceSet(l))); break;
            case 7: o.t(show(u.differenceSet(v))); break;
            case 8: { std::ostringstream ss; u.print(ss); o.t(ss.str()); break; }
            default: { rofl::LabelSet c(u); c.insert(l); o.t(show(c)); }
        }
        return o.s;
    }
    std::string describe() const override { return show(s) + "|" + show(t); }
};
struct ParamObj : Object {
    rofl::ParamMap m;
    ParamObj(Rng r, int size) { for (int k = 0; k < 1 + 3 * size; ++k) m.setParam(std::string(1 + r.below(3), (char)('a' + r.below(9))), r.range(-99, 99)); }
    std::string query(u64 q, u64 a) const override {
        Out o;
        std::ostringstream ss;
        bool b = q % 2 ? m.write(ss) : m.write(ss, a % 2 ? "  " : "# ");
        if (ss.good()) o.i(b).t(ss.str());
        return o.s;
    }
    std::string describe() const override { std::ostringstream ss; m.write(ss); return ss.str(); }
};
struct MortonObj : Object {
    typedef rofl::MortonTree<int, 3> T;
    T t;
    MortonObj(Rng r, int size) {
        for (int k = 0; k < 1 + 4 * size; ++k) { T::Item i; for (int d = 0; d < 3; ++d) i.values[d] = (int)r.range(0, 30); i.id = 0; t.insert(i); }
        if (r.chance(50)) t.sort();
    }
    std::string query(u64 q, u64 a) const override {
        Out o;
        const T::Container& c = t.getItems();
        switch (q % 4) {
            case 0: o.i((long long)t.size()).i(t.end() - t.begin()); break;
            case 1: o.t(c[a % c.size()].toString()); break;
            case 2: for (auto& i : t) o.i(i.id).i(i.values[0]); break;
            default: { T y(t); T::Item z; for (int d = 0; d < 3; ++d) z.values[d] = (int)(a % 31); o.i((long long)y.size()); y.findItem(z); for (auto& i : y) o.i(i.values[1]); }
        }
        return o.s;
    }
    std::string describe() const override { Out o; for (auto& i : t) o.t(i.toString()); return o.s; }
};
struct LutObj : Object {
    rofl::PnebiLUT l;
    int n;
    LutObj(Rng r, int size) : n(1 + size) { l.init(n, r.chance(50) ? 0.5 : 1.0); }
    static double x(u64 a) { return a % 1400 >= 1380 ? (a % 2 ? 1e308 : 1e9) : (double)(a % 1400) * 0.5; }
    std::string query(u64 q, u64 a) const override {
        Out o;
        if (q % 3 == 0) { std::vector<double> y; l.eval(x(a), y); for (double d : y) o.d(d); }
        else if (q % 3 == 1) o.d(l.eval((int)(q / 3 % (u64)n), x(a)));
        else o.i(l.getOrderMax());
        return o.s;
    }
    std::string describe() const override { Out o; o.i(l.getOrderMax()); for (u64 a = 0; a < 1400; a += 37) { if (a > 1330) a = 1399; std::vector<double> y; l.eval(x(a), y); for (double d : y) o.d(d); } return o.s; }
};
struct IntervalObj : Object {
    typedef rofl::IntervalIndices<2, int> I;
    I v, w;
    IntervalObj(Rng r, int size) { v.initBounds({(int)r.range(-3, 3), (int)r.range(-3, 3)}, {(int)r.range(1, 2 + size), (int)r.range(1, 3)}); w.initCentered({(int)r.range(-2, 2), 0}, {1, 1}); }
    std::string query(u64 q, u64 a) const override {
        Out o;
        switch (q % 6) {
            case 0: for (auto it = v.beginRaster(); it != v.endRaster(); ++it) o.t(rofl::outIdx(*it)); break;
            case 1: for (auto it = v.beginBoustrophedon(); it != v.endBoustrophedon(); ++it) o.t(rofl::outIdx(*it)); break;
            case 2: { I x = v.intersect(w); o.t(rofl::outIdx(x.min())).t(rofl::outIdx(x.max())); break; }
            case 3: { I x = v.stacked(a % 2, (int)(a % 5) - 2); o.t(rofl::outIdx(x.min())).i((long long)x.size()); break; }
            case 4: o.i(v.inside({(int)(a % 9) - 4, (int)(a / 9 % 9) - 4})).i(v.empty()).i((long long)v.size()); break;
            default: { std::ostringstream ss; v.print(ss); o.t(ss.str()); I c = v.clone(); o.t(rofl::outIdx(c.last())); }
        }
        return o.s;
    }
    std::string describe() const override { Out o; return o.t(rofl::outIdx(v.min())).t(rofl::outIdx(v.max())).t(rofl::outIdx(w.min())).t(rofl::outIdx(w.max())).s; }
};
struct PeakObj : Object {
    typedef rofl::PeakFinderD<1, int, int, std::greater<int> > P;
    P p;
    std::vector<int> v, w;
    PeakObj(Rng r, int size) {
        for (int k = 0; k < 3 + 2 * size; ++k) { v.push_back((int)r.range(0, 30)); w.push_back((int)r.range(0, 30)); }
        p.setDomain({(int)v.size()});
        p.setPeakWindow({1});
        if (r.chance(50)) p.enableFilterPeakMin(true, 10);
    }
    std::string query(u64 q, u64) const override {
        Out o;
        std::vector<P::Indices> m;
        const std::vector<int>& d = q % 2 ? v : w;
        p.detect([&](const P::Indices& i) { return d[(size_t)i[0]]; }, std::back_inserter(m));
        for (auto& i : m) o.i(i[0]);
        return o.s;
    }
    std::string describe() const override { return query(0, 0) + "|" + query(1, 0); }
};
struct ProfObj : Object {       // printing while nobody records
    ProfObj(Rng r, int size) { for (int k = 0; k < 2 + 3 * size; ++k) rofl::Profiler::getProfiler().updateStat(std::string(1, (char)('a' + r.below(4))), (double)r.range(0, 50)); }
    std::string query(u64, u64) const override {
        std::ostringstream ss;
        const rofl::Profiler& p = rofl::Profiler::getProfiler();
        p.printStats(ss);
        return ss.good() ? ss.str() : std::string();
    }
    std::string describe() const override { return query(0, 0); }
};
struct TimerObj : Object {      // one timer read by several threads
    rofl::ScopedTimer* t;
    TimerObj(Rng, int) { t = new rofl::ScopedTimer("shared"); }
    std::string query(u64, u64) const override { Out o; const rofl::ScopedTimer& c = *t; o.d(c.elapsedTimeMs()); return o.s; }
    std::string describe() const override { return query(0, 0); }
};
template <class T> Object* mk(u64 seed, int size) { return new T(Rng(seed), size); }
Object* mkgrid(u64 seed, int size) { return seed % 2 ? (Object*)new GridObj<2>(Rng(seed), size) : (Object*)new GridObj<3>(Rng(seed), size); }
}  // namespace
void common_objects(std::vector<Factory>& v) {
    const Factory f[] = {{"grid", mkgrid}, {"heap", mk<HeapObj>}, {"labels", mk<LabelObj>}, {"params", mk<ParamObj>}, {"morton", mk<MortonObj>}, {"lut", mk<LutObj>},
                         {"interval", mk<IntervalObj>}, {"peaks", mk<PeakObj>}, {"profiler", mk<ProfObj>}, {"timer", mk<TimerObj>}};
    v.insert(v.end(), std::begin(f), std::end(f));
}
}  // namespace c18

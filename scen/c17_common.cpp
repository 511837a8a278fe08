#include "c17.h"
#include "profiler_util.h"
#include <rofl/common/bit_manip.h>
#include <rofl/common/disjoint_set.h>
#include <rofl/common/functions.h>
#include <rofl/common/grid.h>
#include <rofl/common/interval_indices.h>
#include <rofl/common/io.h>
#include <rofl/common/label_set.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/morton_sort.h>
#include <rofl/common/morton_tree.h>
#include <rofl/common/numeric_traits.h>
#include <rofl/common/param_map.h>
#include <rofl/common/peak_finder_d.h>
#include <rofl/common/profiler.h>
#include <rofl/common/tls_scalar_consensus.h>
#include <rofl/common/vector_array.h>
#include <algorithm>
#include <iterator>
#include <sstream>
#include <unistd.h>

namespace c17 {
namespace {
void k_bits(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        uint64_t x = a.r.next() >> a.r.below(64);
        o.i(rofl::nlz8((uint8_t)x)).i(rofl::nlz16((uint16_t)x)).i(rofl::nlz32((uint32_t)x)).i(rofl::nlz64(x));
        o.i(rofl::flp2u8((uint8_t)x)).i(rofl::flp2u16((uint16_t)x)).i(rofl::flp2u32((uint32_t)x)).i((long long)rofl::flp2u64(x));
        o.i(rofl::clp2u8((uint8_t)x)).i(rofl::clp2u16((uint16_t)x)).i(rofl::clp2u32((uint32_t)x)).i((long long)rofl::clp2u64(x));
    }
}
void k_ieee(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        double v = num(a.r);
        int32_t m, e; int64_t md, ed; bool s;
        rofl::getMantissaExpSignF((float)v, m, e, s);
        o.i(m).i(e).i(s).d(rofl::setMantissaExpSignF(m, e, s));
        rofl::getMantissaExpSignD(v, md, ed, s);
        o.i(md).i(ed).i(s).d(rofl::setMantissaExpSignD(md, ed, s));
    }
}
template <class I> void traits(long x, Out& o) {
    typedef rofl::IntegerTraits<I> T;
    o.i((long long)T::removeSign((I)x)).i((long long)T::nlz((I)x)).i((long long)T::log2Mod((I)x)).i((long long)T::floorPow2((I)x)).i((long long)T::ceilPow2((I)x));
}
void k_traits(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        long x = a.r.range(1, 100);
        traits<int8_t>(x, o); traits<uint8_t>(x, o); traits<int16_t>(x, o); traits<uint16_t>(x, o);
        traits<int32_t>(-x, o); traits<uint32_t>(x, o); traits<int64_t>(-x, o); traits<uint64_t>(x, o);
        double v = num(a.r);
        int32_t m, e; int64_t md, ed; bool s;
        rofl::FloatTraits<float>::decompose((float)v, m, e, s);
        o.i(m).i(e).i(s).d(rofl::FloatTraits<float>::compose(m, e, s));
        rofl::FloatTraits<double>::decompose(v, md, ed, s);
        o.i(md).i(ed).i(s).d(rofl::FloatTraits<double>::compose(md, ed, s));
    }
}
void k_trig(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        double x = num(a.r), y = num(a.r), c, s;
        float cf, sf;
        rofl::fastCosSin(x, c, s);
        rofl::fastCosSinf((float)x, cf, sf);
        o.d(c).d(s).d(cf).d(sf).d(rofl::fastAtan(x)).d(rofl::fastAtanf((float)x)).d(rofl::fastAtan2(x, y)).d(rofl::fastAtan2f((float)x, (float)y));
        o.d(rofl::normalize360(x)).d(rofl::normalize180(x));
    }
}
std::vector<double> coeffs(Arg& a) {
    std::vector<double> c((size_t)(2 * (1 + a.r.below(2 + (unsigned)a.size))));
    for (auto& x : c) x = num(a.r);
    if (a.r.chance(20)) { size_t k = 2 * a.r.below(c.size() / 2); c[k] = c[k + 1] = 0; }
    return c;
}
void k_fourier(Arg& a, Out& o) {
    std::vector<double> c = coeffs(a);
    double t0 = num(a.r) * 0.01, t1 = t0 + (double)a.r.range(0, 400) * 0.01, lo, up;
    o.d(rofl::evaluateFourier(c, t0)).d(rofl::evaluateFourier(c, t1));
    rofl::findLUFourier(c, t0, t1, lo, up);
    o.d(lo).d(up);
    rofl::findLUFourier(c, t1, t0, lo, up);
    o.d(lo).d(up);
}
void k_lucos(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        double lo, up, x = num(a.r), y = num(a.r);
        rofl::findLUCos(x, y, lo, up);
        o.d(lo).d(up);
    }
}
void k_pnebi(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        double x = std::fabs(num(a.r));
        o.d(rofl::evaluatePnebi0Polynom(x));
        int n = (int)(a.r.chance(6) ? a.r.range(40, 130) : a.r.range(1, 4 + 3 * a.size));
        std::vector<double> v;
        if (a.r.chance(50)) v.assign(a.r.below(8), 3.0);
        rofl::evaluatePnebiVector(n, x, v);
        for (double d : v) o.d(d);
    }
}
void k_lut(Arg& a, Out& o) {
    rofl::PnebiLUT l;
    int n = 1 + a.size;
    static const double tol[] = {0.5, 1.0, 0.25};
    if (a.r.chance(30)) l.init(1 + (int)a.r.below(3), 1.0);
    l.init(n, tol[a.r.below(3)]);
    o.i(l.getOrderMax());
    for (int k = 0; k < 2; ++k) {
        double x = std::fabs(num(a.r));
        for (int q = 0; q < n; ++q) o.d(l.eval(q, x));
        std::vector<double> y;
        l.eval(x, y);
        for (double d : y) o.d(d);
    }
    std::ostringstream ss;
    l.printLUT(ss, 3, 0);
    o.t(ss.str());
}
void k_labels(Arg& a, Out& o) {
    rofl::LabelSet s, t;
    for (int k = 0; k < 3 + 3 * a.size; ++k) { o.i(s.insert((int)a.r.range(0, 9))); o.i(t.insert((int)a.r.range(0, 9))); if (a.r.chance(20)) s.remove((int)a.r.range(0, 9)); }
    int x = (int)a.r.range(0, 9);
    rofl::LabelSet res[] = {s.unionSet(t), s.unionSet(x), s.intersectionSet(t), s.differenceSet(t), s.differenceSet(x), s};
    for (auto& q : res) {
        std::ostringstream ss;
        q.print(ss);
        o.t(ss.str()).i((long long)q.size()).i(q.empty()).i(q.inside(x)).i(q == s).i(q != t);
        for (int e : q) o.i(e);
    }
    s.clear();
    o.i(s.empty());
}
void k_dsu(Arg& a, Out& o) {
    int n = 3 + 3 * a.size;
    rofl::DisjointSet d;
    d.initSets(n);
    o.i(d.makeSet());
    for (int k = 0; k < n; ++k) o.i(d.join((int)a.r.below((unsigned)n), (int)a.r.below((unsigned)n)));
    for (int k = 0; k <= n; ++k) o.i(d.find(k)).i((long long)d.size(k));
    std::vector<int> v;
    d.parents(std::back_inserter(v));
    for (int x : v) o.i(x);
    o.i(d.setNum()).i((long long)d.nodeNum());
}
void k_heap(Arg& a, Out& o) {
    rofl::MinMaxHeap<int> h;
    for (int k = 0; k < 4 + 6 * a.size; ++k) {
        if (!h.empty() && a.r.chance(30)) { if (a.r.chance(50)) h.popTop(); else h.popBottom(); }
        else h.push((int)a.r.range(0, 20));
        if (!h.empty()) o.i(h.top()).i(h.bottom()).i(h.nextTop()).i(h.nextBottom());
    }
    o.i((long long)h.size());
    std::vector<int> v(h.begin(), h.end());
    std::sort(v.begin(), v.end());
    for (int x : v) o.i(x);
    std::ostringstream ss;
    h.print(ss);
    o.i((long long)ss.str().size());
}
typedef rofl::Grid<2, int, int> G2;
void k_grid(Arg& a, Out& o) {
    G2 g;
    int w = 1 + a.size, h = 1 + (int)a.r.below(3);
    switch (a.r.below(3)) {
        case 0: g.initBounds({w, h}); break;
        case 1: g.initMinMax({-1, 2}, {w, h + 2}); break;
        default: g.initBounds({2, -3}, {w, h}); break;
    }
    g.fill(-1);
    size_t n = g.size();
    o.i((long long)n);
    for (int k = 0; k < 4; ++k) {
        G2::Indices i = g.getIndices((int)a.r.below(n));
        g.value(i) = (int)a.r.range(0, 99);
    }
    for (size_t p = 0; p < n; ++p) {
        G2::Indices i = g.getIndices((int)p);
        o.i(i[0]).i(i[1]).i(g.getPos(i)).i(g.value(i)).i(g.inside(i));
    }
    o.i(g.inside({100, 100}));
}
void k_interval(Arg& a, Out& o) {
    typedef rofl::IntervalIndices<2, int> I;
    I v({(int)a.r.range(-3, 3), (int)a.r.range(-3, 3)}, {(int)a.r.range(1, 2 + a.size), (int)a.r.range(1, 3)}), w;
    w.initCentered({(int)a.r.range(-2, 2), (int)a.r.range(-2, 2)}, {1, 1});
    for (auto it = v.beginRaster(); it != v.endRaster(); ++it) o.t(rofl::outIdx(*it));
    for (auto it = v.beginBoustrophedon(); it != v.endBoustrophedon(); ++it) o.t(rofl::outIdx(*it));
    I x = v.intersect(w), s = v.stacked(a.r.below(2), (int)a.r.range(-2, 2));
    std::ostringstream ss;
    x.print(ss); s.print(ss); v.print(ss);
    o.t(ss.str()).i((long long)x.size()).i(x.empty()).i((long long)s.size()).i(v.inside({0, 0}));
    v.translate(0, 2);
    v.translate({1, -1});
    o.t(rofl::outIdx(v.min())).t(rofl::outIdx(v.max())).t(rofl::outIdx(v.last()));
}
void k_peak1(Arg& a, Out& o) {
    typedef rofl::PeakFinderD<1, int, int, std::greater<int> > P;
    int n = 3 + 3 * a.size;
    std::vector<int> v((size_t)n);
    for (auto& x : v) x = (int)a.r.range(0, 30);
    P p;
    p.setDomain({n});
    p.setPeakWindow({(int)a.r.range(1, 2)});
    if (a.r.chance(50)) p.enableFilterPeakMin(true, 10);
    std::vector<P::Indices> m;
    p.detect([&](const P::Indices& i) { return v[(size_t)i[0]]; }, std::back_inserter(m));
    for (auto& i : m) o.i(i[0]);
}
void k_peak2(Arg& a, Out& o) {
    typedef rofl::PeakFinderD<2, int, int, std::greater<int> > P;
    int n = 2 + a.size, q = 3;
    std::vector<int> v((size_t)(n * q));
    for (auto& x : v) x = (int)a.r.range(0, 30);
    P p;
    p.setDomain({0, 0}, {n - 1, q - 1});
    p.setPeakWindow({1, 1});
    std::vector<P::Indices> m;
    p.detect([&](const P::Indices& i) { return v[(size_t)(i[0] * q + i[1])]; }, std::back_inserter(m));
    for (auto& i : m) o.i(i[0]).i(i[1]);
}
void k_mortonint(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        int p[3], q[3], lo[3], mi[3], up[3];
        for (int d = 0; d < 3; ++d) { p[d] = (int)a.r.range(0, 1000); do q[d] = (int)a.r.range(0, 1000); while (q[d] == p[d]); lo[d] = mi[d] = up[d] = 0; }
        typedef rofl::MortonTraits<int, 3> T;
        o.i(T::compare(p, q)).i(T::distance(p, q));
        T::split(p, q, lo, mi, up);
        for (int d = 0; d < 3; ++d) o.i(lo[d]).i(mi[d]).i(up[d]);
    }
}
void k_mortonfloat(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        float p[2], q[2], lo[2], mi[2], up[2];
        for (int d = 0; d < 2; ++d) { p[d] = (float)a.r.range(1, 5000) * 0.125f; do q[d] = (float)a.r.range(1, 5000) * 0.125f; while (q[d] == p[d]); lo[d] = mi[d] = up[d] = 0; }
        typedef rofl::MortonTraits<float, 2> T;
        o.i(T::compare(p, q)).i(T::distance(p, q)).d(rofl::xorFloat(p[0], q[0])).d(rofl::xorFloat((double)p[1], (double)q[1]));
        T::split(p, q, lo, mi, up);
        for (int d = 0; d < 2; ++d) o.d(lo[d]).d(mi[d]).d(up[d]);
    }
}
void k_mortontree(Arg& a, Out& o) {
    typedef rofl::MortonTree<int, 2> T;
    T t;
    std::vector<T::Item> v;
    for (int k = 0; k < 2 + 3 * a.size; ++k) { T::Item i; i.values[0] = (int)a.r.range(0, 30); i.values[1] = (int)a.r.range(0, 30); i.id = k; v.push_back(i); }
    if (a.r.chance(50)) t.insert(v.begin(), v.end(), a.r.chance(50));
    else for (auto& i : v) t.insert(i, a.r.chance(50));
    T::Item q;
    q.values[0] = (int)a.r.range(0, 30); q.values[1] = (int)a.r.range(0, 30); q.id = -1;
    auto it = t.findItem(q);
    o.i(it - t.begin()).i((long long)t.size()).i(t.computeLevel(t.begin(), t.end()));
    for (auto& i : t) o.i(i.values[0]).i(i.values[1]);
    o.t(t.begin()->toString().substr(0, 3));
}
void k_tls(Arg& a, Out& o) {
    std::vector<double> v((size_t)(2 + 2 * a.size)), g(v.size());
    for (size_t k = 0; k < v.size(); ++k) { v[k] = (double)a.r.range(-200, 200) * 0.05; g[k] = 0.1 + (double)a.r.range(0, 20) * 0.1; }
    double m = 0;
    std::vector<bool> in;
    rofl::estimateTranslationTls(v, g, m, in);
    o.d(m);
    for (bool b : in) o.i(b);
}
void k_param(Arg& a, Out& o) {
    rofl::ParamMap m;
    std::string txt;
    for (int k = 0; k < 1 + 2 * a.size; ++k) {
        std::string name(1, (char)('a' + a.r.below(5)));
        txt += a.r.chance(15) ? "# " + name + " 1\n" : name + " " + std::to_string(a.r.range(0, 99)) + (a.r.chance(20) ? " junk\n" : "\n");
    }
    std::istringstream in(txt);
    o.i(m.read(in));
    std::string n1 = "-b", v1 = std::to_string(a.r.range(0, 9)), p0 = "prog", n2 = "-path", v2 = a.r.chance(50) ? "~/x" : "/y";
    char* av[] = {&p0[0], &n1[0], &v1[0], &n2[0], &v2[0]};
    o.i(m.read(5, av));
    m.setParam("lst", std::string("[1,2,3]"));
    m.setParam("w", num(a.r));
    m.setParamString("raw", a.uniq);
    int x; double w; std::string s;
    o.i(m.getParam<int>("a", x, -1)).i(x).i(m.getParam<double>("w", w, 0.5)).d(w).i(m.getParam<int>("raw", x, 77)).i(x);
    std::vector<int> c(4), ci;
    o.i(m.getParamContainer<int>("lst", c.begin(), c.end(), "[9]", 5));
    for (int k : c) o.i(k);
    o.i(m.getParamContainerInserter<int>("lst", std::back_inserter(ci), 0));
    for (int k : ci) o.i(k);
    m.adaptTildeInPaths();
    o.i(m.getParam<std::string>("path", s, "none")).t(s);
    m.setParamString("raw", "-");
    std::ostringstream os;
    o.i(m.write(os)).i(m.write(os, "  ")).t(os.str());
    m.clear();
    std::ostringstream o2;
    m.write(o2);
    o.t(o2.str());
}
void k_paramfile(Arg& a, Out& o) {
    rofl::ParamMap m, l;
    for (int k = 0; k < 1 + 2 * a.size; ++k) m.setParam(std::string(1, (char)('a' + a.r.below(8))), a.r.range(0, 99));
    std::string f = a.tmp + "/" + a.uniq;
    o.i(m.write(f)).i(l.read(f));
    std::ostringstream os;
    l.write(os);
    o.t(os.str());
    unlink(f.c_str());
    o.i(l.read(f));
}
void k_listing(Arg& a, Out& o) {
    std::vector<std::string> v;
    if (a.r.chance(30)) v.push_back("zz" + std::to_string(a.r.below(5)));
    rofl::getDirectoryFiles(a.dir + (a.r.chance(50) ? "/d0" : "/d1"), v);
    for (auto& s : v) o.t(s.size() > a.dir.size() && s.compare(0, a.dir.size(), a.dir) == 0 ? s.substr(a.dir.size()) : s);
}
void k_stamp(Arg& a, Out& o) { o.t(rofl::generateStampedString("p" + std::to_string(a.r.below(100)), a.r.chance(50) ? "" : ".log")); }
void k_profiler(Arg& a, Out& o) {
    for (int k = 0; k < 1 + 2 * a.size; ++k) rofl::Profiler::getProfiler().updateStat(a.uniq, (double)a.r.range(0, 100));
    std::ostringstream ss;
    ss.precision(17);
    rofl::Profiler::getProfiler().printStats(ss);
    if (!ss.good()) return;      // memory ran out inside the stream
    for (auto& row : parse_report(ss.str())) if (row.label == a.uniq) { row.label = ""; o.t(show_row(row)); }
}
void k_timer(Arg& a, Out& o) {
    { rofl::ScopedTimer t(a.uniq); o.d(t.elapsedTimeMs()); }
    std::ostringstream ss;
    ss.precision(17);
    rofl::Profiler::getProfiler().printStats(ss);
    if (!ss.good()) return;      // memory ran out inside the stream
    for (auto& row : parse_report(ss.str())) if (row.label == a.uniq) { row.label = ""; o.t(show_row(row)); }
}
void k_vecarray(Arg& a, Out& o) {
    rofl::VectorArray<int, 3> v, w;
    for (size_t d = 0; d < 3; ++d) { v(d) = (int)a.r.range(-9, 9); w(d) = (int)a.r.range(-9, 9); }
    rofl::VectorArray<int, 3> x(v);
    x += w; x *= 3; x *= v;
    for (size_t d = 0; d < 3; ++d) o.i(x(d)).i(v(d));
}
}  // namespace
void common_kinds(std::vector<Kind>& v) {
    const Kind k[] = {
        {"bits", k_bits, 7, true, 40}, {"ieee", k_ieee, 6, true, 40}, {"traits", k_traits, 7, true, 20}, {"trig", k_trig, 7, true, 40},
        {"fourier", k_fourier, 8, true, 40}, {"lucos", k_lucos, 6, true, 40}, {"pnebi", k_pnebi, 8, true, 20}, {"lut", k_lut, 12, true, 2},
        {"labels", k_labels, 11, true, 4}, {"dsu", k_dsu, 9, true, 10}, {"heap", k_heap, 10, true, 8}, {"grid", k_grid, 9, true, 8},
        {"interval", k_interval, 9, true, 8}, {"peak1", k_peak1, 11, true, 4}, {"peak2", k_peak2, 12, true, 3},
        {"mortonint", k_mortonint, 8, true, 20}, {"mortonfloat", k_mortonfloat, 8, true, 10}, {"mortontree", k_mortontree, 11, true, 4},
        {"tls", k_tls, 9, true, 8}, {"param", k_param, 11, true, 3}, {"paramfile", k_paramfile, 9, true, 2}, {"listing", k_listing, 10, false, 2},
        {"stamp", k_stamp, 6, true, 8}, {"profiler", k_profiler, 9, true, 2}, {"timer", k_timer, 7, true, 2}, {"vecarray", k_vecarray, 7, true, 8}};
    v.insert(v.end(), std::begin(k), std::end(k));
}
}  // namespace c17

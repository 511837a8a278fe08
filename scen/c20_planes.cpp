// C20: direction and plane searches of the Hough plane detector over histories of settings and insertions.
#include "../sim/core.h"
#include <rofl/geometry/hough_plane_detector.h>
#include <algorithm>
#include <cmath>
#include <memory>
#include <set>
using namespace sim;

namespace {
typedef rofl::HoughPlaneDetector Det;
typedef rofl::Vector3 V3;
typedef Det::Indices2 I2;
typedef Det::Indices3 I3;
struct Par { int n[3] = {1, 1, 1}; double mn[3] = {0, 0, 0}, rs[3] = {1, 1, 1}; bool full = false; double res = 1; };

double rho_min(const Par& q) { return q.full ? (double)(float)q.mn[2] : -(double)(q.n[2] / 2) * (double)(float)q.res; }
double step(const Par& q, int d) { return q.full ? q.rs[d] : d == 0 ? 0.5 * M_PI / q.n[0] : d == 1 ? 2 * M_PI / q.n[1] : (double)(float)q.res; }
double low(const Par& q, int d) { return d == 2 ? rho_min(q) : q.full ? q.mn[d] : 0; }
void normal_of(const Par& q, int a, int b, double* n) {
    double th = low(q, 0) + step(q, 0) * a, ph = low(q, 1) + step(q, 1) * b;
    n[0] = cos(th) * cos(ph); n[1] = cos(th) * sin(ph); n[2] = sin(th);
}
void apply_init(Det& d, const Par& q) {
    if (q.full) { I3 is = {q.n[0], q.n[1], q.n[2]}; V3 a, b; a << q.mn[0], q.mn[1], q.mn[2]; b << q.rs[0], q.rs[1], q.rs[2]; d.init(is, a, b); }
    else d.init(q.n[0], q.n[1], q.n[2], (float)q.res);
}
std::string s2(const I2& i) { return Str() << "[" << i[0] << "," << i[1] << "]"; }
std::string s3(const I3& i) { return Str() << "[" << i[0] << "," << i[1] << "," << i[2] << "]"; }

struct State {
    std::unique_ptr<Det> d;
    Par q;
    int win[3] = {1, 1, 1};
    bool inited = false, dirty = false;
    std::vector<V3, Eigen::aligned_allocator<V3>> pts;
    std::vector<size_t> ht, hs;       // what the detector answered about its cells before the searches

    size_t H(int a, int b, int c) const { return ht[(size_t)((a * q.n[1] + b) * q.n[2] + c)]; }
    size_t S(int a, int b) const { return hs[(size_t)(a * q.n[1] + b)]; }
    void read(std::vector<size_t>& t, std::vector<size_t>& s) const {
        t.clear(); s.clear();
        for (int a = 0; a < q.n[0]; ++a) for (int b = 0; b < q.n[1]; ++b) { s.push_back(d->getHoughSpectrum(a, b)); for (int c = 0; c < q.n[2]; ++c) t.push_back(d->getHoughTransform(a, b, c)); }
    }
    bool dirpeak(int a, int b) const {
        for (int i = std::max(0, a - win[0]); i <= std::min(q.n[0] - 1, a + win[0]); ++i) for (int j = std::max(0, b - win[1]); j <= std::min(q.n[1] - 1, b + win[1]); ++j) if ((i != a || j != b) && S(i, j) >= S(a, b)) return false;
        return true;
    }
    bool rhopeak(int a, int b, int c) const {
        for (int k = std::max(0, c - win[2]); k <= std::min(q.n[2] - 1, c + win[2]); ++k) if (k != c && H(a, b, k) >= H(a, b, c)) return false;
        return true;
    }
    std::vector<I2> dirs() const { std::vector<I2> v; for (int a = 0; a < q.n[0]; ++a) for (int b = 0; b < q.n[1]; ++b) if (dirpeak(a, b)) v.push_back(I2{a, b}); return v; }
    std::vector<I3> planes(int a, int b) const { std::vector<I3> v; for (int c = 0; c < q.n[2]; ++c) if (rhopeak(a, b, c)) v.push_back(I3{a, b, c}); return v; }
    bool same_plane(const Det::PlaneParam& p, const I3& i) const {
        double n[3];
        normal_of(q, i[0], i[1], n);
        double rho = low(q, 2) + step(q, 2) * i[2];
        for (int k = 0; k < 3; ++k) if (!(fabs(p(k) - n[k]) <= 1e-4)) return false;
        return fabs(p(3) + rho) <= 1e-4 * (1 + fabs(rho) + fabs(low(q, 2)));
    }
    bool same_dir(const V3& p, const I2& i) const {
        double n[3];
        normal_of(q, i[0], i[1], n);
        for (int k = 0; k < 3; ++k) if (!(fabs(p(k) - n[k]) <= 1e-4)) return false;
        return true;
    }
};

std::vector<V3, Eigen::aligned_allocator<V3>> points(u64 seed, long n, int kind) {
    Rng r(seed);
    std::vector<V3, Eigen::aligned_allocator<V3>> v;
    double nx = 0, ny = 0, nz = 1, off = 0;
    for (long i = 0; i < n; ++i) {
        if (i % 12 == 0) { double t = (double)r.range(0, 100) / 64, f = (double)r.range(0, 628) / 100; nx = cos(t) * cos(f); ny = cos(t) * sin(f); nz = sin(t); off = (double)r.range(-300, 300) / 100; if (kind == 2) off *= 0.2; }
        double x = (double)r.range(-300, 300) / 100, y = (double)r.range(-300, 300) / 100, z = (double)r.range(-300, 300) / 100;
        if (kind) { double e = x * nx + y * ny + z * nz - off; x -= e * nx; y -= e * ny; z -= e * nz; }       // on a few planes
        v.push_back(V3((float)x, (float)y, (float)z));
    }
    return v;
}

template <class I, class F> void same_set(const std::vector<I>& got, const std::vector<I>& want, F show, const std::string& tag, const std::string& what) {
    std::set<I> g, w(want.begin(), want.end());
    for (auto& i : got) {
        if (!g.insert(i).second) violate((tag + "-twice").c_str(), Str() << what << ": " << show(i) << " is reported twice");
        if (!w.count(i)) violate((tag + "-false").c_str(), Str() << what << ": " << show(i) << " is reported but is not better than everything in its window");
    }
    for (auto& i : w) if (!g.count(i)) violate((tag + "-missed").c_str(), Str() << what << ": " << show(i) << " is better than everything in its window but is not reported");
}

// answers of a new detector given the same ranges, window and points in one go
std::string alone(const State& s) {
    Det d;
    apply_init(d, s.q);
    d.setPeakWindow(s.win[0], s.win[1], s.win[2]);
    rofl::VectorVector3 v(s.pts.begin(), s.pts.end());
    if (!v.empty()) d.insert(v);
    std::vector<I2> m;
    std::vector<I3> h;
    d.findSpectrumMax(m);
    d.findPlanes(h);
    std::sort(m.begin(), m.end()); std::sort(h.begin(), h.end());
    Str o;
    for (auto& i : m) o << s2(i);
    o << "|";
    for (auto& i : h) o << s3(i);
    return o;
}

void search(State& s, const Line& l) {
    const Det& d = *s.d;
    std::vector<size_t> t0, s0, t1, s1;
    s.read(t0, s0);
    s.ht = t0; s.hs = s0;
    int kind = (int)l.i(1) % 6, a = (int)(l.i(2) % s.q.n[0]), b = (int)(l.i(3) % s.q.n[1]);
    int reused = (int)l.i(4) % 4;       // what the caller's list already holds, where the search replaces it
    CallResult c;
    std::vector<I2> wd = s.dirs();
    std::string want;
    if (kind == 0) {
        std::vector<I2> m;
        call(c, l, [&] { d.findSpectrumMax(m); });
        check_excuse(c, l, "findSpectrumMax");
        if (c.ok()) {
            same_set(m, wd, s2, "direction", "findSpectrumMax");
            for (size_t k = 1; k < m.size(); ++k) if (s.S(m[k][0], m[k][1]) > s.S(m[k - 1][0], m[k - 1][1])) violate("direction-order", Str() << s2(m[k]) << " is reported after the weaker " << s2(m[k - 1]));
            if (!m.empty()) probe("directions");
        }
    } else if (kind == 1) {
        rofl::VectorVector3 m;
        for (int i = 0; i < reused; ++i) m.push_back(V3(9, 9, 9));
        call(c, l, [&] { d.findNormalMax(m); });
        check_excuse(c, l, "findNormalMax");
        if (c.ok()) {
            if (m.size() != wd.size()) violate("normals-count", Str() << "findNormalMax reports " << m.size() << " directions, there are " << wd.size());
            std::vector<char> used(wd.size(), 0);
            size_t prev = 0;
            for (size_t k = 0; k < m.size(); ++k) {
                size_t best = wd.size();
                // several cells may share a direction: take the strongest left
                for (size_t j = 0; j < wd.size(); ++j) if (!used[j] && s.same_dir(m[k], wd[j]) && (best == wd.size() || s.S(wd[j][0], wd[j][1]) > s.S(wd[best][0], wd[best][1]))) best = j;
                if (best == wd.size()) violate("normals-false", Str() << "findNormalMax reports a direction that is none of the strongest ones");
                used[best] = 1;
                size_t v = s.S(wd[best][0], wd[best][1]);
                if (k && v > prev) violate("direction-order", "findNormalMax reports a stronger direction after a weaker one");
                prev = v;
            }
        }
    } else if (kind == 2) {
        std::vector<I3> m;
        for (int i = 0; i < reused; ++i) m.push_back(I3{1000, 1000, 1000});
        call(c, l, [&] { d.findParallelPlanes(a, b, m); });
        check_excuse(c, l, "findParallelPlanes");
        if (c.ok()) {
            same_set(m, s.planes(a, b), s3, "plane", "findParallelPlanes");
            for (size_t k = 1; k < m.size(); ++k) if (s.H(a, b, m[k][2]) > s.H(a, b, m[k - 1][2])) violate("plane-order", Str() << s3(m[k]) << " is reported after the weaker " << s3(m[k - 1]));
            if (!m.empty()) probe("parallel-planes");
        }
    } else if (kind == 3) {
        Det::VectorPlaneParam m;
        for (int i = 0; i < reused; ++i) m.push_back(Det::PlaneParam(9, 9, 9, 9));
        call(c, l, [&] { d.findParallelPlanes(a, b, m); });
        check_excuse(c, l, "findParallelPlanes (parameters)");
        if (c.ok()) {
            std::vector<I3> w = s.planes(a, b);
            std::stable_sort(w.begin(), w.end(), [&](const I3& x, const I3& y) { return s.H(a, b, x[2]) > s.H(a, b, y[2]); });
            if (m.size() != w.size()) violate("plane-count", Str() << "findParallelPlanes reports " << m.size() << " planes, there are " << w.size());
            std::vector<char> used(w.size(), 0);
            for (size_t k = 0; k < m.size(); ++k) {
                size_t j = 0;
                for (; j < w.size(); ++j) if (!used[j] && s.same_plane(m[k], w[j])) break;
                if (j == w.size()) violate("plane-false", Str() << "findParallelPlanes reports plane " << m[k](0) << "," << m[k](1) << "," << m[k](2) << "," << m[k](3) << " which is none of those of direction " << a << "," << b);
                used[j] = 1;
                if (s.H(a, b, w[j][2]) != s.H(a, b, w[k][2])) violate("plane-order", "findParallelPlanes reports planes out of order");
            }
        }
    } else {
        std::vector<I3> w;
        for (auto& i : wd) { std::vector<I3> x = s.planes(i[0], i[1]); w.insert(w.end(), x.begin(), x.end()); }
        if (kind == 4) {
            std::vector<I3> m;
            call(c, l, [&] { d.findPlanes(m); });
            check_excuse(c, l, "findPlanes");
            if (c.ok()) {
                same_set(m, w, s3, "plane", "findPlanes");
                for (size_t k = 1; k < m.size(); ++k) if (s.H(m[k][0], m[k][1], m[k][2]) > s.H(m[k - 1][0], m[k - 1][1], m[k - 1][2])) violate("plane-order", Str() << s3(m[k]) << " is reported after the weaker " << s3(m[k - 1]));
                if (!m.empty()) probe("planes");
            }
        } else {
            Det::VectorPlaneParam m;
            for (int i = 0; i < reused; ++i) m.push_back(Det::PlaneParam(9, 9, 9, 9));
            call(c, l, [&] { s.d->findPlanes(m); });
            check_excuse(c, l, "findPlanes (parameters)");
            if (c.ok()) {
                if (m.size() != w.size()) violate("plane-count", Str() << "findPlanes reports " << m.size() << " planes, there are " << w.size());
                auto strength = [&](const I3& i) { return s.H(i[0], i[1], i[2]); };
                std::stable_sort(w.begin(), w.end(), [&](const I3& x, const I3& y) { return strength(x) > strength(y); });
                std::vector<char> used(w.size(), 0);
                for (size_t k = 0; k < m.size(); ++k) {       // two cells may describe one plane: the place in the order tells them apart
                    size_t j = 0;
                    for (; j < w.size(); ++j) if (!used[j] && strength(w[j]) == strength(w[k]) && s.same_plane(m[k], w[j])) break;
                    if (j == w.size()) violate("plane-false", Str() << "findPlanes reports plane " << m[k](0) << "," << m[k](1) << "," << m[k](2) << "," << m[k](3) << " as number " << k << ", which is none of the planes of that strength");
                    used[j] = 1;
                }
            }
        }
    }
    s.read(t1, s1);
    if (t1 != t0 || s1 != s0) violate("search-alters", "searching changed the detector's histograms");
    if (d.getThetaNum() != s.q.n[0] || d.getPhiNum() != s.q.n[1] || d.getRhoNum() != s.q.n[2]) violate("search-alters", "searching changed the detector's size");
    for (int k = 0; k < 2; ++k) {
        I3 i = {a, b, (int)((l.i(5) + k) % s.q.n[2])};
        if (!s.same_plane(d.getPlaneParam(i), i) || !s.same_plane(d.getPlaneParam(i[0], i[1], i[2]), i)) violate("plane-param", Str() << "the parameters of plane " << s3(i) << " are not the normal and distance of its cell");
        if (!s.same_dir(d.getNormal(a, b), I2{a, b}) || !s.same_dir(d.getNormal(I2{a, b}), I2{a, b})) violate("plane-param", "wrong normal");
    }
    if (!c.ok()) { probe("search-failed"); note("search failed"); return; }
    if (l.i(6) && s.pts.size() < 200) {
        std::vector<I2> m;
        std::vector<I3> h;
        d.findSpectrumMax(m);
        d.findPlanes(h);
        std::sort(m.begin(), m.end()); std::sort(h.begin(), h.end());
        Str o;
        for (auto& i : m) o << s2(i);
        o << "|";
        for (auto& i : h) o << s3(i);
        std::string ours = o, other = in_fresh_process([&] { return alone(s); });
        if (ours != other) violate("search-history", Str() << "the detector finds " << ours << " but a new detector with the same ranges, window and points finds " << other);
        probe("fresh-process");
    }
    note(Str() << "search " << kind << " dirs=" << wd.size());
}

Par par(const Line& l, size_t at) {
    Par q;
    for (int i = 0; i < 3; ++i) q.n[i] = (int)std::min<long>(std::max<long>(1, l.i(at + (size_t)i)), 300);
    q.full = l.op == "init3";
    q.res = l.dbl(at + 3);
    for (int i = 0; i < 3; ++i) { q.mn[i] = q.full ? l.dbl(at + 4 + (size_t)i) : 0; q.rs[i] = q.full ? l.dbl(at + 7 + (size_t)i) : 0; }
    return q;
}
void exec(const Plan& p) {
    State st[2];
    for (auto& s : st) s.d.reset(new Det());
    for (auto& l : p.lines) {
        State& s = st[(size_t)l.i(0) % 2];
        CallResult c;
        if (l.op == "init" || l.op == "init3") {
            Par q = par(l, 1);
            call(c, l, [&] { apply_init(*s.d, q); });
            check_excuse(c, l, "init");
            if (c.ok()) { s.q = q; s.inited = true; s.dirty = false; s.pts.clear(); }
        } else if (l.op == "new") {
            Par q = par(l, 1);
            std::unique_ptr<Det> d;
            call(c, l, [&] { d.reset(new Det(q.n[0], q.n[1], q.n[2], (float)q.res)); });
            check_excuse(c, l, "constructor");
            if (c.ok()) { s.d.swap(d); s.q = q; s.inited = true; s.dirty = false; s.pts.clear(); s.win[0] = s.win[1] = s.win[2] = 1; }
        } else if (l.op == "copy") {
            if (!s.inited || s.dirty) continue;
            State& t = st[((size_t)l.i(0) + 1) % 2];
            std::unique_ptr<Det> d;
            call(c, l, [&] { d.reset(new Det(*s.d)); });
            check_excuse(c, l, "copy");
            if (c.ok()) { t.d.swap(d); t.q = s.q; t.pts = s.pts; t.inited = true; t.dirty = false; for (int i = 0; i < 3; ++i) t.win[i] = s.win[i]; }
        } else if (l.op == "zero") {
            call(c, l, [&] { s.d->setZero(); });
            s.dirty = false; s.pts.clear();
        } else if (l.op == "win") {
            int w[3];
            for (int i = 0; i < 3; ++i) w[i] = (int)std::min(std::max(0L, l.i(1 + (size_t)i)), 400L);
            call(c, l, [&] { s.d->setPeakWindow(w[0], w[1], w[2]); });
            for (int i = 0; i < 3; ++i) s.win[i] = w[i];
        } else if (l.op == "wins") {       // the same by distances: a fraction of a cell short of a whole number of cells
            if (!s.inited) continue;
            int w[3];
            float f[3];
            for (int i = 0; i < 3; ++i) { w[i] = (int)std::min(std::max(1L, l.i(1 + (size_t)i)), 400L); f[i] = (float)((w[i] - 0.05 - 0.09 * (double)(labs(l.i(4) + 3 * i) % 11)) * step(s.q, i)); }
            call(c, l, [&] { s.d->setPeakWindow(rofl::Scalar(f[0]), rofl::Scalar(f[1]), rofl::Scalar(f[2])); });
            for (int i = 0; i < 3; ++i) s.win[i] = w[i];
        } else if (l.op == "ins") {
            if (!s.inited) continue;
            auto v = points((u64)l.i(1), std::min(l.i(2), 3000L), (int)l.i(3));
            rofl::VectorVector3 x(v.begin(), v.end());
            bool it = l.i(4) != 0;
            auto conv = [&](const V3& r) -> V3 { HostScope h; if (cb_should_throw()) throw InjectedError(); return r; };
            if (it) call(c, l, [&] { s.d->insert(x.begin(), x.end(), conv); });
            else call(c, l, [&] { s.d->insert(x); });
            check_excuse(c, l, "insert");
            if (c.ok()) { if (it) { s.pts.clear(); s.dirty = false; } s.pts.insert(s.pts.end(), v.begin(), v.end()); } else s.dirty = true;
        } else if (l.op == "search" && s.inited && !s.dirty) search(s, l);
    }
}
void gen(Rng& r, Plan& p) {
    int n = (int)r.range(3, 12), fp = r.chance(40) ? 0 : 35;
    bool wide = r.chance(4);
    auto size = [&](long m) { return r.chance(20) ? 1 : r.range(1, m); };
    auto init = [&](long k) {
        int w = (int)r.below(10);
        long a = size(6), b = size(12), c = size(14);
        if (wide) { int d = (int)r.below(3); long x = r.range(60, 280); if (d == 0) { a = x; b = r.range(1, 3); c = r.range(1, 3); } else if (d == 1) { b = x; a = r.range(1, 3); c = r.range(1, 3); } else { c = x; a = r.range(1, 3); b = r.range(1, 3); } }
        Line& l = p.add(w < 5 ? "init" : w < 8 ? "init3" : "new").a(k).a(a).a(b).a(c).d(r.pick(std::vector<double>{0.25, 0.5, 1, 0.1, 3}));
        if (w >= 5 && w < 8) l.d(r.pick(std::vector<double>{0, -1.5707963, 0.3, 1.2})).d(r.pick(std::vector<double>{0, 1, -3, 4})).d(r.pick(std::vector<double>{0, -2, 0.5, -1.25, 3})).d(r.pick(std::vector<double>{0.2, 0.05, 0.7})).d(r.pick(std::vector<double>{0.5, 0.3, 1.1, 0.02})).d(r.pick(std::vector<double>{0.25, 0.5, 1}));
        arm_alloc(r, l, fp / 2, 5);
    };
    auto ins = [&](long k) {
        Line& l = p.add("ins").a(k).a((long)r.below(1u << 30)).a(r.chance(8) ? 0 : r.chance(3) ? r.range(200, 1500) : 1 + r.skew(60)).a(r.range(0, 2)).a(r.chance(25));
        if (r.chance(fp / 3)) { arm_alloc(r, l, 50, 12); if (r.chance(50)) l.f(F_cb_throw, r.range(1, 4)); }
    };
    auto find = [&](long k) {
        Line& l = p.add("search").a(k).a(r.range(0, 5)).a((long)r.below(300)).a((long)r.below(300)).a(r.range(0, 3)).a((long)r.below(300)).a(r.chance(15));
        arm_alloc(r, l, fp, 25);
    };
    init(0);
    ins(0);
    if (r.chance(60)) { init(1); ins(1); }
    for (int i = 0; i < n; ++i) {
        long k = r.chance(70) ? 0 : 1;
        int w = (int)r.below(100);
        if (w < 9) { init(k); if (r.chance(80)) ins(k); }
        else if (w < 12) p.add("zero").a(k);
        else if (w < 28) p.add(r.chance(50) ? "win" : "wins").a(k).a(r.chance(20) ? r.range(3, 9) : r.range(0, 2)).a(r.chance(20) ? r.range(3, 15) : r.range(0, 2)).a(r.chance(20) ? r.range(3, 15) : r.range(0, 2)).a((long)r.below(11));
        else if (w < 31) { Line& l = p.add("copy").a(k); arm_alloc(r, l, fp, 5); }
        else if (w < 50) ins(k);
        else find(k);
    }
    find(0); find(1);
}
SIM_SCENARIO(planes, 1, gen, exec)
}

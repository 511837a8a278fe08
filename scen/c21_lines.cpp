// C21: Hough line detector over histories of (re-)initialisations, resets, insertions, settings and searches.
#include "../sim/core.h"
#include <rofl/geometry/hough_line_detector.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <set>
using namespace sim;

namespace {
typedef rofl::HoughLineDetector Det;
typedef rofl::Vector2 V2;
typedef Det::Indices1 I1;
typedef Det::Indices2 I2;
typedef std::array<float, 2> Pt;
typedef std::vector<size_t> Cells;
struct Par { int n[2] = {1, 1}; double mn[2] = {0, 0}, rs[2] = {1, 1}; bool full = false; double res = 1; };

double step(const Par& q, int d) { return q.full ? (double)(float)q.rs[d] : d == 0 ? M_PI / q.n[0] : (double)(float)q.res; }
double low(const Par& q, int d) { return q.full ? (double)(float)q.mn[d] : 0; }
void apply_init(Det& d, const Par& q) {
    if (q.full) { I2 is = {q.n[0], q.n[1]}; V2 a, b; a << (float)q.mn[0], (float)q.mn[1]; b << (float)q.rs[0], (float)q.rs[1]; d.init(is, a, b); }
    else d.init(q.n[0], q.n[1], (float)q.res);
}
std::string s2(const I2& i) { return Str() << "[" << i[0] << "," << i[1] << "]"; }
std::string s1(int i) { return Str() << "[" << i << "]"; }
Cells cells(const Det& d, const Par& q) {
    Cells v;
    for (int a = 0; a < q.n[0]; ++a) for (int c = 0; c < q.n[1]; ++c) {
        size_t x = d.getHoughTransform(a, c);
        if (d.getHoughTransform(I2{a, c}) != x) violate("line-overloads", "the two forms of the transform query differ");
        v.push_back(x);
    }
    return v;
}
// what one point contributes on its own, cross-checked against the definition of the transform
Cells solo(const Par& q, const Pt& p) {
    Det d;
    apply_init(d, q);
    rofl::VectorVector2 one;
    one.push_back(V2(p[0], p[1]));
    d.insert(one);
    Cells v = cells(d, q);
    size_t k = 0;
    for (int a = 0; a < q.n[0]; ++a) {
        double th = low(q, 0) + step(q, 0) * a, rho = p[0] * cos(th) + p[1] * sin(th), t = (rho - low(q, 1)) / step(q, 1);
        double tol = 1e-4 + 1e-5 * (fabs((double)p[0]) + fabs((double)p[1]) + fabs(low(q, 1))) / step(q, 1);
        size_t tot = 0;
        for (int c = 0; c < q.n[1]; ++c) {
            size_t x = v[k++];
            tot += x;
            if (x && !(t > c - tol && t < c + 1 + tol)) violate("line-cell", Str() << "a point at distance coordinate " << t << " of direction " << a << " was counted in cell " << c);
            if (!x && t > c + tol && t < c + 1 - tol) violate("line-cell", Str() << "a point at distance coordinate " << t << " of direction " << a << " was not counted in cell " << c);
        }
        if (tot > 1) violate("line-cell", Str() << "one point was counted " << tot << " times in one direction");
    }
    return v;
}

struct State {
    std::unique_ptr<Det> d;
    Par q;
    int win[2] = {1, 1};
    bool inited = false;
    Cells sum;
    size_t npts = 0;
    std::map<Pt, Cells> cache;
    void forget(bool ranges) { npts = 0; sum.assign((size_t)(q.n[0] * q.n[1]), 0); if (ranges) cache.clear(); }
    void add(const Pt& p) {
        auto it = cache.find(p);
        if (it == cache.end()) it = cache.emplace(p, solo(q, p)).first;
        ++npts;
        for (size_t i = 0; i < sum.size(); ++i) sum[i] += it->second[i];
    }
    size_t H(int a, int c) const { return sum[(size_t)(a * q.n[1] + c)]; }
    size_t S(int a) const { size_t s = 0; for (int c = 0; c < q.n[1]; ++c) s += H(a, c) * H(a, c); return s; }
    std::vector<int> dirs() const {
        std::vector<size_t> s;
        for (int a = 0; a < q.n[0]; ++a) s.push_back(S(a));
        std::vector<int> v;
        for (int a = 0; a < q.n[0]; ++a) {
            bool best = true;
            for (int i = std::max(0, a - win[0]); i <= std::min(q.n[0] - 1, a + win[0]); ++i) if (i != a && s[(size_t)i] >= s[(size_t)a]) best = false;
            if (best) v.push_back(a);
        }
        return v;
    }
    bool rhopeak(int a, int c) const {
        for (int k = std::max(0, c - win[1]); k <= std::min(q.n[1] - 1, c + win[1]); ++k) if (k != c && H(a, k) >= H(a, c)) return false;
        return true;
    }
};

void verify(State& s, const std::string& when) {
    if (!s.inited) return;
    Det& d = *s.d;
    if (d.getThetaNum() != s.q.n[0] || d.getRhoNum() != s.q.n[1]) violate("line-size", Str() << when << ": the detector has " << d.getThetaNum() << "x" << d.getRhoNum() << " cells, not " << s.q.n[0] << "x" << s.q.n[1]);
    if (fabs(d.getThetaMin() - low(s.q, 0)) > 1e-5 || fabs(d.getRhoMin() - low(s.q, 1)) > 1e-5 || fabs(d.getThetaRes() - step(s.q, 0)) > 1e-5 || fabs(d.getRhoRes() - step(s.q, 1)) > 1e-5)
        violate("line-size", Str() << when << ": the parameter ranges differ from those of the last initialisation");
    Cells v = cells(d, s.q);
    u64 h = 0;
    for (size_t i = 0; i < v.size(); ++i) { if (v[i] != s.sum[i]) violate("line-transform", Str() << when << ": cell " << i << " counts " << v[i] << ", the " << s.npts << " points since the last reset imply " << s.sum[i]); h = mix(h, v[i]); }
    for (int a = 0; a < s.q.n[0]; ++a) if (d.getHoughSpectrum(a) != s.S(a)) violate("line-spectrum", Str() << when << ": spectrum of direction " << a << " is " << d.getHoughSpectrum(a) << ", not " << s.S(a));
    note(Str() << when << " pts=" << s.npts << " h=" << h);
}

template <class I, class F> void same_set(const std::vector<I>& got, const std::vector<I>& want, F show, const char* tag, const std::string& what) {
    std::set<I> g, w(want.begin(), want.end());
    for (auto& i : got) {
        if (!g.insert(i).second) violate((std::string(tag) + "-twice").c_str(), Str() << what << ": " << show(i) << " is reported twice");
        if (!w.count(i)) violate((std::string(tag) + "-false").c_str(), Str() << what << ": " << show(i) << " is reported but is not better than everything in its window");
    }
    for (auto& i : w) if (!g.count(i)) violate((std::string(tag) + "-missed").c_str(), Str() << what << ": " << show(i) << " is better than everything in its window but is not reported");
}
void search(State& s, const Line& l) {
    const Det& d = *s.d;
    CallResult c;
    int kind = (int)l.i(1) % 5;
    std::vector<int> want = s.dirs(), got;
    auto order = [&](const char* what) {
        for (size_t k = 1; k < got.size(); ++k) if (s.S(got[k]) > s.S(got[k - 1])) violate("direction-order", Str() << what << ": direction " << got[k] << " is reported after the weaker " << got[k - 1]);
    };
    if (kind == 0) {
        std::vector<I1> m;
        call(c, l, [&] { d.findSpectrumIndicesMax(m); });
        check_excuse(c, l, "findSpectrumIndicesMax");
        for (auto& i : m) got.push_back(i[0]);
        if (c.ok()) { same_set(got, want, s1, "direction", "findSpectrumIndicesMax"); order("findSpectrumIndicesMax"); }
    } else if (kind == 1) {
        std::vector<Det::Index> m;
        call(c, l, [&] { d.findSpectrumIndexMax(m); });
        check_excuse(c, l, "findSpectrumIndexMax");
        got.assign(m.begin(), m.end());
        if (c.ok()) { same_set(got, want, s1, "direction", "findSpectrumIndexMax"); order("findSpectrumIndexMax"); }
    } else if (kind == 2 || kind == 3) {
        std::vector<rofl::Scalar> ang;
        rofl::VectorVector2 nor;
        call(c, l, [&] { if (kind == 2) d.findSpectrumAngleMax(ang); else d.findNormalMax(nor); });
        const char* what = kind == 2 ? "findSpectrumAngleMax" : "findNormalMax";
        check_excuse(c, l, what);
        if (c.ok()) {
            size_t n = kind == 2 ? ang.size() : nor.size();
            if (n != want.size()) violate("direction-count", Str() << what << " reports " << n << " directions, there are " << want.size());
            std::stable_sort(want.begin(), want.end(), [&](int x, int y) { return s.S(x) > s.S(y); });
            std::vector<char> used(n, 0);
            for (size_t k = 0; k < n; ++k) {
                size_t j = n;
                double best = 0;
                for (size_t i = 0; i < n; ++i) {        // the nearest of the directions of that strength
                    if (used[i] || s.S(want[i]) != s.S(want[k])) continue;
                    double th = low(s.q, 0) + step(s.q, 0) * want[i], e = kind == 2 ? fabs(ang[k] - th) : std::max(fabs(nor[k](0) - cos(th)), fabs(nor[k](1) - sin(th)));
                    if (e <= 1e-4 + 1e-6 * fabs(th) && (j == n || e < best)) { j = i; best = e; }
                }
                if (j == n) violate("direction-false", Str() << what << ": number " << k << " is none of the directions of that strength");
                used[j] = 1;
            }
        }
    } else {
        std::vector<I2> m, w;
        call(c, l, [&] { d.findLines(m); });
        check_excuse(c, l, "findLines");
        for (int a : want) for (int k = 0; k < s.q.n[1]; ++k) if (s.rhopeak(a, k)) w.push_back(I2{a, k});
        if (c.ok()) same_set(m, w, s2, "line", "findLines");
        if (c.ok() && !m.empty()) probe("lines");
    }
    if (c.ok() && !want.empty()) probe("directions");
    if (!c.ok()) probe("search-failed");
    note(Str() << "search " << kind << " dirs=" << want.size());
}

Par par(const Line& l, size_t at) {
    Par q;
    for (int i = 0; i < 2; ++i) q.n[i] = (int)std::min<long>(std::max<long>(1, l.i(at + (size_t)i)), 400);
    q.full = l.op == "init2";
    q.res = l.dbl(at + 2);
    for (int i = 0; i < 2; ++i) { q.mn[i] = q.full ? l.dbl(at + 3 + (size_t)i) : 0; q.rs[i] = q.full ? l.dbl(at + 5 + (size_t)i) : 0; }
    return q;
}
void exec(const Plan& p) {
    State st[2];
    for (auto& s : st) s.d.reset(new Det());
    for (auto& l : p.lines) {
        State& s = st[(size_t)l.i(0) % 2];
        CallResult c;
        if (l.op == "init" || l.op == "init2") {
            Par q = par(l, 1);
            call(c, l, [&] { apply_init(*s.d, q); });
            check_excuse(c, l, "init");
            if (c.ok()) { s.q = q; s.inited = true; s.forget(true); } else probe("init-failed");
        } else if (l.op == "new") {
            Par q = par(l, 1);
            std::unique_ptr<Det> d;
            call(c, l, [&] { d.reset(new Det(q.n[0], q.n[1], (float)q.res)); });
            check_excuse(c, l, "constructor");
            if (c.ok()) { s.d.swap(d); s.q = q; s.inited = true; s.forget(true); s.win[0] = s.win[1] = 1; }
        } else if (l.op == "copy") {
            if (!s.inited) continue;
            State& t = st[((size_t)l.i(0) + 1) % 2];
            std::unique_ptr<Det> d;
            call(c, l, [&] { d.reset(new Det(*s.d)); });
            check_excuse(c, l, "copy");
            if (c.ok()) { t.d.swap(d); t.q = s.q; t.sum = s.sum; t.npts = s.npts; t.cache = s.cache; t.inited = true; for (int i = 0; i < 2; ++i) t.win[i] = s.win[i]; }
        } else if (l.op == "zero") {
            call(c, l, [&] { s.d->setZero(); });
            check_excuse(c, l, "setZero");
            s.forget(false);
        } else if (l.op == "win") {
            int w[2];
            for (int i = 0; i < 2; ++i) w[i] = (int)std::min(std::max(0L, l.i(1 + (size_t)i)), 400L);
            call(c, l, [&] { s.d->setPeakWindow(w[0], w[1]); });
            for (int i = 0; i < 2; ++i) s.win[i] = w[i];
        } else if (l.op == "wins") {       // the same by distances: a fraction of a cell short of a whole number of cells
            if (!s.inited) continue;
            int w[2];
            float f[2];
            for (int i = 0; i < 2; ++i) { w[i] = (int)std::min(std::max(1L, l.i(1 + (size_t)i)), 400L); f[i] = (float)((w[i] - 0.05 - 0.09 * (double)(labs(l.i(3) + 3 * i) % 11)) * step(s.q, i)); }
            call(c, l, [&] { s.d->setPeakWindow(rofl::Scalar(f[0]), rofl::Scalar(f[1])); });
            for (int i = 0; i < 2; ++i) s.win[i] = w[i];
        } else if (l.op == "ins") {
            if (!s.inited) continue;
            Rng r((u64)l.i(1));
            rofl::VectorVector2 v;
            std::vector<Pt> np;
            double nx = 1, ny = 0, off = 0, span = l.dbl(4);
            long n = std::min(l.i(2), 3000L);
            std::vector<Pt> few;
            for (long i = 0; i < n; ++i) {
                if (i % 12 == 0) { double t = (double)r.range(0, 314) / 100; nx = cos(t); ny = sin(t); off = (double)r.range(-300, 300) / 300 * span; }
                double x = (double)r.range(-300, 300) / 300 * span, y = (double)r.range(-300, 300) / 300 * span;
                if (l.i(3)) { double e = x * nx + y * ny - off; x -= e * nx; y -= e * ny; }
                if (few.size() >= 40 || (!few.empty() && r.chance(10))) np.push_back(few[r.below(few.size())]);
                else { few.push_back(Pt{(float)x, (float)y}); np.push_back(few.back()); }
            }
            for (auto& x : np) v.push_back(V2(x[0], x[1]));
            call(c, l, [&] { s.d->insert(v); });
            check_excuse(c, l, "insert");
            if (c.ok()) for (auto& x : np) s.add(x);
            else { call(c, Line(), [&] { s.d->setZero(); }); s.forget(false); }
        } else if (l.op == "search" && s.inited) search(s, l);
        for (auto& x : st) verify(x, Str() << "after " << l.op << (c.ok() ? "" : " (failed)"));
    }
}
void gen(Rng& r, Plan& p) {
    int n = (int)r.range(3, 14), fp = r.chance(35) ? 0 : 30;
    bool wide = r.chance(6);
    double span = r.pick(std::vector<double>{1, 3, 20});
    auto size = [&](long m) { return r.chance(20) ? 1 : r.range(1, m); };
    auto init = [&](long k) {
        int w = (int)r.below(10);
        long a = size(16), b = size(20);
        if (wide) { if (r.chance(50)) { a = r.range(60, 390); b = r.range(1, 4); } else { b = r.range(60, 390); a = r.range(1, 4); } }
        Line& l = p.add(w < 4 ? "init" : w < 8 ? "init2" : "new").a(k).a(a).a(b).d(r.pick(std::vector<double>{0.25, 0.5, 1, 0.1, 3}));
        if (w >= 4 && w < 8) l.d(r.pick(std::vector<double>{0, -1.5707963, 0.3, 1.2, -3.1})).d(r.pick(std::vector<double>{0, -2, 0.5, -1.25, 3, -10})).d(r.pick(std::vector<double>{0.2, 0.05, 0.7})).d(r.pick(std::vector<double>{0.25, 0.5, 1}));
        arm_alloc(r, l, fp, 5);
    };
    auto ins = [&](long k) {
        Line& l = p.add("ins").a(k).a((long)r.below(1u << 30)).a(r.chance(8) ? 0 : r.chance(3) ? r.range(200, 1500) : 1 + r.skew(60)).a(r.chance(70)).d(span);
        arm_alloc(r, l, fp / 2, 3);
    };
    auto find = [&](long k) { Line& l = p.add("search").a(k).a(r.range(0, 4)); arm_alloc(r, l, fp, 25); };
    init(0);
    ins(0);
    if (r.chance(60)) { init(1); ins(1); }
    for (int i = 0; i < n; ++i) {
        long k = r.chance(70) ? 0 : 1;
        int w = (int)r.below(100);
        if (w < 12) { init(k); if (r.chance(70)) ins(k); }
        else if (w < 18) p.add("zero").a(k);
        else if (w < 32) p.add(r.chance(50) ? "win" : "wins").a(k).a(r.chance(20) ? r.range(3, 20) : r.range(0, 2)).a(r.chance(20) ? r.range(3, 25) : r.range(0, 2)).a((long)r.below(11));
        else if (w < 36) { Line& l = p.add("copy").a(k); arm_alloc(r, l, fp, 5); }
        else if (w < 60) ins(k);
        else find(k);
    }
    find(0);
    find(1);
}
SIM_SCENARIO(lines, 1, gen, exec)
}

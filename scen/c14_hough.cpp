// C14: Hough plane accumulators over histories of (re-)initialisations, resets and insertions.
#include "../sim/core.h"
#include <rofl/geometry/hough_plane_detector.h>
#include <array>
#include <cmath>
#include <list>
#include <memory>
using namespace sim;

namespace {
typedef rofl::HoughPlaneDetector Det;
typedef rofl::Vector3 V3;
struct Par { long n[3]; double mn[3], rs[3]; bool full; double res; };
struct Pt { float x, y, z; };
struct Raw { double c[3]; int pad; };

void apply_init(Det& d, const Par& q) {
    if (q.full) { Det::Indices3 is = {(int)q.n[0], (int)q.n[1], (int)q.n[2]}; V3 a, b; a << q.mn[0], q.mn[1], q.mn[2]; b << q.rs[0], q.rs[1], q.rs[2]; d.init(is, a, b); }
    else d.init((int)q.n[0], (int)q.n[1], (int)q.n[2], (float)q.res);
}
typedef std::vector<size_t> Cells;
Cells cells(const Det& d, const Par& q) {
    Cells v;
    for (int a = 0; a < q.n[0]; ++a) for (int b = 0; b < q.n[1]; ++b) for (int c = 0; c < q.n[2]; ++c) {
        size_t x = d.getHoughTransform(a, b, c);
        Det::Indices3 is = {a, b, c};
        if (d.getHoughTransform(is) != x) violate("hough-overloads", "the two forms of the transform query differ");
        v.push_back(x);
    }
    return v;
}
// what one point contributes on its own, from a detector used for nothing else, cross-checked
// against the definition of the transform
Cells solo(const Par& q, const Pt& p) {
    Det d;
    apply_init(d, q);
    rofl::VectorVector3 one;
    one.push_back(V3(p.x, p.y, p.z));
    d.insert(one);
    Cells v = cells(d, q);
    size_t k = 0;
    double rhoMin = q.full ? q.mn[2] : -(double)(q.n[2] / 2) * (double)(float)q.res, rhoRes = q.full ? q.rs[2] : (double)(float)q.res;
    for (int a = 0; a < q.n[0]; ++a) for (int b = 0; b < q.n[1]; ++b) {
        double th = q.full ? q.mn[0] + q.rs[0] * a : 0.5 * M_PI / (double)q.n[0] * a, ph = q.full ? q.mn[1] + q.rs[1] * b : 2 * M_PI / (double)q.n[1] * b;
        double rho = p.x * cos(th) * cos(ph) + p.y * cos(th) * sin(ph) + p.z * sin(th);
        double t = (rho - rhoMin) / rhoRes;
        double tol = 1e-4 + 1e-5 * (fabs((double)p.x) + fabs((double)p.y) + fabs((double)p.z) + fabs(rhoMin)) / rhoRes;
        size_t tot = 0;
        for (int c = 0; c < q.n[2]; ++c) {
            size_t x = v[k++];
            tot += x;
            if (x && !(t > c - tol && t < c + 1 + tol)) violate("hough-cell", Str() << "a point at distance coordinate " << t << " was counted in cell " << c);
            if (!x && t > c + tol && t < c + 1 - tol) violate("hough-cell", Str() << "a point at distance coordinate " << t << " was not counted in cell " << c);
        }
        if (tot > 1) violate("hough-cell", Str() << "one point was counted " << tot << " times in one direction");
    }
    return v;
}

struct State {
    std::unique_ptr<Det> d;
    Par q = {};
    bool inited = false, dirty = false;
    std::vector<Pt> pts;
    Cells sum;                                          // what all points since the last reset contribute
    std::map<std::array<float, 3>, Cells> cache;        // of single points, for the current ranges
    void forget(bool ranges) { pts.clear(); sum.clear(); if (ranges) cache.clear(); }
    void add(const Pt& p) {
        auto it = cache.find({p.x, p.y, p.z});
        if (it == cache.end()) it = cache.emplace(std::array<float, 3>{p.x, p.y, p.z}, solo(q, p)).first;
        pts.push_back(p);
        if (sum.empty()) sum.assign(it->second.size(), 0);
        for (size_t i = 0; i < sum.size(); ++i) sum[i] += it->second[i];
    }
};

void verify(State& s, const std::string& when) {
    if (!s.inited || s.dirty) return;
    Det& d = *s.d;
    if (d.getThetaNum() != s.q.n[0] || d.getPhiNum() != s.q.n[1] || d.getRhoNum() != s.q.n[2])
        violate("hough-size", Str() << when << ": the detector has " << d.getThetaNum() << "x" << d.getPhiNum() << "x" << d.getRhoNum() << " cells");
    if (s.q.full && (d.getThetaRes() != (float)s.q.rs[0] || d.getPhiRes() != (float)s.q.rs[1] || d.getRhoRes() != (float)s.q.rs[2] || d.getThetaMin() != (float)s.q.mn[0] || d.getPhiMin() != (float)s.q.mn[1] || d.getRhoMin() != (float)s.q.mn[2]))
        violate("hough-size", Str() << when << ": the parameter ranges differ from those of the last initialisation");
    if (!s.q.full && d.getRhoRes() != (float)s.q.res) violate("hough-size", Str() << when << ": the resolution differs from that of the last initialisation");
    Cells w((size_t)(s.q.n[0] * s.q.n[1] * s.q.n[2]), 0);
    for (size_t i = 0; i < s.sum.size(); ++i) w[i] = s.sum[i];
    Cells v = cells(d, s.q);
    u64 h = 0;
    for (size_t i = 0; i < w.size(); ++i) { if (v[i] != w[i]) violate("hough-transform", Str() << when << ": cell " << i << " counts " << v[i] << ", the " << s.pts.size() << " points since the last reset imply " << w[i]); h = mix(h, v[i]); }
    size_t k = 0;
    for (int a = 0; a < s.q.n[0]; ++a) for (int b = 0; b < s.q.n[1]; ++b) {
        size_t sq = 0;
        for (int c = 0; c < s.q.n[2]; ++c, ++k) sq += w[k] * w[k];
        Det::Indices2 i2 = {a, b};
        if (d.getHoughSpectrum(a, b) != sq || d.getHoughSpectrum(i2) != sq) violate("hough-spectrum", Str() << when << ": spectrum of direction " << a << "," << b << " is " << d.getHoughSpectrum(a, b) << ", not " << sq);
        double th = s.q.full ? s.q.mn[0] + s.q.rs[0] * a : 0.5 * M_PI / (double)s.q.n[0] * a, ph = s.q.full ? s.q.mn[1] + s.q.rs[1] * b : 2 * M_PI / (double)s.q.n[1] * b;
        V3 n = d.getNormal(a, b);
        if (fabs(n(0) - cos(th) * cos(ph)) > 1e-4 || fabs(n(1) - cos(th) * sin(ph)) > 1e-4 || fabs(n(2) - sin(th)) > 1e-4) violate("hough-normal", Str() << when << ": wrong normal of direction " << a << "," << b);
    }
    note(Str() << when << " pts=" << s.pts.size() << " h=" << h);
}

Par par(const Line& l, size_t at) {
    Par q;
    for (int i = 0; i < 3; ++i) q.n[i] = std::min<long>(std::max<long>(1, l.i(at + (size_t)i)), 400);
    q.full = l.op == "init3";
    q.res = l.dbl(at + 3);
    for (int i = 0; i < 3; ++i) { q.mn[i] = q.full ? l.dbl(at + 4 + (size_t)i) : 0; q.rs[i] = q.full ? l.dbl(at + 7 + (size_t)i) : 0; }
    return q;
}
void exec(const Plan& p) {
    State st[2];
    for (auto& s : st) s.d.reset(new Det());
    for (auto& l : p.lines) {
        State& s = st[(size_t)l.i(0) % 2];
        CallResult c;
        if (l.op == "init" || l.op == "init3") {
            Par q = par(l, 1);
            call(c, l, [&] { apply_init(*s.d, q); });
            check_excuse(c, l, "init");
            if (c.ok()) { s.q = q; s.inited = true; s.dirty = false; s.forget(true); }
            else probe("init-failed");
        } else if (l.op == "new") {
            Par q = par(l, 1);
            std::unique_ptr<Det> d;
            call(c, l, [&] { d.reset(new Det((int)q.n[0], (int)q.n[1], (int)q.n[2], (float)q.res)); });
            check_excuse(c, l, "constructor");
            if (c.ok()) { s.d.swap(d); s.q = q; s.inited = true; s.dirty = false; s.forget(true); }
        } else if (l.op == "zero") {
            call(c, l, [&] { s.d->setZero(); });
            check_excuse(c, l, "setZero");
            s.dirty = false; s.forget(false);
        } else if (l.op == "win") {
            call(c, l, [&] { s.d->setPeakWindow((int)l.i(1), (int)l.i(2), (int)l.i(3)); });
        } else if (l.op == "find") {
            if (!s.inited || s.dirty) continue;
            std::vector<Det::Indices3> h;
            call(c, l, [&] { const Det& cd = *s.d; cd.findPlanes(h); });
            check_excuse(c, l, "findPlanes");
        } else if (l.op == "ins" || l.op == "insit" || l.op == "insn" || l.op == "insnit") {
            if (!s.inited) continue;
            bool it = l.op == "insit" || l.op == "insnit";
            std::vector<Pt> np;
            if (l.op == "insn" || l.op == "insnit") {      // many points drawn from a few
                Rng q((u64)l.i(2));
                std::vector<Pt> few;
                for (int i = 0; i < 12; ++i) { float x = (float)q.range(-1000, 1000) / 400, y = (float)q.range(-1000, 1000) / 400; few.push_back({x, y, i % 3 ? 0.5f : (float)q.range(-1000, 1000) / 400}); }
                for (long i = 0; i < std::min(l.i(1), 6000L); ++i) np.push_back(few[q.below(few.size())]);
            } else if (l.op == "ins" || l.op == "insit")
            for (size_t i = 1; i + 2 < l.n(); i += 3) np.push_back({(float)l.dbl(i), (float)l.dbl(i + 1), (float)l.dbl(i + 2)});
            if (it) {
                std::vector<Raw> raw;
                for (auto& x : np) raw.push_back({{x.x * 2.0, x.y * 2.0, x.z * 2.0}, 0});
                auto conv = [&](const Raw& r) -> V3 {
                    HostScope h;
                    if (cb_should_throw()) throw InjectedError();
                    return V3((float)(r.c[0] / 2), (float)(r.c[1] / 2), (float)(r.c[2] / 2));
                };
                std::list<Raw> rl(raw.begin(), raw.end());
                if (np.size() % 2) call(c, l, [&] { s.d->insert(raw.begin(), raw.end(), conv); });
                else call(c, l, [&] { s.d->insert(rl.begin(), rl.end(), conv); });
            } else {
                rofl::VectorVector3 v;
                for (auto& x : np) v.push_back(V3(x.x, x.y, x.z));
                call(c, l, [&] { s.d->insert(v); });
            }
            check_excuse(c, l, "insert");
            if (c.ok()) {
                if (it) { s.forget(false); s.dirty = false; }
                for (auto& x : np) s.add(x);
            } else { s.dirty = true; probe("insert-failed"); }
        }
        for (auto& x : st) verify(x, Str() << "after " << l.op << (c.ok() ? "" : " (failed)"));
    }
}
void gen(Rng& r, Plan& p) {
    int n = (int)r.range(3, 14);
    int fp = r.chance(35) ? 0 : 30;
    bool wide = r.chance(4);
    auto size = [&](long m) { return r.chance(25) ? 1 : r.range(1, m); };
    auto init = [&](long k) {
        int w = (int)r.below(10);
        long dim[3] = {size(7), size(18), size(9)};
        if (wide) { for (auto& x : dim) x = r.range(1, 3); dim[r.below(3)] = r.range(60, 390); }
        Line& l = p.add(w < 5 ? "init" : w < 8 ? "init3" : "new").a(k).a(dim[0]).a(dim[1]).a(dim[2]).d(r.pick(std::vector<double>{0.25, 0.5, 1, 0.1, 3}));
        if (w >= 5 && w < 8) l.d(r.pick(std::vector<double>{0, -1.5707963, 0.3, 1.2, 1.6, 3, -2.5})).d(r.pick(std::vector<double>{0, 1, -3, 4, 7, -6.5})).d(r.pick(std::vector<double>{0, -2, 0.5, -1.25})).d(r.pick(std::vector<double>{0.2, 0.05, 0.7})).d(r.pick(std::vector<double>{0.5, 0.3, 1.1, 0.02})).d(r.pick(std::vector<double>{0.25, 0.5, 1}));
        arm_alloc(r, l, fp, 5);
    };
    init(0);
    if (r.chance(60)) init(1);
    double span = r.pick(std::vector<double>{1, 3, 20});
    for (int i = 0; i < n; ++i) {
        long k = r.range(0, 1);
        int w = (int)r.below(100);
        if (w < 15) init(k);
        else if (w < 27) p.add("zero").a(k);
        else if (w < 32) { p.add("win").a(k).a(r.range(1, 3)).a(r.range(1, 3)).a(r.range(1, 3)); }
        else if (w < 38) { Line& l = p.add("find").a(k); arm_alloc(r, l, fp, 10); }
        else {
            Line& l = p.add(w < 75 ? "ins" : "insit").a(k);
            int m = r.chance(3) ? (int)r.range(20, 60) : (int)r.skew(8);
            if (r.chance(3)) { l.op = w < 75 ? "insn" : "insnit"; l.a(r.chance(30) ? r.range(500, 3000) : r.range(20, 300)).a((long)r.below(1u << 30)); m = 0; }
            std::vector<double> last(3, 0.0);
            for (int j = 0; j < m; ++j) {
                if (!(j && r.chance(12))) for (int q = 0; q < 3; ++q) last[(size_t)q] = r.chance(8) ? 0.0 : (double)r.range(-1000, 1000) / 1000.0 * span;     // some points repeat
                for (double x : last) l.d(x);
            }
            arm_alloc(r, l, fp, 12);
            if (w >= 75 && r.chance(fp)) l.f(F_cb_throw, r.range(1, 4));
        }
    }
}
SIM_SCENARIO(hough, 1, gen, exec)
}

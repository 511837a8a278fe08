// C19: peak searches over histories of settings, with value functions that throw and failing allocations.
#include "../sim/core.h"
#include <rofl/common/peak_finder_d.h>
#include <algorithm>
#include <array>
#include <memory>
#include <set>
using namespace sim;

namespace {
struct Better {                       // what counts as a peak
    int mode = 0;
    bool operator()(long a, long b) const { return mode == 0 ? a > b : mode == 1 ? a < b : labs(a) > labs(b); }
};
template <size_t D> struct Runner {
    typedef rofl::PeakFinderD<(int)D, long, int, Better> P;
    typedef typename P::Indices Ix;
    struct Conf { int mode = 0; Ix mn, mx, win; bool thr = false; long tv = 0; bool dom = false; Conf() { mn.fill(0); mx.fill(0); win.fill(0); } };
    Conf c;
    std::unique_ptr<P> p;
    std::vector<Ix> list;

    static std::string sx(const Ix& i) { Str s; s << "["; for (size_t d = 0; d < D; ++d) s << (d ? "," : "") << i[d]; s << "]"; return s; }
    static std::string sl(const std::vector<Ix>& v) { Str s; size_t k = 0; for (auto& i : v) { if (++k > 40) { s << "..."; break; } s << sx(i); } return s; }
    // the searched function: a seeded value for every index tuple
    struct Values {
        u64 seed; long span; int shape;
        long operator()(const Ix& i) const {
            u64 h = seed;
            long s = 0;
            for (size_t d = 0; d < D; ++d) { h = mix(h, (u64)(unsigned)(i[d] + 5000)); s += (long)i[d] * (long)(d * 2 + 1); }
            long v = span > 0 ? (long)(mix(h, 77) % (u64)(2 * span + 1)) - span : 0;
            if (shape == 1) v += s;                 // a slope
            else if (shape == 2) v += -labs(s);     // a roof
            else if (shape == 3) v += (s % 7) * 10;
            return v;
        }
    };
    static void configure(P& f, const Conf& c, int how) {
        Ix ce, hs, sz;
        bool centred = true, zero = true;
        for (size_t d = 0; d < D; ++d) {
            int n = c.mx[d] - c.mn[d] + 1;
            if (n % 2 == 0) centred = false;
            if (c.mn[d] != 0) zero = false;
            ce[d] = (c.mn[d] + c.mx[d]) / 2; hs[d] = n / 2; sz[d] = n;
            if (ce[d] - hs[d] != c.mn[d]) centred = false;
        }
        if (how == 1 && centred) f.setDomainCentered(ce, hs);
        else if (how == 2 && zero) f.setDomain(sz);
        else f.setDomain(c.mn, c.mx);
    }
    std::vector<Ix> fresh(const Values& v) const {
        Better b; b.mode = c.mode;
        P f(b);
        configure(f, c, 0);
        f.setPeakWindow(c.win);
        f.enableFilterPeakMin(c.thr, c.tv);
        std::vector<Ix> r;
        f.detect(v, std::back_inserter(r));
        return r;
    }
    static std::string flat(const std::vector<Ix>& v) { Str s; for (auto& i : v) for (size_t d = 0; d < D; ++d) s << i[d] << " "; return s; }

    void search(const Line& l) {
        Values v{(u64)l.i(0), l.i(1), (int)l.i(2)};
        std::vector<Ix> before = list, want = fresh(v);
        auto map = [&](const Ix& i) -> long { HostScope h; if (cb_should_throw()) throw InjectedError(); return v(i); };
        CallResult r;
        call(r, l, [&] { const P& cp = *p; cp.detect(map, std::back_inserter(list)); });
        check_excuse(r, l, "peak search");
        if (list.size() < before.size() || !std::equal(before.begin(), before.end(), list.begin())) violate("peak-list", "the search altered what the caller's list already held");
        std::vector<Ix> got(list.begin() + (long)before.size(), list.end());
        Better b; b.mode = c.mode;
        std::set<Ix> seen;
        for (size_t k = 0; k < got.size(); ++k) {
            const Ix& g = got[k];
            for (size_t d = 0; d < D; ++d) if (g[d] < c.mn[d] || g[d] > c.mx[d]) violate("peak-domain", Str() << "reported " << sx(g) << " is outside the domain " << sx(c.mn) << sx(c.mx));
            if (!seen.insert(g).second) violate("peak-twice", Str() << sx(g) << " is reported twice");
            long x = v(g);
            if (c.thr && !b(x, c.tv)) violate("peak-threshold", Str() << sx(g) << " with value " << x << " is reported although the threshold is " << c.tv);
            if (k && b(x, v(got[k - 1]))) violate("peak-order", Str() << sx(g) << " with value " << x << " is reported after the lesser " << sx(got[k - 1]));
            // strictly better than everything else in its window
            Ix lo, hi, i;
            for (size_t d = 0; d < D; ++d) { lo[d] = std::max(c.mn[d], g[d] - c.win[d]); hi[d] = std::min(c.mx[d], g[d] + c.win[d]); }
            i = lo;
            for (;;) {
                if (i != g && !b(x, v(i))) violate("peak-false", Str() << sx(g) << " with value " << x << " is reported as a peak although " << sx(i) << " in its window has " << v(i));
                size_t d = 0;
                for (; d < D; ++d) { if (++i[d] <= hi[d]) break; i[d] = lo[d]; }
                if (d == D) break;
            }
        }
        if (!r.ok()) {
            if (got.size() > want.size() || !std::equal(got.begin(), got.end(), want.begin())) violate("peak-partial", "a failed search left peaks that are not the first ones of the full answer");
            probe("search-failed");
            note("search failed");
            return;
        }
        if (got != want) violate("peak-history", Str() << "the search found " << sl(got) << " but a new finder with the same settings finds " << sl(want));
        // every cell strictly better than the others of its window was reported
        {
            Ix g = c.mn;
            size_t cells = 1;
            for (size_t d = 0; d < D; ++d) cells *= (size_t)(c.mx[d] - c.mn[d] + 1);
            for (size_t k = 0; k < cells; ++k) {
                if (!seen.count(g)) {
                    long x = v(g);
                    bool peak = !c.thr || b(x, c.tv);
                    Ix lo, hi, i;
                    for (size_t d = 0; d < D; ++d) { lo[d] = std::max(c.mn[d], g[d] - c.win[d]); hi[d] = std::min(c.mx[d], g[d] + c.win[d]); }
                    i = lo;
                    while (peak) {
                        if (i != g && !b(x, v(i))) { peak = false; break; }
                        size_t d = 0;
                        for (; d < D; ++d) { if (++i[d] <= hi[d]) break; i[d] = lo[d]; }
                        if (d == D) break;
                    }
                    if (peak) violate("peak-missed", Str() << sx(g) << " with value " << x << " is better than everything in its window but is not among the reported " << sl(got));
                }
                for (size_t d = 0; d < D; ++d) { if (++g[d] <= c.mx[d]) break; g[d] = c.mn[d]; }
            }
        }
        if (l.i(3)) {
            std::string alone = in_fresh_process([&] { return flat(fresh(v)); });
            if (alone != flat(got)) violate("peak-history", Str() << "the search found " << sl(got) << " but a new finder in a new process finds something else");
            probe("fresh-process");
        }
        if (!got.empty()) probe("peaks-found");
        note(Str() << "search " << sl(got) << " " << got.size());
    }
    void run(const Plan& pl) {
        p.reset(new P(Better()));
        for (auto& l : pl.lines) {
            CallResult r;
            if (l.op == "new") { Better b; b.mode = (int)l.i(0) % 3; c = Conf(); c.mode = b.mode; call(r, l, [&] { p.reset(new P(b)); }); }
            else if (l.op == "dom") {
                for (size_t d = 0; d < D; ++d) { c.mn[d] = (int)l.i(1 + d); c.mx[d] = c.mn[d] + (int)std::min(std::max(l.i(4 + d), 1L), 3000L) - 1; }
                if (l.i(0) == 2) for (size_t d = 0; d < D; ++d) { c.mx[d] -= c.mn[d]; c.mn[d] = 0; }
                if (l.i(0) == 1) for (size_t d = 0; d < D; ++d) { int n = c.mx[d] - c.mn[d] + 1; if (n % 2 == 0) ++c.mx[d]; if (c.mn[d] < 0) { c.mx[d] -= c.mn[d]; c.mn[d] = 0; } }
                c.dom = true;
                call(r, l, [&] { configure(*p, c, (int)l.i(0)); });
            } else if (l.op == "win") { for (size_t d = 0; d < D; ++d) c.win[d] = (int)std::min(std::max(l.i(d), 0L), 60L); call(r, l, [&] { p->setPeakWindow(c.win); }); }
            else if (l.op == "thr") { c.thr = l.i(0) != 0; c.tv = l.i(1); call(r, l, [&] { p->enableFilterPeakMin(c.thr, c.tv); }); }
            else if (l.op == "copy") { std::unique_ptr<P> q; call(r, l, [&] { q.reset(new P(*p)); }); check_excuse(r, l, "copy"); if (r.ok()) p.swap(q); }
            else if (l.op == "fresh") list.clear();
            else if (l.op == "search" && c.dom) search(l);
        }
    }
};
template <size_t D> void exec(const Plan& p) { Runner<D> r; r.run(p); }
template <int D> void gen(Rng& r, Plan& p) {
    int n = (int)r.range(2, 10), fp = r.chance(40) ? 0 : 45;
    bool big = r.chance(3);
    auto dom = [&] {
        Line& l = p.add("dom").a(r.range(0, 2));
        for (int d = 0; d < 3; ++d) l.a(r.chance(50) ? 0 : r.range(-8, 8));
        for (int d = 0; d < 3; ++d) l.a(D == 1 ? (big ? r.range(100, 900) : r.range(1, 40)) : D == 2 ? (big ? r.range(10, 28) : r.range(1, 9)) : r.range(1, big ? 8 : 4));
    };
    auto win = [&] { Line& l = p.add("win"); for (int d = 0; d < 3; ++d) l.a(r.chance(10) ? r.range(4, big ? 60 : 20) : r.range(0, 3)); };
    p.add("new").a(r.range(0, 2));
    dom();
    win();
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        if (k < 12) dom();
        else if (k < 24) win();
        else if (k < 34) p.add("thr").a(r.chance(70)).a(r.range(-12, 12));
        else if (k < 38) p.add("copy");
        else if (k < 44) p.add("fresh");
        else if (k < 46) { p.add("new").a(r.range(0, 2)); dom(); win(); }
        else {
            Line& l = p.add("search").a((long)r.below(1000)).a(r.pick(std::vector<long>{0, 1, 3, 20, 20, 100000})).a((long)r.below(5)).a(r.chance(25));
            if (fp) { arm_alloc(r, l, fp, 6); if (r.chance(fp)) l.f(F_cb_throw, 1 + r.skew(r.chance(50) ? 30 : 400)); }
        }
    }
    p.add("search").a((long)r.below(1000)).a(20).a(0).a(1);
}
SIM_SCENARIO(peak1, 2, gen<1>, exec<1>)
SIM_SCENARIO(peak2, 3, gen<2>, exec<2>)
SIM_SCENARIO(peak3, 1, gen<3>, exec<3>)
}

// C25: intervals of indices and their iterators against the set of cells they denote.
#include "../sim/core.h"
#include <rofl/common/interval_indices.h>
#include <algorithm>
#include <array>
#include <iterator>
#include <memory>
#include <set>
#include <sstream>
using namespace sim;

namespace {
const int SLOTS = 4, ITS = 4;
const long WALK = 1500;      // biggest interval that is walked cell by cell

template <size_t D, typename Index> struct Runner {
    typedef rofl::IntervalIndices<D, Index> T;
    typedef typename T::Indices Ix;
    typedef typename T::RasterIteratorType RI;
    typedef typename T::BoustrophedonIteratorType BI;
    typedef std::array<long, D> Cell;
    struct Model {                       // an empty interval has no further attributes
        bool empty = true;
        Cell mn{}, dm{};
        void set(const Cell& m, const Cell& d) { mn = m; dm = d; empty = false; for (long x : d) if (x <= 0) empty = true; }
        long size() const { if (empty) return 0; long s = 1; for (long x : dm) s *= x; return s; }
        bool inside(const Cell& c) const { if (empty) return false; for (size_t d = 0; d < D; ++d) if (c[d] < mn[d] || c[d] >= mn[d] + dm[d]) return false; return true; }
    };
    struct It { int slot = -1; bool zig = false; long pos = 0; std::unique_ptr<RI> r; std::unique_ptr<BI> b; };
    T t[SLOTS];
    Model m[SLOTS];
    std::vector<Cell> order[SLOTS][2];   // verified visiting order (raster, zig-zag)
    It its[ITS];
    Line none;

    static Ix ix(const Cell& c) { Ix r; for (size_t d = 0; d < D; ++d) r[d] = (Index)c[d]; return r; }
    static Cell cell(const Ix& i) { Cell r; for (size_t d = 0; d < D; ++d) r[d] = (long)i[d]; return r; }
    static std::string sc(const Cell& c) { Str s; s << "["; for (size_t d = 0; d < D; ++d) s << (d ? "," : "") << c[d]; s << "]"; return s; }
    static std::string sm(const Model& x) { if (x.empty) return "(empty)"; Cell e; for (size_t d = 0; d < D; ++d) e[d] = x.mn[d] + x.dm[d] - 1; return sc(x.mn) + ".." + sc(e); }
    Cell arg(const Line& l, size_t at) { Cell c; for (size_t d = 0; d < D; ++d) c[d] = l.i(at + d); return c; }
    Cell dims(const Line& l, size_t at) { Cell c; for (size_t d = 0; d < D; ++d) c[d] = std::min(l.i(at + d), 1000L); return c; }

    void changed(int s) { order[s][0].clear(); order[s][1].clear(); for (auto& i : its) if (i.slot == s) i = It(); }

    // everything an interval says about itself
    void observe(const T& x, const Model& w, const char* op) {
        bool e = false; size_t sz = 0;
        CallResult r;
        call(r, none, [&] { e = x.empty(); sz = x.size(); });
        if (e != w.empty || sz != (size_t)w.size())
            violate("interval-size", Str() << "after " << op << " the interval " << sm(w) << " reports " << (e ? "empty" : "not empty") << " and size " << sz << ", it has " << w.size() << " cells");
        if (w.empty) return;
        Ix mn, mx, fi, la, di;
        bool dimok = true;
        call(r, none, [&] { mn = x.min(); mx = x.max(); fi = x.first(); la = x.last(); di = x.dimensions(); for (size_t d = 0; d < D; ++d) dimok = dimok && x.dimension(d) == di[d]; });
        for (size_t d = 0; d < D; ++d)
            if (mn[d] != w.mn[d] || fi[d] != w.mn[d] || di[d] != w.dm[d] || mx[d] != w.mn[d] + w.dm[d] - 1 || la[d] != w.mn[d] + w.dm[d] || !dimok)
                violate("interval-bounds", Str() << "after " << op << " the interval reports min " << sc(cell(mn)) << " max " << sc(cell(mx)) << " first " << sc(cell(fi)) << " last " << sc(cell(la))
                        << " dimensions " << sc(cell(di)) << ", it spans " << sm(w));
    }
    void member(const T& x, const Model& w, const Cell& c) {
        bool in = false;
        CallResult r;
        call(r, none, [&] { in = x.inside(ix(c)); });
        if (in != w.inside(c)) violate("interval-inside", Str() << "cell " << sc(c) << (in ? " is reported inside " : " is reported outside ") << sm(w));
    }
    void corners(const T& x, const Model& w) {
        if (w.empty) { member(x, w, w.mn); return; }
        for (size_t d = 0; d < D; ++d)
            for (long at : {w.mn[d] - 1, w.mn[d], w.mn[d] + w.dm[d] - 1, w.mn[d] + w.dm[d]}) { Cell c = w.mn; c[d] = at; member(x, w, c); }
    }
    template <typename I> std::vector<Cell> visit(const T& x, const Model& w, I b, I e, const char* what) {
        std::vector<Cell> v;
        CallResult r;
        call(r, none, [&] { for (I i = b; i != e && (long)v.size() <= w.size(); ++i) { HostScope h; v.push_back(cell(*i)); } });
        if ((long)v.size() != w.size()) violate("interval-walk", Str() << "a " << what << " visit of " << sm(w) << " yields " << ((long)v.size() > w.size() ? "more than " : "") << std::min((long)v.size(), w.size()) << " cells of " << w.size());
        std::set<Cell> seen;
        for (auto& c : v) {
            if (!w.inside(c)) violate("interval-walk", Str() << "a " << what << " visit of " << sm(w) << " yields " << sc(c) << ", which is outside");
            if (!seen.insert(c).second) violate("interval-walk", Str() << "a " << what << " visit of " << sm(w) << " yields " << sc(c) << " twice");
        }
        return v;
    }
    const std::vector<Cell>& ordered(int s, bool zig) {
        std::vector<Cell>& v = order[s][zig];
        const Model& w = m[s];
        if (!v.empty() || w.empty) {
            if (w.empty) { if (zig) visit(t[s], w, t[s].beginBoustrophedon(), t[s].endBoustrophedon(), "zig-zag"); else visit(t[s], w, t[s].beginRaster(), t[s].endRaster(), "raster"); }
            return v;
        }
        if (zig) v = visit(t[s], w, t[s].beginBoustrophedon(), t[s].endBoustrophedon(), "zig-zag");
        else v = visit(t[s], w, t[s].beginRaster(), t[s].endRaster(), "raster");
        if (v[0] != w.mn) violate("interval-order", Str() << "a visit of " << sm(w) << " starts at " << sc(v[0]));
        for (size_t k = 1; k < v.size(); ++k) {
            if (!zig) {
                Cell c = v[k - 1];          // raster order: coordinate 0 runs fastest
                for (size_t d = 0; d < D; ++d) { if (++c[d] < w.mn[d] + w.dm[d]) break; c[d] = w.mn[d]; }
                if (v[k] != c) violate("interval-order", Str() << "in the raster visit of " << sm(w) << " " << sc(v[k - 1]) << " is followed by " << sc(v[k]) << " instead of " << sc(c));
            } else {
                long dist = 0; size_t dm = 0;
                for (size_t d = 0; d < D; ++d) if (v[k][d] != v[k - 1][d]) { dist += std::labs(v[k][d] - v[k - 1][d]); dm = d; }
                if (dist != 1) violate("interval-order", Str() << "the zig-zag visit of " << sm(w) << " jumps from " << sc(v[k - 1]) << " to " << sc(v[k]));
                // a run along coordinates 0..d-1 is complete before coordinate d moves
                long block = 1; for (size_t d = 0; d < dm; ++d) block *= w.dm[d];
                if ((long)k % block) violate("interval-order", Str() << "the zig-zag visit of " << sm(w) << " leaves a run before its end, from " << sc(v[k - 1]) << " to " << sc(v[k]));
            }
        }
        return v;
    }
    void deref(It& i) {
        const std::vector<Cell>& v = ordered(i.slot, i.zig);
        if (i.pos < 0 || i.pos >= (long)v.size()) return;
        Cell c, a;
        CallResult r;
        call(r, none, [&] { if (i.zig) { c = cell(**i.b); a = cell(*i.b->operator->()); } else { c = cell(**i.r); a = cell(*i.r->operator->()); } });
        if (c != v[i.pos] || a != c) violate("interval-iterator", Str() << "an iterator " << i.pos << " steps into the " << (i.zig ? "zig-zag" : "raster") << " visit of " << sm(m[i.slot]) << " denotes " << sc(c) << " instead of " << sc(v[i.pos]));
    }
    template <typename I> void step(It& i, I& p, const Line& l) {
        long n = m[i.slot].size();
        int k = (int)l.i(1);
        for (long j = 0; j < std::min(l.i(2), 200L); ++j) {
            if (k < 2 ? i.pos >= n : i.pos <= 0) break;
            Cell old{}; bool had = false;
            CallResult r;
            call(r, none, [&] {
                if (k == 0) ++p;
                else if (k == 1) { auto o = p++; old = cell(*o); had = true; }
                else if (k == 2) --p;
                else { auto o = p--; old = cell(*o); had = true; }
            });
            const std::vector<Cell>& v = ordered(i.slot, i.zig);
            if (had && i.pos < n && old != v[i.pos]) violate("interval-iterator", Str() << "a postfix step from position " << i.pos << " of " << sm(m[i.slot]) << " returns " << sc(old) << " instead of " << sc(v[i.pos]));
            i.pos += k < 2 ? 1 : -1;
            deref(i);
        }
    }
    void run(const Plan& p) {
        for (int s = 0; s < SLOTS; ++s) observe(t[s], m[s], "construction");
        for (auto& l : p.lines) {
            int s = (int)(l.i(0) & 3);
            CallResult r;
            if (l.op == "bounds" || l.op == "ctor") {
                Cell mn = arg(l, 1), dm = dims(l, 5);
                call(r, none, [&] { if (l.op == "ctor") t[s] = T(ix(mn), ix(dm)); else t[s].initBounds(ix(mn), ix(dm)); });
                m[s].set(mn, dm); changed(s);
                observe(t[s], m[s], "setting bounds"); corners(t[s], m[s]);
            } else if (l.op == "centered") {
                Cell c = arg(l, 1), h = dims(l, 5), mn, dm;
                for (size_t d = 0; d < D; ++d) { h[d] = std::min(h[d], 400L); mn[d] = c[d] - h[d]; dm[d] = 2 * h[d] + 1; }
                call(r, none, [&] { t[s].initCentered(ix(c), ix(h)); });
                m[s].set(mn, dm); changed(s);
                observe(t[s], m[s], "centering"); corners(t[s], m[s]);
            } else if (l.op == "minmax") {
                Cell mn = arg(l, 1), dm = dims(l, 5), mx;
                for (size_t d = 0; d < D; ++d) mx[d] = mn[d] + dm[d] - 1;
                call(r, none, [&] { t[s].initMinMax(ix(mn), ix(mx)); });
                m[s].set(mn, dm); changed(s);
                observe(t[s], m[s], "setting minimum and maximum"); corners(t[s], m[s]);
            } else if (l.op == "clone") {
                int o = (int)(l.i(1) & 3);
                T x;
                call(r, none, [&] { x = t[o].clone(); if (l.i(2)) x = T(x); });
                observe(x, m[o], "cloning");
                t[s] = x; if (s != o) { m[s] = m[o]; changed(s); }
                observe(t[o], m[o], "being cloned");
            } else if (l.op == "inter") {
                int a = (int)(l.i(1) & 3), b = (int)(l.i(2) & 3);
                T x;
                call(r, none, [&] { x = t[a].intersect(t[b]); });
                Model w;
                if (!m[a].empty && !m[b].empty) {
                    Cell mn, dm;
                    for (size_t d = 0; d < D; ++d) { mn[d] = std::max(m[a].mn[d], m[b].mn[d]); dm[d] = std::min(m[a].mn[d] + m[a].dm[d], m[b].mn[d] + m[b].dm[d]) - mn[d]; }
                    w.set(mn, dm);
                    if (w.empty) w = Model();
                }
                observe(x, w, "intersecting"); corners(x, w);
                if (!m[a].empty) for (size_t d = 0; d < D; ++d) for (long q : {m[a].mn[d], m[a].mn[d] + m[a].dm[d] - 1}) { Cell c = m[a].mn; c[d] = q; member(x, w, c); }
                observe(t[a], m[a], "being intersected"); observe(t[b], m[b], "being intersected");
                t[s] = x; m[s] = w; changed(s);
            } else if (l.op == "stack") {
                int o = (int)(l.i(1) & 3);
                size_t d = (size_t)(l.i(2) & 3) % D;
                long k = std::max(-500L, std::min(500L, l.i(3)));
                if (m[o].empty) continue;
                T x;
                call(r, none, [&] { x = t[o].stacked(d, (Index)k); });
                Cell mn = m[o].mn, dm = m[o].dm;
                if (k >= 0) { mn[d] += dm[d]; dm[d] = k; } else { mn[d] += k; dm[d] = -k; }
                Model w; w.set(mn, dm);
                observe(x, w, "stacking"); corners(x, w);
                observe(t[o], m[o], "being stacked on");
                t[s] = x; m[s] = w; changed(s);
            } else if (l.op == "trans") {
                Cell v = arg(l, 2);
                if (l.i(1)) for (size_t d = 1; d < D; ++d) v[d] = 0;
                call(r, none, [&] { if (l.i(1)) t[s].translate(0, (Index)v[0]); else t[s].translate(ix(v)); });
                if (!m[s].empty) for (size_t d = 0; d < D; ++d) m[s].mn[d] += v[d];
                changed(s);
                observe(t[s], m[s], "translating"); corners(t[s], m[s]);
            } else if (l.op == "transd") {
                size_t d = (size_t)(l.i(1) & 3) % D;
                long v = l.i(2);
                call(r, none, [&] { t[s].translate(d, (Index)v); });
                if (!m[s].empty) m[s].mn[d] += v;
                changed(s);
                observe(t[s], m[s], "translating"); corners(t[s], m[s]);
            } else if (l.op == "inside") {
                Cell c = arg(l, 1);
                member(t[s], m[s], c);
            } else if (l.op == "text") {
                if (m[s].empty) continue;
                std::string got, want = "[", gi, wi = "[";
                bool good = false, gooda = false;
                for (size_t d = 0; d < D; ++d) {
                    want += (d ? "," : "") + std::to_string(m[s].mn[d]) + ":" + std::to_string(m[s].mn[d] + m[s].dm[d] - 1);
                    wi += (d ? "," : "") + std::to_string(m[s].mn[d]);
                }
                want += "]"; wi += "]";
                std::unique_ptr<std::ostringstream> o(new std::ostringstream);
                call(r, l, [&] { if (l.i(1)) *o << t[s]; else t[s].print(*o); });
                check_excuse(r, l, "printing");
                good = o->good();
                if (r.ok() && !good && !r.op.anyfired()) violate("interval-text", "printing failed without a reason");
                if (r.ok() && good && o->str() != want) violate("interval-text", Str() << "the interval prints as " << o->str() << " instead of " << want);
                CallResult q;
                std::unique_ptr<std::string> g(new std::string);
                call(q, l, [&] { *g = rofl::outIdx(t[s].min()); });
                gooda = q.ok();
                check_excuse(q, l, "formatting");
                if (gooda && *g != wi) violate("interval-text", Str() << "the cell " << wi << " is formatted as " << *g);
                observe(t[s], m[s], "printing");
                note(Str() << "text " << (int)good << (int)gooda);
            } else if (l.op == "walk") {
                if (m[s].size() > WALK) continue;
                note(Str() << "walk " << ordered(s, l.i(1) & 1).size());
                observe(t[s], m[s], "a visit");
            } else if (l.op == "it") {
                int k = (int)(l.i(1) & 3);
                if (m[s].size() > WALK || m[s].empty) continue;
                its[k] = It();
                It& i = its[k];
                i.slot = s; i.zig = l.i(2) & 1; i.pos = l.i(3) ? m[s].size() : 0;
                ordered(s, i.zig);
                call(r, none, [&] { if (i.zig) i.b.reset(new BI(l.i(3) ? t[s].endBoustrophedon() : t[s].beginBoustrophedon())); else i.r.reset(new RI(l.i(3) ? t[s].endRaster() : t[s].beginRaster())); });
                deref(i);
            } else if (l.op == "copyit") {
                It &a = its[l.i(0) & 3], &b = its[l.i(1) & 3];
                if (a.slot < 0 || &a == &b) continue;
                bool assign = l.i(2) && b.slot >= 0 && b.zig == a.zig;
                call(r, none, [&] {
                    if (assign) { if (a.zig) *b.b = *a.b; else *b.r = *a.r; }
                    else if (a.zig) { b.b.reset(new BI(*a.b)); b.r.reset(); } else { b.r.reset(new RI(*a.r)); b.b.reset(); }
                });
                b.slot = a.slot; b.zig = a.zig; b.pos = a.pos;
                deref(a); deref(b);
            } else if (l.op == "step") {
                It& i = its[l.i(0) & 3];
                if (i.slot < 0) continue;
                if (i.zig) step(i, *i.b, l); else step(i, *i.r, l);
                note(Str() << "at " << i.pos);
            } else if (l.op == "cmp") {
                It &a = its[l.i(0) & 3], &b = its[l.i(1) & 3];
                if (a.slot < 0 || a.slot != b.slot || a.zig != b.zig) continue;
                bool e = false, n = false;
                call(r, none, [&] { if (a.zig) { e = *a.b == *b.b; n = *a.b != *b.b; } else { e = *a.r == *b.r; n = *a.r != *b.r; } });
                if (e != (a.pos == b.pos) || n == e) violate("interval-iterator", Str() << "iterators at positions " << a.pos << " and " << b.pos << " compare " << (e ? "equal" : "different"));
                long dist = -1;
                if (a.pos <= b.pos) {
                    call(r, none, [&] { dist = a.zig ? (long)std::distance(*a.b, *b.b) : (long)std::distance(*a.r, *b.r); });
                    if (dist != b.pos - a.pos) violate("interval-iterator", Str() << "std::distance between positions " << a.pos << " and " << b.pos << " is " << dist);
                }
            }
            note(Str() << l.op << " " << s << " " << sm(m[s]));
            // other intervals and live iterators are not affected
            for (int k = 0; k < SLOTS; ++k) observe(t[k], m[k], "an operation on another interval");
            for (auto& i : its) if (i.slot >= 0) deref(i);
        }
    }
};
template <size_t D, typename Index> void exec(const Plan& p) { auto r = std::make_unique<Runner<D, Index>>(); r->run(p); }

template <size_t D, typename Index> void gen(Rng& r, Plan& p) {
    int n = (int)r.range(4, 26);
    long span = r.pick(std::vector<long>{3, 6, 12, 200});
    long big = D == 1 ? 200 : D == 2 ? 14 : D == 3 ? 6 : 4;
    long far = !r.chance(12) ? 0 : sizeof(Index) == 4 ? r.pick(std::vector<long>{2000000000, -2000000000, 70000, -70000}) : r.pick(std::vector<long>{6000000000L, -6000000000L, 4000000000000000000L, -4000000000000000000L});
    auto near = [&](Line& l) { for (int d = 0; d < 4; ++d) l.a(r.range(-span, span)); };
    auto pos = [&](Line& l) { for (int d = 0; d < 4; ++d) l.a((far && r.chance(80) ? far : 0) + r.range(-span, span)); };
    auto ext = [&](Line& l) { for (int d = 0; d < 4; ++d) l.a(r.chance(12) ? r.range(-3, 0) : r.chance(5) ? r.range(1, 300) : r.range(1, big)); };
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        if (k < 24 || i < 2) { Line& l = p.add(r.pick(std::vector<const char*>{"bounds", "ctor", "centered", "minmax"})).a(r.range(0, 3)); pos(l); if (l.op == "centered") for (int d = 0; d < 4; ++d) l.a(r.range(0, std::max(1L, big / 2))); else ext(l); }
        else if (k < 29) p.add("clone").a(r.range(0, 3)).a(r.range(0, 3)).a(r.range(0, 1));
        else if (k < 38) p.add("inter").a(r.range(0, 3)).a(r.range(0, 3)).a(r.range(0, 3));
        else if (k < 44) p.add("stack").a(r.range(0, 3)).a(r.range(0, 3)).a(r.range(0, 3)).a(r.range(-4, 4));
        else if (k < 48) { Line& l = p.add("trans").a(r.range(0, 3)).a(r.range(0, 1)); near(l); }
        else if (k < 51) p.add("transd").a(r.range(0, 3)).a(r.range(0, 3)).a(r.range(-span, span));
        else if (k < 55) { Line& l = p.add("inside").a(r.range(0, 3)); pos(l); }
        else if (k < 60) { Line& l = p.add("text").a(r.range(0, 3)).a(r.range(0, 1)); if (r.chance(50)) arm_alloc(r, l, 60, 2); }
        else if (k < 70) p.add("walk").a(r.range(0, 3)).a(r.range(0, 1));
        else if (k < 78) p.add("it").a(r.range(0, 3)).a(r.range(0, 3)).a(r.range(0, 1)).a(r.range(0, 1));
        else if (k < 83) p.add("copyit").a(r.range(0, 3)).a(r.range(0, 3)).a(r.range(0, 1));
        else if (k < 95) p.add("step").a(r.range(0, 3)).a(r.range(0, 3)).a(r.chance(80) ? r.range(1, 8) : r.range(1, 120));
        else p.add("cmp").a(r.range(0, 3)).a(r.range(0, 3));
    }
}
SIM_SCENARIO(interval1, 1, (gen<1, int>), (exec<1, int>))
SIM_SCENARIO(interval2, 3, (gen<2, int>), (exec<2, int>))
SIM_SCENARIO(interval3, 3, (gen<3, int>), (exec<3, int>))
SIM_SCENARIO(interval4, 1, (gen<4, int>), (exec<4, int>))
SIM_SCENARIO(interval2l, 1, (gen<2, long>), (exec<2, long>))
SIM_SCENARIO(interval3l, 1, (gen<3, long>), (exec<3, long>))
}

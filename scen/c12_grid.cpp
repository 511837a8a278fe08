// C12: grids of 1 to 3 dimensions against a map from index tuple to value.
#include "../sim/core.h"
#include <rofl/common/grid.h>
#include <algorithm>
#include <memory>
#include <set>
using namespace sim;

namespace {
struct Cell {            // copying may fail, owns memory
    std::string* s;
    Cell() : s(nullptr) { HostScope h; if (cb_should_throw()) throw InjectedError(); s = new std::string("init"); }
    explicit Cell(const std::string& v) { HostScope h; s = new std::string(v); }
    Cell(const Cell& o) : s(nullptr) { HostScope h; if (cb_should_throw()) throw InjectedError(); s = new std::string(*o.s); }
    Cell& operator=(const Cell& o) {
        HostScope h;
        if (cb_should_throw()) throw InjectedError();
        std::string* n = new std::string(*o.s);
        delete s;
        s = n;
        return *this;
    }
    ~Cell() { HostScope h; delete s; }
};
std::string tok(long v) { return v % 3 == 0 ? "value-long-enough-to-need-the-heap-" + std::to_string(v) : std::to_string(v); }
void mk(long v, long& o) { o = v; }
void mk(long v, std::string& o) { o = tok(v); }
void mk(long v, Cell& o) { HostScope h; *o.s = tok(v); }
std::string rd(const long& v) { return std::to_string(v); }
std::string rd(const std::string& v) { return v; }
std::string rd(const Cell& v) { return *v.s; }
std::string want(long v, const long*) { return std::to_string(v); }
std::string want(long v, const std::string*) { return tok(v); }
std::string want(long v, const Cell*) { return tok(v); }

template <size_t D, typename V> struct Runner {
    typedef rofl::Grid<D, V> G;
    typedef typename G::Indices Ix;
    std::unique_ptr<G> g;
    Ix mn, dm;
    std::map<Ix, std::string> known;       // cells written since the last initialisation
    std::string def; bool hasdef = false;   // value of every other cell, once filled
    Line none;

    // the cells an observation looks at: all of a small grid; corners, written cells and a sample of a big one
    std::vector<size_t> look() const {
        size_t n = cells();
        std::vector<size_t> v;
        if (n <= 4096) { for (size_t k = 0; k < n; ++k) v.push_back(k); return v; }
        std::set<size_t> s;
        Rng q(n);
        for (int i = 0; i < 400; ++i) s.insert((size_t)q.below(n));
        for (size_t k = 0; k < 20; ++k) { s.insert(k); s.insert(n - 1 - k); }
        for (size_t b = 256; b < n; b *= 2) { s.insert(b - 1); s.insert(b); s.insert(b + 1 < n ? b + 1 : b); }
        for (auto& x : known) { size_t k = 0; for (size_t d = D; d-- > 0;) k = k * (size_t)dm[d] + (size_t)(x.first[d] - mn[d]); s.insert(k); }
        return std::vector<size_t>(s.begin(), s.end());
    }
    size_t cells() const { size_t n = 1; for (size_t d = 0; d < D; ++d) n *= (size_t)dm[d]; return n; }
    static std::string sx(const Ix& i) { Str s; s << "["; for (size_t d = 0; d < D; ++d) s << (d ? "," : "") << i[d]; s << "]"; return s; }
    Ix nth(size_t k) const { Ix x; for (size_t d = 0; d < D; ++d) { x[d] = mn[d] + (int)(k % (size_t)dm[d]); k /= (size_t)dm[d]; } return x; }

    std::vector<std::string> snapshot() {
        std::vector<std::string> v;
        for (size_t k : look()) { Ix x = nth(k); v.push_back(rd(((const G&)*g).value(x))); }
        return v;
    }
    void observe() {
        CallResult c;
        size_t sz = 0; Ix dim;
        call(c, none, [&] { sz = g->size(); dim = g->dimensions(); });
        if (sz != cells()) violate("grid-size", Str() << "grid has " << sz << " cells for dimensions " << sx(dm));
        if (dim != dm) violate("grid-dimensions", Str() << "grid reports dimensions " << sx(dim) << " instead of " << sx(dm));
        std::set<long> pos;
        Str tr;
        tr << sx(mn) << sx(dm);
        for (size_t k : look()) {
            Ix x = nth(k), back;
            int p = -1; bool in = false;
            std::string a, b, e;
            call(c, none, [&] {
                p = g->getPos(x);
                in = g->inside(x);
                if (p >= 0 && p < (int)sz) back = g->getIndices(p);
                const V& v1 = ((const G&)*g).value(x);
                const V& v2 = g->value(x.data());
                const int q = p;
                const V* v3 = p >= 0 && p < (int)sz ? &g->value(q) : nullptr;
                const V& v4 = ((const G&)*g).value(x.data());
                const V* v5 = p >= 0 && p < (int)sz ? &((const G&)*g).value(q) : nullptr;
                const V& v6 = g->value(x);
                HostScope h;
                a = rd(v1); b = rd(v2); if (v3) e = rd(*v3);
                if (&v1 != &v2 || &v1 != v3 || &v1 != &v4 || &v1 != v5 || &v1 != &v6) a = "different-cells";
            });
            check_excuse(c, none, "reading a cell");
            if (!in) violate("grid-inside", Str() << sx(x) << " reported outside " << sx(mn) << sx(dm));
            if (p < 0 || p >= (int)sz || !pos.insert(p).second) violate("grid-position", Str() << sx(x) << " has position " << p << " which is out of range or shared");
            if (back != x) violate("grid-position", Str() << "position " << p << " of " << sx(x) << " converts back to " << sx(back));
            if (a == "different-cells") violate("grid-cell", Str() << "access by tuple, pointer and position of " << sx(x) << " reach different cells");
            auto it = known.find(x);
            const std::string* w = it != known.end() ? &it->second : hasdef ? &def : nullptr;
            if (w && a != *w) violate("grid-cell", Str() << "cell " << sx(x) << " reads " << a << " instead of " << *w);
            if (w) tr << " " << a;
        }
        // just outside the domain
        if (cells() > 0) for (size_t d = 0; d < D; ++d) for (int s = 0; s < 2; ++s) {
            Ix x = nth(0);
            x[d] = s ? mn[d] + dm[d] : mn[d] - 1;
            bool in = true;
            call(c, none, [&] { in = g->inside(x); });
            if (in) violate("grid-inside", Str() << sx(x) << " reported inside " << sx(mn) << sx(dm));
        }
        note(tr);
    }
    void run(const Plan& p) {
        g.reset(new G());
        mn.fill(0); dm.fill(0);
        for (auto& l : p.lines) {
            CallResult c;
            Ix a, b;
            for (size_t d = 0; d < D; ++d) { a[d] = (int)l.i(d); b[d] = (int)l.i(3 + d); }
            if (l.op == "dims" || l.op == "bounds" || l.op == "center" || l.op == "minmax" || l.op == "ctor" || l.op == "ctor2") {
                Ix nm = a, nd = b;
                if (l.op == "dims" || l.op == "ctor") nm.fill(0);
                else if (l.op == "center") for (size_t d = 0; d < D; ++d) { nm[d] = a[d] - b[d]; nd[d] = 2 * b[d] + 1; }
                Ix mx;
                for (size_t d = 0; d < D; ++d) mx[d] = a[d] + b[d] - 1;
                std::vector<std::string> before = snapshot();
                std::unique_ptr<G> n;
                call(c, l, [&] {
                    if (l.op == "dims") g->initBounds(b);
                    else if (l.op == "bounds") g->initBounds(a, b);
                    else if (l.op == "center") g->initCenter(a, b);
                    else if (l.op == "minmax") g->initMinMax(a, mx);
                    else if (l.op == "ctor") n.reset(new G(b));
                    else n.reset(new G(a, b));
                });
                check_excuse(c, l, "initialisation");
                if (c.ok()) { if (n) g.swap(n); mn = nm; dm = nd; known.clear(); hasdef = false; }
                else {
                    probe("init-failed");
                    CallResult c2;
                    size_t sz = 0; Ix dim;
                    call(c2, none, [&] { sz = g->size(); dim = g->dimensions(); });
                    if (sz != cells() || dim != dm) violate("grid-init-atomic", Str() << "after a failed " << l.op << " the grid has " << sz << " cells and dimensions " << sx(dim) << " instead of " << sx(dm));
                    if (snapshot() != before) violate("grid-init-atomic", Str() << "a failed " << l.op << " changed cell contents");
                }
            } else if (cells() == 0) continue;
            else if (l.op == "set" || l.op == "setp" || l.op == "seti") {
                Ix x = nth((size_t)(l.i(8) * 1009 + l.i(6)) % cells());
                V v = V();
                mk(l.i(7), v);
                std::string old = rd(((const G&)*g).value(x));
                call(c, l, [&] {
                    if (l.op == "set") g->value(x) = v;
                    else if (l.op == "seti") g->value(x.data()) = v;
                    else { const int q = g->getPos(x); g->value(q) = v; }
                });
                check_excuse(c, l, "write");
                if (c.ok()) known[x] = want(l.i(7), (V*)nullptr); else known[x] = old;
            } else if (l.op == "fill") {
                V v = V();
                mk(l.i(7), v);
                std::vector<std::string> before = snapshot();
                call(c, l, [&] { g->fill(v); });
                check_excuse(c, l, "fill");
                std::string w = want(l.i(7), (V*)nullptr);
                if (c.ok()) { known.clear(); def = w; hasdef = true; }
                else {
                    std::vector<std::string> now = snapshot();
                    std::vector<size_t> ks = look();
                    hasdef = false;
                    for (size_t k = 0; k < ks.size(); ++k) {
                        if (now[k] != before[k] && now[k] != w) violate("grid-fill", Str() << "failed fill left cell " << sx(nth(ks[k])) << " at " << now[k]);
                        known[nth(ks[k])] = now[k];
                    }
                }
            } else if (l.op == "copy") {
                std::unique_ptr<G> n;
                call(c, l, [&] { n.reset(new G(*g)); });
                check_excuse(c, l, "copy");
                if (c.ok()) g.swap(n);
            }
            observe();
        }
    }
};
template <size_t D, typename V> void exec(const Plan& p) { Runner<D, V> r; r.run(p); }

template <int D> void gen(Rng& r, Plan& p) {
    int fp = r.chance(35) ? 0 : 40;
    int n = (int)r.range(3, 22);
    static const std::vector<std::string> inits = {"dims", "bounds", "center", "minmax", "ctor", "ctor2"};
    bool inited = false;
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        std::string op = !inited || k < 30 ? r.pick(inits) : k < 50 ? "set" : k < 62 ? "setp" : k < 74 ? "seti" : k < 92 ? "fill" : "copy";
        Line& l = p.add(op);
        long far = r.chance(10) ? r.pick(std::vector<long>{100, 5000, 70000, 1000000000}) : 6;
        for (int d = 0; d < 3; ++d) l.a(r.range(-far, far));
        long mx = op == "center" ? (D == 1 ? 12 : D == 2 ? 3 : 2) : (D == 1 ? 40 : D == 2 ? 9 : 5);
        for (int d = 0; d < 3; ++d) l.a(r.chance(8) && op != "center" ? 0 : r.range(op == "center" ? 0 : 1, mx));
        l.a(r.range(0, 999)).a(r.range(-500, 500)).a(0);
        if (fp) { arm_alloc(r, l, fp, 3); if (r.chance(fp / 2)) l.f(F_cb_throw, 1 + r.skew(20)); }
        inited = true;
    }
}
// grids of many thousand cells (positions beyond 16 bits)
template <int D> void genbig(Rng& r, Plan& p) {
    int n = (int)r.range(3, 9);
    static const std::vector<std::string> inits = {"dims", "bounds", "center", "minmax", "ctor", "ctor2"};
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        std::string op = i == 0 || k < 8 ? r.pick(inits) : k < 40 ? "set" : k < 60 ? "setp" : k < 78 ? "seti" : k < 92 ? "fill" : "copy";
        Line& l = p.add(op);
        for (int d = 0; d < 3; ++d) l.a(r.range(-1000, 1000));
        long cap = r.pick(std::vector<long>{5000, 40000, 90000, 150000}), left = op == "center" ? cap / (D == 1 ? 2 : D == 2 ? 4 : 8) : cap;
        long dd[3] = {1, 1, 1};
        for (int d = 0; d < D; ++d) {
            long m = d == D - 1 ? std::max(1L, left) : std::max(1L, r.chance(30) ? r.range(1, 5) : r.range(1, std::max(2L, (long)(D == 2 ? 400 : 60))));
            dd[d] = d == D - 1 ? m : std::min(m, left);
            left /= dd[d];
        }
        for (int d = 0; d < 3; ++d) l.a(dd[d]);
        l.a(r.range(0, 999)).a(r.range(-500, 500)).a(r.range(0, 400));
    }
}
SIM_SCENARIO(grid1_cell, 2, gen<1>, (exec<1, Cell>))
SIM_SCENARIO(grid1_long, 1, gen<1>, (exec<1, long>))
SIM_SCENARIO(grid2_long, 2, gen<2>, (exec<2, long>))
SIM_SCENARIO(grid2_string, 2, gen<2>, (exec<2, std::string>))
SIM_SCENARIO(grid3_cell, 2, gen<3>, (exec<3, Cell>))
SIM_SCENARIO(grid3_long, 2, gen<3>, (exec<3, long>))
SIM_SCENARIO(grid1_big, 1, genbig<1>, (exec<1, long>))
SIM_SCENARIO(grid2_big, 1, genbig<2>, (exec<2, long>))
SIM_SCENARIO(grid3_big, 1, genbig<3>, (exec<3, long>))
}

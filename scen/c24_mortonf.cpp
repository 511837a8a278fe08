// C24: floating-point Morton trees against a plain item list, the library's own comparison and, for
// non-negative coordinates, an independent exact Morton order.
#include "../sim/core.h"
#include <rofl/common/morton_tree.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <memory>
using namespace sim;

namespace {
template <typename S, size_t D> struct Runner {
    typedef rofl::MortonTree<S, D> T;
    typedef typename T::Item Item;
    struct M { std::array<S, D> v; int id; };
    std::unique_ptr<T> t{new T()};
    std::vector<M> m;          // insertion order
    Line none;

    // level of the most significant bit in which two non-negative values differ
    static int level(S x, S y) {
        while (true) {
            if (x == y) return -100000;
            int a = x == 0 ? -100000 : std::ilogb(x), b = y == 0 ? -100000 : std::ilogb(y);
            if (a != b) return std::max(a, b);
            S p = std::ldexp((S)1, a);
            x -= p; y -= p;
        }
    }
    // independent exact reference (non-negative coordinates): the most significant differing bit, coordinate 0 first
    static bool refBefore(const std::array<S, D>& a, const std::array<S, D>& b) {
        size_t at = 0;
        int best = level(a[0], b[0]);
        for (size_t d = 1; d < D; ++d) { int l = level(a[d], b[d]); if (l > best) { best = l; at = d; } }
        return a[at] < b[at];
    }
    static bool before(const std::array<S, D>& a, const std::array<S, D>& b) {
        bool r = rofl::MortonTraits<S, D>::compare(a.data(), b.data());
        bool nonneg = true, equal = true;
        for (size_t d = 0; d < D; ++d) { if (a[d] < 0 || b[d] < 0) nonneg = false; if (a[d] != b[d]) equal = false; }
        if (nonneg && r != refBefore(a, b)) violate("mortonf-compare", Str() << sv(a) << " vs " << sv(b) << ": the comparison returns " << (int)r << " against the Morton order");
        if (equal && r) violate("mortonf-compare", Str() << sv(a) << " is reported to precede itself");
        return r;
    }
    // the comparison must be a total order over everything in the tree
    void total(const std::vector<M>& c) {
        size_t n = std::min<size_t>(c.size(), 24), k = c.size() ? (c.size() + n - 1) / n : 1;
        std::vector<const M*> s;
        for (size_t i = 0; i < c.size(); i += k) s.push_back(&c[i]);
        n = s.size();
        std::vector<char> b(n * n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) b[i * n + j] = before(s[i]->v, s[j]->v);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            if (b[i * n + j] && b[j * n + i]) violate("mortonf-compare", Str() << sv(s[i]->v) << " and " << sv(s[j]->v) << " precede each other");
            if (!b[i * n + j] && !b[j * n + i] && s[i]->v != s[j]->v) violate("mortonf-compare", Str() << sv(s[i]->v) << " and " << sv(s[j]->v) << " are different points but neither precedes the other");
            if (b[i * n + j]) for (size_t h = 0; h < n; ++h) if (b[j * n + h] && !b[i * n + h])
                violate("mortonf-compare", Str() << sv(s[i]->v) << " precedes " << sv(s[j]->v) << ", which precedes " << sv(s[h]->v) << ", but the first does not precede the third");
        }
    }
    static std::string fmt(S x) { char b[48]; snprintf(b, sizeof b, "%.17g", (double)x); return b; }
    static std::string sv(const std::array<S, D>& a) { Str s; s << "("; for (size_t d = 0; d < D; ++d) s << (d ? "," : "") << fmt(a[d]); s << ")"; return s; }
    static M conv(const Item& i) { M x; for (size_t d = 0; d < D; ++d) x.v[d] = i.values[d]; x.id = i.id; return x; }
    static bool mless(const M& a, const M& b) { return a.v != b.v ? a.v < b.v : a.id < b.id; }
    static bool meq(const M& a, const M& b) { return a.v == b.v && a.id == b.id; }

    std::vector<M> content() {
        std::vector<M> c;
        for (auto it = t->begin(); it != t->end(); ++it) c.push_back(conv(*it));
        return c;
    }
    bool sameAs(std::vector<M> c, std::vector<M> w) {
        if (c.size() != w.size()) return false;
        std::sort(c.begin(), c.end(), mless);
        std::sort(w.begin(), w.end(), mless);
        for (size_t i = 0; i < c.size(); ++i) if (!meq(c[i], w[i])) return false;
        return true;
    }
    void observe(const char* op) {
        std::vector<M> c = content();
        size_t sz = 0, sz2 = 0;
        CallResult r;
        call(r, none, [&] { sz = t->size(); sz2 = t->getItems().size(); });
        if (sz != m.size() || sz2 != m.size() || !sameAs(c, m)) {
            Str s; for (auto& x : c) s << sv(x.v) << "#" << x.id << " ";
            Str w; for (auto& x : m) w << sv(x.v) << "#" << x.id << " ";
            violate("mortonf-content", Str() << "after " << op << " the tree holds " << (std::string)s << "instead of " << (std::string)w);
        }
    }
    void query(const std::array<S, D>& q, const Line& l) {
        Item it;
        for (size_t d = 0; d < D; ++d) it.values[d] = q[d];
        CallResult r;
        long pos = -1;
        call(r, l, [&] { pos = (long)(t->findItem(it) - t->begin()); });
        check_excuse(r, l, "query");
        if (!r.ok()) { probe("query-failed"); observe("failed query"); return; }
        std::vector<M> c = content();
        if (pos < 0 || pos > (long)c.size()) violate("mortonf-query", "query returned an iterator outside the tree");
        for (size_t i = 0; i < c.size(); ++i) {
            bool b = before(c[i].v, q);
            if (b != ((long)i < pos))
                violate("mortonf-query", Str() << "query " << sv(q) << " returned position " << pos << " but item " << i << " " << sv(c[i].v) << (b ? " precedes it" : " does not precede it"));
        }
        for (size_t i = 1; i < c.size(); ++i)
            if (before(c[i].v, c[i - 1].v)) violate("mortonf-order", Str() << sv(c[i].v) << " is stored after " << sv(c[i - 1].v) << " although it precedes it in Morton order");
        total(c);
        for (auto& x : c) if (x.v == q) {
            if (pos >= (long)c.size() || c[pos].v != q) violate("mortonf-query", Str() << "point " << sv(q) << " is in the tree but the query does not return it");
            break;
        }
        note(Str() << "find " << sv(q) << " -> " << pos << "/" << c.size());
    }
    std::array<S, D> coords(const Line& l, size_t at) { std::array<S, D> v; for (size_t d = 0; d < D; ++d) v[d] = val(l.i(at + 2 * d), l.i(at + 2 * d + 1)); return v; }
    // coordinate = m * 2^e; a zero with e = 1 is the negative zero
    static S val(long m, long e) {
        if (m == 0) return e == 1 ? -(S)0 : (S)0;
        S x = std::ldexp((S)m, (int)std::max(-90L, std::min(90L, e)));
        if (std::fabs(x) > (S)1e30) x = x < 0 ? (S)-1e30 : (S)1e30;
        if (std::fabs(x) < (S)1e-30) x = x < 0 ? (S)-1e-30 : (S)1e-30;
        return x;
    }

    void run(const Plan& p) {
        for (auto& l : p.lines) {
            CallResult r;
            if (l.op == "ins") {
                Item it;
                auto v = coords(l, 2);
                for (size_t d = 0; d < D; ++d) it.values[d] = v[d];
                it.id = (int)l.i(1);
                bool reset = l.i(0) != 0;
                call(r, l, [&] { if (l.i(0) == 2) t->insert(it); else t->insert(it, reset); });
                check_excuse(r, l, "insertion");
                if (r.ok()) m.push_back({v, reset ? (int)m.size() : (int)l.i(1)}); else probe("insert-failed");
                observe("insertion");
            } else if (l.op == "bulk" || l.op == "conv" || l.op == "bulkn") {
                std::vector<Item> in;
                if (l.op == "bulkn") {
                    Rng q((u64)l.i(3));
                    for (long k = 0; k < std::min(l.i(2), 2000L); ++k) {
                        Item it;
                        for (size_t d = 0; d < D; ++d) it.values[d] = val(q.range(l.i(5) ? 0 : -l.i(4), l.i(4)), q.range(-l.i(6), l.i(6)));
                        it.id = (int)l.i(1) + (int)k;
                        in.push_back(it);
                    }
                } else
                for (size_t k = 2; k + 5 < l.n(); k += 6) {
                    Item it;
                    auto v = coords(l, k);
                    for (size_t d = 0; d < D; ++d) it.values[d] = v[d];
                    it.id = (int)l.i(1) + (int)k;
                    in.push_back(it);
                }
                bool reset = l.i(0) != 0;
                std::vector<M> offered;
                for (auto& x : in) offered.push_back({conv(x).v, reset ? (int)(m.size() + offered.size()) : x.id});
                auto cv = [&](const Item& x) -> Item { HostScope h; if (cb_should_throw()) throw InjectedError(); return x; };
                call(r, l, [&] { if (l.op != "conv") t->insert(in.begin(), in.end(), reset); else t->insert(in.begin(), in.end(), cv, reset); });
                check_excuse(r, l, "bulk insertion");
                if (r.ok()) m.insert(m.end(), offered.begin(), offered.end());
                else {
                    probe("bulk-failed");
                    std::vector<M> c = content(), w = m;
                    bool ok = sameAs(c, w);
                    for (size_t k = 0; k < offered.size() && !ok; ++k) { w.push_back(offered[k]); ok = sameAs(c, w); }
                    if (!ok) violate("mortonf-partial", "a failed bulk insertion left items that are not the old ones plus a prefix of the offered ones");
                    m = w;
                }
                observe("bulk insertion");
            } else if (l.op == "find") { query(coords(l, 2), l); observe("query"); }
            else if (l.op == "sort") {
                call(r, l, [&] { t->sort(); });
                check_excuse(r, l, "sort");
                observe("sort");
            } else if (l.op == "copy") {
                std::unique_ptr<T> n;
                call(r, l, [&] { n.reset(new T(*t)); });
                check_excuse(r, l, "copy");
                if (r.ok()) t.swap(n);
                observe("copy");
            }
        }
        Line fin; fin.op = "find";
        size_t step = 1 + m.size() / 40, at = 0;
        for (auto& x : m) if (at++ % step == 0) query(x.v, fin);
    }
};
template <typename S, size_t D> void exec(const Plan& p) { Runner<S, D> r; r.run(p); }

void gen(Rng& r, Plan& p) {
    int fp = r.chance(40) ? 0 : 30;
    int n = (int)r.range(3, 24);
    int style = (int)r.below(6);
    bool neg = r.chance(60);
    std::vector<std::pair<long, long>> pool;
    auto fresh = [&]() -> std::pair<long, long> {
        long m = 0, e = 0;
        switch (style) {
            case 0: m = r.range(0, 7); break;
            case 1: m = r.range(0, 40); e = -3; break;
            case 2: m = r.range(0, 15); e = r.range(-4, 4); break;
            case 3: m = r.range(1, 3); e = r.range(-80, 80); break;
            case 4: m = (long)r.below(1UL << 50); e = -50 + r.range(-3, 3); break;
            default: m = (1L << r.below(50)) + r.range(-1, 1); e = r.pick(std::vector<long>{0, -20, -50, 10}); break;
        }
        if (r.chance(6)) { m = 0; e = r.range(0, 1); }
        if (neg && r.chance(50)) m = -m;
        return {m, e};
    };
    auto c = [&](Line& l) {
        std::pair<long, long> x;
        if (!pool.empty() && r.chance(35)) x = r.pick(pool);      // shared coordinates reach the ties
        else { x = fresh(); pool.push_back(x); }
        l.a(x.first).a(x.second);
    };
    bool big = r.chance(4);
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        if (big && r.chance(20)) {
            Line& l = p.add("bulkn").a(r.range(0, 1)).a(r.range(100, 200)).a(r.chance(20) ? r.range(200, 900) : r.range(15, 150)).a((long)r.below(1u << 30)).a(r.pick(std::vector<long>{1, 3, 40, 1000, 1L << 45})).a(neg ? 0 : 1).a(r.pick(std::vector<long>{0, 0, 3, 40}));
            if (fp) arm_alloc(r, l, fp, 4);
            continue;
        }
        if (k < 30) { Line& l = p.add("ins").a(r.range(0, 2)).a(r.range(-3, 100)); for (int d = 0; d < 3; ++d) c(l); if (fp) arm_alloc(r, l, fp, 2); }
        else if (k < 55) {
            bool conv = r.chance(60);
            Line& l = p.add(conv ? "conv" : "bulk").a(r.range(0, 1)).a(r.range(100, 200));
            int q = (int)r.range(0, 9);
            for (int j = 0; j < q; ++j) for (int d = 0; d < 3; ++d) c(l);
            if (fp) { arm_alloc(r, l, fp, 4); if (conv && r.chance(40)) l.f(F_cb_throw, 1 + r.skew(8)); }
        } else if (k < 85) { Line& l = p.add("find").a(0).a(0); for (int d = 0; d < 3; ++d) c(l); }
        else if (k < 95) p.add("sort");
        else { Line& l = p.add("copy"); if (fp) arm_alloc(r, l, fp, 2); }
    }
}
SIM_SCENARIO(mortonf2, 2, gen, (exec<float, 2>))
SIM_SCENARIO(mortonf3, 2, gen, (exec<float, 3>))
SIM_SCENARIO(mortond2, 2, gen, (exec<double, 2>))
SIM_SCENARIO(mortond3, 2, gen, (exec<double, 3>))
SIM_SCENARIO(mortond1, 1, gen, (exec<double, 1>))
}

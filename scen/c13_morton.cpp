// C13: integer Morton trees against a plain item list and an independent Morton key.
#include "../sim/core.h"
#include <rofl/common/morton_tree.h>
#include <algorithm>
#include <array>
#include <limits>
#include <memory>
using namespace sim;

namespace {
template <typename S, size_t D> struct Runner {
    typedef rofl::MortonTree<S, D> T;
    typedef typename T::Item Item;
    struct M { std::array<S, D> v; int id; };
    std::unique_ptr<T> t{new T()};
    std::vector<M> m;          // insertion order
    Line none;

    // independent reference: interleave the bits, most significant first, coordinate 0 first
    static bool before(const std::array<S, D>& a, const std::array<S, D>& b) {
        typedef typename std::make_unsigned<S>::type U;
        const int W = sizeof(S) * 8;
        for (int bit = W - 1; bit >= 0; --bit)
            for (size_t d = 0; d < D; ++d) {
                U top = std::is_signed<S>::value ? (U)((U)1 << (W - 1)) : (U)0;
                U x = (U)((U)a[d] ^ top), y = (U)((U)b[d] ^ top);
                int p = (int)((x >> bit) & 1), q = (int)((y >> bit) & 1);
                if (p != q) return p < q;
            }
        return false;
    }
    static std::string sv(const std::array<S, D>& a) { Str s; s << "("; for (size_t d = 0; d < D; ++d) s << (d ? "," : "") << (long)a[d]; s << ")"; return s; }
    static M conv(const Item& i) { M x; for (size_t d = 0; d < D; ++d) x.v[d] = i.values[d]; x.id = i.id; return x; }
    static bool mless(const M& a, const M& b) { return a.v != b.v ? a.v < b.v : a.id < b.id; }
    static bool meq(const M& a, const M& b) { return a.v == b.v && a.id == b.id; }

    std::vector<M> content() {
        std::vector<M> c;
        for (auto it = t->begin(); it != t->end(); ++it) c.push_back(conv(*it));
        return c;
    }
    bool sameAs(std::vector<M> c, std::vector<M> w) {
        if (c.size() != w.size()) return false;
        std::sort(c.begin(), c.end(), mless);
        std::sort(w.begin(), w.end(), mless);
        for (size_t i = 0; i < c.size(); ++i) if (!meq(c[i], w[i])) return false;
        return true;
    }
    void observe(const char* op) {
        std::vector<M> c = content();
        size_t sz = 0, sz2 = 0;
        CallResult r;
        call(r, none, [&] { sz = t->size(); sz2 = t->getItems().size(); });
        if (sz != m.size() || sz2 != m.size() || !sameAs(c, m)) {
            Str s; for (auto& x : c) s << sv(x.v) << "#" << x.id << " ";
            Str w; for (auto& x : m) w << sv(x.v) << "#" << x.id << " ";
            violate("morton-content", Str() << "after " << op << " the tree holds " << (std::string)s << "instead of " << (std::string)w);
        }
    }
    void query(const std::array<S, D>& q, const Line& l) {
        Item it;
        for (size_t d = 0; d < D; ++d) it.values[d] = q[d];
        CallResult r;
        long pos = -1;
        call(r, l, [&] { pos = (long)(t->findItem(it) - t->begin()); });
        check_excuse(r, l, "query");
        if (!r.ok()) { probe("query-failed"); observe("failed query"); return; }
        std::vector<M> c = content();
        if (pos < 0 || pos > (long)c.size()) violate("morton-query", "query returned an iterator outside the tree");
        for (size_t i = 0; i < c.size(); ++i) {
            bool b = before(c[i].v, q);
            if (b != ((long)i < pos))
                violate("morton-query", Str() << "query " << sv(q) << " returned position " << pos << " but item " << i << " " << sv(c[i].v) << (b ? " precedes it" : " does not precede it"));
        }
        for (size_t i = 1; i < c.size(); ++i)
            if (before(c[i].v, c[i - 1].v)) violate("morton-order", Str() << sv(c[i].v) << " is stored after " << sv(c[i - 1].v) << " although it precedes it in Morton order");
        note(Str() << "find " << sv(q) << " -> " << pos << "/" << c.size());
    }
    std::array<S, D> coords(const Line& l, size_t at) { std::array<S, D> v; for (size_t d = 0; d < D; ++d) v[d] = (S)l.i(at + d); return v; }

    void run(const Plan& p) {
        for (auto& l : p.lines) {
            CallResult r;
            if (l.op == "ins") {
                Item it;
                auto v = coords(l, 2);
                for (size_t d = 0; d < D; ++d) it.values[d] = v[d];
                it.id = (int)l.i(1);
                bool reset = l.i(0) != 0;
                call(r, l, [&] { if (l.i(0) == 2) t->insert(it); else t->insert(it, reset); });
                check_excuse(r, l, "insertion");
                if (r.ok()) m.push_back({v, reset ? (int)m.size() : (int)l.i(1)}); else probe("insert-failed");
                observe("insertion");
            } else if (l.op == "bulk" || l.op == "conv" || l.op == "bulkn") {
                std::vector<Item> in;
                if (l.op == "bulkn") {
                    Rng q((u64)l.i(3));
                    for (long k = 0; k < std::min(l.i(2), 2000L); ++k) {
                        Item it;
                        for (size_t d = 0; d < D; ++d) it.values[d] = l.i(4) ? (S)q.range(-l.i(4), l.i(4)) : (S)q.next();
                        it.id = (int)l.i(1) + (int)k;
                        in.push_back(it);
                    }
                } else
                for (size_t k = 2; k + 3 < l.n(); k += 4) {
                    Item it;
                    auto v = coords(l, k);
                    for (size_t d = 0; d < D; ++d) it.values[d] = v[d];
                    it.id = (int)l.i(1) + (int)k;
                    in.push_back(it);
                }
                bool reset = l.i(0) != 0;
                std::vector<M> offered;
                for (auto& x : in) offered.push_back({conv(x).v, reset ? (int)(m.size() + offered.size()) : x.id});
                auto cv = [&](const Item& x) -> Item { HostScope h; if (cb_should_throw()) throw InjectedError(); return x; };
                call(r, l, [&] { if (l.op != "conv") t->insert(in.begin(), in.end(), reset); else t->insert(in.begin(), in.end(), cv, reset); });
                check_excuse(r, l, "bulk insertion");
                if (r.ok()) m.insert(m.end(), offered.begin(), offered.end());
                else {
                    probe("bulk-failed");
                    std::vector<M> c = content(), w = m;
                    bool ok = sameAs(c, w);
                    for (size_t k = 0; k < offered.size() && !ok; ++k) { w.push_back(offered[k]); ok = sameAs(c, w); }
                    if (!ok) violate("morton-partial", "a failed bulk insertion left items that are not the old ones plus a prefix of the offered ones");
                    m = w;
                }
                observe("bulk insertion");
            } else if (l.op == "find") { query(coords(l, 2), l); observe("query"); }
            else if (l.op == "level") {
                // smallest common cell of the items between two positions: number of low bits in which they differ
                if (m.empty()) continue;
                call(r, none, [&] { t->sort(); });
                long i = (long)((u64)l.i(0) % m.size()), j = (long)((u64)l.i(1) % m.size());
                if (i > j) std::swap(i, j);
                if (l.i(2)) j = i - 1;        // no items: level 0
                int got = -1;
                call(r, l, [&] { got = t->computeLevel(t->begin() + i, t->begin() + j + 1); });
                check_excuse(r, l, "level");
                std::vector<M> c = content();
                typedef typename std::make_unsigned<S>::type U;
                int want = 0;
                for (long a = i; a <= j; ++a) for (size_t d = 0; d < D; ++d) {
                    U x = (U)((U)c[i].v[d] ^ (U)c[a].v[d]);
                    int n = 0;
                    while (x) { ++n; x = (U)(x >> 1); }
                    want = std::max(want, n);
                }
                if (r.ok() && got != want) violate("morton-level", Str() << "items " << i << " to " << j << ", " << sv(c[i].v) << " to " << sv(c[std::max(i, j)].v) << ", are reported in a cell of level " << got << " instead of " << want);
                note(Str() << "level " << got);
                observe("level");
            }
            else if (l.op == "sort") {
                call(r, l, [&] { t->sort(); });
                check_excuse(r, l, "sort");
                observe("sort");
            } else if (l.op == "copy") {
                std::unique_ptr<T> n;
                call(r, l, [&] { n.reset(new T(*t)); });
                check_excuse(r, l, "copy");
                if (r.ok()) t.swap(n);
                observe("copy");
            }
        }
        Line fin; fin.op = "find";
        size_t step = 1 + m.size() / 40, at = 0;
        for (auto& x : m) if (at++ % step == 0) query(x.v, fin);
    }
};
template <typename S, size_t D> void exec(const Plan& p) { Runner<S, D> r; r.run(p); }

template <typename S> void gen(Rng& r, Plan& p) {
    int fp = r.chance(40) ? 0 : 30;
    int n = (int)r.range(3, 24);
    int style = (int)r.below(4);
    auto c = [&]() -> long {
        switch (style) {
            case 0: return r.range(0, 7);
            case 1: return r.range(-5, 5);
            case 2: { int b = (int)r.below(sizeof(S) * 8 - 1); long v = (long)(1ULL << b) + r.range(-1, 1); return (long)(S)(r.chance(50) ? v : -v); }
            default: return r.chance(20) ? (long)r.pick(std::vector<S>{std::numeric_limits<S>::max(), std::numeric_limits<S>::min(), (S)0, (S)-1}) : (long)(S)r.next();
        }
    };
    bool big = r.chance(4);
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        if (big && r.chance(20)) {
            Line& l = p.add("bulkn").a(r.range(0, 1)).a(r.range(100, 200)).a(r.chance(20) ? r.range(200, 900) : r.range(15, 150)).a((long)r.below(1u << 30)).a(r.pick(std::vector<long>{0, 3, 40, 1000}));
            if (fp) arm_alloc(r, l, fp, 4);
            continue;
        }
        if (k < 30) { Line& l = p.add("ins").a(r.range(0, 2)).a(r.range(-3, 100)); for (int d = 0; d < 4; ++d) l.a(c()); if (fp) arm_alloc(r, l, fp, 2); }
        else if (k < 55) {
            bool conv = r.chance(60);
            Line& l = p.add(conv ? "conv" : "bulk").a(r.range(0, 1)).a(r.range(100, 200));
            int q = (int)r.range(0, 9);
            for (int j = 0; j < q; ++j) for (int d = 0; d < 4; ++d) l.a(c());
            if (fp) { arm_alloc(r, l, fp, 4); if (conv && r.chance(40)) l.f(F_cb_throw, 1 + r.skew(8)); }
        } else if (k < 85) { Line& l = p.add("find").a(0).a(0); for (int d = 0; d < 4; ++d) l.a(c()); }
        else if (k < 92) p.add("sort");
        else if (k < 96) p.add("level").a((long)r.below(1u << 20)).a((long)r.below(1u << 20)).a(r.chance(10));
        else { Line& l = p.add("copy"); if (fp) arm_alloc(r, l, fp, 2); }
    }
}
SIM_SCENARIO(morton2i, 2, gen<int>, (exec<int, 2>))
SIM_SCENARIO(morton3i, 2, gen<int>, (exec<int, 3>))
SIM_SCENARIO(morton2l, 1, gen<long>, (exec<long, 2>))
SIM_SCENARIO(morton3l, 1, gen<long>, (exec<long, 3>))
SIM_SCENARIO(morton1i, 1, gen<int>, (exec<int, 1>))
SIM_SCENARIO(morton4i, 1, gen<int>, (exec<int, 4>))
SIM_SCENARIO(morton2s, 1, gen<short>, (exec<short, 2>))
SIM_SCENARIO(morton2u, 1, gen<unsigned>, (exec<unsigned, 2>))
SIM_SCENARIO(morton3u, 1, gen<unsigned long>, (exec<unsigned long, 3>))
}

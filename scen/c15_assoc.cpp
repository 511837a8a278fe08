// C15: maximum consistent matchings against an independent search, over histories and failures.
#include "../sim/core.h"
#include <rofl/geometry/correspondence_graph_association.h>
#include <algorithm>
#include <cmath>
#include <list>
#include <memory>
#include <set>
using namespace sim;

namespace {
typedef rofl::CorrespondenceGraphAssociation Assoc;
typedef std::vector<std::pair<int, int>> Pairs;
struct Set {                       // items and their distance table (multiples of 1/4: exact in float)
    int n = 0;
    std::vector<long> d;           // n*n, symmetric
    double at(int a, int b) const { return (double)d[(size_t)(a * n + b)] / 4.0; }
};
struct State {
    std::unique_ptr<Assoc> a;
    Set src, dst;
    double tol = (double)0.1f, dmin = 0;
    State() : a(new Assoc()) {}
};

// independent reference: ordered extension of pair sets, keeping the largest
struct Search {
    std::vector<std::pair<int, int>> nodes;
    std::vector<std::vector<char>> ok;
    std::set<Pairs> best;
    size_t size = 0;
    void rec(Pairs& cur, std::vector<size_t>& cand) {
        if (cur.size() > size) { size = cur.size(); best.clear(); }
        if (cur.size() == size && size > 0) best.insert(cur);
        for (size_t i = 0; i < cand.size(); ++i) {
            if (cur.size() + (cand.size() - i) < size) return;
            std::vector<size_t> next;
            for (size_t j = i + 1; j < cand.size(); ++j) if (ok[cand[i]][cand[j]]) next.push_back(cand[j]);
            cur.push_back(nodes[cand[i]]);
            rec(cur, next);
            cur.pop_back();
        }
    }
};
std::set<Pairs> reference(const State& s) {
    Search q;
    for (int a = 0; a < s.src.n; ++a) for (int b = 0; b < s.dst.n; ++b) q.nodes.push_back({a, b});
    size_t n = q.nodes.size();
    q.ok.assign(n, std::vector<char>(n, 0));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        int a0 = q.nodes[i].first, a1 = q.nodes[j].first, b0 = q.nodes[i].second, b1 = q.nodes[j].second;
        if (a0 == a1 || b0 == b1) continue;
        double ds = s.src.at(a0, a1), dd = s.dst.at(b0, b1);
        q.ok[i][j] = ds > s.dmin && fabs(ds - dd) < s.tol;
    }
    Pairs cur;
    std::vector<size_t> all;
    for (size_t i = 0; i < n; ++i) all.push_back(i);
    q.rec(cur, all);
    return q.best;
}
std::string show(const std::set<Pairs>& v) {
    Str s;
    for (auto& p : v) { s << "{"; for (auto& x : p) s << x.first << ">" << x.second << " "; s << "}"; }
    return s;
}
void exec(const Plan& p) {
    std::vector<State> st(2);
    for (auto& l : p.lines) {
        State& s = st[(size_t)l.i(0) % 2];
        CallResult c;
        if (l.op == "new") { s = State(); continue; }
        if (l.op == "tol") { double t = (double)l.i(1) / 8.0; call(c, l, [&] { s.a->setTolerance((float)t); }); s.tol = t; continue; }
        if (l.op == "dmin") { double t = (double)l.i(1) / 8.0; call(c, l, [&] { s.a->setDistanceMin((float)t); }); s.dmin = t; continue; }
        if (l.op == "src" || l.op == "dst") {
            Set t;
            t.n = (int)std::min<long>(std::max<long>(0, l.i(1)), 16);
            t.d.assign((size_t)(t.n * t.n), 0);
            size_t k = 2;
            for (int a = 0; a < t.n; ++a) for (int b = a + 1; b < t.n; ++b) t.d[(size_t)(a * t.n + b)] = t.d[(size_t)(b * t.n + a)] = l.i(k++);
            std::vector<int> items;
            for (int i = 0; i < t.n; ++i) items.push_back(i);
            std::list<int> litems(items.begin(), items.end());
            auto dist = [&](int a, int b) -> rofl::Scalar { HostScope h; if (cb_should_throw()) throw InjectedError(); return (float)t.at(a, b); };
            bool src = l.op == "src", li = t.n % 2;
            call(c, l, [&] {
                if (src) { if (li) s.a->insertSrc(litems.begin(), litems.end(), dist); else s.a->insertSrc(items.begin(), items.end(), dist); }
                else { if (li) s.a->insertDst(litems.begin(), litems.end(), dist); else s.a->insertDst(items.begin(), items.end(), dist); }
            });
            check_excuse(c, l, "insert");
            if (c.ok()) (src ? s.src : s.dst) = t;
            else probe("insert-failed");
            note(Str() << l.op << " " << c.out);
            continue;
        }
        if (l.op == "assoc" || l.op == "cliques") {
            std::set<Pairs> want = reference(s);
            bool trivial = s.src.n == 0 || s.dst.n == 0;
            if (l.op == "assoc") {
                std::vector<Assoc::AssociationHypothesis> got;
                if (l.i(1)) { got.resize(2); got[0].associations.push_back({9, 9}); }   // left over from an earlier use
                call(c, l, [&] { s.a->associate(got); });
                check_excuse(c, l, "associate");
                if (!c.ok()) { probe("associate-failed"); note("associate failed"); continue; }
                std::set<Pairs> have;
                size_t n = 0;
                for (auto& h : got) {
                    Pairs q = h.associations;
                    std::sort(q.begin(), q.end());
                    if (trivial && q.empty()) continue;
                    ++n;
                    have.insert(q);
                }
                if (n != have.size()) violate("association-twice", Str() << "a hypothesis was returned more than once: " << got.size() << " returned, " << have.size() << " different");
                if (have != want) violate("association", Str() << "associating " << s.src.n << "x" << s.dst.n << " items gave " << show(have) << " instead of " << show(want));
                note(Str() << "assoc " << show(have));
            } else {
                std::vector<rofl::LabelSet> got;
                if (l.i(1)) { rofl::LabelSet x; x.insert(77); got.push_back(x); }
                call(c, l, [&] { s.a->associate(got); });
                check_excuse(c, l, "associate");
                if (!c.ok()) { probe("associate-failed"); note("associate failed"); continue; }
                std::set<Pairs> have;
                size_t n = 0;
                for (auto& h : got) {
                    Pairs q;
                    for (auto& x : h) q.push_back({s.dst.n ? (int)x / s.dst.n : -1, s.dst.n ? (int)x % s.dst.n : -1});
                    std::sort(q.begin(), q.end());
                    if (trivial && q.empty()) continue;
                    ++n;
                    have.insert(q);
                }
                if (n != have.size() || have.size() != want.size() || (!want.empty() && (*have.begin()).size() != (*want.begin()).size()))
                    violate("association-cliques", Str() << "the cliques are " << show(have) << " instead of " << show(want));
                note(Str() << "cliques " << show(have));
            }
            if (want.size() > 1) probe("several-maxima");
            if (!want.empty() && want.begin()->size() >= 4) probe("clique-of-4+");
        }
    }
}
void table(Rng& r, Line& l, int n, const std::vector<long>* copy, int noise, long span) {
    l.a(n);
    size_t k = 0;
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b, ++k)
        l.a(copy && k < copy->size() && !r.chance(noise) ? (*copy)[k] : r.range(0, span));
}
// distances of points on a line or small lattice: realistic tables with many coincidences
std::vector<long> geometric(Rng& r, int n) {
    long unit = r.chance(10) ? r.pick(std::vector<long>{7, 50, 1000}) : 1;
    std::vector<long> x, y, d;
    for (int i = 0; i < n; ++i) { x.push_back(r.range(0, 12)); y.push_back(r.chance(50) ? 0 : r.range(0, 8)); }
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) d.push_back(unit * (labs(x[(size_t)a] - x[(size_t)b]) + labs(y[(size_t)a] - y[(size_t)b])));
    return d;
}
void gen(Rng& r, Plan& p) {
    int n = (int)r.range(3, 12);
    int fp = r.chance(40) ? 0 : 25;
    int big = r.chance(20) ? 6 : 4;
    std::vector<long> last[2];
    auto items = [&](long k, bool src) {
        Line& l = p.add(src ? "src" : "dst").a(k);
        int m = (int)r.range(r.chance(10) ? 0 : 1, big);
        if (src) { last[k] = geometric(r, m); table(r, l, m, &last[k], 0, 20); }
        else if (r.chance(60)) {   // destination: the same configuration, noisy
            int q = 0;
            while (q * (q - 1) / 2 < (int)last[k].size()) ++q;
            table(r, l, last[k].empty() ? m : q, &last[k], 15, 20);
        } else { auto g = geometric(r, m); table(r, l, m, &g, 10, 20); }
        arm_alloc(r, l, fp, 4);
        if (r.chance(fp)) l.f(F_cb_throw, 1 + r.skew(8));
    };
    items(0, true);
    items(0, false);
    for (int i = 0; i < n; ++i) {
        long k = r.chance(70) ? 0 : 1;
        int w = (int)r.below(100);
        if (w < 14) items(k, true);
        else if (w < 28) items(k, false);
        else if (w < 36) p.add("tol").a(k).a(r.chance(15) ? r.range(13, 400) : r.range(0, 12));
        else if (w < 42) p.add("dmin").a(k).a(r.chance(15) ? r.range(17, 300) : r.range(0, 16));
        else if (w < 44) p.add("new").a(k);
        else { Line& l = p.add(w < 88 ? "assoc" : "cliques").a(k).a(r.range(0, 1)); arm_alloc(r, l, fp, 60); }
    }
    p.add("assoc").a(0).a(0);
}
// larger sets with mostly different distances, the destination a shuffled noisy copy
void gen_large(Rng& r, Plan& p) {
    int fp = r.chance(50) ? 0 : 20;
    std::vector<long> x, y;
    auto pts = [&](int n) { x.clear(); y.clear(); for (int i = 0; i < n; ++i) { x.push_back(r.range(0, 4000)); y.push_back(r.range(0, 4000)); } };
    auto put = [&](bool src, int noise, int drop, int extra) {
        std::vector<size_t> order;
        for (size_t i = 0; i < x.size(); ++i) if (!r.chance(drop)) order.push_back(i);
        if (!src) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
        std::vector<long> px, py;
        for (size_t i : order) { px.push_back(x[i]); py.push_back(y[i]); if (r.chance(noise)) { px.back() += r.range(-300, 300); py.back() += r.range(-300, 300); } }
        for (int i = 0; i < extra; ++i) { px.push_back(r.range(0, 4000)); py.push_back(r.range(0, 4000)); }
        Line& l = p.add(src ? "src" : "dst").a(0).a((long)px.size());
        for (size_t a = 0; a < px.size(); ++a) for (size_t b = a + 1; b < px.size(); ++b) l.a(labs(px[a] - px[b]) + labs(py[a] - py[b]));
        arm_alloc(r, l, fp, 6);
        if (r.chance(fp)) l.f(F_cb_throw, 1 + r.skew(60));
    };
    int rounds = (int)r.range(1, 2);
    p.add("tol").a(0).a(r.range(1, 40));
    for (int i = 0; i < rounds; ++i) {
        pts((int)r.range(5, 13));
        put(true, 0, 0, 0);
        put(false, r.chance(50) ? 0 : 25, r.chance(50) ? 0 : 25, (int)r.range(0, 2));
        if (r.chance(30)) p.add("dmin").a(0).a(r.range(0, 4000));
        for (int k = 0; k < (int)r.range(1, 2); ++k) { Line& l = p.add(r.chance(80) ? "assoc" : "cliques").a(0).a(r.range(0, 1)); arm_alloc(r, l, fp, 200); }
    }
    p.add("assoc").a(0).a(0);
}
// a few items against many that are almost all equally far from each other
void gen_even(Rng& r, Plan& p) {
    int fp = r.chance(60) ? 0 : 20;
    int few = (int)r.range(1, 3), many = few == 3 ? (int)r.range(7, 8) : (int)r.range(7, 12);
    long d[3] = {r.range(4, 12), 0, 0};
    d[1] = r.chance(50) ? d[0] : d[0] + r.range(-3, 3);
    d[2] = r.chance(50) ? d[1] : r.range(0, 16);
    bool swap = r.chance(50);
    auto put = [&](bool src) {
        int n = src != swap ? few : many;
        Line& l = p.add(src ? "src" : "dst").a(0).a(n);
        for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) { int w = (int)r.below(100); l.a(d[w < 70 ? 0 : w < 95 ? 1 : 2]); }
        arm_alloc(r, l, fp, 6);
        if (r.chance(fp)) l.f(F_cb_throw, 1 + r.skew(60));
    };
    p.add("tol").a(0).a(r.range(1, 6));
    put(true);
    put(false);
    if (r.chance(30)) put(r.chance(50));
    { Line& l = p.add(r.chance(80) ? "assoc" : "cliques").a(0).a(r.range(0, 1)); arm_alloc(r, l, fp, 200); }
    p.add("assoc").a(0).a(0);
}
SIM_SCENARIO(assoc, 8, gen, exec)
SIM_SCENARIO(assoc_large, 1, gen_large, exec)
SIM_SCENARIO(assoc_even, 1, gen_even, exec)
}

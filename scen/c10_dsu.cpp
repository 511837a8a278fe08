// C10: disjoint-set forest against an explicit partition, with invalid ids and failing allocations.
#include "../sim/core.h"
#include <rofl/common/disjoint_set.h>
#include <memory>
#include <set>
using namespace sim;

namespace {
typedef rofl::DisjointSet DS;
typedef std::vector<int> Model;   // node -> class label
// members of each class, so that large forests are relabelled at a small cost
typedef std::map<int, std::vector<int>> Members;
void merge(Model& m, Members& mb, int ca, int cb) {
    if (mb[ca].size() < mb[cb].size()) std::swap(ca, cb);
    for (int x : mb[cb]) m[(size_t)x] = ca;
    mb[ca].insert(mb[ca].end(), mb[cb].begin(), mb[cb].end());
    mb.erase(cb);
}

void observe(DS& d, const Model& m, Rng& r, bool deep) {
    static Line none;
    CallResult c;
    size_t nn = 0, sz = 0;
    int sn = 0;
    std::vector<int> par;
    std::set<int> classes(m.begin(), m.end());
    call(c, none, [&] {
        nn = d.nodeNum(); sz = d.size(); sn = d.setNum();
        d.parents(std::back_inserter(par));
    });
    check_excuse(c, none, "observing the forest");
    if (nn != m.size() || sz != m.size()) violate("dsu-nodes", Str() << "reports " << nn << "/" << sz << " nodes instead of " << m.size());
    if (sn != (int)classes.size()) violate("dsu-setnum", Str() << "reports " << sn << " sets, the joins imply " << classes.size());
    std::map<int, size_t> cnt;
    for (int v : m) ++cnt[v];
    std::set<int> seen;
    for (int x : par) {
        if (x < 0 || x >= (int)m.size() || !seen.insert(m[(size_t)x]).second)
            violate("dsu-parents", Str() << "representative list names " << x << " twice for a class or out of range");
    }
    if (seen.size() != classes.size()) violate("dsu-parents", Str() << "representative list has " << seen.size() << " classes instead of " << classes.size());
    Str tr;
    tr << "n=" << nn << " sets=" << sn;
    if (m.size() > 200) deep = deep && r.chance(50);
    // query nodes in random order (queries compress paths, so their order is part of the history)
    size_t q = deep ? m.size() : std::min<size_t>(m.size(), 4);
    std::vector<int> rep(m.size(), -1);
    for (size_t k = 0; k < q; ++k) {
        int x = deep ? (int)k : (int)r.below(m.size());
        int f = -5; size_t s = 0;
        bool sizefirst = r.chance(30);
        CallResult cc;
        call(cc, none, [&] { if (sizefirst) { s = d.size(x); f = d.find(x); } else { f = d.find(x); s = d.size(x); } });
        check_excuse(cc, none, "query");
        if (f < 0 || f >= (int)m.size() || m[(size_t)f] != m[(size_t)x])
            violate("dsu-find", Str() << "representative of " << x << " is " << f << ", not in its class");
        size_t want = cnt[m[(size_t)x]];
        if (s != want) violate("dsu-size", Str() << "class of " << x << " reports size " << s << " instead of " << want);
        rep[(size_t)x] = f;
        if (m.size() <= 5000 || k < 50) tr << " " << x << ">" << f;
    }
    // equal classes <=> equal representatives
    std::map<int, size_t> byrep, bycls;
    for (size_t i = 0; i < m.size(); ++i) {
        if (rep[i] < 0) continue;
        size_t a = byrep.emplace(rep[i], i).first->second, b = bycls.emplace(m[i], i).first->second;
        if (a != b) violate("dsu-find", Str() << "representatives of " << i << " and " << std::min(a, b) << " disagree with the joins");
    }
    note(tr);
}

void exec(const Plan& p) {
    std::unique_ptr<DS> d(new DS());
    Model m;
    Members mb;
    int nextcls = 0;
    Rng r(p.lines.size() * 977 + 5);
    observe(*d, m, r, false);
    auto one = [&] { mb[nextcls].push_back((int)m.size()); m.push_back(nextcls++); };
    auto fresh = [&](long n) { m.clear(); mb.clear(); for (long i = 0; i < n; ++i) one(); };
    size_t k = 0;
    for (auto& l : p.lines) {
        CallResult c;
        ++k;
        if (l.op == "ctor") {
            std::unique_ptr<DS> n;
            call(c, l, [&] { n.reset(new DS((int)l.i(0))); });
            check_excuse(c, l, "construction");
            if (c.ok()) { d.swap(n); fresh(l.i(0)); }
        } else if (l.op == "init") {
            call(c, l, [&] { d->initSets((int)l.i(0)); });
            check_excuse(c, l, "initialisation");
            if (c.ok()) fresh(l.i(0)); else probe("init-failed");
        } else if (l.op == "make") {
            int id = -9;
            call(c, l, [&] { id = d->makeSet(); });
            check_excuse(c, l, "addition");
            if (c.ok()) {
                if (id != (int)m.size()) violate("dsu-make", Str() << "new node is " << id << " instead of " << m.size());
                one();
            } else probe("make-failed");
        } else if (l.op == "join") {
            int a = (int)l.i(0), b = (int)l.i(1), ret = -9, n = (int)m.size();
            call(c, l, [&] { ret = d->join(a, b); });
            check_excuse(c, l, "join");
            bool va = a >= 0 && a < n, vb = b >= 0 && b < n;
            if (va && vb) {
                int ca = m[(size_t)a], cb = m[(size_t)b];
                if (ca == cb) { if (ret != n) violate("dsu-join", Str() << "joining already joined " << a << "," << b << " returned " << ret); }
                else {
                    merge(m, mb, ca, cb);
                    if (ret < 0 || ret >= n || m[(size_t)ret] != m[(size_t)a]) violate("dsu-join", Str() << "join returned " << ret << ", not a member of the joined class");
                    // the returned id is the representative of the joined class
                    int f = -9;
                    CallResult c2;
                    call(c2, l, [&] { f = d->find(b); });
                    if (f != ret) violate("dsu-join", Str() << "join returned " << ret << " but the representative is " << f);
                }
            } else probe("join-invalid");
        } else if (l.op == "joins") {      // many joins in one step: pairs of classes (a tournament), a chain or at random
            long a = l.i(0), n = l.i(1), stride = std::max(1L, l.i(2)), pat = l.i(3);
            int N = (int)m.size();
            Rng q((u64)l.i(4));
            for (long i = 0; i < n && N > 0; ++i) {
                long x, y;
                if (pat == 0) { x = a + i * 2 * stride; y = x + stride; }
                else if (pat == 1) { x = a + i; y = a + i + stride; }
                else if (pat == 2) { x = a; y = a + 1 + i; }
                else { x = (long)q.below((u64)N); y = (long)q.below((u64)N); }
                if (x < 0 || y < 0 || x >= N || y >= N) continue;
                if (l.i(5)) std::swap(x, y);
                int ret = -9;
                call(c, l, [&] { ret = d->join((int)x, (int)y); });
                check_excuse(c, l, "join");
                int ca = m[(size_t)x], cb = m[(size_t)y];
                if (ca == cb) { if (ret != N) violate("dsu-join", Str() << "joining already joined " << x << "," << y << " returned " << ret); }
                else {
                    merge(m, mb, ca, cb);
                    if (ret < 0 || ret >= N || m[(size_t)ret] != m[(size_t)x]) violate("dsu-join", Str() << "join returned " << ret << ", not a member of the joined class");
                }
            }
        } else if (l.op == "query") {
            int a = (int)l.i(0), n = (int)m.size();
            size_t s = 0; int f = 0;
            call(c, l, [&] { f = d->find(a); s = d->size(a); });
            check_excuse(c, l, "query");
            if (!(a >= 0 && a < n)) {
                probe("query-invalid");
                if (f != n) violate("dsu-find", Str() << "find of invalid id " << a << " returned " << f);
                note(Str() << "invalid " << a << " size " << s);
            }
        } else if (l.op == "copy") {
            std::unique_ptr<DS> n;
            call(c, l, [&] { n.reset(new DS(*d)); });
            check_excuse(c, l, "copy");
            if (c.ok()) d.swap(n);
        }
        observe(*d, m, r, k == p.lines.size() || k % 7 == 0);
    }
}

void gen(Rng& r, Plan& p) {
    int fp = r.chance(40) ? 0 : 25;
    int n = (int)r.range(3, r.chance(10) ? 100 : 40);
    long nodes = r.pick(std::vector<long>{0, 1, 2, 5, 9, 30});
    { Line& l = p.add(r.chance(50) ? "ctor" : "init").a(nodes); if (fp) arm_alloc(r, l, fp, 5); }
    long cur = nodes;
    if (r.chance(4)) {       // large forests
        long N = r.chance(1) ? r.range(33000, 70000) : r.chance(10) ? r.range(1500, 5000) : r.range(40, 1100);
        bool mk = N <= 600 && r.chance(20);
        if (mk) { p.lines.clear(); p.add("ctor").a(0); for (long i = 0; i < N; ++i) p.add("make"); }
        else p.add(r.chance(50) ? "ctor" : "init").a(N);
        cur = N;
        int kind = (int)r.below(4);
        if (kind == 0) for (long s = 1; s < N; s *= 2) p.add("joins").a(0).a(N).a(s).a(0).a(0).a(r.range(0, 1));
        else if (kind == 1) p.add("joins").a(0).a(N).a(1).a(1).a(0).a(r.range(0, 1));
        else if (kind == 2) p.add("joins").a(r.range(0, N / 2)).a(N).a(1).a(2).a(0).a(r.range(0, 1));
        else p.add("joins").a(0).a(r.range(1, 2 * N)).a(1).a(3).a((long)r.below(1u << 30)).a(0);
        n = (int)r.range(2, 12);
    }
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        auto id = [&]() -> long {
            if (r.chance(6)) return r.pick(std::vector<long>{-1, cur, cur + 1, cur + 1000, -1000, 2147483647L, -2147483647L - 1});
            return cur > 0 ? r.range(0, cur - 1) : 0;
        };
        if (k < 60) p.add("join").a(id()).a(id());
        else if (k < 80) { Line& l = p.add("make"); if (fp) arm_alloc(r, l, fp, 2); ++cur; }
        else if (k < 92) p.add("query").a(id());
        else if (k < 96) { Line& l = p.add("init").a(cur = r.range(0, 40)); if (fp) arm_alloc(r, l, 60, 7); }
        else if (k < 98) { Line& l = p.add("ctor").a(cur = r.range(0, 20)); if (fp) arm_alloc(r, l, fp, 5); }
        else { Line& l = p.add("copy"); if (fp) arm_alloc(r, l, fp, 2); }
    }
}
SIM_SCENARIO(dsu, 1, gen, exec)
}

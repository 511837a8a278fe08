// C09: min-max heap against a multiset model, with failing allocations and throwing copies.
#include "../sim/core.h"
#include <rofl/common/min_max_heap.h>
#include <algorithm>
#include <memory>
using namespace sim;

namespace {
struct Item {
    long key;
    int id;
    long* heapmem;    // owns memory, so that lost or doubled items show up as memory errors
    Item(long k, int i) : key(k), id(i) { HostScope h; heapmem = new long(k); }
    Item(const Item& o) : key(o.key), id(o.id) {
        HostScope h;
        if (cb_should_throw()) throw InjectedError();
        heapmem = new long(*o.heapmem);
    }
    Item(Item&& o) noexcept : key(o.key), id(o.id), heapmem(o.heapmem) { o.heapmem = nullptr; o.key = -777777; o.id = -1; }
    Item& operator=(Item&& o) noexcept {
        if (this != &o) { HostScope h; delete heapmem; key = o.key; id = o.id; heapmem = o.heapmem; o.heapmem = nullptr; o.key = -777777; o.id = -1; }
        return *this;
    }
    Item& operator=(const Item& o) {
        if (this == &o) return *this;
        HostScope h;
        if (cb_should_throw()) throw InjectedError();
        long* p = new long(*o.heapmem);
        delete heapmem;
        heapmem = p; key = o.key; id = o.id;
        return *this;
    }
    ~Item() { HostScope h; delete heapmem; }
};
std::ostream& operator<<(std::ostream& o, const Item& i) { return o << i.key << "#" << i.id; }

struct Cmp {
    int mode = 0;
    bool operator()(const Item& a, const Item& b) const {
        switch (mode) {
            case 0: return a.key < b.key;
            case 1: return a.key > b.key;
            case 2: return fl(a.key) < fl(b.key);        // coarse classes: many equivalent items
            default: { long x = a.key < 0 ? -a.key : a.key, y = b.key < 0 ? -b.key : b.key; return x < y; }
        }
    }
    static long fl(long k) { return k >= 0 ? k / 10 : -((9 - k) / 10); }
};
typedef rofl::MinMaxHeap<Item, Cmp> Heap;
struct M { long key; int id; };
typedef std::vector<M> Model;   // kept sorted by (key,id)

bool mless(const M& a, const M& b) { return a.key != b.key ? a.key < b.key : a.id < b.id; }
long cls(int mode, long k) {    // rank of the equivalence class in the ordering
    switch (mode) { case 0: return k; case 1: return -k; case 2: return Cmp::fl(k); default: return k < 0 ? -k : k; }
}
std::string show(const Model& m) { Str s; for (auto& x : m) s << x.key << "#" << x.id << " "; return s; }

Model contents(const Heap& h) {
    Model v;
    for (auto it = h.begin(); it != h.end(); ++it) v.push_back({it->key, it->id});
    std::sort(v.begin(), v.end(), mless);
    return v;
}
bool same(const Model& a, const Model& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].key != b[i].key || a[i].id != b[i].id) return false;
    return true;
}

void observe(const Heap& h, const Model& m, int mode) {
    static Line none;
    CallResult r;
    size_t sz = 0; bool em = false;
    long t = 0, b = 0, nt = 0, nb = 0;
    Model c;
    call(r, none, [&] {
        sz = h.size(); em = h.empty();
        if (!em) { t = h.top().key; b = h.bottom().key; nt = h.nextTop().key; nb = h.nextBottom().key; }
    });
    check_excuse(r, none, "observing the heap");
    c = contents(h);
    if (sz != m.size() || em != m.empty() || !same(c, m))
        violate("heap-content", Str() << "heap holds [" << show(c) << "] but pushes and pops imply [" << show(m) << "]");
    if (m.empty()) { note("empty"); return; }
    std::vector<long> ranks;
    for (auto& x : m) ranks.push_back(cls(mode, x.key));
    std::sort(ranks.begin(), ranks.end());
    size_t n = ranks.size();
    long wnt = n == 1 ? ranks[0] : ranks[1], wnb = n == 1 ? ranks[0] : ranks[n - 2];
    if (cls(mode, t) != ranks[0]) violate("heap-top", Str() << "top is " << t << " but the heap holds [" << show(m) << "]");
    if (cls(mode, b) != ranks[n - 1]) violate("heap-bottom", Str() << "bottom is " << b << " but the heap holds [" << show(m) << "]");
    if (cls(mode, nt) != wnt) violate("heap-next-top", Str() << "next-top is " << nt << " but the heap holds [" << show(m) << "]");
    if (cls(mode, nb) != wnb) violate("heap-next-bottom", Str() << "next-bottom is " << nb << " but the heap holds [" << show(m) << "]");
    note(Str() << "n=" << n << " top=" << t << " bot=" << b << " nt=" << nt << " nb=" << nb);
}

void exec(const Plan& p) {
    int mode = 0;
    std::unique_ptr<Heap> h;
    Model m;
    int nid = 0;
    for (auto& l : p.lines) {
        if (l.op == "new") { mode = (int)l.i(0); Cmp c; c.mode = mode; h.reset(new Heap(c)); m.clear(); observe(*h, m, mode); continue; }
        if (!h) { Cmp c; c.mode = mode; h.reset(new Heap(c)); }
        CallResult r;
        if (l.op == "push") {
            Item it(l.i(0), nid);
            call(r, l, [&] { h->push(it); });
            check_excuse(r, l, "push");
            if (r.ok()) { m.push_back({l.i(0), nid}); std::sort(m.begin(), m.end(), mless); }
            else probe("push-failed");
            ++nid;
        } else if (l.op == "pushn") {      // many pushes without looking in between
            Rng q((u64)l.i(1));
            long n = l.i(0), span = l.i(2), pat = l.i(3);
            if (n > 40000) n = 40000;
            for (long i = 0; i < n; ++i) {
                long k = pat == 1 ? i : pat == 2 ? -i : pat == 3 ? (i % 2 ? i : -i) : q.range(-span, span);
                Item it(k, nid);
                call(r, l, [&] { h->push(it); });
                check_excuse(r, l, "push");
                if (r.ok()) m.push_back({k, nid});
                ++nid;
            }
            std::sort(m.begin(), m.end(), mless);
        } else if (l.op == "poptop" || l.op == "popbot") {
            if (m.empty()) continue;
            bool top = l.op == "poptop";
            call(r, l, [&] { if (top) h->popTop(); else h->popBottom(); });
            if (!r.ok()) violate("pop-threw", Str() << l.op << " threw");
            Model c = contents(*h);
            // exactly one item of the extreme class is gone
            long want = cls(mode, m[0].key);
            for (auto& x : m) { long k = cls(mode, x.key); if (top ? k < want : k > want) want = k; }
            Model rest = m;
            bool ok = c.size() + 1 == m.size();
            if (ok) {
                size_t i = 0;
                while (i < c.size() && m[i].key == c[i].key && m[i].id == c[i].id) ++i;
                ok = cls(mode, m[i].key) == want;
                rest.erase(rest.begin() + (long)i);
                ok = ok && same(rest, c);
            }
            if (!ok) violate("heap-pop", Str() << l.op << " turned [" << show(m) << "] into [" << show(c) << "]");
            m = rest;
        } else if (l.op == "copy") {
            std::unique_ptr<Heap> h2;
            call(r, l, [&] { h2.reset(new Heap(*h)); });
            check_excuse(r, l, "copy");
            if (r.ok()) { if (l.i(0)) h.swap(h2); else observe(*h2, m, mode); }
        }
        observe(*h, m, mode);
    }
}

void gen(Rng& r, Plan& p) {
    p.add("new").a(r.range(0, 3));
    int n = (int)r.range(2, r.chance(10) ? 120 : 40);
    long span = r.pick(std::vector<long>{1, 3, 10, 50, 100000});
    int fp = r.chance(50) ? 0 : 15;
    int bias = (int)r.range(0, 2);
    int up = 55;
    if (r.chance(4)) {       // big heaps: the deep levels of the tree
        long big = r.chance(1) ? r.range(33000, 36000) : r.chance(4) ? r.range(2100, 5000) : r.chance(20) ? r.range(200, 1100) : r.range(20, 200);
        p.add("pushn").a(big).a((long)r.below(1u << 30)).a(big > 2000 ? 100000 : span).a(r.range(0, 5));
        n = big > 20000 ? (int)r.range(3, 10) : big > 2000 ? (int)r.range(10, 40) : (int)r.range(20, 150);
        up = (int)r.pick(std::vector<long>{5, 20, 50});
    }
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        if (k < up) {
            Line& l = p.add("push").a(r.range(-span, span));
            if (fp) { arm_alloc(r, l, fp, 2); if (r.chance(fp)) l.f(F_cb_throw, 1); }
        } else if (k < 96) {
            bool top = bias == 0 ? r.chance(50) : bias == 1 ? r.chance(85) : r.chance(15);
            p.add(top ? "poptop" : "popbot");
        } else if (k < 98) {
            Line& l = p.add("copy").a(r.range(0, 1));
            if (fp) arm_alloc(r, l, fp, 2);
        } else p.add("new").a(r.range(0, 3));
    }
}
SIM_SCENARIO(heap, 1, gen, exec)
}

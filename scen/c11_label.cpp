// C11: label sets against std::set<long> models, with failing allocations.
#include "../sim/core.h"
#include <rofl/common/label_set.h>
#include <memory>
#include <set>
using namespace sim;

namespace {
typedef rofl::LabelSet LS;
typedef std::set<int> M;
const int NS = 5;

std::string show(const M& m) {
    Str s; s << "{"; bool f = true;
    for (int x : m) { if (!f) s << ", "; s << x; f = false; }
    s << "}"; return s;
}

void expect(const LS& ls, const M& m, const char* where) {
    static Line none;
    CallResult c;
    std::vector<int> it;
    size_t n = 0; bool e = false;
    std::string pr, pr2;
    call(c, none, [&] {
        n = ls.size(); e = ls.empty();
        for (auto i = ls.begin(); i != ls.end(); ++i) { HostScope h; it.push_back(*i); if (it.size() > m.size() + 5) break; }
        std::ostringstream o; ls.print(o); pr = o.str();
        std::ostringstream o2; o2 << ls; pr2 = o2.str();
    });
    check_excuse(c, none, "observing a label set");
    std::vector<int> w(m.begin(), m.end());
    if (it != w || n != m.size() || e != m.empty())
        violate("label-content", Str() << where << ": set is " << pr << " (size " << n << ") instead of " << show(m));
    if (pr != show(m) || pr2 != show(m)) violate("label-print", Str() << where << ": printed \"" << pr << "\" instead of " << show(m));
}

void exec(const Plan& p) {
    std::unique_ptr<LS> s[NS];
    M m[NS];
    for (auto& x : s) x.reset(new LS());
    for (auto& l : p.lines) {
        CallResult c;
        int a = (int)l.i(0) % NS, b = (int)l.i(1) % NS, d = (int)l.i(2) % NS, lab = (int)l.i(3);
        if (l.op == "insert") {
            bool ret = false, had = m[a].count(lab) > 0;
            call(c, l, [&] { ret = s[a]->insert(lab); });
            check_excuse(c, l, "insert");
            if (c.ok()) {
                if (ret != had) violate("label-insert", Str() << "inserting " << lab << " into " << show(m[a]) << " returned " << ret);
                m[a].insert(lab);
            } else probe("insert-failed");
        } else if (l.op == "remove") { call(c, l, [&] { s[a]->remove(lab); }); check_excuse(c, l, "remove"); m[a].erase(lab); }
        else if (l.op == "clear") { call(c, l, [&] { s[a]->clear(); }); check_excuse(c, l, "clear"); m[a].clear(); }
        else if (l.op == "ramp") {       // many labels at once: arguments start, step, count; constructed or inserted
            long st = l.i(4), cnt = std::min(l.i(5), 3000L);
            std::vector<int> v;
            for (long k = 0; k < cnt; ++k) v.push_back((int)(lab + k * st));
            std::unique_ptr<LS> n;
            if (l.i(6)) { call(c, l, [&] { n.reset(new LS(v.begin(), v.end())); }); check_excuse(c, l, "construction"); if (c.ok()) { s[a].swap(n); m[a] = M(v.begin(), v.end()); } }
            else for (int x : v) {
                bool ret = false;
                call(c, l, [&] { ret = s[a]->insert(x); });
                check_excuse(c, l, "insert");
                if (c.ok()) { if (ret != !m[a].insert(x).second) violate("label-insert", Str() << "inserting " << x << " returned " << ret); }
            }
        } else if (l.op == "range") {
            std::vector<int> v;
            for (size_t k = 3; k < l.n(); ++k) v.push_back((int)l.i(k));
            std::unique_ptr<LS> n;
            call(c, l, [&] { n.reset(new LS(v.begin(), v.end())); });
            check_excuse(c, l, "construction");
            if (c.ok()) { s[a].swap(n); m[a] = M(v.begin(), v.end()); }
        } else if (l.op == "inside") {
            bool ret = false;
            call(c, l, [&] { ret = s[a]->inside(lab); });
            if (ret != (m[a].count(lab) > 0)) violate("label-inside", Str() << lab << " inside " << show(m[a]) << " said " << ret);
        } else if (l.op == "eq") {
            bool x = false, y = false;
            call(c, l, [&] { x = *s[a] == *s[b]; y = *s[a] != *s[b]; });
            check_excuse(c, l, "comparison");
            if (x != (m[a] == m[b]) || y == x) violate("label-equal", Str() << show(m[a]) << " == " << show(m[b]) << " said " << x << ", != said " << y);
            note(Str() << "eq " << x);
        } else if (l.op == "copy") {
            std::unique_ptr<LS> n;
            call(c, l, [&] { n.reset(new LS(*s[a])); });
            check_excuse(c, l, "copy");
            if (c.ok()) { s[d].swap(n); m[d] = m[a]; }
        } else if (l.op == "assign") {
            call(c, l, [&] { *s[d] = *s[a]; });
            check_excuse(c, l, "assignment");
            if (c.ok()) m[d] = m[a];
            else { m[d].clear(); s[d].reset(new LS()); }    // assignment only promises a valid object
        } else {   // new set from one or two operands
            std::unique_ptr<LS> n;
            M w;
            const std::string& o = l.op;
            call(c, l, [&] {
                if (o == "union") n.reset(new LS(s[a]->unionSet(*s[b])));
                else if (o == "inter") n.reset(new LS(s[a]->intersectionSet(*s[b])));
                else if (o == "diff") n.reset(new LS(s[a]->differenceSet(*s[b])));
                else if (o == "union1") n.reset(new LS(s[a]->unionSet(lab)));
                else if (o == "diff1") n.reset(new LS(s[a]->differenceSet(lab)));
            });
            check_excuse(c, l, o.c_str());
            if (c.ok() && n) {
                if (o == "union") { w = m[a]; w.insert(m[b].begin(), m[b].end()); }
                else if (o == "inter") { for (int x : m[a]) if (m[b].count(x)) w.insert(x); }
                else if (o == "diff") { for (int x : m[a]) if (!m[b].count(x)) w.insert(x); }
                else if (o == "union1") { w = m[a]; w.insert(lab); }
                else { w = m[a]; w.erase(lab); }
                expect(*n, w, o.c_str());
                for (int k = 0; k < NS; ++k) expect(*s[k], m[k], "operand or bystander");
                s[d].swap(n);
                m[d] = w;
            } else probe("op-failed");
        }
        for (int k = 0; k < NS; ++k) expect(*s[k], m[k], l.op.c_str());
        Str t; for (auto& x : m) t << show(x);
        note(t);
    }
}

void gen(Rng& r, Plan& p) {
    int fp = r.chance(40) ? 0 : 25;
    int n = (int)r.range(3, 40);
    long span = r.pick(std::vector<long>{2, 4, 8, 30});
    int extreme = r.chance(25);
    long lo = -span / 2, hi = span;
    switch (r.below(8)) { case 0: lo = -span - 4; hi = -1; break; case 1: lo = 1000000; hi = lo + span; break; case 2: lo = 0; break; default: break; }
    bool big = r.chance(3);
    auto lab = [&]() -> long { return extreme && r.chance(20) ? r.pick(std::vector<long>{2147483647L, -2147483648L, 0}) : r.range(lo, hi); };
    static const std::vector<std::string> ops = {"insert", "insert", "insert", "remove", "clear", "range", "range", "inside", "eq", "eq", "eq", "copy", "assign", "union", "inter", "diff", "union1", "diff1", "union", "inter", "diff"};
    for (int i = 0; i < n; ++i) {
        if (big && r.chance(25)) {
            long step = r.pick(std::vector<long>{1, -1, 2, 3, 17, -5});
            p.add("ramp").a(r.range(0, NS - 1)).a(0).a(0).a(r.range(-100, 100)).a(step).a(r.chance(30) ? r.range(250, 900) : r.range(10, 80)).a(r.range(0, 1));
            continue;
        }
        const std::string& o = r.pick(ops);
        Line& l = p.add(o).a(r.range(0, NS - 1)).a(r.range(0, NS - 1)).a(r.range(0, NS - 1));
        if (o == "range") { int k = (int)r.range(0, 8); for (int j = 0; j < k; ++j) l.a(lab()); }
        else l.a(lab());
        if (fp && o != "eq" && o != "inside") arm_alloc(r, l, fp, 8);
    }
}
SIM_SCENARIO(label, 1, gen, exec)
}

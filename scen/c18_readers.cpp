// C18: concurrent readers of one unmodified object all get the right answer.
// Main builds one object from the seed, asks it every query of the plan (the reference answers and a
// full description), then several threads ask the same object the same queries under preemption.
#include "../sim/core.h"
#include "../sim/sched.h"
#include "c18.h"
#include <algorithm>
using namespace sim;

namespace {
const c18::Factory* find(const std::string& n) {
    static std::vector<c18::Factory> v;
    if (v.empty()) { c18::common_objects(v); c18::geom_objects(v); }
    for (auto& f : v) if (n == f.name) return &f;
    return nullptr;
}
const char* const NAMES[] = {"grid", "heap", "labels", "params", "morton", "lut", "plane", "line", "interval", "peaks", "box", "profiler", "timer"};
const int LOGEV[] = {7, 7, 9, 8, 8, 8, 13, 12, 9, 11, 8, 8, 5};

void gen(Rng& r, Plan& p) {
    int nt = (int)r.range(2, 4);
    size_t k = r.below(13);
    p.add("cfg").a(nt).a(r.range(1, nt)).s(NAMES[k]).a((long)r.below(1000000)).a(r.range(0, 3));
    bool faults = r.chance(20), pre = r.chance(90);
    for (int t = 1; t <= nt; ++t) {
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            Line& l = p.add("q").t(t).a((long)r.below(1000)).a((long)r.below(r.chance(50) ? 4 : 100000));
            if (faults && r.chance(30)) arm_alloc(r, l, 100, 12);
            if (pre) arm_preempt(r, l, nt, 80, 5, LOGEV[k]);
        }
    }
}

void exec(const Plan& p) {
    int nt = 1, first = 1, size = 0;
    u64 seed = 0;
    std::string what;
    std::map<int, std::vector<const Line*>> per;
    for (auto& l : p.lines) {
        if (l.op == "cfg") { nt = (int)l.i(0); first = (int)l.i(1); what = l.str(2); seed = (u64)l.i(3); size = (int)l.i(4); }
        else per[l.thread].push_back(&l);
    }
    if (nt < 1) nt = 1;
    if (nt > 8) nt = 8;
    const c18::Factory* f = find(what);
    if (!f) return;
    set_clock(1000, 1700000000);
    // reference answers, by a lone reader of an equal object in a fresh process
    std::map<std::string, std::string> want;
    auto key = [](const Line& l) { return std::to_string(l.i(0)) + "/" + std::to_string(l.i(1)); };
    auto solo = [&](u64 q, u64 arg) {
        return in_fresh_process([&] {
            std::string s;
            run_threads(1, 1, [&](int) {
                Line plain;
                CallResult c;
                call(c, plain, [&] { c18::Object* o = f->make(seed, size); std::string x = o->query(q, arg); HostScope h; s = x; });
                check_excuse(c, plain, what.c_str());
            });
            return s;
        });
    };
    for (auto& l : p.lines) if (l.op == "q" && !want.count(key(l))) want[key(l)] = solo((u64)l.i(0), (u64)l.i(1));
    c18::Object* o = nullptr;
    std::string before, after;
    Line plain;
    CallResult c0;
    call(c0, plain, [&] { o = f->make(seed, size); std::string s = o->describe(); HostScope h; before = s; });
    check_excuse(c0, plain, "construction");
    run_threads(nt, first, [&](int t) {
        for (auto* l : per[t]) {
            std::string out;
            CallResult c;
            call(c, *l, [&] { std::string s = o->query((u64)l->i(0), (u64)l->i(1)); HostScope h; out = s; });
            check_excuse(c, *l, "query");
            note(Str() << t << " " << key(*l) << ": " << (c.ok() ? out : std::string("failed")));
            if (!c.ok() || c.op.fired[F_alloc] + c.op.fired[F_allocp]) { probe("query-without-memory"); continue; }
            if (out != want[key(*l)]) violate("wrong-answer", Str() << what << ": thread " << t << ", query " << key(*l) << " answered " << out << " but a single reader gets " << want[key(*l)]);
        }
    });
    CallResult c1;
    call(c1, plain, [&] { std::string s = o->describe(); HostScope h; after = s; });
    check_excuse(c1, plain, "inspection");
    if (after != before) violate("object-changed", Str() << what << ": read-only operations changed the object from " << before << " to " << after);
    probe(what.c_str());
    note(after);
}
SIM_SCENARIO(c18, 1, gen, exec)
}  // namespace

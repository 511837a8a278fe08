// C17: callers working on their own objects never affect each other.
#include "../sim/core.h"
#include "../sim/sched.h"
#include "c17.h"
#include <algorithm>
#include <sys/stat.h>
using namespace sim;

namespace {
std::vector<c17::Kind>& kinds() {
    static std::vector<c17::Kind> v;
    if (v.empty()) { c17::common_kinds(v); c17::geom_kinds(v); c17::box2_kind(v); c17::box3_kind(v); }
    return v;
}
std::string g_dir, g_tmp;

std::string run(const c17::Kind& k, u64 seed, int size, const std::string& uniq) {
    c17::Arg a{Rng(seed), size, uniq, g_dir, g_tmp};
    c17::Out o;
    k.fn(a, o);
    return o.s;
}
void touch(const std::string& p) { if (FILE* f = fopen(p.c_str(), "w")) fclose(f); }

void gen(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 4);
    auto& K = kinds();
    p.add("cfg").a(nt).a(r.range(1, nt)).a((long)(r.range(0, 4000000000L)));
    std::vector<size_t> pick;       // few kinds per run, so that calls of the same kind meet
    int nk = (int)r.range(1, 2);
    for (int i = 0; i < nk; ++i) pick.push_back(r.below(K.size()));
    int nseed = (int)r.range(1, 3);
    std::vector<long> seeds;
    for (int i = 0; i < nseed; ++i) seeds.push_back((long)r.below(1000000));
    bool pre = r.chance(80), faults = r.chance(25);
    int maxsize = r.chance(6) ? (int)r.range(4, 14) : (int)r.below(4);
    for (int t = 1; t <= nt; ++t) {
        int n = (int)r.range(1, nt == 1 ? 5 : 3);
        for (int i = 0; i < n; ++i) {
            const c17::Kind& k = K[r.pick(pick)];
            int rep = r.chance(10) ? (int)r.range(1, k.maxrep) : 1;
            Line& l = p.add("do").t(t).s(k.name).a(r.pick(seeds)).a(r.range(0, maxsize)).a(rep);
            if (faults && k.allocfault && r.chance(30)) arm_alloc(r, l, 100, 20);
            if (pre && nt > 1) arm_preempt(r, l, nt, 75, 4, k.logev);
        }
    }
}

void exec(const Plan& p) {
    int nt = 1, first = 1;
    std::map<int, std::vector<std::pair<int, const Line*>>> per;
    int id = 0;
    long long w0 = 1700000000;
    std::string root = scratch_dir();
    g_dir = root + "/ro"; g_tmp = root + "/tmp";
    bool files = false;
    for (auto& l : p.lines) if (l.op == "do" && (l.str(0) == "listing" || l.str(0) == "paramfile")) files = true;
    if (files) {
        mkdir(root.c_str(), 0777); mkdir(g_dir.c_str(), 0777); mkdir(g_tmp.c_str(), 0777); mkdir((g_dir + "/d0").c_str(), 0777); mkdir((g_dir + "/d1").c_str(), 0777); mkdir((g_dir + "/d1/sub").c_str(), 0777);
        for (const char* f : {"/d0/b", "/d0/a", "/d0/c.txt", "/d1/x", "/d1/A"}) touch(g_dir + f);
    }
    for (auto& l : p.lines) {
        if (l.op == "cfg") { nt = (int)l.i(0); first = (int)l.i(1); w0 = l.i(2); }
        else { per[l.thread].push_back({id, &l}); }
        ++id;
    }
    if (nt < 1) nt = 1;
    if (nt > 8) nt = 8;
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1); tzset();
    setenv("HOME", "/home/sim", 1);
    set_clock(1000, w0);
    auto find = [&](const std::string& n) -> const c17::Kind* { for (auto& k : kinds()) if (n == k.name) return &k; return nullptr; };
    // what each call gives a lone caller in a fresh process
    std::map<std::string, std::string> solo;
    auto key = [](const Line& l) { return l.str(0) + "/" + std::to_string(l.i(1)) + "/" + std::to_string(l.i(2)); };
    for (auto& l : p.lines) {
        if (l.op != "do") continue;
        const c17::Kind* k = find(l.str(0));
        if (!k || solo.count(key(l))) continue;
        solo[key(l)] = in_fresh_process([&] {
            std::string s;
            run_threads(1, 1, [&](int) {
                Line plain;
                CallResult c;
                call(c, plain, [&] { std::string q = run(*k, (u64)l.i(1), (int)l.i(2), "solo"); HostScope h; s = q; });
                check_excuse(c, plain, k->name);
            });
            return s;
        });
    }
    run_threads(nt, first, [&](int t) {
        for (auto& il : per[t]) {
            const Line& l = *il.second;
            const c17::Kind* k = find(l.str(0));
            if (!k) continue;
            int rep = (int)l.i(3);
            Line plain;
            for (int q = 0; q < rep; ++q) {
                std::string out, uniq;
                { HostScope h; uniq = "u" + std::to_string(il.first) + "_" + std::to_string(q); }
                CallResult c;
                const Line& al = q == 0 ? l : plain;
                call(c, al, [&] { std::string s = run(*k, (u64)l.i(1), (int)l.i(2), uniq); HostScope h; out = s; });
                check_excuse(c, al, k->name);
                note(Str() << t << " " << k->name << " " << l.i(1) << "/" << l.i(2) << ": " << (c.ok() ? out : std::string("failed")));
                if (!c.ok()) { probe("call-failed-for-memory"); continue; }
                if (c.op.fired[F_alloc] + c.op.fired[F_allocp]) continue;      // absorbed by a stream: not comparable
                const std::string& want = solo[key(l)];
                if (out != want) violate("interference", Str() << "thread " << t << ", call " << il.first << " (" << k->name << ", data " << l.i(1) << "/" << l.i(2) << ") returned " << out << " but a lone caller gets " << want);
            }
        }
    });
    for (auto& l : p.lines) if (l.op == "do") probe(l.str(0).c_str());
}
SIM_SCENARIO(c17, 1, gen, exec)
}  // namespace

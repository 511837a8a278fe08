// C07: a stamped name denotes one instant within the call, under any clock.
#include "../sim/core.h"
#include "../sim/sched.h"
#include <rofl/common/io.h>
#include <ctime>
using namespace sim;

namespace {
std::string g_tz;
std::string render(long long t) {
    HostScope h;
    setenv("TZ", g_tz.c_str(), 1);
    tzset();
    time_t x = (time_t)t;
    struct tm tm;
    if (!localtime_r(&x, &tm)) return "?";
    char b[64];
    snprintf(b, sizeof b, "%04d%02d%02d_%02d%02d_%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
    return b;
}

void exec_op(const Line& l, int th) {
    CallResult r;
    if (l.op == "adv") { advance_ns((u64)l.i(0)); fault_fired(F_stall); }
    else if (l.op == "wall") { jump_wall(l.i(0)); fault_fired(F_wall_jump); }
    else if (l.op == "other") {         // another user of local time in the same process
        time_t x = (time_t)l.i(0);
        struct tm tm;
        { HostScope h; if (struct tm* q = localtime(&x)) tm = *q; }
    } else if (l.op == "stamp") {
        std::string pre = l.str(0), post = l.str(1), out;
        size_t h0;
        { HostScope h; h0 = wall_history().size() - 1; }
        call(r, l, [&]() {
            std::string s;
            if (l.i(2) == 1 && post.empty()) s = rofl::generateStampedString(pre);
            else if (l.i(2) == 2 && post.empty() && pre.empty()) s = rofl::generateStampedString();
            else s = rofl::generateStampedString(pre, post);
            HostScope h;
            out = s;
        });
        check_excuse(r, l, "generateStampedString");
        note(Str() << th << " stamp " << (r.ok() ? out : std::string("failed")));
        if (!r.ok()) { probe("stamp-threw"); return; }
        const std::vector<long long>& w = wall_history();
        std::string want;
        bool ok = false;
        for (size_t k = h0; k < w.size() && !ok; ++k) {
            std::string e = pre + render(w[k]) + post;
            if (k < h0 + 4) want += (want.empty() ? "" : "\" or \"") + e;
            ok = e == out;
        }
        if (w.size() > h0 + 1) probe("clock-moved-in-call");
        if (!ok) {
            bool memf = r.op.fired[F_alloc] + r.op.fired[F_allocp] > 0;
            violate(memf ? "truncated-name" : "wrong-name", Str() << "got \"" << out << "\", expected \"" << want << "\"" << (memf ? " or an exception, as memory ran out" : ""));
        }
    }
}

const char* const ZONES[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
                             "IST-5:30", "NST3:30NDT,M3.2.0,M11.1.0", "<-1130>11:30", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "LHST-0:00:30"};

long long instant(Rng& r) {
    switch (r.below(7)) {
        case 6: return r.range(0, 200000);                                               // the first days
        case 0: return r.range(0, 4102444800L);
        case 1: return 86400LL * r.range(1, 40000) - r.range(0, 2);                    // around midnight UTC
        case 2: return r.range(200000, 2000000000L);
        case 3: return 1711846800LL + r.range(-3700, 3700);                              // around a European DST switch
        case 4: return r.range(4102444800L, 9150000000L);                                // up to year 2259
        default: return 31556952LL * r.range(1, 100) + r.range(-2, 2);
    }
}

std::string affix(Rng& r) {
    switch (r.below(6)) {
        case 0: return "";
        case 1: return std::string((size_t)(r.chance(25) ? r.range(200, 5000) : r.range(1, 200)), 'p');
        case 2: { std::string s; int n = (int)r.range(1, 12); for (int i = 0; i < n; ++i) s += (char)r.range(1, 255); return s; }
        case 3: { static const char* w[] = {"%Y%m%d", "%n", "%%", "log_", ".txt", "/tmp/a b/", "{}", "\\n", "20240101_0000_00", " ", "0", "%s%d"}; return w[r.below(12)]; }
        case 4: { std::string s("a"); s += '\0'; s += "b"; return s; }
        default: { static const char* w[] = {"run_", ".log", "_suffix", "x", "map-", ".csv"}; return w[r.below(6)]; }
    }
}

void gen(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 4);
    p.add("cfg").a(nt).a(r.range(1, nt)).a(instant(r)).s(ZONES[r.below(10)]).a(r.range(0, 999999999));
    bool faults = r.chance(35), pre = r.chance(80), stalls = r.chance(50), walls = r.chance(50);
    for (int t = 1; t <= nt; ++t) {
        int n = (int)r.range(1, 5);
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(100);
            if (k < 70) {
                Line& l = p.add("stamp").t(t).s(affix(r)).s(affix(r)).a((long)r.below(3));
                if (faults) arm_alloc(r, l, 25, 10);
                if (pre && nt > 1) arm_preempt(r, l, nt, 70, 4, 10);
                if (stalls && r.chance(30)) l.f(F_stall, r.chance(50) ? r.range(1, 2000000000L) : r.range(1, 100000) * 1000000000L);
                if (walls && r.chance(20)) l.f(F_wall_jump, r.chance(50) ? r.range(-90000, 90000) : r.range(-40000000, 40000000));
            } else if (k < 85) p.add("adv").t(t).a(r.chance(50) ? r.range(1, 3000000000L) : r.range(1, 90000) * 1000000000L);
            else if (k < 93) { if (walls) p.add("wall").t(t).a(r.range(-100000, 100000)); }
            else p.add("other").t(t).a((long)instant(r));
        }
    }
}

void exec(const Plan& p) {
    int nt = 1, first = 1;
    std::map<int, std::vector<const Line*>> per;
    g_tz = "UTC0";
    long long w0 = 1700000000;
    u64 frac = 0;
    for (auto& l : p.lines) {
        if (l.op == "cfg") { nt = (int)l.i(0); first = (int)l.i(1); w0 = l.i(2); g_tz = l.str(3); frac = (u64)l.i(4) % 1000000000ull; fault_fired(F_tz_change); }
        else per[l.thread].push_back(&l);
    }
    if (g_tz.empty()) g_tz = "UTC0";
    set_clock(1000, w0);
    advance_ns(frac);
    // the environment changes after the C library has already used another zone
    setenv("TZ", "UTC0", 1); tzset();
    setenv("TZ", g_tz.c_str(), 1);
    if (nt < 1) nt = 1;
    if (nt > 8) nt = 8;
    run_threads(nt, first, [&](int t) { for (auto* l : per[t]) exec_op(*l, t); });
}
SIM_SCENARIO(c07, 1, gen, exec)
}  // namespace

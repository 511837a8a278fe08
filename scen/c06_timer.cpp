// C06: a scoped timer records exactly the elapsed monotonic time of its scope, once.
#include "../sim/core.h"
#include "../sim/sched.h"
#include "profiler_util.h"
#include <rofl/common/profiler.h>
#include <algorithm>
#include <cmath>
#include <memory>
using namespace sim;

namespace {
struct M { std::string label; u64 lo, hi; bool optional; };   // expected measurement in ns, an interval when time passed inside a call
std::vector<M> ms;
struct Slot { alignas(rofl::ScopedTimer) char mem[sizeof(rofl::ScopedTimer)]; bool live = false; std::string label; u64 c0 = 0, c1 = 0; };
struct ThreadState { Slot slot[4]; };
ThreadState ts[9];

const double EPS = 1e-9;
bool within(double ms_, u64 lo, u64 hi) {
    double a = (double)lo / 1e6, b = (double)hi / 1e6;
    return ms_ >= a - EPS * (1 + std::fabs(a)) && ms_ <= b + EPS * (1 + std::fabs(b));
}

void inner(const std::vector<const Line*>& body, size_t i, size_t end, int th);
size_t close_of(const std::vector<const Line*>& v, size_t i) {
    int d = 0;
    for (size_t k = i; k < v.size(); ++k) {
        if (v[k]->op == "scope" || v[k]->op == "macro") ++d;
        if (v[k]->op == "end" && --d == 0) return k;
    }
    return v.size();
}

struct Leave {};   // thrown by the harness to leave a scope by exception

// Functions that use the macro; each has its own label, which contains the function's name.
void simMacroAlpha(const std::function<void()>& f) {
    ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
    { HostScope h; f(); }
}
void simMacroBeta(const std::function<void()>& f) {
    int k = 0;
    ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
    { HostScope h; f(); }
    ++k;
}

void exec_line(const std::vector<const Line*>& v, size_t& i, int th);

void run_body(const std::vector<const Line*>& v, size_t a, size_t b, int th) {
    for (size_t i = a; i < b && i < v.size(); ++i) exec_line(v, i, th);
}

// A lexical scope (constructor and destructor in separate windows) left normally or by an exception.
void do_scope(const std::vector<const Line*>& v, size_t& i, int th) {
    const Line& l = *v[i];
    size_t e = close_of(v, i);
    Line le;
    const Line& end = e < v.size() ? *v[e] : le;
    std::string label = l.str(0);
    bool exc = l.i(1) != 0;
    Slot s;
    CallResult r;
    s.c0 = mono_now();
    call(r, l, [&]() { new (s.mem) rofl::ScopedTimer(label); });
    check_excuse(r, l, "ScopedTimer");
    s.c1 = mono_now();
    if (!r.ok()) { probe("timer-not-created"); i = e; return; }
    run_body(v, i + 1, e, th);
    u64 d0 = mono_now();
    CallResult q;
    {
        // the destructor runs during unwinding when the scope is left by an exception
        struct Guard { Slot& s; const Line& l; CallResult& q; ~Guard() { call(q, l, [&]() { ((rofl::ScopedTimer*)s.mem)->~ScopedTimer(); }); } };
        try { Guard g{s, end, q}; if (exc) throw Leave(); } catch (const Leave&) {}
    }
    check_excuse(q, end, "~ScopedTimer");
    u64 d1 = mono_now();
    HostScope h;
    ms.push_back(M{label, d0 - s.c1, d1 - s.c0, q.op.fired[F_alloc] + q.op.fired[F_allocp] > 0});
    if (exc) probe("left-by-exception");
    note(Str() << th << " scope " << label << " [" << d0 - s.c1 << "," << d1 - s.c0 << "]");
    i = e;
}

void do_macro(const std::vector<const Line*>& v, size_t& i, int th) {
    const Line& l = *v[i];
    size_t e = close_of(v, i);
    bool beta = l.i(0) != 0, exc = l.i(1) != 0;
    u64 b0 = 0, b1 = 0;
    bool ran = false, left = false;
    auto body = [&]() {
        ran = true;
        b0 = mono_now();
        // nested lines open windows of their own
        OpCtx* save = t_op;
        int hs = t_host;
        t_op = nullptr; t_host = 0;
        run_body(v, i + 1, e, th);
        t_op = save; t_host = hs;
        b1 = mono_now();
        if (exc) throw Leave();
    };
    std::function<void()> f = body;
    CallResult r;
    u64 c0 = mono_now();
    call(r, l, [&]() {
        try { if (beta) simMacroBeta(f); else simMacroAlpha(f); } catch (const Leave&) { left = true; }
    });
    check_excuse(r, l, "scope timing macro");
    u64 d1 = mono_now();
    bool memf = r.op.fired[F_alloc] + r.op.fired[F_allocp] > 0;
    if (!ran) { if (r.ok()) violate("scope-not-run", "the timed scope did not run"); i = e; return; }
    if (r.out == OK && exc && !left) violate("exception-lost", "the exception that left the timed scope vanished");
    HostScope h;
    ms.push_back(M{beta ? "simMacroBeta" : "simMacroAlpha", b1 - b0, d1 - c0, memf});
    probe("macro");
    note(Str() << th << " macro [" << b1 - b0 << "," << d1 - c0 << "]");
    i = e;
}

void exec_line(const std::vector<const Line*>& v, size_t& i, int th) {
    const Line& l = *v[i];
    CallResult r;
    if (l.op == "adv") { advance_ns((u64)l.i(0)); fault_fired(F_stall); }
    else if (l.op == "wall") { jump_wall(l.i(0)); fault_fired(F_wall_jump); }
    else if (l.op == "scope") do_scope(v, i, th);
    else if (l.op == "macro") do_macro(v, i, th);
    else if (l.op == "new") {
        Slot& s = ts[th].slot[l.i(0) & 3];
        if (s.live) return;
        s.label = l.str(1);
        s.c0 = mono_now();
        call(r, l, [&]() { new (s.mem) rofl::ScopedTimer(s.label); });
        check_excuse(r, l, "ScopedTimer");
        s.c1 = mono_now();
        s.live = r.ok();
    } else if (l.op == "read") {
        Slot& s = ts[th].slot[l.i(0) & 3];
        if (!s.live) return;
        double e = 0;
        u64 d0 = mono_now();
        call(r, l, [&]() { e = ((const rofl::ScopedTimer*)s.mem)->elapsedTimeMs(); });
        check_excuse(r, l, "elapsedTimeMs");
        u64 d1 = mono_now();
        note(Str() << th << " read " << e);
        if (r.ok() && !within(e, d0 - s.c1, d1 - s.c0))
            violate("wrong-elapsed", Str() << "elapsed time read as " << e << " ms, but between " << (d0 - s.c1) << " and " << (d1 - s.c0) << " ns have passed since creation");
    } else if (l.op == "del") {
        Slot& s = ts[th].slot[l.i(0) & 3];
        if (!s.live) return;
        u64 d0 = mono_now();
        call(r, l, [&]() { ((rofl::ScopedTimer*)s.mem)->~ScopedTimer(); });
        check_excuse(r, l, "~ScopedTimer");
        u64 d1 = mono_now();
        s.live = false;
        HostScope h;
        ms.push_back(M{s.label, d0 - s.c1, d1 - s.c0, r.op.fired[F_alloc] + r.op.fired[F_allocp] > 0});
        note(Str() << th << " del " << s.label << " [" << d0 - s.c1 << "," << d1 - s.c0 << "]");
    }
}

long dur(Rng& r) {
    switch (r.below(6)) {
        case 5: return r.range(1, 400) * 86400L * 1000000000L + r.range(0, 999999999L);       // days
        case 0: return r.range(1, 999);
        case 1: return r.range(1, 50) * 1000;
        case 2: return r.range(1, 500) * 1000000L;
        case 3: return r.range(1, 90000) * 1000000000L;
        default: return r.range(1, 1000000007L);
    }
}

void gen(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 3);
    p.add("cfg").a(nt).a(r.range(1, nt)).a(r.chance(30) ? r.range(0, 1000) : r.range(0, 400000000000000000L)).a(r.range(-2000000000L, 4000000000L));
    std::vector<std::string> labels = {"Lp", "Lq", "L r"};
    if (r.chance(15)) labels.push_back("L" + std::string((size_t)r.range(16, 80), 'z'));
    bool faults = r.chance(35), pre = r.chance(80), stalls = r.chance(50), walls = r.chance(50);
    auto dress = [&](Line& l) {
        if (faults) arm_alloc(r, l, 18, 6);
        if (pre && nt > 1) arm_preempt(r, l, nt, 60, 3, 8);
        if (stalls && r.chance(20)) l.f(F_stall, dur(r));
        if (walls && r.chance(15)) l.f(F_wall_jump, r.range(-100000000, 100000000));
    };
    for (int t = 1; t <= nt; ++t) {
        int n = (int)r.range(3, 9), depth = 0;
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(100);
            if (k < 30) p.add("adv").t(t).a(dur(r));
            else if (k < 36) { if (walls) p.add("wall").t(t).a(r.range(-1000000000L, 1000000000L)); }
            else if (k < 50) { Line& l = p.add("new").t(t).a((long)r.below(3)).s(r.pick(labels)); dress(l); }
            else if (k < 60) { Line& l = p.add("read").t(t).a((long)r.below(3)); dress(l); }
            else if (k < 72) { Line& l = p.add("del").t(t).a((long)r.below(3)); dress(l); }
            else if (k < 84 && depth < 3) { Line& l = p.add("scope").t(t).s(r.pick(labels)).a(r.chance(30)); dress(l); ++depth; }
            else if (k < 92 && depth < 3) { Line& l = p.add("macro").t(t).a((long)r.below(2)).a(r.chance(30)); dress(l); ++depth; }
            else if (depth > 0) { Line& l = p.add("end").t(t); dress(l); --depth; }
        }
        while (depth-- > 0) { if (r.chance(50)) p.add("adv").t(t).a(dur(r)); Line& l = p.add("end").t(t); dress(l); }
    }
}

void check_final(const std::string& text) {
    std::vector<Row> rows = parse_report(text);
    std::map<std::string, std::vector<M>> exp;
    for (auto& m : ms) exp[m.label].push_back(m);
    std::map<std::string, const Row*> byl;
    for (auto& r : rows) {
        std::string l = r.label;
        for (const char* mac : {"simMacroAlpha", "simMacroBeta"}) if (l.find(mac) != std::string::npos) l = mac;
        if (byl.count(l)) violate("duplicate-label", Str() << "label \"" << l << "\" reported twice");
        byl[l] = &r;
        if (!exp.count(l)) violate("phantom-measurement", Str() << "label \"" << r.label << "\" has measurements but no timer of that label ended");
    }
    for (auto& kv : exp) {
        std::vector<M> sure, opt;
        for (auto& m : kv.second) (m.optional ? opt : sure).push_back(m);
        if (opt.size() > 10) continue;
        auto it = byl.find(kv.first);
        bool ok = false;
        for (u64 b = 0; b < (1ull << opt.size()) && !ok; ++b) {
            std::vector<M> s = sure;
            for (size_t k = 0; k < opt.size(); ++k) if (b >> k & 1) s.push_back(opt[k]);
            if (s.empty()) { ok = it == byl.end(); continue; }
            if (it == byl.end() || it->second->count != s.size()) continue;
            const Row& r = *it->second;
            u64 minlo = ~0ull, minhi = ~0ull, maxlo = 0, maxhi = 0;
            long double slo = 0, shi = 0;
            bool point = true;
            for (auto& m : s) {
                minlo = std::min(minlo, m.lo); minhi = std::min(minhi, m.hi);
                maxlo = std::max(maxlo, m.lo); maxhi = std::max(maxhi, m.hi);
                slo += m.lo; shi += m.hi;
                if (m.lo != m.hi) point = false;
            }
            double tol = 1e-7;
            double alo = (double)(slo / s.size() / 1e6L), ahi = (double)(shi / s.size() / 1e6L);
            ok = within(r.mn, minlo, minhi) && within(r.mx, maxlo, maxhi) && r.avg >= alo - tol * (1 + alo) && r.avg <= ahi + tol * (1 + ahi);
            if (ok && point) {
                probe("exact-durations");
                long double mean = slo / s.size() / 1e6L, q = 0;
                for (auto& m : s) { long double d = (long double)m.lo / 1e6L - mean; q += d * d; }
                double var = s.size() > 1 ? (double)(q / (s.size() - 1)) : 0;
                double sc = (double)maxhi / 1e6;
                ok = std::fabs(r.var - var) <= 1e-7 * (var + 1e-3 * sc * sc + 1e-12);
            }
        }
        if (!ok) {
            Str m;
            m.o.precision(17);
            m << "label \"" << kv.first << "\": " << (it == byl.end() ? std::string("missing from the report") : show_row(*it->second)) << " but the timers of that label lasted (ns):";
            for (auto& x : sure) m << " [" << x.lo << "," << x.hi << "]";
            if (!opt.empty()) { m << "; possibly lost:"; for (auto& x : opt) m << " [" << x.lo << "," << x.hi << "]"; }
            violate("wrong-measurement", m);
        }
    }
}

void exec(const Plan& p) {
    int nt = 1, first = 1;
    std::map<int, std::vector<const Line*>> per;
    for (auto& l : p.lines) {
        if (l.op == "cfg") { nt = (int)l.i(0); first = (int)l.i(1); set_clock((u64)l.i(2), l.i(3)); }
        else per[l.thread].push_back(&l);
    }
    if (!g_clock_on) set_clock(1000, 1000);
    if (nt < 1) nt = 1;
    if (nt > 8) nt = 8;
    Line none;
    none.op = "final";
    run_threads(nt, first, [&](int t) {
        run_body(per[t], 0, per[t].size(), t);
        for (int k = 0; k < 4; ++k) {       // whatever is still running ends here
            Line d;
            d.op = "del";
            d.a(k);
            std::vector<const Line*> one = {&d};
            size_t i = 0;
            exec_line(one, i, t);
        }
    });
    std::ostringstream out;
    out.precision(17);
    CallResult r;
    call(r, none, [&]() { rofl::Profiler::getProfiler().printStats(out); });
    check_excuse(r, none, "printStats");
    note(out.str());
    check_final(out.str());
}
SIM_SCENARIO(c06, 1, gen, exec)
}  // namespace

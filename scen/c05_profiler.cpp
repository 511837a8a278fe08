// C05: profiler statistics are exact under any interleaving of its callers.
#include "../sim/core.h"
#include "../sim/sched.h"
#include <rofl/common/profiler.h>
#include "profiler_util.h"
#include <algorithm>
#include <cmath>
using namespace sim;

namespace {
struct Rec { std::string label; double t; int thread; u64 inv, ret; bool failed; bool unknown; };
struct Rep { std::string text; u64 inv, ret; };
std::vector<Rec> recs;
std::vector<Rep> reps;

bool close_to(double a, double b, double scale) { return std::fabs(a - b) <= 1e-7 * (std::fabs(b) + scale); }

bool matches(const Row& r, const std::vector<double>& v) {
    if (v.empty() || r.count != v.size()) return false;
    double mn = v[0], mx = v[0];
    long double s = 0;
    for (double x : v) { mn = std::min(mn, x); mx = std::max(mx, x); s += x; }
    long double m = s / v.size(), q = 0;
    for (double x : v) q += ((long double)x - m) * ((long double)x - m);
    double var = v.size() > 1 ? (double)(q / (v.size() - 1)) : 0.0;
    double spread = mx - mn;
    return r.mn == mn && r.mx == mx && close_to(r.avg, (double)m, spread * 1e-3) && close_to(r.var, var, spread * spread * 1e-3 + 1e-12);
}

void check_report(const Rep& rep, bool final) {
    std::vector<Row> rows = parse_report(rep.text);
    std::map<std::string, const Row*> byl;
    for (auto& r : rows) {
        if (byl.count(r.label)) violate("duplicate-label", Str() << "label \"" << r.label << "\" reported twice");
        byl[r.label] = &r;
    }
    std::map<std::string, std::vector<const Rec*>> labels;
    for (auto& r : recs) if (!r.failed) labels[r.label].push_back(&r);
    for (auto& r : rows)
        if (!labels.count(r.label)) violate("phantom-label", Str() << "label \"" << r.label << "\" was never recorded");
    for (auto& kv : labels) {
        std::vector<double> base;
        std::map<int, std::vector<double>> opt;       // per thread, in order: a prefix may be included
        for (auto* r : kv.second) {
            if (r->ret && r->ret < rep.inv) base.push_back(r->t);
            else if (r->inv < rep.ret) opt[r->thread].push_back(r->t);
        }
        auto it = byl.find(kv.first);
        std::vector<std::vector<double>> ov;
        for (auto& o : opt) ov.push_back(o.second);
        std::vector<size_t> n(ov.size(), 0);
        bool ok = false;
        for (;;) {
            std::vector<double> v = base;
            for (size_t i = 0; i < ov.size(); ++i) v.insert(v.end(), ov[i].begin(), ov[i].begin() + (long)n[i]);
            if (v.empty() ? it == byl.end() : it != byl.end() && matches(*it->second, v)) { ok = true; break; }
            size_t i = 0;
            for (; i < n.size(); ++i) { if (++n[i] <= ov[i].size()) break; n[i] = 0; }
            if (i == n.size()) break;
        }
        if (!opt.empty()) probe("report-during-recordings");
        if (!ok) {
            Str s;
            s.o.precision(17);
            s << "label \"" << kv.first << "\": " << (it == byl.end() ? std::string("missing from the report") : show_row(*it->second)) << " but recorded:";
            for (double x : base) s << " " << x;
            if (!opt.empty()) { s << "; possibly also:"; for (auto& o : ov) for (double x : o) s << " " << x; }
            violate(final ? "wrong-statistics" : "inconsistent-report", s);
        }
    }
}

void exec_op(const Line& l, int th) {
    CallResult r;
    if (l.op == "rec") {
        std::string label = l.str(0);
        double t = l.dbl(1);
        size_t k;
        { HostScope h; k = recs.size(); recs.push_back(Rec{label, t, th, tick(), 0, false, false}); }
        call(r, l, [&]() { rofl::Profiler::getProfiler().updateStat(label, t); });
        check_excuse(r, l, "updateStat");
        recs[k].ret = tick();
        recs[k].failed = !r.ok();
        if (!r.ok()) probe("recording-failed");
        note(Str() << th << " rec " << label << " " << t << (r.ok() ? "" : " failed"));
    } else if (l.op == "recn") {          // very many recordings under one label
        std::string label = l.str(0);
        for (long i = 0; i < std::min(l.i(2), 200000L); ++i) {
            double t = l.dbl(1) + (double)(i * 7919 % 1013) * 0.5;
            size_t k;
            { HostScope h; k = recs.size(); recs.push_back(Rec{label, t, th, tick(), 0, false, false}); }
            call(r, l, [&]() { rofl::Profiler::getProfiler().updateStat(label, t); });
            check_excuse(r, l, "updateStat");
            recs[k].ret = tick();
            recs[k].failed = !r.ok();
        }
        note(Str() << th << " recn " << label << " " << l.i(2));
    } else if (l.op == "rep") {
        std::ostringstream out;
        out.precision(17);
        u64 inv = tick();
        call(r, l, [&]() { rofl::Profiler::getProfiler().printStats(out); });
        check_excuse(r, l, "printStats");
        u64 ret = tick();
        note(Str() << th << " rep " << (r.ok() ? out.str() : std::string("failed")));
        // an output stream (the caller's, or one used to build the text) hides a failed allocation behind its error state; then the text may be cut
        if (r.ok() && out.good() && !r.fired(F_alloc) && !r.fired(F_allocp)) reps.push_back(Rep{out.str(), inv, ret});
    }
}

void gen(Rng& r, Plan& p) {
    int nt = (int)r.range(1, 4);
    p.add("cfg").a(nt).a(r.range(1, nt));
    std::vector<std::string> pool = {"a", "b", "load map", "x_1", "detect", "a b c", "A", ""};
    int nl = (int)r.range(1, 3);
    bool many = r.chance(3);     // many labels: the table grows and rehashes
    if (many) { nl = (int)r.range(20, 120); pool.clear(); for (int i = 0; i < nl; ++i) pool.push_back("step " + std::to_string(i * 7919 % 1000)); }
    std::vector<std::string> labels;
    for (int i = 0; i < nl; ++i) {
        std::string l = r.pick(pool);
        if (r.chance(10)) l = std::string((size_t)r.range(20, 60), 'L') + l;
        labels.push_back(l);
    }
    static const double offs[] = {0, 0, 0, 1e3, 1e6, -50};
    double off = offs[r.below(6)];
    bool frac = r.chance(30);
    int ops = (int)r.range(2, 5);
    if (r.chance(6)) { nt = (int)r.range(1, 2); p.lines[0].args = {std::to_string(nt), "1"}; ops = (int)r.range(10, 150); }   // long histories
    if (many) { nt = (int)r.range(1, 2); p.lines[0].args = {std::to_string(nt), "1"}; ops = (int)r.range(nl / 2, 2 * nl + 20); }
    bool faults = r.chance(35), pre = r.chance(85);
    if (r.chance(1)) {
        nt = 1;
        p.lines[0].args = {"1", "1"};
        p.add("recn").t(1).s(labels[0]).d(off).a(r.chance(10) ? r.range(60000, 70000) : r.range(200, 3000));
    }
    for (int t = 1; t <= nt; ++t)
        for (int i = 0; i < ops; ++i) {
            Line& l = p.add(r.chance(80) ? "rec" : "rep").t(t);
            if (l.op == "rec") l.s(r.pick(labels)).d(off + (double)r.range(0, r.chance(50) ? 3 : 100) * (frac ? 0.125 : 1.0));
            if (faults) arm_alloc(r, l, 20, 6);
            if (pre) arm_preempt(r, l, nt, 70, 4, 9);
        }
}

void exec(const Plan& p) {
    int nt = 1, first = 1;
    std::map<int, std::vector<const Line*>> per;
    for (auto& l : p.lines) {
        if (l.op == "cfg") { nt = (int)l.i(0); first = (int)l.i(1); }
        else per[l.thread].push_back(&l);
    }
    if (nt < 1) nt = 1;
    if (nt > 8) nt = 8;
    run_threads(nt, first, [&](int t) { for (auto* l : per[t]) exec_op(*l, t); });
    for (auto& rp : reps) check_report(rp, false);
    Line fl;
    fl.op = "final";
    std::ostringstream out;
    out.precision(17);
    CallResult r;
    u64 inv = tick();
    call(r, fl, [&]() { rofl::Profiler::getProfiler().printStats(out); });
    check_excuse(r, fl, "printStats");
    note(out.str());
    check_report(Rep{out.str(), inv, tick()}, true);
}
SIM_SCENARIO(c05, 1, gen, exec)
}  // namespace

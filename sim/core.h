// Deterministic simulation core.
//
// A check binary links /repo's sources, one scenario file, and this core.  A zygote process forks
// one child per simulated run; the child derives a *plan* from the run's seed (or reads it from a
// replay file) and executes it.  A plan is plain text: one operation per line with its arguments
// and the faults injected into it, plus (in scheduled mode) the preemption points.  Nothing else
// influences a run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;

// ---------------------------------------------------------------- randomness (seeded, splitmix)
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    bool chance(int percent) { return (int)below(100) < percent; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // small numbers are likely, big ones possible
    long skew(long max) {
        long m = max;
        int k = (int)below(4);
        for (int i = 0; i < k; ++i) m = m / 4 + 1;
        if (m > max) m = max;
        return range(0, m);
    }
};

u64 mix(u64 a, u64 b);

// ---------------------------------------------------------------- fault kinds
#define SIM_FAULT_KINDS(X)                                                                        \
    X(alloc) X(allocp)                                                                            \
    X(open_emfile) X(open_eacces)                                                                 \
    X(rd_eio) X(rd_short) X(rd_eintr)                                                             \
    X(rd_once) X(wr_once)                                                                         \
    X(wr_enospc) X(wr_eio) X(wr_short) X(wr_eintr) X(close_err) X(crash)                          \
    X(opendir_err) X(readdir_err) X(readdir_perm) X(dt_unknown) X(stat_err)                       \
    X(dir_create) X(dir_delete)                                                                   \
    X(st_chunk) X(st_fail) X(st_throw) X(cb_throw)                                                \
    X(preempt) X(wall_jump) X(stall) X(tz_change) X(env_change)
enum FaultKind {
#define X(n) F_##n,
    SIM_FAULT_KINDS(X)
#undef X
        F_COUNT
};
extern const char* const fault_names[F_COUNT];

// ---------------------------------------------------------------- plans
std::string enc(const std::string& s);   // percent-encode into one token
std::string dec(const std::string& s);

struct Line {
    std::string op;
    std::vector<std::string> args;            // encoded tokens
    std::vector<std::pair<int, long>> faults; // (FaultKind, value)
    int thread = 0;
    Line& a(long v) { args.push_back(std::to_string(v)); return *this; }
    Line& s(const std::string& v) { args.push_back(enc(v)); return *this; }
    Line& d(double v);
    Line& f(FaultKind k, long v) { faults.push_back({(int)k, v}); return *this; }
    Line& t(int th) { thread = th; return *this; }
    size_t n() const { return args.size(); }
    long i(size_t k) const { return k < args.size() ? strtol(args[k].c_str(), nullptr, 10) : 0; }
    double dbl(size_t k) const { return k < args.size() ? strtod(args[k].c_str(), nullptr) : 0; }
    std::string str(size_t k) const { return k < args.size() ? dec(args[k]) : std::string(); }
    bool has(FaultKind k) const { for (auto& p : faults) if (p.first == k) return true; return false; }
    long fv(FaultKind k) const { for (auto& p : faults) if (p.first == k) return p.second; return -1; }
};

struct SchedPoint { char kind; u64 at; int to; int thread; };  // after `at` events of `kind` -> run thread `to`

struct Plan {
    std::string scen;
    std::vector<Line> lines;
    std::vector<SchedPoint> sched;
    Line& add(const std::string& op) { lines.push_back(Line()); lines.back().op = op; return lines.back(); }
};
std::string format_plan(const Plan&);
bool parse_plan(const std::string& text, Plan& p);

// ---------------------------------------------------------------- results
[[noreturn]] void violate(const char* cls, const std::string& msg);
[[noreturn]] void harness_error(const char* what);
void note(const std::string& s);            // part of the recorded history (hashed; printed on replay)
void probe(const char* name);               // reachability counter
void fault_fired(FaultKind k, u64 n = 1);
void add_simtime(u64 ns);
void set_schedhash(u64 h);
extern bool g_trace;

struct Str {   // tiny formatter
    std::ostringstream o;
    template <class T> Str& operator<<(const T& v) { o << v; return *this; }
    operator std::string() const { return o.str(); }
};

// ---------------------------------------------------------------- library windows
struct InjectedError : std::runtime_error {   // what harness callbacks throw when told to
    InjectedError() : std::runtime_error("injected") {}
};

struct OpCtx {                // faults armed for the library call in progress (per thread)
    const Line* line = nullptr;
    long at[F_COUNT];
    u64 fired[F_COUNT];
    long allocs = 0, frees = 0, reads = 0, writes = 0, wbytes = 0, cbs = 0, readdirs = 0, stats = 0;
    bool anyfired() const { for (u64 f : fired) if (f) return true; return false; }
};
extern thread_local OpCtx* t_op;      // armed context, or null
extern thread_local int t_host;       // >0: harness code running inside a library call

inline bool in_lib() { return t_op != nullptr && t_host == 0; }

struct HostScope {
    HostScope() { ++t_host; }
    ~HostScope() { --t_host; }
};

enum Out { OK = 0, NOMEM, INJECTED, THROWN };
struct CallResult {
    Out out = OK;
    std::string what;
    OpCtx op;
    bool ok() const { return out == OK; }
    u64 fired(FaultKind k) const { return op.fired[k]; }
};

void begin_op(OpCtx& op, const Line& l);
void end_op(OpCtx& op);
void sched_enter();   // scheduled mode: window opened/closed (no-ops in fault mode)
void sched_leave();

// Runs f as one library call with the faults of line l armed.
template <class F> void call(CallResult& r, const Line& l, F&& f) {
    begin_op(r.op, l);
    try {
        struct W { OpCtx& o; W(OpCtx& o_) : o(o_) { t_op = &o; sched_enter(); } ~W() { sched_leave(); t_op = nullptr; } } w(r.op);
        f();
    } catch (const std::bad_alloc&) {
        r.out = NOMEM;
    } catch (const InjectedError&) {
        r.out = INJECTED;
    } catch (const std::exception& e) {
        r.out = THROWN;
        r.what = e.what();
    } catch (...) {
        r.out = THROWN;
        r.what = "non-standard exception";
    }
    end_op(r.op);
}

// Callback seam: harness code invoked by the library (converters, comparators, copies...)
inline bool cb_should_throw() {
    if (t_op && t_op->at[F_cb_throw] > 0 && ++t_op->cbs == t_op->at[F_cb_throw]) {
        ++t_op->fired[F_cb_throw];
        return true;
    }
    return false;
}

// A call that failed must have had a fault injected into it.
void check_excuse(const CallResult& r, const Line& l, const char* what);

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char* name;
    int weight;
    void (*gen)(Rng&, Plan&);
    void (*exec)(const Plan&);
};
void register_scenario(const Scenario& s);
struct Registrar { Registrar(const Scenario& s) { register_scenario(s); } };
#define SIM_SCENARIO(ident, weight, gen, exec) static sim::Registrar reg_##ident(sim::Scenario{#ident, weight, gen, exec});

void arm_alloc(Rng& r, Line& l, int percent, long maxk);   // maybe attach an allocation failure
std::string scratch_dir();   // a private directory for this run (removed afterwards)
void set_step_budget(u64 n);
std::string in_fresh_process(const std::function<std::string()>& f);
struct DirEvent { long at; bool create; std::string path; };   // applied before the at-th entry is delivered
extern std::vector<DirEvent>* g_dir_events;
extern bool g_terminate_ok;  // a failed allocation may end the process (scenario decides)
extern bool g_alloc_own_only; // only allocations requested by code compiled into the simulator fail, not those made inside shared libraries
extern bool g_crashed;       // disk seam: later writes vanish

// clock (both modes): virtual time in ns
struct Clock { u64 mono; long long wall; };
extern Clock g_clock;
extern bool g_clock_on;

int sim_main(int argc, char** argv);
}  // namespace sim

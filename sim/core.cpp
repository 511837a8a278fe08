// Simulation core: plans, runs, allocation faults, coverage, process management.
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <set>
#include <signal.h>
#include <streambuf>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void* __real_malloc(size_t);

namespace sim {

const char* const fault_names[F_COUNT] = {
#define X(n) #n,
    SIM_FAULT_KINDS(X)
#undef X
};

thread_local OpCtx* t_op = nullptr;
thread_local int t_host = 0;
bool g_trace = false;
Clock g_clock;
bool g_clock_on = false;

// ---------------------------------------------------------------- shared result
struct Result {
    int status;            // 0 = running, 1 = finished, 2 = violation, 3 = harness error
    char cls[96];
    char msg[2048];
    u64 evhash, schedhash, covhash, steps, simns, ops;
    u64 faults[F_COUNT];
    int nprobes;
    char probe_name[64][40];
    u64 probe_n[64];
    char plan[1];          // unused
};
static Result* R;
static u64 g_budget = 40000000;

u64 mix(u64 a, u64 b) {
    Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c159e3779b9ULL));
    r.next();
    return r.next() ^ b;
}

static u64 fnv(u64 h, const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}

static void copy_s(char* d, size_t n, const char* s) {
    size_t i = 0;
    for (; i + 1 < n && s[i]; ++i) d[i] = (s[i] == '\n' || s[i] == '\r' || s[i] == '\t') ? ' ' : (s[i] < 32 || s[i] > 126) ? '?' : s[i];
    d[i] = 0;
}

static void finish_cov();

// the scratch directory's own name is not part of a history
static std::string g_scratch_name();
static std::string anon(const std::string& s) {
    std::string b = g_scratch_name(), o = s;
    if (b.empty()) return o;
    for (size_t at = 0; (at = o.find(b, at)) != std::string::npos; ++at) o.replace(at, b.size(), "*");
    return o;
}

void violate(const char* cls, const std::string& msg0) {
    t_op = nullptr;
    ++t_host;
    std::string msg = anon(msg0);
    if (R->status == 0) {
        copy_s(R->cls, sizeof R->cls, cls);
        copy_s(R->msg, sizeof R->msg, msg.c_str());
        R->status = 2;
        finish_cov();
    }
    if (g_trace) { fprintf(stdout, "!! %s: %s\n", R->cls, R->msg); fflush(stdout); }
    syscall(SYS_exit_group, 42);
    __builtin_unreachable();
}

void harness_error(const char* what) {
    R->status = 3;
    copy_s(R->cls, sizeof R->cls, "harness-exception");
    copy_s(R->msg, sizeof R->msg, what);
    syscall(SYS_exit_group, 3);
    __builtin_unreachable();
}

void note(const std::string& s0) {
    HostScope h;
    std::string s = anon(s0);
    R->evhash = fnv(R->evhash, s.data(), s.size());
    R->evhash = fnv(R->evhash, "\n", 1);
    if (g_trace) { fprintf(stdout, "%s\n", s.c_str()); }
}

void probe(const char* name) {
    for (int i = 0; i < R->nprobes; ++i)
        if (!strcmp(R->probe_name[i], name)) { ++R->probe_n[i]; return; }
    if (R->nprobes < 64) {
        copy_s(R->probe_name[R->nprobes], 40, name);
        R->probe_n[R->nprobes++] = 1;
    }
}

void fault_fired(FaultKind k, u64 n) { R->faults[k] += n; }
void add_simtime(u64 ns) { R->simns += ns; }
void set_schedhash(u64 h) { R->schedhash = h; }
void set_step_budget(u64 n) { g_budget = n; }

// ---------------------------------------------------------------- plan text
std::string enc(const std::string& s) {
    static const char* H = "0123456789ABCDEF";
    std::string o;
    if (s.empty()) return "%";
    for (unsigned char c : s) {
        if (isalnum(c) || (c && strchr("_-.,:/~[]()+=#*@;<>?", c))) o += (char)c;
        else { o += '%'; o += H[c >> 4]; o += H[c & 15]; }
    }
    return o;
}
std::string dec(const std::string& s) {
    std::string o;
    if (s == "%") return o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) {
            o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        } else o += s[i];
    }
    return o;
}

Line& Line::d(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    args.push_back(b);
    return *this;
}

std::string format_plan(const Plan& p) {
    std::string o = "scen " + p.scen + "\n";
    for (auto& l : p.lines) {
        o += "op " + std::to_string(l.thread) + " " + l.op;
        for (auto& a : l.args) o += " " + a;
        for (auto& f : l.faults) o += std::string(" !") + fault_names[f.first] + "=" + std::to_string(f.second);
        o += "\n";
    }
    for (auto& s : p.sched) {
        o += std::string("sched ") + s.kind + " " + std::to_string(s.thread) + " " + std::to_string(s.at) + " " + std::to_string(s.to) + "\n";
    }
    return o;
}

bool parse_plan(const std::string& text, Plan& p) {
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string tag;
        ls >> tag;
        if (tag == "scen") ls >> p.scen;
        else if (tag == "op") {
            Line l;
            ls >> l.thread >> l.op;
            std::string t;
            while (ls >> t) {
                if (t[0] == '!') {
                    size_t e = t.find('=');
                    if (e == std::string::npos) return false;
                    std::string n = t.substr(1, e - 1);
                    bool found = false;
                    for (int k = 0; k < F_COUNT; ++k)
                        if (n == fault_names[k]) { l.faults.push_back({k, strtol(t.c_str() + e + 1, nullptr, 10)}); found = true; }
                    if (!found) return false;
                } else l.args.push_back(t);
            }
            p.lines.push_back(l);
        } else if (tag == "sched") {
            SchedPoint s;
            ls >> s.kind >> s.thread >> s.at >> s.to;
            p.sched.push_back(s);
        } else return false;
    }
    return !p.scen.empty();
}

// ---------------------------------------------------------------- library windows
void begin_op(OpCtx& op, const Line& l) {
    op.line = &l;
    for (int k = 0; k < F_COUNT; ++k) { op.at[k] = -1; op.fired[k] = 0; }
    for (auto& f : l.faults) op.at[f.first] = f.second;
    op.allocs = op.frees = op.reads = op.writes = op.wbytes = op.cbs = op.readdirs = op.stats = 0;
    ++R->ops;
}
void end_op(OpCtx& op) {
    for (int k = 0; k < F_COUNT; ++k) R->faults[k] += op.fired[k];
    op.line = nullptr;
}

__attribute__((weak)) void sched_enter() {}
__attribute__((weak)) void sched_leave() {}

void check_excuse(const CallResult& r, const Line& l, const char* what) {
    if (r.out == OK) return;
    if (r.out == NOMEM && (r.op.fired[F_alloc] || r.op.fired[F_allocp])) return;
    if (r.out == INJECTED && r.op.fired[F_cb_throw]) return;
    if (r.op.anyfired() && r.out == THROWN) return;
    violate("unexplained-exception", Str() << what << " (" << l.op << ") threw without any injected fault: "
        << (r.out == NOMEM ? "bad_alloc" : r.out == INJECTED ? "injected" : r.what.c_str()));
}

static std::vector<Scenario>& scens() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario& s) { scens().push_back(s); }

void arm_alloc(Rng& r, Line& l, int percent, long maxk) {
    if (!r.chance(percent)) return;
    long k = 1 + r.skew(maxk - 1);
    l.f(r.chance(20) ? F_allocp : F_alloc, k);
}

static std::string g_scratch_base, g_scratch;
static int g_scratch_n = 0;
static void rmtree(const std::string& d) {
    DIR* h = opendir(d.c_str());
    if (!h) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(h)) names.push_back(e->d_name);
    closedir(h);
    for (auto& n : names) {
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); rmtree(p); }
        else unlink(p.c_str());
    }
    rmdir(d.c_str());
}
static std::string g_scratch_name() { return g_scratch; }
std::string scratch_dir() {
    HostScope h;
    if (g_scratch.empty()) {
        g_scratch = g_scratch_base + "/run";
        rmtree(g_scratch);
        mkdir(g_scratch.c_str(), 0700);
    }
    return g_scratch;
}

// ---------------------------------------------------------------- allocation seam
static u64 g_live = 0;
static const u64 LIVE_CAP = 600ull << 20;

// returns true when this allocation has to fail
bool g_alloc_own_only = false;
extern "C" char __executable_start, etext;
static inline bool alloc_fault(size_t n, const void* caller) {
    if (!in_lib()) return false;
    if (g_alloc_own_only && ((const char*)caller < &__executable_start || (const char*)caller >= &etext)) return false;
    OpCtx& o = *t_op;
    ++o.allocs;
    if (o.at[F_alloc] > 0 && o.allocs == o.at[F_alloc]) { ++o.fired[F_alloc]; return true; }
    if (o.at[F_allocp] > 0 && o.allocs >= o.at[F_allocp]) { ++o.fired[F_allocp]; return true; }
    if (n > (256ull << 20)) violate("runaway-allocation", "library asked for more than 256 MB at once");
    return false;
}
void sched_alloc_event() __attribute__((weak));
void sched_alloc_event() {}
void mem_created(void*, size_t) __attribute__((weak));
void mem_created(void*, size_t) {}
void mem_destroyed(void*, size_t) __attribute__((weak));
void mem_destroyed(void*, size_t) {}

static inline __attribute__((always_inline)) void* do_new(size_t n, size_t al, bool nothrow) {
    if (in_lib()) sched_alloc_event();
    if (alloc_fault(n, __builtin_return_address(0))) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    void* p = al > 16 ? memalign(al, n ? n : 1) : __real_malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    size_t u = malloc_usable_size(p);
    __atomic_fetch_add(&g_live, u, __ATOMIC_RELAXED);
    if (in_lib() && g_live > LIVE_CAP) violate("runaway-allocation", "library holds more than 600 MB");
    mem_created(p, u);
    return p;
}
static inline void do_delete(void* p) {
    if (!p) return;
    size_t u = malloc_usable_size(p);
    __atomic_fetch_sub(&g_live, u, __ATOMIC_RELAXED);
    mem_destroyed(p, u);
    free(p);
}

// ---------------------------------------------------------------- coverage seam (trace-pc-guard)
static uint32_t g_nguards = 0;
static std::vector<uint32_t>* g_hits;      // index -> count
static std::vector<uint32_t>* g_touched;
static u64 g_steps = 0;

static void finish_cov() {
    R->steps = g_steps;
    if (!g_hits) return;
    u64 h = 0;
    for (uint32_t i : *g_touched) {
        uint32_t c = (*g_hits)[i];
        int b = 0;
        while (c) { ++b; c >>= 1; }
        h += mix(i, (u64)b);
    }
    R->covhash = h;
}
void count_step() { if (++g_steps > g_budget) violate("no-progress", "library call did not finish within the step budget"); }
void cov_init() {
    g_hits = new std::vector<uint32_t>(g_nguards + 1, 0);
    g_touched = new std::vector<uint32_t>();
    g_touched->reserve(4096);
}

// ---------------------------------------------------------------- run control
bool g_terminate_ok = false;
static void on_terminate() {
    // bad_alloc thrown inside a noexcept function of the standard library itself: the process ends,
    // which the scenario declared acceptable
    if (g_terminate_ok && t_op && (t_op->fired[F_alloc] || t_op->fired[F_allocp])) {
        OpCtx* o = t_op;
        t_op = nullptr;
        end_op(*o);
        probe("ended-in-noexcept");
        note("terminate (memory)");
        finish_cov();
        R->status = 1;
        if (g_trace) fflush(stdout);
        syscall(SYS_exit_group, 0);
    }
    std::string w = "std::terminate called";
    t_op = nullptr;
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { w += std::string(": ") + x.what(); }
        catch (...) {}
    }
    violate("terminate", w);
}

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
static NullBuf g_null;

static void sig_crash(int s) {
    if (R->status == 0) {
        char b[64];
        snprintf(b, sizeof b, "signal-%d", s);
        copy_s(R->cls, sizeof R->cls, b);
        copy_s(R->msg, sizeof R->msg, s == SIGALRM ? "run exceeded its wall-clock safety limit" : "process killed by a signal");
        R->status = 2;
    }
    syscall(SYS_exit_group, 43);
}

static const Scenario* find_scen(const std::string& n) {
    for (auto& s : scens()) if (n == s.name) return &s;
    return nullptr;
}

static void gen_plan(u64 seed, Plan& p, const std::string& only) {
    Rng r(seed);
    int tot = 0;
    for (auto& s : scens()) if (only.empty() || only == s.name) tot += s.weight;
    long k = (long)r.below(tot);
    for (auto& s : scens()) {
        if (!only.empty() && only != s.name) continue;
        k -= s.weight;
        if (k < 0) { p.scen = s.name; s.gen(r, p); return; }
    }
}

// executes a plan in this (child) process; never returns
static void run_child(const Plan& p) {
    std::set_terminate(on_terminate);
    signal(SIGALRM, sig_crash);
#ifndef SIM_ASAN
    static char altst[65536];
    stack_t ss = {};
    ss.ss_sp = altst;
    ss.ss_size = sizeof altst;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_handler = sig_crash;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
#else
    for (int s : {SIGABRT, SIGFPE, SIGILL}) signal(s, sig_crash);
#endif
    alarm(30);
    std::cout.rdbuf(&g_null);
    std::cerr.rdbuf(&g_null);
    std::clog.rdbuf(&g_null);
    cov_init();
    R->evhash = 1469598103934665603ULL;
    const Scenario* s = find_scen(p.scen);
    if (!s) { R->status = 3; copy_s(R->msg, sizeof R->msg, "unknown scenario"); syscall(SYS_exit_group, 3); }
    try {
        s->exec(p);
    } catch (const std::exception& e) {
        harness_error(e.what());
    }
    finish_cov();
    R->status = 1;
    if (g_trace) fflush(stdout);
    syscall(SYS_exit_group, 0);
}

static void fork_run(const std::function<void(Plan&)>& mk) {
    memset(R, 0, sizeof *R);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        Plan p;
        mk(p);
        run_child(p);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!g_scratch_base.empty()) rmtree(g_scratch_base + "/run");
    if (R->status == 0) {   // died without reporting
        R->status = 2;
        if (WIFSIGNALED(st)) snprintf(R->cls, sizeof R->cls, "signal-%d", WTERMSIG(st));
        else snprintf(R->cls, sizeof R->cls, "exit-%d", WEXITSTATUS(st));
        if (!R->msg[0]) copy_s(R->msg, sizeof R->msg, "process ended inside the simulated run");
    }
}

// Computes something in a pristine process: fork, run f (which may be a library call), and return
// the bytes it produced.
std::string in_fresh_process(const std::function<std::string()>& f) {
    HostScope h;
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        std::string s = f();
        size_t o = 0;
        while (o < s.size()) { ssize_t k = syscall(SYS_write, fd[1], s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; }
        syscall(SYS_exit_group, 7);
    }
    close(fd[1]);
    std::string out;
    char b[4096];
    for (;;) {
        ssize_t k = syscall(SYS_read, fd[0], b, sizeof b);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        out.append(b, (size_t)k);
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 7)) violate("solo-run-died", "a lone call in a fresh process did not finish");
    return out;
}

int sim_main(int argc, char** argv) {
    mallopt(M_ARENA_MAX, 1);
    // identical address layout in every process (best effort; results do not depend on it)
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOPERS")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOPERS", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::string mode, file, only;
    u64 seed = 1, start = 0, count = 1, stride = 1;
    bool lines = true;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--batch" || a == "--list") mode = a;
        else if (a == "--gen") mode = a;
        else if (a == "--replay") { mode = a; file = val(); }
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--scen") only = val();
        else if (a == "--scratch") g_scratch_base = val();
        else if (a == "--trace") g_trace = true;
        else if (a == "--nolines") lines = false;
    }
    R = (Result*)mmap(nullptr, sizeof(Result) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_scratch_base.empty()) {
        char t[] = "/tmp/vsimXXXXXX";
        if (!mkdtemp(t)) return 3;
        g_scratch_base = t;
    } else mkdir(g_scratch_base.c_str(), 0700);
    struct Clean { ~Clean() { rmtree(g_scratch_base); } } clean;

    if (mode == "--list") {
        for (auto& s : scens()) printf("%s %d\n", s.name, s.weight);
        return 0;
    }
    if (mode == "--gen") {
        Plan p;
        gen_plan(mix(seed, start), p, only);
        fputs(format_plan(p).c_str(), stdout);
        return 0;
    }
    if (mode == "--replay") {
        std::string text;
        FILE* f = fopen(file.c_str(), "r");
        if (!f) { fprintf(stderr, "cannot open %s\n", file.c_str()); return 3; }
        char b[65536];
        size_t k;
        while ((k = fread(b, 1, sizeof b, f)) > 0) text.append(b, k);
        fclose(f);
        if (!g_trace) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
        Plan p0;
        if (!parse_plan(text, p0)) { fprintf(stderr, "bad replay file\n"); return 3; }
        fork_run([&](Plan& p) { p = p0; });
        printf("RESULT status=%d cls=%s hash=%016llx sched=%016llx steps=%llu msg=%s\n", R->status, R->cls[0] ? R->cls : "-",
               (unsigned long long)R->evhash, (unsigned long long)R->schedhash, (unsigned long long)R->steps, R->msg);
        return R->status == 1 ? 0 : R->status == 2 ? 1 : 3;
    }
    if (mode == "--batch") {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        u64 faults[F_COUNT] = {}, steps = 0, simns = 0, ops = 0;
        std::map<std::string, u64> probes;
        for (u64 i = 0; i < count; ++i) {
            u64 idx = start + i * stride;
            fork_run([&](Plan& p) { gen_plan(mix(seed, idx), p, only); });
            u64 nf = 0;
            for (int k = 0; k < F_COUNT; ++k) { faults[k] += R->faults[k]; nf += R->faults[k]; }
            for (int k = 0; k < R->nprobes; ++k) probes[R->probe_name[k]] += R->probe_n[k];
            steps += R->steps; simns += R->simns; ops += R->ops;
            if (lines)
                printf("R %llu %d %016llx %016llx %016llx %llu %llu %llu\n", (unsigned long long)idx, R->status, (unsigned long long)R->evhash,
                       (unsigned long long)R->schedhash, (unsigned long long)R->covhash, (unsigned long long)nf,
                       (unsigned long long)R->ops, (unsigned long long)R->steps);
            if (R->status != 1) {
                printf("V %llu %d %s %s\n", (unsigned long long)idx, R->status, R->cls[0] ? R->cls : "-", R->msg);
                fflush(stdout);
                break;
            }
        }
        printf("S steps %llu\nS simns %llu\nS ops %llu\n", (unsigned long long)steps, (unsigned long long)simns, (unsigned long long)ops);
        for (int k = 0; k < F_COUNT; ++k) if (faults[k]) printf("F %s %llu\n", fault_names[k], (unsigned long long)faults[k]);
        for (auto& p : probes) printf("P %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
        printf("DONE\n");
        return 0;
    }
    fprintf(stderr, "usage: --batch|--gen|--replay FILE [--seed N --start A --count N --stride K]\n");
    return 3;
}
}  // namespace sim

// ---------------------------------------------------------------- interposed symbols
void* operator new(size_t n) { return sim::do_new(n, 0, false); }
void* operator new[](size_t n) { return sim::do_new(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::do_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::do_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { sim::do_delete(p); }
void operator delete[](void* p) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p); }

extern "C" {
void* __wrap_malloc(size_t n) {
    if (sim::in_lib()) {
        sim::sched_alloc_event();
        if (sim::alloc_fault(n, __builtin_return_address(0))) { errno = ENOMEM; return nullptr; }
    }
    void* p = __real_malloc(n);
    if (p) sim::mem_created(p, n);
    return p;
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
    if (sim::in_lib()) sim::violate("library-exit", sim::Str() << "the library ended the process with exit(" << c << ")");
    __real_exit(c);
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (uint32_t* x = a; x < b; ++x) *x = ++sim::g_nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!sim::in_lib() || !sim::g_hits) return;
    uint32_t i = *g;
    if ((*sim::g_hits)[i]++ == 0) { sim::HostScope h; sim::g_touched->push_back(i); }
    sim::count_step();
}
#ifdef SIM_ASAN
const char* __asan_get_report_description();
int __asan_report_present();
const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=44:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_abort=0:quarantine_size_mb=16:print_legend=0:max_malloc_fill_size=4096:malloc_fill_byte=190:alloc_dealloc_mismatch=0:"
           "detect_container_overflow=1:malloc_context_size=3:symbolize=0";
}
void __asan_on_error() {
    if (sim::R && sim::R->status == 0) {
        char b[96];
        snprintf(b, sizeof b, "memory-%s", __asan_get_report_description());
        sim::copy_s(sim::R->cls, sizeof sim::R->cls, b);
        sim::copy_s(sim::R->msg, sizeof sim::R->msg, "invalid memory access detected by AddressSanitizer");
        sim::R->status = 2;
    }
}
#endif
}

int main(int argc, char** argv) { return sim::sim_main(argc, argv); }

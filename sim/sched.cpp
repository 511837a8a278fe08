// Scheduled mode.
//
// The library is compiled with ThreadSanitizer instrumentation, but this file is the runtime: every
// instrumented access, function entry, allocation, lock operation and clock reading inside a library
// window is an event at which the plan may preempt the running thread, and every access feeds a
// happens-before race detector.  Real pthreads, one runnable at a time; the plan decides who.
#include "core.h"
#include "sched.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cxxabi.h>
#include <dlfcn.h>
#include <iostream>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}

namespace sim {
void count_step();

static const int MAXT = 9;      // main + 8
struct VC {
    uint32_t c[MAXT];
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { ABSENT, RUNNABLE, BLOCKED, FINISHED };
struct Thread {
    State st;
    const void* wait;           // what it is blocked on
    int futex;
    int up;                     // its thread has reached the scheduler
    int bye;                    // it may end
    VC vc;
    u64 ev;                     // events in the current window
    u64 since;                  // events since it was switched in
    int np, ip;                 // preemptions of the current line
    struct { u64 at; int to; } pre[64];
    char *lo, *hi;              // its stack
    const std::function<void(int)>* body;
};
static Thread T[MAXT];
static int g_nt = 0;            // simulated threads besides main (0: not running)
static int g_cur = 0;
static u64 g_seq = 0, g_hash = 1469598103934665603ULL;
static thread_local int t_self = 0;
static const u64 FORCED = 20000;
static const size_t STACK = 1 << 20;
alignas(4096) static char g_stacks[MAXT][STACK];

int self() { return t_self; }
u64 tick() { return ++g_seq; }

static void futex_wait(int* f, int v) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == v) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* f) { syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void hand_to(int to) {
    g_cur = to;
    T[to].since = 0;
    __atomic_store_n(&T[to].futex, 1, __ATOMIC_RELEASE);
    futex_wake(&T[to].futex);
}
static void park(int me) {
    futex_wait(&T[me].futex, 0);
    __atomic_store_n(&T[me].futex, 0, __ATOMIC_RELAXED);
}
static int pick(int from) {     // first runnable thread at or after `from`, cyclically
    for (int k = 0; k < g_nt; ++k) {
        int t = 1 + (from - 1 + k + 2 * g_nt) % g_nt;
        if (T[t].st == RUNNABLE) return t;
    }
    return 0;
}
static void switch_to(int to) {
    int me = t_self;
    if (to == me) return;
    g_hash ^= (u64)me * 1000003 + (u64)to; g_hash *= 1099511628211ULL;
    g_hash ^= T[me].ev; g_hash *= 1099511628211ULL;
    // park/hand over happen outside the window's bookkeeping
    hand_to(to);
    park(me);
}
static inline bool managed() { return in_lib() && t_self > 0 && g_nt > 0; }

static void forced_yield() {
    int to = pick(t_self + 1);
    if (to && to != t_self) switch_to(to);
}

// one event of the running thread
static inline void event() {
    if (!managed()) { if (in_lib()) count_step(); return; }
    count_step();
    Thread& t = T[t_self];
    ++t.ev; ++t.since; ++g_seq;
    while (t.ip < t.np && t.pre[t.ip].at <= t.ev) {
        int to = t.pre[t.ip++].to;
        to = pick(to < 1 || to > g_nt ? 1 : to);
        if (to && to != t_self) { fault_fired(F_preempt); switch_to(to); }
    }
    if (t.since > FORCED) { t.since = 0; forced_yield(); }
}
static void block_on(const void* w) {
    Thread& t = T[t_self];
    t.st = BLOCKED;
    t.wait = w;
    int to = pick(t_self + 1);
    if (!to) violate("deadlock", "every unfinished thread waits for another one");
    probe("blocked");
    switch_to(to);
}
static void wake_all(const void* w) {
    for (int i = 1; i <= g_nt; ++i)
        if (T[i].st == BLOCKED && T[i].wait == w) { T[i].st = RUNNABLE; T[i].wait = nullptr; }
}

void sched_enter() {
    if (t_self == 0 || g_nt == 0) return;
    Thread& t = T[t_self];
    t.ev = 0; t.np = t.ip = 0;
    for (auto& f : t_op->line->faults)
        if (f.first == F_preempt && t.np < 64 && f.second >= 0) { t.pre[t.np].at = (u64)f.second / 16; t.pre[t.np].to = (int)(f.second % 16); ++t.np; }
    for (int i = 1; i < t.np; ++i)
        for (int j = i; j > 0 && t.pre[j].at < t.pre[j - 1].at; --j) std::swap(t.pre[j], t.pre[j - 1]);
    event();
}
void sched_leave() { if (managed()) event(); }
void sched_alloc_event() { event(); }

static void* trampoline(void* p) {
    int me = (int)(long)p;
    t_self = me;
    __atomic_store_n(&T[me].up, 1, __ATOMIC_RELEASE);
    futex_wake(&T[me].up);
    park(me);
    try { (*T[me].body)(me); }
    catch (const std::exception& e) { harness_error(e.what()); }
    T[me].st = FINISHED;
    int to = pick(me + 1);
    if (!to)
        for (int i = 1; i <= g_nt; ++i)
            if (T[i].st == BLOCKED) violate("deadlock", "a thread waits for something that never comes");
    hand_to(to);                // 0 = main
    // what the thread library does at its exit (it returns memory to the allocator) must not overlap
    // with the threads still running: leave only when told to
    futex_wait(&T[me].bye, 0);
    return nullptr;
}

static void init_static();
void run_threads(int n, int first, const std::function<void(int)>& body) {
    if (n < 1 || n >= MAXT) throw std::runtime_error("bad number of threads");
    HostScope h;
    init_static();
    g_nt = n;
    for (int i = 1; i <= n; ++i) {
        uint32_t own = T[i].vc.c[i];
        T[i].vc.join(T[0].vc);
        T[i].vc.c[i] = own + 1;
        T[i].st = RUNNABLE; T[i].wait = nullptr; T[i].futex = 0; T[i].body = &body; T[i].since = 0;
    }
    ++T[0].vc.c[0];
    pthread_t th[MAXT];
    for (int i = 1; i <= n; ++i) {      // one at a time, on fixed stacks
        pthread_attr_t a;
        pthread_attr_init(&a);
        T[i].lo = g_stacks[i]; T[i].hi = g_stacks[i] + STACK;
        T[i].up = 0; T[i].bye = 0;
        pthread_attr_setstack(&a, g_stacks[i], STACK);
        if (pthread_create(&th[i], &a, trampoline, (void*)(long)i)) throw std::runtime_error("pthread_create");
        pthread_attr_destroy(&a);
        futex_wait(&T[i].up, 0);
    }
    hand_to(first < 1 || first > n ? 1 : first);
    park(0);
    for (int i = 1; i <= n; ++i) { __atomic_store_n(&T[i].bye, 1, __ATOMIC_RELEASE); futex_wake(&T[i].bye); pthread_join(th[i], nullptr); }
    for (int i = 1; i <= n; ++i) T[0].vc.join(T[i].vc);
    g_nt = 0;
    set_schedhash(g_hash);
}

void arm_preempt(Rng& r, Line& l, int nthreads, int percent, int max_per_line, int logmax) {
    if (!r.chance(percent)) return;
    int k = 1 + (int)r.skew(max_per_line - 1);
    for (int i = 0; i < k; ++i) {
        long at = (long)r.below(1ull << r.range(0, logmax));
        l.f(F_preempt, at * 16 + r.range(1, nthreads));
    }
}

// ---------------------------------------------------------------- happens-before race detector
struct Cell { uint32_t epoch; uint8_t tid, mask, write, atomic; void* pc; };
static const int NCELL = 12;
struct Gran { uintptr_t key; int n; Cell c[NCELL]; };
static Gran* g_tab = nullptr;
static size_t g_cap = 0, g_used = 0;
struct Ign { const char *a, *b; };
static Ign g_ign[16];
static int g_nign = 0;
void ignore_range(const void* p, size_t n) { if (g_nign < 16) { g_ign[g_nign].a = (const char*)p; g_ign[g_nign++].b = (const char*)p + n; } }

static void init_static() {
    static bool done = false;
    if (done) return;
    done = true;
    ignore_range(&std::cout, sizeof std::cout);
    ignore_range(&std::cerr, sizeof std::cerr);
    ignore_range(&std::clog, sizeof std::clog);
    ignore_range(std::cout.rdbuf(), sizeof(std::streambuf) + 64);
}

static inline size_t slot(uintptr_t k) { return (size_t)((k * 0x9e3779b97f4a7c15ULL) >> 20) & (g_cap - 1); }
static Gran* lookup(uintptr_t k, bool make) {
    if (!g_cap) {
        if (!make) return nullptr;
        g_cap = 1 << 10;
        g_tab = (Gran*)__libc_calloc(g_cap, sizeof(Gran));
    }
    size_t s = slot(k);
    while (g_tab[s].key && g_tab[s].key != k) s = (s + 1) & (g_cap - 1);
    if (g_tab[s].key) return &g_tab[s];
    if (!make) return nullptr;
    if (2 * (g_used + 1) > g_cap) {
        Gran* old = g_tab;
        size_t oc = g_cap;
        g_cap *= 2;
        g_tab = (Gran*)__libc_calloc(g_cap, sizeof(Gran));
        g_used = 0;
        for (size_t i = 0; i < oc; ++i)
            if (old[i].key && old[i].n) {
                size_t q = slot(old[i].key);
                while (g_tab[q].key) q = (q + 1) & (g_cap - 1);
                g_tab[q] = old[i];
                ++g_used;
            }
        __libc_free(old);
        s = slot(k);
        while (g_tab[s].key) s = (s + 1) & (g_cap - 1);
    }
    g_tab[s].key = k;
    g_tab[s].n = 0;
    ++g_used;
    return &g_tab[s];
}
static void forget(const void* p, size_t n) {
    if (!g_used || !n) return;
    uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n - 1) >> 3;
    if (b - a > g_cap) {
        for (size_t i = 0; i < g_cap; ++i) if (g_tab[i].key >= a && g_tab[i].key <= b) g_tab[i].n = 0;
        return;
    }
    for (uintptr_t k = a; k <= b; ++k) if (Gran* g = lookup(k, false)) g->n = 0;
}
void mem_created(void* p, size_t n) { if (g_used) { HostScope h; forget(p, n); } }
void mem_destroyed(void* p, size_t n) { if (g_used) { HostScope h; forget(p, n); } }

// every allocation of the process, by whatever library, starts without a history of accesses
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) mem_created(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) mem_created(p, a * b); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p) mem_created(p, n); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) mem_created(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void free(void* p) { __libc_free(p); }
}

static std::string where(void* pc) {
    Dl_info i;
    if (dladdr(pc, &i) && i.dli_sname) {
        int st = 0;
        char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        std::string s = st == 0 && d ? d : i.dli_sname;
        free(d);
        if (s.size() > 160) s = s.substr(0, 160) + "...";
        return s;
    }
    return "?";
}
static void report_race(const Cell& o, bool w, void* pc) {
    HostScope h;
    violate("data-race", Str() << "thread " << (int)o.tid << " " << (o.write ? "writes" : "reads") << " in " << where(o.pc) << " while thread " << t_self << " "
        << (w ? "writes" : "reads") << " the same memory in " << where(pc) << " with nothing ordering them");
}

static inline void access_granule(uintptr_t key, uint8_t mask, bool w, bool atomic, void* pc) {
    Gran* g = lookup(key, true);
    VC& vc = T[t_self].vc;
    int out = 0;
    for (int i = 0; i < g->n; ++i) {
        Cell& c = g->c[i];
        if (c.tid != t_self) {
            if ((c.mask & mask) && (w || c.write) && !(atomic && c.atomic) && c.epoch > vc.c[c.tid]) report_race(c, w, pc);
        } else if ((c.mask & ~mask) == 0 && (w || !c.write) && (!atomic || c.atomic)) continue;   // subsumed
        if (out != i) g->c[out] = c;
        ++out;
    }
    if (out == NCELL) { for (int i = 1; i < NCELL; ++i) g->c[i - 1] = g->c[i]; --out; }
    Cell& c = g->c[out++];
    c.epoch = vc.c[t_self]; c.tid = (uint8_t)t_self; c.mask = mask; c.write = w; c.atomic = atomic; c.pc = pc;
    g->n = out;
}

static inline bool own_stack(const void* p) {
    Thread& t = T[t_self];
    return (char*)p >= t.lo && (char*)p < t.hi;
}
static void mem_access(const void* p, size_t n, bool w, bool atomic, void* pc) {
    if (!in_lib() || n == 0) return;
    if (t_self && own_stack(p)) return;
    event();
    if (t_self == 0 && g_nt == 0 && T[0].vc.c[0] == 0) T[0].vc.c[0] = 1;
    for (int i = 0; i < g_nign; ++i) if ((const char*)p >= g_ign[i].a && (const char*)p < g_ign[i].b) return;
    HostScope h;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) {
        uintptr_t k = a >> 3, end = (k + 1) << 3;
        if (end > e) end = e;
        uint8_t mask = (uint8_t)(((1u << (end - a)) - 1) << (a & 7));
        access_granule(k, mask, w, atomic, pc);
        a = end;
    }
}

// ---------------------------------------------------------------- synchronisation objects
struct Sync { const void* a; Sync* next; VC vc; int owner, depth, readers; };
static Sync* g_sync[1024];
static Sync& sync_of(const void* a) {
    Sync*& b = g_sync[(((uintptr_t)a >> 3) * 0x9e3779b97f4a7c15ULL) >> 54];
    for (Sync* s = b; s; s = s->next) if (s->a == a) return *s;
    Sync* s = (Sync*)__libc_calloc(1, sizeof(Sync));
    s->a = a;
    s->owner = -1;
    s->next = b;
    b = s;
    return *s;
}
static void acquire(const void* a) { T[t_self].vc.join(sync_of(a).vc); }
static void release(const void* a) { sync_of(a).vc.join(T[t_self].vc); ++T[t_self].vc.c[t_self]; }

static void lock_excl(const void* m, bool recursive) {
    event();
    for (;;) {
        Sync& s = sync_of(m);
        if (s.owner == t_self) {
            if (recursive) { ++s.depth; return; }
            violate("deadlock", "a thread locks a mutex it already holds");
        }
        if (s.owner < 0 && s.readers == 0) { s.owner = t_self; s.depth = 1; acquire(m); return; }
        block_on(m);
    }
}
static bool try_excl(const void* m, bool recursive) {
    event();
    Sync& s = sync_of(m);
    if (s.owner == t_self && recursive) { ++s.depth; return true; }
    if (s.owner < 0 && s.readers == 0) { s.owner = t_self; s.depth = 1; acquire(m); return true; }
    return false;
}
static void lock_shared(const void* m) {
    event();
    for (;;) {
        Sync& s = sync_of(m);
        if (s.owner == t_self) violate("deadlock", "a thread locks for reading what it holds for writing");
        if (s.owner < 0) { ++s.readers; acquire(m); return; }
        block_on(m);
    }
}
static void unlock_any(const void* m) {
    event();
    Sync& s = sync_of(m);
    if (s.owner == t_self) {
        if (--s.depth > 0) return;
        release(m);
        sync_of(m).owner = -1;
    } else {
        release(m);
        Sync& q = sync_of(m);
        if (q.readers > 0) --q.readers;
    }
    wake_all(m);
    event();
}

// ---------------------------------------------------------------- clocks
static std::vector<long long>* g_wallhist;
static void note_wall() {
    HostScope h;
    if (!g_wallhist) { g_wallhist = new std::vector<long long>(); }
    if (g_wallhist->empty() || g_wallhist->back() != g_clock.wall) g_wallhist->push_back(g_clock.wall);
}
const std::vector<long long>& wall_history() { if (!g_wallhist) g_wallhist = new std::vector<long long>(); return *g_wallhist; }
static u64 g_wall_frac = 0;     // ns
void set_clock(u64 mono, long long wall) { g_clock.mono = mono; g_clock.wall = wall; g_wall_frac = 0; g_clock_on = true; note_wall(); }
void advance_ns(u64 ns) {
    g_clock.mono += ns;
    u64 f = g_wall_frac + ns;
    g_clock.wall += (long long)(f / 1000000000ull);
    g_wall_frac = f % 1000000000ull;
    add_simtime(ns);
    note_wall();
}
void jump_wall(long long s) { g_clock.wall = std::max(0LL, g_clock.wall + s); note_wall(); }   // not before 1970
u64 mono_now() { return g_clock.mono; }

static bool clock_event_begin() {
    if (!g_clock_on || !in_lib()) return false;
    event();
    return true;
}
static void clock_event_end() {
    OpCtx* o = t_op;
    if (o && o->at[F_stall] > 0) { ++o->fired[F_stall]; advance_ns((u64)o->at[F_stall]); }
    if (o) for (auto& f : o->line->faults) if (f.first == F_wall_jump) { ++o->fired[F_wall_jump]; jump_wall(f.second); }
    event();
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
#define REAL(name) ([]() { static decltype(&::name) f; if (!f) f = (decltype(&::name))dlsym(RTLD_NEXT, #name); return f; }())

extern "C" {
// ---------------------------------------------------------------- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) { if (in_lib()) event(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* p) { mem_access(p, N, false, false, PC); } \
    void __tsan_write##N(void* p) { mem_access(p, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void* p) { mem_access(p, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { mem_access(p, N, true, false, PC); } \
    void __tsan_volatile_read##N(void* p) { mem_access(p, N, false, false, PC); } \
    void __tsan_volatile_write##N(void* p) { mem_access(p, N, true, false, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { mem_access(p, N, false, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { mem_access(p, N, true, false, PC); } \
    void __tsan_read_write##N(void* p) { mem_access(p, N, true, false, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { mem_access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem_access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { mem_access(p, 8, false, false, PC); }
void __tsan_read_range(void* p, size_t n) { mem_access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { mem_access(p, n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { mem_access(s, n, false, false, PC); mem_access(d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { mem_access(s, n, false, false, PC); mem_access(d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { mem_access(d, n, true, false, PC); return memset(d, v, n); }

static inline void at_acq(const void* p, int mo) { if (in_lib() && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) { HostScope h; acquire(p); } }
static inline void at_rel(const void* p, int mo) { if (in_lib() && mo >= __ATOMIC_RELEASE) { HostScope h; release(p); } }
#define AT(BITS, TYPE) \
    TYPE __tsan_atomic##BITS##_load(const volatile TYPE* a, int mo) { mem_access((void*)a, sizeof(TYPE), false, true, PC); TYPE v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_acq((void*)a, mo); return v; } \
    void __tsan_atomic##BITS##_store(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_rel((void*)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_exchange(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_fetch_nand(volatile TYPE* a, TYPE v, int mo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE* a, TYPE* c, TYPE v, int mo, int fmo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE* a, TYPE* c, TYPE v, int mo, int fmo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    TYPE __tsan_atomic##BITS##_compare_exchange_val(volatile TYPE* a, TYPE c, TYPE v, int mo, int fmo) { mem_access((void*)a, sizeof(TYPE), true, true, PC); at_acq((void*)a, mo); at_rel((void*)a, mo); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int) { if (in_lib()) { event(); HostScope h; acquire(&g_fence); release(&g_fence); } }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks
#define MANAGED (managed())
struct LockScope { OpCtx* o; LockScope() : o(t_op) {} };
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!MANAGED) return REAL(pthread_mutex_lock)(m);
    lock_excl(m, (m->__data.__kind & 3) == 1);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!MANAGED) return REAL(pthread_mutex_trylock)(m);
    return try_excl(m, (m->__data.__kind & 3) == 1) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { return pthread_mutex_lock(m); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const timespec*) { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const timespec*) { return pthread_rwlock_wrlock(m); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const timespec*) { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const timespec*) { return pthread_rwlock_wrlock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!MANAGED) return REAL(pthread_mutex_unlock)(m);
    unlock_any(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!MANAGED) return REAL(pthread_rwlock_rdlock)(m);
    lock_shared(m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!MANAGED) return REAL(pthread_rwlock_wrlock)(m);
    lock_excl(m, false);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if (!MANAGED) return REAL(pthread_rwlock_tryrdlock)(m);
    event();
    if (sync_of(m).owner >= 0) return EBUSY;
    lock_shared(m);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    if (!MANAGED) return REAL(pthread_rwlock_trywrlock)(m);
    return try_excl(m, false) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!MANAGED) return REAL(pthread_rwlock_unlock)(m);
    unlock_any(m);
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
    if (!MANAGED) return REAL(pthread_spin_lock)(m);
    lock_excl((const void*)m, false);
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* m) {
    if (!MANAGED) return REAL(pthread_spin_trylock)(m);
    return try_excl((const void*)m, false) ? 0 : EBUSY;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
    if (!MANAGED) return REAL(pthread_spin_unlock)(m);
    unlock_any((const void*)m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!MANAGED) return REAL(pthread_cond_wait)(c, m);
    Sync& s = sync_of(m);
    int d = s.depth;
    release(m);
    sync_of(m).owner = -1;
    wake_all(m);
    block_on(c);
    acquire(c);
    lock_excl(m, false);
    sync_of(m).depth = d;
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!MANAGED) return REAL(pthread_cond_signal)(c);
    release(c);
    wake_all(c);        // spurious wake-ups are legal
    event();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!MANAGED) return REAL(pthread_cond_broadcast)(c);
    release(c);
    wake_all(c);
    event();
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!MANAGED) return REAL(pthread_once)(o, f);
    event();
    for (;;) {
        if (*(volatile int*)o == 2) { acquire(o); return 0; }      // glibc's own "done" value
        if (*(volatile int*)o == 0) break;
        block_on(o);
    }
    *(volatile int*)o = 1;
    try { f(); } catch (...) { *(volatile int*)o = 0; wake_all(o); throw; }
    *(volatile int*)o = 2;
    release(o);
    wake_all(o);
    event();
    return 0;
}
int __cxa_guard_acquire(abi::__guard* g) {
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (MANAGED) event();
    for (;;) {
        if (b[0]) { if (MANAGED) acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        if (!MANAGED) violate("deadlock", "recursive initialisation of a static object");
        block_on(g);
    }
}
void __cxa_guard_release(abi::__guard* g) noexcept {
    volatile uint8_t* b = (volatile uint8_t*)g;
    b[1] = 0; b[0] = 1;
    if (in_lib()) { release(g); wake_all(g); event(); }
}
void __cxa_guard_abort(abi::__guard* g) noexcept {
    volatile uint8_t* b = (volatile uint8_t*)g;
    b[1] = 0;
    if (MANAGED) { wake_all(g); event(); }
}
int sched_yield() { if (MANAGED) { event(); forced_yield(); return 0; } return (int)syscall(SYS_sched_yield); }
static int sleep_ns(u64 ns) { if (g_clock_on) advance_ns(ns); event(); if (MANAGED) forced_yield(); return 0; }
int nanosleep(const timespec* t, timespec*) { if (in_lib()) return sleep_ns((u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec); return (int)syscall(SYS_nanosleep, t, nullptr); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* r) {
    if (in_lib()) {
        u64 ns = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec;
        if (fl) { u64 now = c == CLOCK_REALTIME ? (u64)g_clock.wall * 1000000000ull : g_clock.mono; ns = ns > now ? ns - now : 0; }
        return sleep_ns(ns);
    }
    return (int)-syscall(SYS_clock_nanosleep, c, fl, t, r);
}
int usleep(useconds_t us) { timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }

// ---------------------------------------------------------------- clocks
int clock_gettime(clockid_t c, timespec* t) {
    if (!clock_event_begin()) return (int)syscall(SYS_clock_gettime, c, t);
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { t->tv_sec = g_clock.wall; t->tv_nsec = (long)g_wall_frac; }
    else { t->tv_sec = (time_t)(g_clock.mono / 1000000000ull); t->tv_nsec = (long)(g_clock.mono % 1000000000ull); }
    clock_event_end();
    return 0;
}
time_t time(time_t* out) {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(timeval* tv, void*) {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return 0;
}
int timespec_get(timespec* ts, int base) {
    if (base != TIME_UTC) return 0;
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}
clock_t clock() {
    timespec t;
    clock_gettime(in_lib() && g_clock_on ? CLOCK_MONOTONIC : CLOCK_PROCESS_CPUTIME_ID, &t);
    return (clock_t)(t.tv_sec * 1000000 + t.tv_nsec / 1000);
}

// ---------------------------------------------------------------- libc functions with hidden shared state
static struct tm g_tm;          // the static result of localtime and gmtime
struct tm* localtime(const time_t* t) {
    struct tm* r;
    { HostScope h; r = REAL(localtime)(t); if (r) g_tm = *r; }
    mem_access(&g_tm, sizeof g_tm, true, false, PC);
    return r ? &g_tm : nullptr;
}
struct tm* gmtime(const time_t* t) {
    struct tm* r;
    { HostScope h; r = REAL(gmtime)(t); if (r) g_tm = *r; }
    mem_access(&g_tm, sizeof g_tm, true, false, PC);
    return r ? &g_tm : nullptr;
}
static char g_strtok, g_asctime[64], g_rand;
char* asctime(const struct tm* t) {
    { HostScope h; if (!asctime_r(t, g_asctime)) return nullptr; }
    mem_access(g_asctime, 32, true, false, PC);
    return g_asctime;
}
char* ctime(const time_t* t) {
    { HostScope h; struct tm x; if (!localtime_r(t, &x) || !asctime_r(&x, g_asctime)) return nullptr; }
    mem_access(g_asctime, 32, true, false, PC);
    return g_asctime;
}
char* strtok(char* s, const char* d) {
    mem_access(&g_strtok, 1, true, false, PC);
    return REAL(strtok)(s, d);
}
static unsigned g_rseed = 1;
int rand() {
    mem_access(&g_rand, 1, true, true, PC);     // rand() is allowed to be thread-safe; its sequence is shared
    return rand_r(&g_rseed);
}
void srand(unsigned s) { g_rseed = s; }
}

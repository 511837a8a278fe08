// C27: requests beyond what an object holds, after any history: they must stop the program or throw, never answer.
#include "../sim/core.h"
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <memory>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <rofl/common/grid.h>
#include <rofl/common/interval_indices.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/peak_finder_d.h>
#include <rofl/common/tls_scalar_consensus.h>
#include <rofl/geometry/hough_line_detector.h>
#include <rofl/geometry/hough_plane_detector.h>
using namespace sim;
void* misuse_table();
void misuse_table_init(void* t, int n, double tol);
double misuse_table_eval(void* t, int k, double x);

namespace {
struct FdBuf : std::streambuf {
    int fd;
    FdBuf(int f) : fd(f) {}
    int overflow(int c) override { char b = (char)c; if (c != EOF) (void)!syscall(SYS_write, fd, &b, 1); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { (void)!syscall(SYS_write, fd, s, (size_t)n); return n; }
};
// how a call ends in a process of its own
struct Fate { char how; std::string said; };          // 'r'eturned, 't'hrew, 's'topped, 'm'emory error, 'k'illed
Fate fate(const std::function<void()>& f) {
    HostScope h;
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        dup2(fd[1], 1);
        dup2(fd[1], 2);
        FdBuf* b = new FdBuf(fd[1]);
        std::cerr.rdbuf(b);
        std::cout.rdbuf(b);
        std::clog.rdbuf(b);
        signal(SIGABRT, SIG_DFL);
        signal(SIGALRM, SIG_DFL);
        alarm(10);
        try { f(); } catch (...) { syscall(SYS_exit_group, 8); }
        syscall(SYS_exit_group, 7);
    }
    close(fd[1]);
    Fate r;
    char b[4096];
    for (;;) {
        ssize_t k = syscall(SYS_read, fd[0], b, sizeof b);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        r.said.append(b, (size_t)k);
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    int c = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    r.how = c == 7 ? 'r' : c == 8 ? 't' : c == 44 || c == 43 ? 'm' : c > 0 ? 's' : WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 's' : 'k';
    return r;
}
volatile double sink;
typedef rofl::MinMaxHeap<int, std::less<int>> Heap;
typedef rofl::Grid<2, int> Grid;

void exec(const Plan& p) {
    Heap heap((std::less<int>()));
    std::unique_ptr<rofl::HoughPlaneDetector> hp(new rofl::HoughPlaneDetector());
    std::unique_ptr<rofl::HoughLineDetector> hl(new rofl::HoughLineDetector());
    void* lut = misuse_table();
    Grid grid;
    long size = 0, np[3] = {0, 0, 0}, nl[2] = {0, 0}, order = 0, cells = 0;
    auto judge = [&](const char* what, bool allowed, const std::function<void()>& f) {
        Fate e = fate(f);
        note(Str() << what << " " << e.how);
        if (allowed) {
            if (e.how != 'r') violate("misuse-refused", Str() << what << " within what the object holds did not return");
            probe("allowed");
            return;
        }
        if (e.how == 'r') violate("misuse-answered", Str() << what << " beyond what the object holds was answered");
        if (e.how == 'm') violate("misuse-memory", Str() << what << " beyond what the object holds used memory that is not its own");
        if (e.how == 'k') violate("misuse-killed", Str() << what << " beyond what the object holds was killed");
        if (e.how == 's' && e.said.empty()) violate("misuse-silent", Str() << what << " beyond what the object holds stopped the program without a word");
        probe("stopped");
    };
    // the j-th coordinate is given as it is, the others are brought into range
    auto put = [](const Line& l, const long* n, int dim, long* x) {
        bool in = true;
        int j = (int)(l.i(1) % dim);
        for (int d = 0; d < dim; ++d) {
            long m = n[d], v = l.i(3 + (size_t)d);
            if (d == j) switch (l.i(2) % 9) {
                case 0: v = -1; break;
                case 1: v = m; break;
                case 2: v = m + 1 + v % 5; break;
                case 3: v = INT_MAX; break;
                case 4: v = INT_MIN; break;
                case 5: v = -m; break;
                case 6: v = m - 1; break;
                default: v = m ? v % m : 0;
            } else v = m ? v % m : 0;
            if (v < 0 || v >= m) in = false;
            x[d] = v;
        }
        return in;
    };
    for (auto& l : p.lines) {
        CallResult c;
        if (l.op == "push") { call(c, l, [&] { heap.push((int)l.i(1)); }); check_excuse(c, l, "push"); if (c.ok()) ++size; continue; }
        if (l.op == "pop") { if (size == 0) continue; call(c, l, [&] { if (l.i(1) % 2) heap.popTop(); else heap.popBottom(); }); check_excuse(c, l, "pop"); if (c.ok()) --size; continue; }
        if (l.op == "hpinit") {
            int a = (int)l.i(3) % 5 + 1, b = (int)l.i(4) % 5 + 1, r = (int)l.i(5) % 6 + 1;
            call(c, l, [&] { hp->init(a, b, r, 0.5f); });
            check_excuse(c, l, "initialisation");
            if (c.ok()) { np[0] = a; np[1] = b; np[2] = r; }
            continue;
        }
        if (l.op == "hlinit") {
            int a = (int)l.i(3) % 6 + 1, b = (int)l.i(4) % 6 + 1;
            call(c, l, [&] { hl->init(a, b, 0.5f); });
            check_excuse(c, l, "initialisation");
            if (c.ok()) { nl[0] = a; nl[1] = b; }
            continue;
        }
        if (l.op == "lutinit") { int n = (int)l.i(3) % 5 + 1; call(c, l, [&] { misuse_table_init(lut, n, 1.0); }); check_excuse(c, l, "initialisation"); if (c.ok()) order = n; continue; }
        if (l.op == "gridinit") { int a = (int)l.i(3) % 4 + 1, b = (int)l.i(4) % 4 + 1; call(c, l, [&] { grid.initBounds({a, b}); }); check_excuse(c, l, "initialisation"); if (c.ok()) cells = (long)a * b; continue; }
        if (l.op == "heap") {
            static const char* nm[] = {"the top", "the bottom", "the next top", "the next bottom", "popping the top", "popping the bottom"};
            int k = (int)(l.i(1) % 6);
            judge(nm[k], size > 0, [&] {
                if (k == 0) sink = heap.top(); else if (k == 1) sink = heap.bottom(); else if (k == 2) sink = heap.nextTop(); else if (k == 3) sink = heap.nextBottom();
                else if (k == 4) heap.popTop(); else heap.popBottom();
            });
            continue;
        }
        if (l.op == "plane") {
            long x[3];
            int k = (int)(l.i(0) % 8);
            bool three = k < 2 || k > 5;
            bool in = put(l, np, three ? 3 : 2, x);
            if (!three && np[2] == 0) in = false;
            int a = (int)x[0], b = (int)x[1], r = three ? (int)x[2] : 0;
            rofl::HoughPlaneDetector::Indices3 i3 = {a, b, r};
            rofl::HoughPlaneDetector::Indices2 i2 = {a, b};
            judge("a cell of the plane detector", in, [&] {
                switch (k) {
                    case 0: sink = (double)hp->getHoughTransform(a, b, r); break;
                    case 1: sink = (double)hp->getHoughTransform(i3); break;
                    case 2: sink = (double)hp->getHoughSpectrum(a, b); break;
                    case 3: sink = (double)hp->getHoughSpectrum(i2); break;
                    case 4: sink = (double)hp->getNormal(a, b)(0); break;
                    case 5: sink = (double)hp->getNormal(i2)(0); break;
                    case 6: sink = (double)hp->getPlaneParam(a, b, r)(0); break;
                    default: sink = (double)hp->getPlaneParam(i3)(0);
                }
            });
            continue;
        }
        if (l.op == "line") {
            long x[2] = {0, 0};
            int k = (int)(l.i(0) % 3);
            bool in = put(l, nl, k == 2 ? 1 : 2, x);
            rofl::HoughLineDetector::Indices2 i2 = {(int)x[0], (int)x[1]};
            judge("a cell of the line detector", in, [&] {
                if (k == 0) sink = (double)hl->getHoughTransform((int)x[0], (int)x[1]);
                else if (k == 1) sink = (double)hl->getHoughTransform(i2);
                else sink = (double)hl->getHoughSpectrum((int)x[0]);
            });
            continue;
        }
        if (l.op == "lut") {
            if (!order) continue;
            long x[1];
            bool in = put(l, &order, 1, x);
            judge("an order of the table", in, [&] { sink = misuse_table_eval(lut, (int)x[0], (double)(l.i(4) % 50) / 5); });
            continue;
        }
        if (l.op == "grid") {
            long x[1];
            bool in = put(l, &cells, 1, x);
            const int q = (int)x[0];
            const Grid& cg = grid;
            judge("a position of the grid", in, [&] { if (l.i(0) % 2) sink = grid.value(q); else sink = cg.value(q); });
            continue;
        }
        if (l.op == "axis") {
            static const size_t far[] = {0, 1, 2, 3, 4, 7, 100, (size_t)-1};
            size_t d = far[l.i(1) % 8];
            rofl::IntervalIndices<3, int> v;
            v.initBounds({0, 0, 0}, {2, 3, 4});
            judge("an axis of an interval", d < 3, [&] { if (l.i(0) % 2) v.translate(d, 1); else sink = (double)v.stacked(d, 1).size(); });
            continue;
        }
        if (l.op == "lengths") {
            std::vector<double> x((size_t)l.i(1) % 4, 1.0), r((size_t)l.i(2) % 4, 0.5);
            std::vector<bool> in;
            judge("a consensus of so many samples and ranges", x.size() == r.size(), [&] { double v = 0; rofl::estimateTranslationTls<double>(x, r, v, in); sink = v; });
            continue;
        }
        if (l.op == "peaks") {
            rofl::PeakFinderD<2, int, int, std::greater<int>> f;
            bool set = l.i(1) % 2;
            if (set) f.setDomain({0, 0}, {2, 2});
            f.setPeakWindow({1, 1});
            std::vector<std::array<int, 2>> out;
            judge("a peak search over no domain", set, [&] { f.detect([](const std::array<int, 2>& i) { return i[0] * 3 + i[1]; }, std::back_inserter(out)); });
            continue;
        }
    }
}
void gen(Rng& r, Plan& p) {
    int n = (int)r.range(4, 16), fp = r.chance(40) ? 0 : 40;
    static const char* ops[] = {"push", "pop", "hpinit", "hlinit", "lutinit", "gridinit", "heap", "heap", "plane", "plane", "plane", "line", "line", "lut", "grid", "axis", "lengths", "peaks"};
    for (int i = 0; i < n; ++i) {
        size_t k = (size_t)r.below(18);
        Line& l = p.add(ops[k]).a((long)r.below(24)).a((long)r.below(48)).a((long)r.below(9)).a((long)r.below(64)).a((long)r.below(64)).a((long)r.below(64));
        if (k == 0 || (k >= 2 && k < 6)) arm_alloc(r, l, fp, 6);
    }
}
SIM_SCENARIO(misuse, 1, gen, exec)
}

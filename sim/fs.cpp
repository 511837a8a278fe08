// Disk seam: interposed file and directory system calls.  Outside library windows, and when no
// fault is armed, they go straight to the kernel on the run's private scratch directory.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
std::vector<DirEvent>* g_dir_events = nullptr;
bool g_crashed = false;

template <class T> static T real(const char* n) { return (T)dlsym(RTLD_NEXT, n); }

static bool open_fault() {
    if (!in_lib()) return false;
    if (g_crashed) { errno = EIO; return true; }        // a dead process opens (and truncates) nothing
    if (t_op->at[F_open_emfile] >= 0) { ++t_op->fired[F_open_emfile]; errno = EMFILE; return true; }
    if (t_op->at[F_open_eacces] >= 0) { ++t_op->fired[F_open_eacces]; errno = EACCES; return true; }
    return false;
}

// How many of n bytes may be written now; -1 with errno on failure.
static ssize_t plan_write(int fd, size_t n, size_t& accept) {
    accept = n;
    if (!in_lib() || fd <= 2) return 0;
    OpCtx& o = *t_op;
    ++o.writes;
    if (o.at[F_wr_eintr] > 0 && o.writes == o.at[F_wr_eintr]) { ++o.fired[F_wr_eintr]; errno = EINTR; return -1; }
    if (o.at[F_wr_eio] > 0 && o.writes >= o.at[F_wr_eio]) { ++o.fired[F_wr_eio]; errno = EIO; return -1; }
    if (o.at[F_wr_once] > 0 && o.writes == o.at[F_wr_once]) { ++o.fired[F_wr_once]; errno = o.at[F_wr_once] % 2 ? ENOSPC : EIO; return -1; }   // transient
    if (o.at[F_wr_short] > 0 && (long)accept > o.at[F_wr_short]) { ++o.fired[F_wr_short]; accept = (size_t)o.at[F_wr_short]; }
    if (o.at[F_wr_enospc] >= 0 && o.wbytes + (long)accept > o.at[F_wr_enospc]) {
        ++o.fired[F_wr_enospc];
        long room = o.at[F_wr_enospc] - o.wbytes;
        if (room <= 0) { errno = ENOSPC; return -1; }
        accept = (size_t)room;
    }
    return 0;
}

static ssize_t do_write(int fd, const char* b, size_t n) {
    size_t acc;
    if (plan_write(fd, n, acc) < 0) return -1;
    if (!in_lib() || fd <= 2) return syscall(SYS_write, fd, b, n);
    OpCtx& o = *t_op;
    size_t disk = acc;
    if (o.at[F_crash] >= 0) {   // the process dies after this many bytes: the rest never reaches the disk
        long room = o.at[F_crash] - o.wbytes;
        if (room < 0) room = 0;
        if ((long)disk > room) { disk = (size_t)room; if (!g_crashed) ++o.fired[F_crash]; g_crashed = true; }
    }
    o.wbytes += (long)acc;
    if (g_crashed && disk == 0) return (ssize_t)acc;
    size_t done = 0;
    while (done < disk) {
        ssize_t k = syscall(SYS_write, fd, b + done, disk - done);
        if (k < 0) { if (errno == EINTR) continue; return -1; }
        done += (size_t)k;
    }
    return (ssize_t)acc;
}

static ssize_t do_read(int fd, void* b, size_t n) {
    if (in_lib() && fd > 2) {
        OpCtx& o = *t_op;
        ++o.reads;
        if (o.at[F_rd_eintr] > 0 && o.reads == o.at[F_rd_eintr]) { ++o.fired[F_rd_eintr]; errno = EINTR; return -1; }
        if (o.at[F_rd_eio] > 0 && o.reads >= o.at[F_rd_eio]) { ++o.fired[F_rd_eio]; errno = EIO; return -1; }
        if (o.at[F_rd_once] > 0 && o.reads == o.at[F_rd_once]) { ++o.fired[F_rd_once]; errno = EIO; return -1; }
        if (o.at[F_rd_short] > 0 && (long)n > o.at[F_rd_short]) { ++o.fired[F_rd_short]; n = (size_t)o.at[F_rd_short]; }
    }
    return syscall(SYS_read, fd, b, n);
}

// ---- directories
struct DirState {
    DIR* d;
    std::vector<std::pair<std::string, dirent>> ent;
    size_t pos = 0;
    bool loaded = false;
    dirent cur;
};
static std::vector<DirState*>* g_dirs;
static DirState* dstate(DIR* d, bool make) {
    if (!g_dirs) g_dirs = new std::vector<DirState*>();
    for (auto* s : *g_dirs) if (s->d == d) return s;
    if (!make) return nullptr;
    DirState* s = new DirState();
    s->d = d;
    g_dirs->push_back(s);
    return s;
}

static void dir_events(DirState* s, long at) {
    if (!g_dir_events) return;
    for (auto& e : *g_dir_events) {
        if (e.at != at) continue;
        if (e.create) {
            int fd = (int)syscall(SYS_openat, AT_FDCWD, e.path.c_str(), O_CREAT | O_WRONLY, 0600);
            if (fd >= 0) syscall(SYS_close, fd);
            if (e.path.back() & 1) {      // half of the new names are still delivered by the enumeration
                dirent d = {};
                std::string n = e.path.substr(e.path.rfind('/') + 1);
                strncpy(d.d_name, n.c_str(), sizeof d.d_name - 1);
                d.d_type = DT_REG;
                d.d_reclen = sizeof d;
                d.d_ino = 4242;
                bool have = false;
                for (auto& x : s->ent) if (x.first == n) have = true;
                if (!have) s->ent.push_back({n, d});
            }
            ++t_op->fired[F_dir_create];
        } else {
            syscall(SYS_unlinkat, AT_FDCWD, e.path.c_str(), 0);
            ++t_op->fired[F_dir_delete];
        }
    }
}

static dirent* do_readdir(DIR* d) {
    typedef dirent* (*fn)(DIR*);
    static fn r = real<fn>("readdir");
    if (!in_lib()) return r(d);
    OpCtx& o = *t_op;
    HostScope h;
    int saved = errno;
    DirState* s = dstate(d, true);
    if (!s->loaded) {
        s->loaded = true;
        errno = 0;
        while (dirent* e = r(d)) { dirent c = {}; memcpy((void*)&c, e, std::min<size_t>(e->d_reclen, sizeof c)); s->ent.push_back({e->d_name, c}); }      // a record may be shorter than the type
        Rng g((u64)(o.at[F_readdir_perm] >= 0 ? o.at[F_readdir_perm] : 0) + 77);
        // a fixed base order first, so that the order never depends on the real file system
        std::sort(s->ent.begin(), s->ent.end(), [](const std::pair<std::string, dirent>& x, const std::pair<std::string, dirent>& y) { return x.first < y.first; });
        if (o.at[F_readdir_perm] >= 0) {
            ++o.fired[F_readdir_perm];
            for (size_t i = s->ent.size(); i > 1; --i) std::swap(s->ent[i - 1], s->ent[g.below(i)]);
        }
    }
    ++o.readdirs;
    dir_events(s, o.readdirs);
    errno = saved;
    if (o.at[F_readdir_err] > 0 && o.readdirs == o.at[F_readdir_err]) { ++o.fired[F_readdir_err]; errno = EIO; return nullptr; }
    if (s->pos >= s->ent.size()) return nullptr;      // errno untouched: end of directory
    s->cur = s->ent[s->pos++].second;
    if (o.at[F_dt_unknown] > 0 && (o.at[F_dt_unknown] & (1L << (s->pos % 20)))) { ++o.fired[F_dt_unknown]; s->cur.d_type = DT_UNKNOWN; }
    return &s->cur;
}

static bool stat_fault() {
    if (!in_lib()) return false;
    OpCtx& o = *t_op;
    ++o.stats;
    if (o.at[F_stat_err] > 0 && o.stats == o.at[F_stat_err]) { ++o.fired[F_stat_err]; errno = EIO; return true; }
    return false;
}
static bool opendir_fault() {
    if (!in_lib()) return false;
    if (t_op->at[F_opendir_err] >= 0) {
        static const int errs[] = {EMFILE, EACCES, EIO, ENFILE};
        ++t_op->fired[F_opendir_err];
        errno = errs[(size_t)t_op->at[F_opendir_err] % 4];
        return true;
    }
    return false;
}
}  // namespace sim

extern "C" {
ssize_t write(int fd, const void* b, size_t n) { return sim::do_write(fd, (const char*)b, n); }
ssize_t read(int fd, void* b, size_t n) { return sim::do_read(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t k = sim::do_write(fd, (const char*)v[i].iov_base, v[i].iov_len);
        if (k < 0) return tot ? tot : -1;
        tot += k;
        if ((size_t)k < v[i].iov_len) break;
    }
    return tot;
}
FILE* fopen(const char* p, const char* m) {
    if (sim::open_fault()) return nullptr;
    typedef FILE* (*fn)(const char*, const char*);
    static fn r = sim::real<fn>("fopen");
    return r(p, m);
}
FILE* fopen64(const char* p, const char* m) {
    if (sim::open_fault()) return nullptr;
    typedef FILE* (*fn)(const char*, const char*);
    static fn r = sim::real<fn>("fopen64");
    return r(p, m);
}
int open(const char* p, int fl, ...) {
    __builtin_va_list ap;
    __builtin_va_start(ap, fl);
    unsigned mode = __builtin_va_arg(ap, unsigned);
    __builtin_va_end(ap);
    if (fl & O_DIRECTORY) { if (sim::opendir_fault()) return -1; }
    else if (sim::open_fault()) return -1;
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open64(const char* p, int fl, ...) {
    __builtin_va_list ap;
    __builtin_va_start(ap, fl);
    unsigned mode = __builtin_va_arg(ap, unsigned);
    __builtin_va_end(ap);
    if (fl & O_DIRECTORY) { if (sim::opendir_fault()) return -1; }
    else if (sim::open_fault()) return -1;
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int openat(int at, const char* p, int fl, ...) {
    __builtin_va_list ap;
    __builtin_va_start(ap, fl);
    unsigned mode = __builtin_va_arg(ap, unsigned);
    __builtin_va_end(ap);
    if (fl & O_DIRECTORY) { if (sim::opendir_fault()) return -1; }
    else if (sim::open_fault()) return -1;
    return (int)syscall(SYS_openat, at, p, fl, mode);
}
int fclose(FILE* f) {
    typedef int (*fn)(FILE*);
    static fn r = sim::real<fn>("fclose");
    int e = r(f);
    if (sim::in_lib() && sim::t_op->at[sim::F_close_err] >= 0) {
        ++sim::t_op->fired[sim::F_close_err];
        errno = EIO;
        return EOF;
    }
    return e;
}
DIR* opendir(const char* p) {
    if (sim::opendir_fault()) return nullptr;
    typedef DIR* (*fn)(const char*);
    static fn r = sim::real<fn>("opendir");
    return r(p);
}
DIR* fdopendir(int fd) {
    if (sim::opendir_fault()) return nullptr;
    typedef DIR* (*fn)(int);
    static fn r = sim::real<fn>("fdopendir");
    return r(fd);
}
struct dirent* readdir(DIR* d) { return sim::do_readdir(d); }
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)sim::do_readdir(d); }
int closedir(DIR* d) {
    { sim::HostScope h;
      if (auto* s = sim::dstate(d, false)) { s->d = nullptr; } }
    typedef int (*fn)(DIR*);
    static fn r = sim::real<fn>("closedir");
    return r(d);
}
int stat(const char* p, struct stat* b) {
    if (sim::stat_fault()) return -1;
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, 0);
}
int stat64(const char* p, struct stat64* b) {
    if (sim::stat_fault()) return -1;
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, 0);
}
int lstat(const char* p, struct stat* b) {
    if (sim::stat_fault()) return -1;
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW);
}
int lstat64(const char* p, struct stat64* b) {
    if (sim::stat_fault()) return -1;
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW);
}
int fstatat(int at, const char* p, struct stat* b, int fl) {
    if (sim::stat_fault()) return -1;
    return (int)syscall(SYS_newfstatat, at, p, b, fl);
}
int rename(const char* a, const char* b) {
    if (sim::in_lib() && sim::g_crashed) return 0;
    return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
}
int unlink(const char* a) {
    if (sim::in_lib() && sim::g_crashed) return 0;
    return (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0);
}
int remove(const char* a) {
    if (sim::in_lib() && sim::g_crashed) return 0;
    int r = (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0);
    if (r < 0 && errno == EISDIR) r = (int)syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR);
    return r;
}
}

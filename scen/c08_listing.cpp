// C08: directory listing on a real scratch directory whose enumeration, types and errors are simulated.
#include "../sim/core.h"
#include <rofl/common/io.h>
#include <algorithm>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace sim;

namespace {
void touch(const std::string& p) { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); }
std::string show(const std::vector<std::string>& v, const std::string& strip) {
    Str s; s << "[";
    for (auto& x : v) s << enc(x.compare(0, strip.size(), strip) == 0 ? "*" + x.substr(strip.size()) : x) << " ";
    s << "]"; return s;
}
void exec(const Plan& p) {
    std::string base = scratch_dir(), dir = base + "/d";
    mkdir(dir.c_str(), 0700);
    mkdir((base + "/out").c_str(), 0700);
    touch(base + "/out/target");
    std::map<std::string, char> ent;    // name -> f regular, d directory, o other, ? may throw
    std::vector<std::string> list;
    for (auto& l : p.lines) {
        std::string n = l.str(0), f = dir + "/" + n;
        struct stat st;
        bool ex = !n.empty() && lstat(f.c_str(), &st) == 0;
        if (l.op == "file") { if (!ex) { touch(f); ent[n] = 'f'; } continue; }
        if (l.op == "files") { for (long i = 0; i < std::min(l.i(1), 3000L); ++i) { std::string m = n + std::to_string(i); if (!ent.count(m)) { touch(dir + "/" + m); ent[m] = 'f'; } } continue; }
        if (l.op == "dir") { if (!ex) { mkdir(f.c_str(), 0700); touch(f + "/inner"); ent[n] = 'd'; } continue; }
        if (l.op == "fifo") { if (!ex) { mkfifo(f.c_str(), 0600); ent[n] = 'o'; } continue; }
        if (l.op == "link") {       // 0 target file outside, 1 directory, 2 dangling, 3 itself
            if (ex) continue;
            long k = l.i(1);
            std::string t = k == 0 ? base + "/out/target" : k == 1 ? base + "/out" : k == 2 ? base + "/nowhere" : f;
            if (symlink(t.c_str(), f.c_str()) == 0) ent[n] = k == 0 ? 'f' : k == 3 ? '?' : 'o';
            continue;
        }
        if (l.op == "rm") { if (ex) { if (ent[n] == 'd') { unlink((f + "/inner").c_str()); rmdir(f.c_str()); } else unlink(f.c_str()); ent.erase(n); } continue; }
        if (l.op == "caller") { list.push_back(l.str(0)); continue; }
        if (l.op == "fresh") { list.clear(); continue; }
        if (l.op != "ls") continue;
        long where = l.i(1);
        std::string target = where == 0 ? dir : where == 1 ? dir + "/" : where == 2 ? base + "/missing" : where == 3 ? base + "/out/target" : where == 4 ? dir + "/../d" : base + "/dl";
        if (where == 5) { unlink(target.c_str()); (void)!symlink(dir.c_str(), target.c_str()); }
        std::string pre = target + (target.back() == '/' ? "" : "/");
        // things happening during the call
        std::vector<DirEvent> ev;
        std::set<std::string> maybe;
        for (size_t i = 2; i + 2 < l.n(); i += 3) {
            bool cr = l.i(i + 1) != 0;
            std::string en = "ev_" + l.str(i + 2);
            if (!cr && !ent.count(en)) { touch(dir + "/" + en); ent[en] = 'f'; }
            if (cr && ent.count(en)) continue;
            maybe.insert(en);
            ev.push_back({l.i(i), cr, dir + "/" + en});
        }
        bool loops = false;
        for (auto& e : ent) if (e.second == '?') loops = true;
        g_dir_events = &ev;
        std::vector<std::string> before = list;
        CallResult c;
        g_terminate_ok = true;
        g_alloc_own_only = true;    // libstdc++'s own path iterator crashes when its allocations fail
        call(c, l, [&] { rofl::getDirectoryFiles(target, list); });
        g_dir_events = nullptr;
        g_terminate_ok = false;
        g_alloc_own_only = false;
        bool bad = c.fired(F_opendir_err) || c.fired(F_readdir_err) || c.fired(F_stat_err), nomem = c.fired(F_alloc) || c.fired(F_allocp);
        for (auto& m : maybe) {   // what the events left behind
            struct stat s2;
            if (lstat((dir + "/" + m).c_str(), &s2) == 0) ent[m] = 'f'; else ent.erase(m);
        }
        if (!c.ok()) {
            if (!bad && !nomem && where != 2 && where != 3 && !loops) violate("listing-threw", Str() << "listing an intact directory threw: " << c.what);
            if (!nomem) for (auto& b : before) if (std::count(list.begin(), list.end(), b) < std::count(before.begin(), before.end(), b))
                violate("listing-drops-caller", Str() << "a failed listing dropped the caller's entry " << enc(b));
            note("ls threw");
            probe("ls-threw");
            continue;
        }
        if (where == 2 || where == 3) violate("listing-missing", "listing something that is not a directory did not throw");
        if (bad) violate("listing-short", Str() << "the directory could not be read to its end but the listing returned normally with " << show(list, pre));
        if (!std::is_sorted(list.begin(), list.end())) violate("listing-unsorted", Str() << "the list is not sorted: " << show(list, pre));
        std::vector<std::string> rest = list;
        for (auto& b : before) {
            auto it = std::find(rest.begin(), rest.end(), b);
            if (it == rest.end()) violate("listing-drops-caller", Str() << "the caller's entry " << enc(b) << " is gone");
            rest.erase(it);
        }
        for (auto& e : ent) {
            if (maybe.count(e.first)) continue;
            auto n2 = std::count(rest.begin(), rest.end(), pre + e.first);
            if (e.second == 'f' && n2 != 1) violate("listing-content", Str() << "regular file " << enc(e.first) << " is listed " << n2 << " times in " << show(rest, pre));
            if (e.second != 'f' && n2 != 0) violate("listing-content", Str() << "entry " << enc(e.first) << " of kind " << e.second << " is listed in " << show(rest, pre));
        }
        for (size_t i = 0; i < rest.size(); ++i) {
            std::string nm = rest[i].compare(0, pre.size(), pre) == 0 ? rest[i].substr(pre.size()) : "";
            if (nm.empty() || (!ent.count(nm) && !maybe.count(nm))) violate("listing-invented", Str() << "the listing contains " << enc(rest[i]));
            if (std::count(rest.begin(), rest.end(), rest[i]) != 1) violate("listing-twice", Str() << "listed twice: " << enc(rest[i]));
        }
        note(Str() << "ls " << show(list, base));
        if (!maybe.empty()) probe("changed-during");
    }
}
std::string name(Rng& r) {
    static const std::vector<std::string> N = {"a", "b", "c.txt", ".hidden", "..x", "with space", "B", "z", "0", "~x", "-opt", "new\nline", "\xC3\xA9", "a.b.c", "file1", "file10", "file2", "-", "#", "tab\t"};
    int k = (int)r.below(100);
    if (k < 70) return r.pick(N);
    if (k < 95) return "n" + std::to_string(r.range(0, 40));
    return std::string((size_t)r.range(20, 250), 'L');
}
void gen(Rng& r, Plan& p) {
    int rounds = (int)r.range(1, 4);
    int fp = r.chance(30) ? 0 : 1;
    for (int q = 0; q < rounds; ++q) {
        int n = (int)r.skew(30);
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(100);
            if (k < 55) p.add("file").s(name(r));
            else if (k < 65) p.add("dir").s(name(r));
            else if (k < 70) p.add("fifo").s(name(r));
            else if (k < 90) p.add("link").s(name(r)).a(r.chance(4) ? 3 : r.range(0, 2));
            else p.add("rm").s(name(r));
        }
        if (r.chance(1) && r.chance(15)) p.add("files").s(r.chance(50) ? "m" : std::string((size_t)r.range(10, 100), 'M')).a(r.chance(25) ? r.range(300, 1200) : r.range(40, 300));
        if (r.chance(30)) for (long i = r.range(1, 4); i > 0; --i) p.add("caller").s(r.chance(50) ? name(r) : "/zz/" + name(r));
        if (r.chance(30)) p.add("fresh").s("");
        int w = (int)r.below(100);
        Line& l = p.add("ls").s("").a(w < 70 ? 0 : w < 80 ? 1 : w < 84 ? 2 : w < 88 ? 3 : w < 94 ? 4 : 5);
        if (r.chance(40)) for (long i = r.range(1, 3); i > 0; --i) l.a(r.range(1, 12)).a(r.range(0, 1)).s("e" + std::to_string(r.range(0, 3)));
        if (r.chance(85)) l.f(F_readdir_perm, r.range(0, 1000000));
        if (r.chance(50)) l.f(F_dt_unknown, r.chance(40) ? 0xFFFFF : (long)r.below(0x100000));
        if (fp) {
            int f = (int)r.below(100);
            if (f < 10) l.f(F_opendir_err, r.range(0, 3));
            else if (f < 30) l.f(F_readdir_err, 1 + r.skew(14));
            else if (f < 45) l.f(F_stat_err, 1 + r.skew(8));
            else arm_alloc(r, l, 40, 8);
        }
    }
}
SIM_SCENARIO(listing, 1, gen, exec)
}

// C02: saving and loading configuration files on a disk that fails, fills up, or stops mid-write.
#include "param_util.h"
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
using namespace pm;

namespace {
std::string slurp(const std::string& p, bool& exists) {
    exists = false;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return "";
    exists = true;
    std::string s;
    char b[8192];
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)k);
    close(fd);
    return s;
}
void spit(const std::string& p, const std::string& s) {
    int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    size_t o = 0;
    while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; }
    close(fd);
}
bool hard_fault(const CallResult& c) {   // faults that make the operation impossible
    return c.fired(F_open_emfile) || c.fired(F_open_eacces) || c.fired(F_rd_eio) || c.fired(F_wr_enospc) || c.fired(F_wr_eio) || c.fired(F_close_err);
}

void exec(const Plan& p) {
    std::unique_ptr<rofl::ParamMap> s(new rofl::ParamMap());
    Model m;
    std::set<std::string> names;
    std::string dir = scratch_dir();
    for (auto& l : p.lines) {
        CallResult c;
        std::string file = dir + "/cfg" + std::to_string(l.i(0) % 3);
        if (l.op == "set") { s->setParamString(l.str(1), l.str(2)); m[l.str(1)] = l.str(2); names.insert(l.str(1)); continue; }
        if (l.op == "clear") { s->clear(); m.clear(); continue; }
        if (l.op == "put") { spit(file, l.str(1)); continue; }
        if (l.op == "save") {
            g_crashed = false;
            bool ret = false;
            int where = (int)l.i(1);
            std::string target = where == 1 ? dir + "/nosuchdir/x" : where == 2 ? dir : file;
            std::string want;
            for (auto& x : m) want += x.first + " " + x.second + "\n";
            bool before_ex;
            std::string before = slurp(file, before_ex);
            call(c, l, [&] { ret = ((const rofl::ParamMap&)*s).write(target); });
            if (!c.ok() && !c.op.anyfired()) violate("save-threw", Str() << "saving threw: " << c.what);
            expect(*s, m, names, "after saving", "save-alters-store");
            if (c.fired(F_crash)) {
                // the process died during the save: only the disk survives
                probe("crashed");
                fault_fired(F_crash, 0);
                bool ex;
                std::string disk = slurp(file, ex);
                bool complete;
                std::vector<std::string> ls = split_lines(disk, complete);
                std::set<std::string> genuine;
                for (auto& x : m) genuine.insert(x.first + " " + x.second);
                bool allSingle = true;
                for (auto& x : m) if (x.first.find('\n') != std::string::npos || x.second.find('\n') != std::string::npos) allSingle = false;
                for (size_t i = 0; i < ls.size(); ++i)
                    if ((complete || i + 1 < ls.size()) && allSingle && !genuine.count(ls[i]) && disk != before)      // the earlier file may survive whole
                        violate("crash-line", Str() << "after a crash the file has the complete line \"" << enc(ls[i]) << "\" which was never a parameter");
                s.reset(new rofl::ParamMap());
                m.clear();
                g_crashed = false;
                if (ex) {
                    CallResult c2;
                    Line none;
                    bool r2 = false;
                    call(c2, none, [&] { r2 = s->read(file); });
                    if (!c2.ok() || !r2) violate("crash-load", "the file left by a crash does not load");
                    for (auto& x : ls) { std::string k, v; if (parse_line(x, k, v)) { m[k] = v; names.insert(k); } }
                    expect(*s, m, names, "after crash and restart", "crash-load");
                }
                note(Str() << "crash " << disk.size() << " bytes " << show(m));
                continue;
            }
            if (where) {
                if (c.ok() && ret) violate("save-claims-success", "saving to an impossible place reported success");
                note("save-impossible");
                continue;
            }
            bool ex;
            std::string disk = slurp(file, ex);
            if (c.ok() && ret) {
                // order of the lines is free, their content is not
                bool cp;
                std::vector<std::string> a = split_lines(disk, cp), b = split_lines(want, cp);
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                if (!ex || a != b || disk.size() != want.size())
                    violate("save-incomplete", Str() << "saving reported success but the file holds " << disk.size() << " of " << want.size() << " bytes: \"" << enc(disk).substr(0, 200) << "\"");
                if (c.fired(F_close_err)) violate("save-claims-success", "closing the file failed but the save reported success");
                bool allSingle = true;
                for (auto& x : m) if (!single_word(x.first) || !single_word(x.second) || x.first[0] == '#') allSingle = false;
                if (allSingle) {
                    rofl::ParamMap back;
                    CallResult c2;
                    Line none;
                    bool r2 = false;
                    call(c2, none, [&] { r2 = back.read(file); });
                    if (!c2.ok() || !r2) violate("round-trip", "a saved file does not load");
                    expect(back, m, names, "after save and load", "round-trip");
                    probe("round-trip");
                }
            } else {
                if (!c.op.anyfired()) violate("save-claims-failure", "saving reported failure although nothing went wrong");
                probe("save-failed");
            }
            note(Str() << "save ret=" << ret << " out=" << c.out << " disk=" << disk.size());
        } else if (l.op == "load") {
            int where = (int)l.i(1);
            std::string target = where == 1 ? dir + "/nosuchfile" : where == 2 ? dir : file;
            bool ex = false;
            std::string disk = where ? "" : slurp(file, ex);
            if (where == 2) ex = true;
            bool ret = false;
            if (l.i(2)) { s.reset(new rofl::ParamMap()); m.clear(); }
            call(c, l, [&] { ret = s->read(target); });
            if (!c.ok() && !c.op.anyfired()) violate("load-threw", Str() << "loading threw: " << c.what);
            bool cp;
            std::vector<std::string> ls = split_lines(disk, cp);
            bool success = c.ok() && ret;
            if (success && (hard_fault(c) || where || !ex))
                violate("load-claims-success", Str() << "loading reported success although " << (where || !ex ? "there is no such file" : "it failed part-way"));
            if (!success && !c.op.anyfired() && ex && !where) violate("load-claims-failure", "loading reported failure although nothing went wrong");
            std::vector<Model> states(1, m);
            for (auto& x : ls) { std::string k, v; if (parse_line(x, k, v)) { names.insert(k); Model n = states.back(); n[k] = v; states.push_back(n); } }
            if (success) { expect(*s, states.back(), names, "after loading", "load-incomplete"); m = states.back(); }
            else {
                size_t n = 0;
                Model v = view(*s, names, &n);
                bool ok = false;
                for (auto& st : states) if (st == v && n == st.size()) ok = true;
                if (!ok) violate("load-partial", Str() << "a failed load left " << show(v) << " which is not the old content plus a prefix of the file");
                m = v;
                probe("load-failed");
            }
            note(Str() << "load ret=" << ret << " out=" << c.out << " " << show(m));
        }
    }
}

std::string word(Rng& r, int maxlen) {
    static const std::string al = "abcdefghijXYZ0123_-./~,";
    int n = (int)r.range(1, maxlen);
    std::string s;
    for (int i = 0; i < n; ++i) s += al[r.below(al.size())];
    return s;
}
void io_faults(Rng& r, Line& l, bool save, long bytes) {
    arm_alloc(r, l, 8, 6);
    int k = (int)r.below(100);
    if (k < 12) return;
    if (k < 17) { l.f(F_open_emfile, 1); return; }
    if (k < 22) { l.f(F_open_eacces, 1); return; }
    if (save) {
        if (k < 42) l.f(F_wr_enospc, r.range(0, bytes));
        else if (k < 54) l.f(F_wr_eio, 1 + r.skew(6));
        else if (k < 62) l.f(F_close_err, 1);
        else if (k < 74) l.f(F_wr_once, 1 + r.skew(8));
        else if (k < 90) l.f(F_crash, r.range(0, bytes));
        if (r.chance(30)) l.f(F_wr_short, 1 + r.skew(20));
        if (r.chance(20)) l.f(F_wr_eintr, 1 + r.skew(4));
    } else {
        if (k < 50) l.f(F_rd_eio, 1 + r.skew(6));
        else if (k < 70) l.f(F_rd_once, 1 + r.skew(6));
        if (r.chance(50)) l.f(F_rd_short, 1 + r.skew(200));
        if (r.chance(30)) l.f(F_rd_eintr, 1 + r.skew(4));
    }
}
void gen(Rng& r, Plan& p) {
    int odd = r.chance(15);
    int big = r.chance(12);
    long bytes = 0;
    int n = (int)r.range(2, 8);
    auto sets = [&](int k) {
        for (int i = 0; i < k; ++i) {
            std::string key = word(r, 5), val = word(r, 12);
            if (odd && r.chance(30)) val = r.pick(std::vector<std::string>{"", "two words", " lead", "x # y"});
            if (odd && r.chance(10)) key = "#" + key;
            if (big && r.chance(30)) val = std::string((size_t)r.range(1500, 9500), 'v');
            p.add("set").a(0).s(key).s(val);
            bytes += (long)(key.size() + val.size() + 2);
        }
    };
    sets(r.chance(4) ? (int)r.range(30, 200) : (int)r.range(0, 8));
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        if (k < 45) { Line& l = p.add("save").a(r.range(0, 2)).a(r.chance(5) ? r.range(1, 2) : 0); if (r.chance(75)) io_faults(r, l, true, bytes + 2); }
        else if (k < 80) { Line& l = p.add("load").a(r.range(0, 2)).a(r.chance(8) ? r.range(1, 2) : 0).a(r.chance(40)); if (r.chance(70)) io_faults(r, l, false, bytes); }
        else if (k < 90) sets((int)r.range(1, 4));
        else if (k < 93) p.add("clear");
        else {
            std::string t;
            int q = (int)r.range(0, 6);
            for (int j = 0; j < q; ++j) { t += r.chance(15) ? "# comment line" : word(r, 4) + " " + (big && r.chance(40) ? std::string((size_t)r.range(1500, 9500), 'w') : word(r, 9)); if (j + 1 < q || r.chance(60)) t += "\n"; }
            p.add("put").a(r.range(0, 2)).s(t);
        }
    }
}
SIM_SCENARIO(file, 1, gen, exec)
}

// C04: home-directory expansion under changing environments and memory failures.
#include "param_util.h"
#include <cstdlib>
#include <memory>
using namespace pm;

namespace {
bool tilde(const std::string& v) { return v == "~" || v.compare(0, 2, "~/") == 0; }
std::string expand(const std::string& v, const std::string& home) {
    if (!tilde(v)) return v;
    return home + "/" + (v.size() > 2 ? v.substr(2) : "");
}
void exec(const Plan& p) {
    rofl::ParamMap s;
    Model m;
    std::set<std::string> names;
    bool have = true;
    std::string home = "/home/sim";
    setenv("HOME", home.c_str(), 1);
    for (auto& l : p.lines) {
        if (l.op == "set") { s.setParamString(l.str(0), l.str(1)); m[l.str(0)] = l.str(1); names.insert(l.str(0)); continue; }
        if (l.op == "clear") { s.clear(); m.clear(); continue; }
        if (l.op == "home") { have = true; home = l.str(0); setenv("HOME", home.c_str(), 1); fault_fired(F_env_change); continue; }
        if (l.op == "nohome") { have = false; unsetenv("HOME"); fault_fired(F_env_change); continue; }
        if (l.op != "expand") continue;
        Model w = m;
        if (have) for (auto& x : w) x.second = expand(x.second, home);
        CallResult c;
        call(c, l, [&] { s.adaptTildeInPaths(); });
        check_excuse(c, l, "adaptTildeInPaths");
        const char* h = getenv("HOME");
        if ((h != nullptr) != have || (h && home != h)) violate("environment-changed", "the expansion modified the environment");
        if (c.ok() && !c.op.anyfired()) {
            expect(s, w, names, Str() << "after expanding with HOME " << (have ? enc(home) : std::string("unset")), "tilde-content");
            m = w;
        } else {
            // memory failed: every parameter is untouched or completely expanded
            size_t n = 0;
            Model v = view(s, names, &n);
            if (n != v.size()) violate("tilde-partial", "entries appeared");
            for (auto& x : m) if (!v.count(x.first)) violate("tilde-lost", Str() << "parameter " << enc(x.first) << " disappeared in a failed expansion");
            for (auto& x : v) {
                if (!m.count(x.first)) violate("tilde-partial", Str() << "parameter " << enc(x.first) << " appeared in a failed expansion");
                if (x.second != m[x.first] && x.second != w[x.first]) violate("tilde-partial", Str() << "parameter " << enc(x.first) << " is \"" << enc(x.second) << "\" after a failed expansion of \"" << enc(m[x.first]) << "\"");
            }
            if (c.ok() && v != w) violate("tilde-silent", "memory failed during the expansion, which returned normally with parameters left unexpanded");
            m = v;
            probe("expand-failed");
        }
        note(Str() << "expand " << c.out << " " << show(m));
    }
}
void gen(Rng& r, Plan& p) {
    const std::vector<std::string> vals = {"~", "~/", "~/a", "~/a/b.txt", "~user", "~user/x", "~~", "~/a~b", "~/x~/~", "a~b", "/abs/~", "/abs", "", "x", "~a", "~ ", " ~/x", "\\~/x", "~//y", "~.", "~/.config",
        "~/a-rather-long-path-name-that-needs-memory/of-its-own/file.yaml", "rel/path/that/is/longer/than/the/small/string/buffer", "~/with space/x", "~/.", "value#1", std::string("~/a\0b", 5), std::string("~\0/x", 4), std::string("x\0~/", 4)};
    const std::vector<std::string> homes = {"/home/sim", "/root", "", "/", "/home/a-very-long-user-name-with-a-very-long-home-directory-path", "/h/with space", "/home/x~y", "/home/sim/", "C:\\home", "~", "~/h"};
    int n = (int)r.range(1, 5);
    int fp = r.chance(40) ? 0 : 40;
    for (int q = 0; q < n; ++q) {
        int m = r.chance(3) ? (int)r.range(30, 120) : (int)r.skew(25);
        for (int i = 0; i < m; ++i) {
            std::string key = r.chance(80) ? "k" + std::to_string(r.range(0, m > 25 ? 120 : 20)) : r.pick(std::vector<std::string>{"~", "~/k", "a-key-longer-than-the-small-string-buffer", "z", "A"});
            std::string v = r.pick(vals);
            if (r.chance(25)) {      // tildes anywhere in texts of any length
                std::string pre((size_t)r.skew(90), 'p'), mid = r.pick(std::vector<std::string>{"~", "~/", "/~/", " ~/", "~~/", ":~/", "=~/"});
                v = (r.chance(30) ? "~/" : "") + pre + mid + std::string((size_t)r.skew(60), 'q');
            }
            p.add("set").s(key).s(v);
        }
        int e = (int)r.below(100);
        if (e < 25) p.add("nohome");
        else if (e < 75) p.add("home").s(r.chance(10) ? "/" + std::string((size_t)r.pick(std::vector<long>{100, 254, 255, 256, 300, 1023, 1024, 4095, 4096, 5000}), 'h') : r.pick(homes));
        Line& l = p.add("expand");
        arm_alloc(r, l, fp, 8);
        if (r.chance(40)) p.add("expand");
        if (r.chance(10)) p.add("clear");
    }
}
SIM_SCENARIO(tilde, 1, gen, exec)
}

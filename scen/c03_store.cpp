// C03: the parameter store as a map, over long histories of typed operations and memory failures.
#include "param_util.h"
#include <cmath>
#include <list>
#include <memory>
using namespace pm;

namespace {
typedef rofl::ParamMap Map;
const size_t NS = 2;

// ---- independent readings of text as a value ----
bool digits(const std::string& s, size_t a) {
    if (a >= s.size()) return false;
    for (size_t i = a; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false;
    return true;
}
bool conv(const std::string& s, long long lo, long long hi, long long& v) {
    size_t a = (!s.empty() && (s[0] == '-' || s[0] == '+')) ? 1 : 0;
    if (!digits(s, a)) return false;
    __int128 x = 0;
    for (size_t i = a; i < s.size(); ++i) { x = x * 10 + (s[i] - '0'); if (x > ((__int128)1 << 80)) return false; }
    if (s[0] == '-') x = -x;
    if (x < lo || x > hi) return false;
    v = (long long)x;
    return true;
}
template <class T> struct Ref;
template <> struct Ref<int> { static bool c(const std::string& s, int& v) { long long x; if (!conv(s, -2147483648LL, 2147483647LL, x)) return false; v = (int)x; return true; } static std::string text(int v) { return std::to_string(v); } };
template <> struct Ref<long> { static bool c(const std::string& s, long& v) { long long x; if (!conv(s, -9223372036854775807LL - 1, 9223372036854775807LL, x)) return false; v = (long)x; return true; } static std::string text(long v) { return std::to_string(v); } };
template <> struct Ref<bool> { static bool c(const std::string& s, bool& v) { long long x; if (!conv(s, 0, 1, x)) return false; v = x != 0; return true; } static std::string text(bool v) { return v ? "1" : "0"; } };
template <> struct Ref<double> {
    static bool c(const std::string& s, double& v) {
        // digits [. digits] [e[sign]digits]
        size_t i = 0, n = s.size(), d = 0;
        if (i < n && (s[i] == '-' || s[i] == '+')) ++i;
        while (i < n && isdigit((unsigned char)s[i])) { ++i; ++d; }
        if (i < n && s[i] == '.') { ++i; while (i < n && isdigit((unsigned char)s[i])) { ++i; ++d; } }
        if (!d) return false;
        if (i < n && s[i] == 'e') { ++i; if (i < n && (s[i] == '-' || s[i] == '+')) ++i; size_t k = i; while (i < n && isdigit((unsigned char)s[i])) ++i; if (i == k) return false; }
        if (i != n) return false;
        v = strtod(s.c_str(), nullptr);
        return true;
    }
    static std::string text(double v) { char b[64]; snprintf(b, sizeof b, "%g", v); return b; }
};
template <> struct Ref<std::string> { static bool c(const std::string& s, std::string& v) { v = s; return true; } static std::string text(const std::string& v) { return v; } };

template <class T> std::string val(const T& v) { Str s; s.o.precision(17); s << v; return s; }

std::vector<std::string> tokens(const std::string& s, const std::string& delim) {
    std::vector<std::string> v;
    std::string cur;
    for (char c : s) { if (delim.find(c) != std::string::npos) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) v.push_back(cur);
    return v;
}

struct World {
    std::unique_ptr<Map> s[NS];
    Model m[NS];
    std::set<std::string> names;
    World() { for (auto& x : s) x.reset(new Map()); }
    void all(const std::string& when, int but = -1) { for (size_t k = 0; k < NS; ++k) if ((int)k != but) expect(*s[k], m[k], names, Str() << "store " << k << " " << when, "store-content"); }
    // after a failed operation: every name has its old value or one the operation was storing
    void partial(size_t k, const std::vector<std::pair<std::string, std::string>>& storing, const std::string& when) {
        for (auto& p : storing) names.insert(p.first);
        size_t n = 0;
        Model v = view(*s[k], names, &n);
        if (n != v.size()) violate("store-partial", Str() << when << ": the store has " << n << " entries, " << v.size() << " of them known");
        for (auto& p : m[k]) if (!v.count(p.first)) violate("store-lost", Str() << when << ": parameter " << enc(p.first) << " disappeared");
        for (auto& p : v) {
            auto o = m[k].find(p.first);
            bool ok = o != m[k].end() && o->second == p.second;
            for (auto& q : storing) if (q.first == p.first && q.second == p.second) ok = true;
            if (!ok) violate("store-partial", Str() << when << ": parameter " << enc(p.first) << " is " << enc(p.second).substr(0, 100) << ", neither its old value nor one being stored");
        }
        m[k] = v;
        probe("op-failed");
    }
};

template <class T> T parseArg(const std::string& a);
template <> int parseArg<int>(const std::string& a) { return (int)strtol(a.c_str(), nullptr, 10); }
template <> long parseArg<long>(const std::string& a) { return strtol(a.c_str(), nullptr, 10); }
template <> bool parseArg<bool>(const std::string& a) { return a == "1"; }
template <> double parseArg<double>(const std::string& a) { return strtod(a.c_str(), nullptr); }
template <> std::string parseArg<std::string>(const std::string& a) { return a; }

template <class T> void doSet(World& w, size_t k, const Line& l) {
    T v = parseArg<T>(l.str(3));
    std::string key = l.str(1), text = Ref<T>::text(v);
    CallResult c;
    w.names.insert(key);
    call(c, l, [&] { w.s[k]->template setParam<T>(key, v); });
    check_excuse(c, l, "setParam");
    if (c.ok()) w.m[k][key] = text; else w.partial(k, {{key, text}}, "after a failed setParam");
}
template <class T> void doGet(World& w, size_t k, const Line& l) {
    T def = parseArg<T>(l.str(3)), got = T();
    T other = parseArg<T>(l.str(4));
    got = other;     // what the variable held before
    std::string key = l.str(1);
    w.names.insert(key);
    CallResult c;
    bool ret = false;
    bool alias = l.i(5) != 0;      // the variable itself as default: "keep what it holds"
    if (alias) got = def;
    call(c, l, [&] { ret = w.s[k]->template getParam<T>(key, got, alias ? got : def); });
    check_excuse(c, l, "getParam");
    auto it = w.m[k].find(key);
    if (!c.ok()) { if (it == w.m[k].end()) w.partial(k, {{key, Ref<T>::text(def)}}, "after a failed getParam"); else w.partial(k, {}, "after a failed getParam"); return; }
    if (it == w.m[k].end()) {
        if (ret) violate("get-missing", Str() << "looking up the missing " << enc(key) << " reported that it exists");
        if (!(got == def)) violate("get-missing", Str() << "looking up the missing " << enc(key) << " gave " << enc(val(got)) << ", not the default " << enc(val(def)));
        w.m[k][key] = Ref<T>::text(def);
    } else {
        if (!ret) violate("get-present", Str() << "looking up the existing " << enc(key) << " reported that it is missing");
        T want;
        bool ok = Ref<T>::c(it->second, want);
        if (!ok) { want = def; probe("unconvertible"); }
        if (!(got == want)) violate(ok ? "get-value" : "get-unconvertible", Str() << "looking up " << enc(key) << " = \"" << enc(it->second) << "\" gave " << enc(val(got)) << " instead of " << enc(val(want)));
    }
    note(Str() << "get " << ret << " " << val(got));
}
template <class T> void doGetC(World& w, size_t k, const Line& l, bool inserter) {
    std::string key = l.str(1), defs = l.str(3);
    T def = parseArg<T>(l.str(4));
    size_t n = (size_t)l.i(5);
    std::string delim = l.str(6);
    w.names.insert(key);
    auto it = w.m[k].find(key);
    std::vector<T> v;
    std::list<T> li(n, def);
    bool useList = l.i(7) != 0;
    std::vector<T> got;
    CallResult c;
    bool ret = false;
    bool dflt = delim == "[],";
    if (inserter) {
        call(c, l, [&] { ret = dflt ? w.s[k]->template getParamContainerInserter<T>(key, std::back_inserter(v), def) : w.s[k]->template getParamContainerInserter<T>(key, std::back_inserter(v), def, delim); });
    } else {
        v.assign(n, parseArg<T>("1"));
        if (useList) call(c, l, [&] { ret = w.s[k]->template getParamContainer<T>(key, li.begin(), li.end(), defs, def, delim); });
        else call(c, l, [&] { ret = dflt ? w.s[k]->template getParamContainer<T>(key, v.begin(), v.end(), defs, def) : w.s[k]->template getParamContainer<T>(key, v.begin(), v.end(), defs, def, delim); });
        if (useList) v.assign(li.begin(), li.end());
    }
    check_excuse(c, l, "getParamContainer");
    std::string reg = inserter ? "" : defs;
    if (!c.ok()) { if (it == w.m[k].end()) w.partial(k, {{key, reg}}, "after a failed container lookup"); else w.partial(k, {}, "after a failed container lookup"); return; }
    bool present = it != w.m[k].end();
    if (ret != present) violate("getc-presence", Str() << "container lookup of " << enc(key) << " reported " << (ret ? "present" : "missing"));
    std::vector<T> want;
    std::vector<std::string> tk;
    if (present) tk = tokens(it->second, delim);
    else if (!inserter) tk = tokens(defs, delim);
    for (auto& t : tk) { T x; if (!Ref<T>::c(t, x)) { probe("unconvertible-element"); break; } want.push_back(x); }
    if (!inserter) want.resize(n, def);
    if (!present) w.m[k][key] = reg;
    if (!(want == v)) {
        Str s;
        for (auto x : v) s << enc(val(x)) << ",";
        violate("getc-value", Str() << "container lookup of " << enc(key) << " = \"" << enc(w.m[k][key]) << "\" with delimiters " << enc(delim) << " gave [" << (std::string)s << "]");
    }
    Str s;
    for (auto x : v) s << val(x) << ",";
    note(Str() << "getc " << ret << " " << (std::string)s);
}

void exec(const Plan& p) {
    World w;
    for (auto& l : p.lines) {
        size_t k = (size_t)l.i(0) % NS;
        CallResult c;
        std::string t = l.str(2);
        if (l.op == "set") {
            if (t == "i") doSet<int>(w, k, l); else if (t == "l") doSet<long>(w, k, l); else if (t == "b") doSet<bool>(w, k, l); else if (t == "d") doSet<double>(w, k, l); else doSet<std::string>(w, k, l);
        } else if (l.op == "setstr") {
            std::string key = l.str(1), v = l.str(2);
            w.names.insert(key);
            call(c, l, [&] { w.s[k]->setParamString(key, v); });
            check_excuse(c, l, "setParamString");
            if (c.ok()) w.m[k][key] = v; else w.partial(k, {{key, v}}, "after a failed setParamString");
        } else if (l.op == "get") {
            if (t == "i") doGet<int>(w, k, l); else if (t == "l") doGet<long>(w, k, l); else if (t == "b") doGet<bool>(w, k, l); else if (t == "d") doGet<double>(w, k, l); else doGet<std::string>(w, k, l);
        } else if (l.op == "getc" || l.op == "geti") {
            bool ins = l.op == "geti";
            if (t == "i") doGetC<int>(w, k, l, ins); else if (t == "d") doGetC<double>(w, k, l, ins); else doGetC<std::string>(w, k, l, ins);
        } else if (l.op == "clear") {
            call(c, l, [&] { w.s[k]->clear(); });
            check_excuse(c, l, "clear");
            w.m[k].clear();
        } else if (l.op == "argv" || l.op == "argvsh") {
            std::vector<std::string> a(1, l.op == "argv" ? "prog" : "-sh");     // login shells and the like start their name with '-'
            for (size_t i = 1; i < l.n(); ++i) a.push_back(l.str(i));
            std::vector<std::vector<char>> mem;
            std::vector<char*> av;
            for (auto& x : a) x = x.c_str();     // a command line holds C strings
            for (auto& x : a) { mem.emplace_back(x.begin(), x.end()); mem.back().push_back(0); }
            for (auto& x : mem) av.push_back(x.data());
            int argc = (int)av.size();
            std::vector<std::pair<std::string, std::string>> st;
            auto opt = [](const std::string& s) { return s.size() >= 2 && s[0] == '-' && isalpha((unsigned char)s[1]); };
            for (size_t i = 1; i + 1 < a.size(); ++i) if (opt(a[i]) && !opt(a[i + 1])) { st.push_back({a[i].substr(1), a[i + 1]}); w.names.insert(a[i].substr(1)); }
            bool ret = false;
            call(c, l, [&] { ret = w.s[k]->read(argc, av.data()); });
            check_excuse(c, l, "read(argc,argv)");
            for (size_t i = 0; i < a.size(); ++i) if (a[i] != mem[i].data()) violate("argv-modified", "the command line was modified");
            if (c.ok() && ret) for (auto& q : st) w.m[k][q.first] = q.second;
            else { if (c.ok() && !c.op.anyfired()) violate("argv-claims-failure", "command line parsing reported failure"); w.partial(k, st, "after a failed command line"); }
        } else if (l.op == "read") {
            std::istringstream in(l.str(1));
            bool cp, ret = false;
            std::vector<std::pair<std::string, std::string>> st;
            for (auto& x : split_lines(l.str(1), cp)) { std::string a, b; if (parse_line(x, a, b)) { st.push_back({a, b}); w.names.insert(a); } }
            call(c, l, [&] { ret = w.s[k]->read(in); });
            check_excuse(c, l, "read(stream)");
            if (c.ok() && ret) for (auto& q : st) w.m[k][q.first] = q.second;
            else { if (c.ok() && !c.op.anyfired()) violate("read-claims-failure", "reading reported failure"); w.partial(k, st, "after a failed stream read"); }
        } else if (l.op == "print") {
            std::ostringstream o;
            bool pre = l.i(1) != 0, ret = false;
            std::string px = l.str(2);
            call(c, l, [&] { const Map& cm = *w.s[k]; ret = pre ? cm.write(o, px) : cm.write(o); });
            check_excuse(c, l, "write");
            if (c.ok() && ret) {
                std::vector<std::string> want;
                std::string all;
                for (auto& q : w.m[k]) all += (pre ? px : "") + q.first + " " + q.second + "\n";
                bool cp;
                std::vector<std::string> a = split_lines(all, cp), b = split_lines(o.str(), cp);
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                if (a != b || o.str().size() != all.size()) violate("print-content", Str() << "printing gave \"" << enc(o.str()).substr(0, 300) << "\" for " << show(w.m[k]));
            } else if (!c.op.anyfired()) violate("print-claims-failure", "printing reported failure");
            note(Str() << "print " << ret << " " << o.str().size());
        } else if (l.op == "copy") {
            std::unique_ptr<Map> q;
            call(c, l, [&] { q.reset(new Map(*w.s[k])); });
            check_excuse(c, l, "copy");
            if (c.ok()) { w.s[1 - k].swap(q); w.m[1 - k] = w.m[k]; }
        }
        w.all(Str() << "after " << l.op << (c.ok() ? "" : " (failed)"));
        note(Str() << l.op << " " << c.out << " " << show(w.m[k]));
    }
}

const std::vector<std::string> VALS = {"0", "1", "7", "-3", "+5", "42", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "1.5", "-2e3", "2.5e-3", ".5", "abc", "", " ", "1 ", " 1",
    "1x", "true", "two words", "~/dir", "#x", "[1,2,3]", "[4,x,6]", "1,2,3,4,5,6", "[]", "1;2", "-", "--", "a value that is longer than the small string buffer", "[10,20,30,40,50,60,70,80,90,100]",
    std::string("12\0x", 4), std::string("1\0", 2), std::string("\0", 1), std::string("1,2\0,3", 7), "0x10", "1e2", "007", "-0", "+", "1.", "3.0", "inf_", "1,,2", ",1", "[[1],[2]]", "9223372036854775807", "9223372036854775808", "-9223372036854775808"};
void gen(Rng& r, Plan& p) {
    std::vector<std::string> keys = {"a", "b", "ab", "A", "width", "a-key-longer-than-the-small-string-buffer", "a-key-longer-than-the-small-string-buffer2", "k", "#c", "-n", "k=v", "a.b"};
    int nk = (int)r.range(2, (long)keys.size());
    keys.resize((size_t)nk);
    if (r.chance(4)) for (int i = 0, q = (int)r.range(20, 150); i < q; ++i) keys.push_back("n" + std::to_string(i));   // large stores
    int n = (int)(keys.size() > 20 ? r.range(60, 250) : r.chance(4) ? r.range(60, 200) : r.range(3, 30));
    int fp = r.chance(35) ? 0 : 35;
    const std::vector<std::string> T5 = {"i", "l", "b", "d", "s"}, T3 = {"i", "d", "s"};
    auto typed = [&](const std::string& t) -> std::string {
        if (t == "i") return std::to_string(r.range(-1000, 1000));
        if (t == "l") return std::to_string(r.chance(30) ? (long)(r.next() >> 2) : r.range(-5, 5));
        if (t == "b") return r.chance(50) ? "1" : "0";
        if (t == "d") return r.pick(std::vector<std::string>{"0", "1.5", "-0.25", "1e6", "2.5e-7", "123456", "-3"});
        return r.chance(50) ? r.pick(VALS) : std::string((size_t)r.range(10, 700), 's');
    };
    for (int i = 0; i < n; ++i) {
        long k = r.range(0, 1);
        int w = (int)r.below(100);
        std::string key = r.pick(keys);
        if (w < 18) { auto t = r.pick(T5); Line& l = p.add("set").a(k).s(key).s(t).s(typed(t)); arm_alloc(r, l, fp, 6); }
        else if (w < 32) { Line& l = p.add("setstr").a(k).s(key).s(r.pick(VALS)); arm_alloc(r, l, fp, 5); }
        else if (w < 52) { auto t = r.pick(T5); Line& l = p.add("get").a(k).s(key).s(t).s(typed(t)).s(typed(t)); if (r.chance(15)) l.a(1); arm_alloc(r, l, fp, 6); }
        else if (w < 62) { auto t = r.pick(T3); Line& l = p.add("getc").a(k).s(key).s(t).s(r.pick(VALS)).s(typed(t)).a(r.range(0, 6)).s(r.chance(70) ? "[],": ";,").a(r.range(0, 1)); arm_alloc(r, l, fp, 12); }
        else if (w < 70) { auto t = r.pick(T3); Line& l = p.add("geti").a(k).s(key).s(t).s("").s(typed(t)).a(0).s(r.chance(70) ? "[],": ";,").a(0); arm_alloc(r, l, fp, 12); }
        else if (w < 73) p.add("clear").a(k);
        else if (w < 83) {
            Line& l = p.add(r.chance(90) ? "argv" : "argvsh").a(k);
            int m = r.chance(5) ? (int)r.range(8, 60) : (int)r.range(0, 7);
            for (int j = 0; j < m; ++j) { int q = (int)r.below(10); l.s(q < 4 ? "-" + r.pick(keys) : q < 5 ? "-" + std::to_string(r.range(0, 9)) : q < 6 ? "--" + r.pick(keys) : r.pick(VALS)); }
            arm_alloc(r, l, fp, 14);
        } else if (w < 91) {
            std::string t;
            int m = (int)r.range(0, 5);
            for (int j = 0; j < m; ++j) t += r.pick(keys) + " " + r.pick(VALS) + (r.chance(90) ? "\n" : "");
            Line& l = p.add("read").a(k).s(t);
            arm_alloc(r, l, fp, 14);
        } else if (w < 97) { Line& l = p.add("print").a(k).a(r.range(0, 1)).s(r.pick(std::vector<std::string>{"", "# ", "#  ", "  - "})); arm_alloc(r, l, fp, 4); }
        else { Line& l = p.add("copy").a(k); arm_alloc(r, l, fp, 10); }
    }
}
SIM_SCENARIO(store, 1, gen, exec)
}

// Shared by the parameter-store scenarios: a view of a store through its public operations.
#pragma once
#include "../sim/core.h"
#include <rofl/common/param_map.h>
#include <algorithm>
#include <set>

namespace pm {
using namespace sim;
typedef std::map<std::string, std::string> Model;

inline std::string show(const Model& m) {
    Str s; s << "{";
    for (auto& p : m) {
        s << enc(p.first) << "=" << (p.second.size() > 60 ? enc(p.second.substr(0, 60)) + "...(" + std::to_string(p.second.size()) + ")" : enc(p.second)) << " ";
    }
    s << "}"; return s;
}
inline bool is_ws(char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\f' || c == '\r' || c == '\n'; }
inline bool single_word(const std::string& s) {
    if (s.empty()) return false;
    for (char c : s) if (is_ws(c)) return false;
    return true;
}
// independent reading of one configuration line
inline bool parse_line(const std::string& l, std::string& k, std::string& v) {
    std::vector<std::string> w;
    std::string cur;
    for (char c : l) { if (is_ws(c)) { if (!cur.empty()) { w.push_back(cur); cur.clear(); } } else cur += c; }
    if (!cur.empty()) w.push_back(cur);
    if (w.size() < 2 || w[0][0] == '#') return false;
    k = w[0]; v = w[1];
    return true;
}
inline std::vector<std::string> split_lines(const std::string& t, bool& last_complete) {
    std::vector<std::string> v;
    size_t a = 0;
    last_complete = true;
    while (a < t.size()) {
        size_t e = t.find('\n', a);
        if (e == std::string::npos) { v.push_back(t.substr(a)); last_complete = false; break; }
        v.push_back(t.substr(a, e - a));
        a = e + 1;
    }
    return v;
}
// the store's content as far as `names` go, plus the number of entries it prints
inline Model view(const rofl::ParamMap& p, const std::set<std::string>& names, size_t* entries = nullptr) {
    Model m;
    rofl::ParamMap c(p);
    const std::string absent = "\x01 absent \x02";
    for (auto& n : names) {
        std::string v = "\x03";
        bool has = c.getParam<std::string>(n, v, absent);
        if (has) m[n] = v;
        else if (v != absent) violate("param-default", Str() << "missing name " << enc(n) << " did not yield the default");
    }
    if (entries) {
        std::ostringstream o;
        const std::string mark = "\x04\x05@";
        p.write(o, mark);
        std::string t = o.str();
        size_t n = 0, at = 0;
        while ((at = t.find(mark, at)) != std::string::npos) { ++n; at += mark.size(); }
        *entries = n;
    }
    return m;
}
// exact content check
inline void expect(const rofl::ParamMap& p, const Model& m, std::set<std::string> names, const std::string& when, const char* cls) {
    for (auto& x : m) names.insert(x.first);
    size_t n = 0;
    Model v = view(p, names, &n);
    if (v != m || n != m.size()) {
        Str d;
        for (auto& x : m) if (!v.count(x.first)) d << " lost " << enc(x.first); else if (v[x.first] != x.second) d << " " << enc(x.first) << " is " << enc(v[x.first]).substr(0, 80) << " not " << enc(x.second).substr(0, 80);
        for (auto& x : v) if (!m.count(x.first)) d << " gained " << enc(x.first);
        if (n != m.size()) d << " entries " << n << "/" << m.size();
        violate(cls, Str() << when << ":" << (std::string)d);
    }
}
}

// Parsing of the profiler's report: "label \tavg \tvar \tmin \tmax \tcount \t", labels may contain blanks.
#pragma once
#include "../sim/core.h"
struct Row { std::string label; double avg, var, mn, mx; unsigned long count; };
inline std::vector<Row> parse_report(const std::string& text) {
    using namespace sim;
    std::vector<Row> rows;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
        std::vector<std::string> f;
        std::string rest = line;
        while (!rest.empty() && (rest.back() == ' ' || rest.back() == '\t' || rest.back() == '\r')) rest.pop_back();
        for (int k = 0; k < 5; ++k) {
            size_t p = rest.find_last_of(" \t");
            if (p == std::string::npos) violate("malformed-report", Str() << "report line \"" << line << "\" lacks a field");
            f.push_back(rest.substr(p + 1));
            rest.resize(p);
            // the separator is blank + tab; strip exactly one of each before the label, which may end in blanks
            if (k < 4) while (!rest.empty() && (rest.back() == ' ' || rest.back() == '\t')) rest.pop_back();
        }
        if (!rest.empty() && rest.back() == ' ') rest.pop_back();
        Row r;
        r.label = rest;
        char* e = nullptr;
        auto num = [&](const std::string& s) {
            double v = strtod(s.c_str(), &e);
            if (e == s.c_str() || *e) violate("malformed-report", Str() << "report line \"" << line << "\" has a field that is not a number");
            return v;
        };
        r.count = (unsigned long)num(f[0]); r.mx = num(f[1]); r.mn = num(f[2]); r.var = num(f[3]); r.avg = num(f[4]);
        rows.push_back(r);
    }
    return rows;
}
inline std::string show_row(const Row& r) {
    sim::Str s;
    s.o.precision(17);
    s << "count " << r.count << " mean " << r.avg << " variance " << r.var << " min " << r.mn << " max " << r.mx;
    return s;
}

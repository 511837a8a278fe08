// C26: scalar consensus with reused outputs, against the consensus sets enumerated from its definition, with failing allocations.
#include "../sim/core.h"
#include <algorithm>
#include <cmath>
#include <vector>
#include <rofl/common/tls_scalar_consensus.h>
using namespace sim;

namespace {
template <class S> struct World {
    typedef std::vector<S> V;
    static std::string bits(S v, const std::vector<bool>& in) { char b[48]; snprintf(b, sizeof b, "%a:", (double)v); std::string s = b; for (bool x : in) s += x ? '1' : '0'; return s; }
    static void fill(const Line& l, V& x, V& r) {
        Rng g((u64)l.i(1));
        size_t n = (size_t)std::min(std::max(l.i(2), 0L), 400L);
        int how = (int)l.i(3) % 7;
        bool f = sizeof(S) == 4;
        double span = f ? 4 : 50, rl = f ? 0.25 : 0.0625, rh = f ? 1 : how == 3 ? 40 : 4, centre = (double)g.range(-100, 100) / 100 * span;
        for (size_t i = 0; i < n; ++i) {
            double v = (double)g.range(-1000000, 1000000) / 1e6 * span, w = rl + (double)g.range(0, 1000000) / 1e6 * (rh - rl);
            if (how == 1 || how == 4) { v = std::round(v * 16) / 16; w = std::max(rl, std::round(w * 16) / 16); }        // endpoints that meet
            if (how == 2 && g.chance(60)) v = centre + (double)g.range(-1000, 1000) / 1000 * w;               // most of them agree
            if (how == 4 && i && g.chance(40)) { size_t j = (size_t)g.below(i); v = (double)x[j]; if (g.chance(50)) w = (double)r[j]; }    // repeated values
            if (how == 5 && !f) { v /= 25; w = g.chance(20) ? 0 : 0.0625 + w / 20; }                             // some without any tolerance
            if (how == 6 && !f) v += 200 * centre + (g.chance(10) ? 3000 : 0);                                       // far from the origin
            x.push_back((S)v);
            r.push_back((S)w);
        }
    }
    // cost of a consensus set: squared residuals from its weighted mean plus the ranges of the others
    static void eval(const V& x, const V& r, const std::vector<char>& in, double& h, double& cost) {
        double sw = 0, sx = 0;
        for (size_t i = 0; i < x.size(); ++i) if (in[i]) { double w = r[i] < 1e-6 ? 1e12 : 1 / ((double)r[i] * (double)r[i]); sw += w; sx += w * (double)x[i]; }
        h = sx / sw;
        cost = 0;
        for (size_t i = 0; i < x.size(); ++i) { double e = (double)x[i] - h; cost += in[i] ? e * e : (double)r[i]; }
    }
    static void exec(const Plan& p) {
        std::vector<bool> out[3];
        S val[3] = {0, 0, 0};
        for (auto& l : p.lines) {
            size_t k = (size_t)l.i(0) % 3;
            if (l.op == "junk") { Rng g((u64)l.i(1)); out[k].assign((size_t)g.below(60), g.chance(50)); val[k] = (S)g.range(-9, 9); if (g.chance(10)) val[k] = (S)NAN; continue; }
            if (l.op != "est") continue;
            V x, r;
            fill(l, x, r);
            V x0 = x, r0 = r;
            size_t n = x.size();
            CallResult c;
            S before = val[k];
            call(c, l, [&] { rofl::estimateTranslationTls<S>(x, r, val[k], out[k]); });
            check_excuse(c, l, "the consensus");
            if (x != x0 || r != r0) violate("consensus-input", "the call changed its samples");
            if (!c.ok()) { probe("failed"); note("failed"); continue; }
            if (out[k].size() != n) violate("consensus-inliers", Str() << n << " samples got " << out[k].size() << " marks");
            if (n == 0) { if (!(val[k] == before || (val[k] != val[k] && before != before))) violate("consensus-empty", "a consensus of no samples changed the value"); probe("empty"); continue; }
            double v = (double)val[k], tol = (sizeof(S) == 4 ? 4e-3 : 1e-7) * (l.i(3) % 7 == 5 && sizeof(S) == 8 ? 1e5 : 1 + (double)n / 16), ctol = (l.i(3) % 7 == 6 ? 400 : 4) * tol;
            if (!std::isfinite(v)) violate("consensus-value", Str() << "the consensus of " << n << " samples is " << v);
            for (size_t i = 0; i < n; ++i) {
                double d = fabs((double)x[i] - v) - (double)r[i];
                if (fabs(d) > 1e-6 && out[k][i] != (d < 0)) violate("consensus-inliers", Str() << "sample " << x[i] << " of range " << r[i] << " is marked " << (out[k][i] ? "inlier" : "outlier") << " of " << v);
            }
            // consensus sets, from the ends of the acceptance intervals in order
            struct End { double at; size_t i; bool start; };
            std::vector<End> ends;
            for (size_t i = 0; i < n; ++i) { ends.push_back({(double)(S)(x[i] - r[i]), i, true}); ends.push_back({(double)(S)(x[i] + r[i]), i, false}); }
            std::sort(ends.begin(), ends.end(), [](const End& a, const End& b) { return a.at < b.at; });
            std::vector<char> in(n, 0);
            double least = INFINITY, mine = INFINITY;
            bool skip = false;
            size_t cnt = 0;
            double meet = sizeof(S) == 4 ? 1e-5 : 1e-9;      // ends this close may come in any order
            for (size_t a = 0; a < ends.size();) {
                size_t b = a + 1;
                while (b < ends.size() && ends[b].at - ends[b - 1].at <= meet) ++b;
                double h, cost;
                if (b - a > 1) {
                    if (b - a > 7 || n > 100) skip = true;
                    else for (unsigned m = 1; m + 1 < (1u << (b - a)); ++m) {
                        std::vector<char> t = in;
                        for (size_t j = a; j < b; ++j) if (m >> (j - a) & 1) t[ends[j].i] = ends[j].start;
                        if (std::find(t.begin(), t.end(), (char)1) == t.end()) continue;
                        eval(x, r, t, h, cost);
                        if (fabs(h - v) <= tol) mine = std::min(mine, cost);
                    }
                }
                for (int st = 1; st >= 0; --st) for (size_t j = a; j < b; ++j) if (ends[j].start == (st == 1)) { in[ends[j].i] = (char)st; if (st) ++cnt; else --cnt; }
                if (cnt) {
                    eval(x, r, in, h, cost);
                    least = std::min(least, cost);
                    if (fabs(h - v) <= tol) mine = std::min(mine, cost);
                }
                a = b;
            }
            if (skip) probe("crowded-ends");
            else {
                if (mine == INFINITY) violate("consensus-value", Str() << v << " is not the mean of any of the consensus sets of the " << n << " samples");
                if (!(mine <= least + ctol)) violate("consensus-cost", Str() << "the consensus " << v << " of " << n << " samples costs " << mine << ", another one costs " << least);
                probe("checked");
            }
            std::string got = bits(val[k], out[k]);
            if (l.i(4)) {
                std::string alone = in_fresh_process([&] { S v1 = 0; std::vector<bool> o; rofl::estimateTranslationTls<S>(x, r, v1, o); return bits(v1, o); });
                if (alone != got) violate("consensus-history", Str() << "the consensus is " << got << " but " << alone << " in a new process with new outputs");
                probe("fresh-process");
            }
            note(got);
        }
    }
};
void exec(const Plan& p) {
    if (!p.lines.empty() && p.lines[0].op == "float") World<float>::exec(p);
    else World<double>::exec(p);
}
void gen(Rng& r, Plan& p) {
    bool f = r.chance(35);
    p.add(f ? "float" : "double").a(0);
    int n = (int)r.range(2, 9), fp = r.chance(40) ? 0 : 35;
    for (int i = 0; i < n; ++i) {
        if (r.chance(12)) { p.add("junk").a((long)r.below(3)).a((long)r.below(1u << 30)); continue; }
        long m = r.chance(3) ? 0 : f ? r.range(1, 12) : r.chance(3) ? r.range(100, 300) : 1 + r.skew(r.chance(20) ? 70 : 20);
        Line& l = p.add("est").a((long)r.below(3)).a((long)r.below(1u << 30)).a(m).a(r.range(0, 6)).a(r.chance(8));
        arm_alloc(r, l, fp, 12);
    }
}
SIM_SCENARIO(consensus, 1, gen, exec)
}

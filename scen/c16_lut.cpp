// C16: PNEBI look-up table against a table freshly built in another process.
#include "../sim/core.h"
#include <rofl/common/functions.h>
#include <cmath>
#include <memory>
using namespace sim;

namespace {
typedef rofl::PnebiLUT L;
const double TOLS[] = {0.5, 0.25, 0.11, 0.06, 0.03, 1.0};
double xs(long k) {
    static const double base[] = {0.0, 1e-9, 0.1, 0.5, 1.0, 2.5, 7.0, 30.0, 200.0, 599.0, 601.0, 5000.0, -0.5, -3.0};
    static const double wide[] = {1e4, 1.5e5, 1e300, 1e9, 1e308, 650.0, 600.0, 599.999, 1000.0, 12.5, 4e-3, -700.0, -1e9};
    return k < 14 ? base[k] : k < 40 ? (double)k * 0.37 : wide[(k - 40) % 13];
}
std::string bits(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }

// everything observable about a table at argument x
std::string probe_at(const L& l, double x) {
    Str s;
    int o = l.getOrderMax();
    s << "o" << o;
    for (int k = 0; k < o; ++k) s << " " << bits(l.eval(k, x));
    std::vector<double> y;
    l.eval(x, y);
    s << " |";
    for (size_t k = 0; k < y.size(); ++k) s << " " << bits(y[k]);
    return s;
}

void exec(const Plan& p) {
    std::unique_ptr<L> l(new L());
    int n = -1; double tol = 0;    // parameters of the last successful initialisation
    std::map<std::string, std::string> ref;
    std::vector<double> kept;       // a caller's vector, used for one evaluation after another
    Line none;
    auto check = [&](double x, const char* when) {
        CallResult c;
        std::string got;
        call(c, none, [&] { HostScope h; std::string g; { --t_host; struct G { ~G() { ++t_host; } } gg; g = probe_at(*l, x); } got = g; });
        check_excuse(c, none, "evaluation");
        std::string want;
        if (n < 0) want = probe_at(L(), x);
        else {
            std::string key = Str() << n << "/" << tol << "/" << bits(x);
            if (!ref.count(key)) ref[key] = in_fresh_process([&] { L f(n, tol); return probe_at(f, x); });
            want = ref[key];
        }
        if (got != want) violate("lut-answer", Str() << when << ": table (last built with order " << n << ", tolerance " << tol << ") answers " << got << " at x=" << x << " but a fresh one answers " << want);
        // both forms agree
        note(Str() << when << " x=" << bits(x) << " " << got);
    };
    for (auto& ln : p.lines) {
        CallResult c;
        if (ln.op == "init" || ln.op == "ctor") {
            int nn = (int)ln.i(0); double tt = TOLS[ln.i(1) % 6];
            std::unique_ptr<L> q;
            call(c, ln, [&] { if (ln.op == "init") l->init(nn, tt); else q.reset(new L(nn, tt)); });
            check_excuse(c, ln, "initialisation");
            if (c.ok()) { n = nn; tol = tt; if (q) l.swap(q); } else probe("init-failed");
            check(xs(ln.i(2) % 53), "after init");
        } else if (ln.op == "eval") {
            if (n < 0) continue;
            double x = xs(ln.i(2) % 53);
            if (ln.faults.empty()) {
                // single-order and all-orders forms are consistent, and a prepared vector is filled
                std::vector<double> y((size_t)(ln.i(1) * 7 + ln.i(0)) % 40, -1.0), y2, e;
                call(c, ln, [&] { l->eval(x, y2); l->eval(x, y); for (int k = 0; k < l->getOrderMax(); ++k) { double v = l->eval(k, x); HostScope h; e.push_back(v); } });
                check_excuse(c, ln, "evaluation");
                if ((int)y.size() < n + 1) violate("lut-eval", Str() << "all-orders evaluation filled " << y.size() << " values of " << n + 1);
                for (int k = 0; k <= n; ++k)
                    if (y[(size_t)k] != y2[(size_t)k]) violate("lut-eval", Str() << "order " << k << " at x=" << x << " is " << y[(size_t)k] << " in a used vector, " << y2[(size_t)k] << " in a new one");
                for (int k = 0; k < n; ++k)
                    if (!(fabs(y[(size_t)k] - e[(size_t)k]) <= (tol < 0.3 && fabs(x) >= 1e300 ? 0 : 1e-12) + 1e-9 * fabs(e[(size_t)k]))) violate("lut-eval", Str() << "order " << k << " at x=" << x << ": single form gives " << bits(e[(size_t)k]) << ", all-orders form " << bits(y[(size_t)k]));
            } else {
                std::vector<double> y;
                call(c, ln, [&] { l->eval(x, y); if (n > 0) l->eval(0, x); });
                check_excuse(c, ln, "evaluation");
            }
            check(x, "after eval");
        } else if (ln.op == "direct") {
            // evaluation without a table, into a vector that held something else
            double x = xs(ln.i(2) % 53);
            int m = (int)ln.i(0);
            if (fabs(x) > 1e4) x = fmod(x, 1e4);
            call(c, ln, [&] { rofl::evaluatePnebiVector(m, x, kept); });
            check_excuse(c, ln, "evaluation");
            if (!c.ok()) continue;
            std::string got, want;
            for (int k = 0; k <= m && k < (int)kept.size(); ++k) got += bits(kept[(size_t)k]) + " ";
            want = in_fresh_process([&] { std::vector<double> v; rofl::evaluatePnebiVector(m, x, v); std::string w; for (int k = 0; k <= m && k < (int)v.size(); ++k) w += bits(v[(size_t)k]) + " "; return w; });
            if (got != want) violate("lut-reuse", Str() << "orders up to " << m << " at x=" << x << " are " << got << "in a used vector, " << want << "in a new one");
            note(got);
            probe("reused");
        } else if (ln.op == "copy") {
            std::unique_ptr<L> q;
            call(c, ln, [&] { q.reset(new L(*l)); });
            check_excuse(c, ln, "copy");
            if (c.ok()) l.swap(q);
            check(xs(ln.i(2) % 53), "after copy");
        }
    }
}
void gen(Rng& r, Plan& p) {
    int n = (int)r.range(2, 9);
    bool wide = r.chance(10);      // many orders
    auto order = [&]() -> long { return wide && r.chance(60) ? r.range(7, 34) : r.range(1, 6); };
    { Line& l = p.add(r.chance(50) ? "init" : "ctor").a(order()).a(r.range(0, 5)).a(r.range(0, 52)); if (r.chance(20)) arm_alloc(r, l, 100, 60); }
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(100);
        Line& l = p.add(k < 55 ? "init" : k < 60 ? "ctor" : k < 84 ? "eval" : k < 95 ? "direct" : "copy").a(order()).a(r.range(0, 5)).a(r.range(0, 52));
        if (k < 60) { if (r.chance(60)) l.f(r.chance(25) ? F_allocp : F_alloc, 1 + r.skew(r.chance(50) ? 8 : 140)); }
        else if (k >= 95 || r.chance(20)) arm_alloc(r, l, 50, 6);
    }
}
SIM_SCENARIO(lut, 1, gen, exec)
}

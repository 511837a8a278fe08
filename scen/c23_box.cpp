// C23: box registration over histories of dimensions, starts, steps and queries, with failing allocations and associations.
#include "../sim/core.h"
#include <algorithm>
#include <rofl/geometry/box_registration.h>
#include <Eigen/Eigenvalues>
#include <cmath>
#include <memory>
using namespace sim;

namespace {
template <class S, int D> struct World {
    typedef rofl::BoxRegistration<S, D> Base;
    typedef typename Base::Point Pt;
    typedef typename Base::VectorPoint Pts;
    typedef typename Base::Transform Tr;
    typedef Eigen::Matrix<double, D, 1> Vd;
    typedef Eigen::Matrix<double, D, D> Md;
    struct Box : Base {
        EIGEN_MAKE_ALIGNED_OPERATOR_NEW;
        void associate(const Pt& q, Pt& n) const override {
            if (throws()) throw InjectedError();
            Base::associate(q, n);
        }
        static bool throws() { HostScope h; return cb_should_throw(); }
    };
    static constexpr double EPS = sizeof(S) == 4 ? 4e-5 : 1e-9;
    struct State {
        EIGEN_MAKE_ALIGNED_OPERATOR_NEW;
        std::unique_ptr<Box> b;
        Pt dim;
        bool given = false, rigid = true;
        Pts cloud;
        Tr t;
        State() : b(new Box()), t(Tr::Identity()) {}
    };
    static std::string show(const Tr& t) { Str o; o.o.precision(9); for (int i = 0; i < D; ++i) for (int j = 0; j <= D; ++j) o << t.matrix()(i, j) << " "; return o; }
    static bool same(const Tr& a, const Tr& b) { for (int i = 0; i < (D + 1) * (D + 1); ++i) { S x = a.matrix().data()[i], y = b.matrix().data()[i]; if (x != y && !(x != x && y != y)) return false; } return true; }
    static double scale(const State& s) {
        double m = 1;
        for (auto& p : s.cloud) for (int d = 0; d < D; ++d) m = std::max(m, fabs((double)p(d)));
        for (int d = 0; d < D; ++d) { m = std::max(m, (double)s.dim(d)); m = std::max(m, fabs((double)s.t.matrix()(d, D))); }
        return m;
    }
    // squared distance from a point (box frame) to the surface of the box
    static double dist2(const State& s, const Vd& q) {
        double out = 0, in = -1;
        bool inside = true;
        for (int d = 0; d < D; ++d) {
            double h = 0.5 * (double)s.dim(d), e = fabs(q(d)) - h;
            if (e > 0) { inside = false; out += e * e; } else if (in < 0 || -e < in) in = -e;
        }
        return inside ? in * in : out;
    }
    static void rigid(const Tr& t, const std::string& when) {
        Md R;
        for (int i = 0; i < D; ++i) for (int j = 0; j <= D; ++j) { double v = t.matrix()(i, j); if (!std::isfinite(v)) violate("box-rigid", Str() << when << ": the transformation is not finite"); if (j < D) R(i, j) = v; }
        double e = (R * R.transpose() - Md::Identity()).cwiseAbs().maxCoeff();
        if (!(e <= 10 * EPS)) violate("box-rigid", Str() << when << ": the transformation does not keep distances (" << show(t) << ")");
        if (!(R.determinant() > 0)) violate("box-mirror", Str() << when << ": the transformation mirrors space (" << show(t) << ")");
        for (int j = 0; j < D; ++j) if (fabs((double)t.matrix()(D, j)) > EPS) violate("box-rigid", Str() << when << ": the transformation is not affine");
        if (fabs((double)t.matrix()(D, D) - 1) > EPS) violate("box-rigid", Str() << when << ": the transformation is not affine");
    }
    static void split(const Tr& t, Md& R, Vd& v) { for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) R(i, j) = t.matrix()(i, j); v(i) = t.matrix()(i, D); } }
    static double error(const State& s, const Tr& t) {
        Md R; Vd v;
        split(t, R, v);
        double e = 0;
        for (auto& p : s.cloud) e += dist2(s, R.transpose() * (p.template cast<double>() - v));
        return e;
    }
    static double best(const std::vector<Vd>& m, const std::vector<Vd>& p) {   // least sum of squares over all rigid motions
        Vd a = Vd::Zero(), b = Vd::Zero();
        double n = (double)m.size(), sq = 0;
        for (size_t i = 0; i < m.size(); ++i) { a += m[i] / n; b += p[i] / n; }
        Md C = Md::Zero();
        for (size_t i = 0; i < m.size(); ++i) { C += (m[i] - a) * (p[i] - b).transpose(); sq += (m[i] - a).squaredNorm() + (p[i] - b).squaredNorm(); }
        double l;
        if (D == 2) l = std::hypot(C(0, 0) + C(1, 1), C(0, 1) - C(1, 0));
        else {
            const int x = 0, y = 1, z = D - 1;
            Eigen::Matrix4d N;
            N << C(x, x) + C(y, y) + C(z, z), C(y, z) - C(z, y), C(z, x) - C(x, z), C(x, y) - C(y, x),
                C(y, z) - C(z, y), C(x, x) - C(y, y) - C(z, z), C(x, y) + C(y, x), C(z, x) + C(x, z),
                C(z, x) - C(x, z), C(x, y) + C(y, x), C(y, y) - C(x, x) - C(z, z), C(y, z) + C(z, y),
                C(x, y) - C(y, x), C(z, x) + C(x, z), C(y, z) + C(z, y), C(z, z) - C(x, x) - C(y, y);
            l = Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(N, Eigen::EigenvaluesOnly).eigenvalues()(3);
        }
        return std::max(0.0, sq - 2 * l);
    }
    static void start(State& s, const Line& l) {
        CallResult c;
        Tr t = s.t, old = s.t;
        call(c, l, [&] { s.b->estimateInitTranform(s.cloud, t); });
        check_excuse(c, l, "estimateInitTranform");
        if (!c.ok()) { if (!same(t, old)) violate("box-failed", "a failed start changed the transformation"); probe("start-failed"); return; }
        rigid(t, "the start");
        s.t = t;
        s.rigid = true;
        size_t n = s.cloud.size();
        if (n < 2) { for (int i = 0; i < D; ++i) for (int j = 0; j <= D; ++j) if (t.matrix()(i, j) != (S)(i == j)) violate("box-start", Str() << "the start for " << n << " points is not the identity"); return; }
        Vd c0 = Vd::Zero(), v;
        Md C = Md::Zero(), R;
        for (auto& p : s.cloud) c0 += p.template cast<double>() / (double)n;
        for (auto& p : s.cloud) { Vd e = p.template cast<double>() - c0; C += e * e.transpose() / (double)(n - 1); }
        split(t, R, v);
        double sc = scale(s);
        if (!((v - c0).cwiseAbs().maxCoeff() <= 10 * EPS * sc)) violate("box-start", Str() << "the start is not at the centre of the " << n << " points");
        Md M = R.transpose() * C * R;
        double tol = 30 * EPS * (sc * sc + 1);
        for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) {
            if (i != j && !(fabs(M(i, j)) <= tol)) violate("box-start", Str() << "the start does not follow the principal axes of the points");
            if ((double)s.dim(i) < (double)s.dim(j) && !(M(i, i) <= M(j, j) + tol)) violate("box-start", Str() << "the start puts dimension " << i << " of the box (" << s.dim(i) << ") along a wider spread of the points than dimension " << j << " (" << s.dim(j) << ")");
        }
        probe("start");
    }
    static void step(State& s, const Line& l) {
        if (s.cloud.empty()) return;
        CallResult c;
        Tr t = s.t, old = s.t;
        double e0 = error(s, old), sc = scale(s), n = (double)s.cloud.size(), tol = n * sc * sc * EPS;
        call(c, l, [&] { s.b->computeTransform(s.cloud, t); });
        check_excuse(c, l, "computeTransform");
        if (!c.ok()) { if (!same(t, old)) violate("box-failed", "a failed step changed the transformation"); probe(c.fired(F_cb_throw) ? "association-failed" : "step-failed"); return; }
        rigid(t, "a step");
        double e1 = error(s, t);
        if (!(e1 <= e0 + tol)) violate("box-descent", Str() << "a step moved the box away from the " << n << " points: the sum of squared distances grew from " << e0 << " to " << e1);
        std::vector<Vd> m, p;
        Tr inv = old.inverse();
        Md R; Vd v;
        split(t, R, v);
        double cost = 0, delta = 3 * EPS * sc;
        bool tied = false;   // a point as near to two places of the box: the rounding decides which one the step uses
        for (auto& x : s.cloud) {
            Pt q, y = inv * x, z;
            s.b->Base::associate(y, q);
            for (int d = 0; d < D && !tied; ++d) for (int g = -1; g < 2; g += 2) {
                Pt w = y;
                w(d) += (S)(g * delta);
                s.b->Base::associate(w, z);
                if (!((z - q).template cast<double>().norm() <= 4 * delta)) tied = true;
            }
            m.push_back(q.template cast<double>());
            p.push_back(x.template cast<double>());
            cost += (p.back() - R * m.back() - v).squaredNorm();
        }
        double opt = best(m, p);
        if (tied) probe("tied");
        else if (!(cost <= opt + tol)) violate("box-optimal", Str() << "a step leaves " << cost << " between the " << n << " points and their places on the box, the best rigid motion leaves " << opt);
        // history: a new object with the same dimensions does the same
        Box o;
        o.setDimension(s.dim);
        Tr t2 = old;
        o.computeTransform(s.cloud, t2);
        if (!same(t, t2)) violate("box-history", Str() << "a step gives " << show(t) << "but a new object of the same dimensions gives " << show(t2));
        if (l.i(1)) {
            std::string other = in_fresh_process([&] { Box f; f.setDimension(s.dim); Tr t3 = old; f.computeTransform(s.cloud, t3); return show(t3); });
            if (other != show(t)) violate("box-history", Str() << "a step gives " << show(t) << "but in another process " << other);
            probe("fresh-process");
        }
        if (e1 < e0 - tol) probe("improved");
        s.t = t;
        note(Str() << "step " << show(t));
    }
    static void query(State& s, const Line& l) {
        CallResult c;
        Rng r((u64)l.i(1));
        Pt q, n;
        Vd qd;
        for (int d = 0; d < D; ++d) {
            int w = (int)r.below(8);
            double h = 0.5 * (double)s.dim(d);
            q(d) = (S)(w == 0 ? h : w == 1 ? -h : w == 2 ? 0 : w == 3 ? h * 0.5 : (double)r.range(-400, 400) / 100 * (h + 0.2));
            n(d) = (S)r.range(-9, 9);
            qd(d) = q(d);
        }
        call(c, l, [&] { s.b->associate(q, n); });
        check_excuse(c, l, "associate");
        if (!c.ok()) return;
        double want = sqrt(dist2(s, qd)), tol = 10 * EPS * scale(s), got = (n.template cast<double>() - qd).norm();
        if (!(sqrt(dist2(s, n.template cast<double>())) <= tol)) violate("box-nearest", Str() << "the point [" << n.transpose() << "] nearest to [" << q.transpose() << "] is not on the box [" << s.dim.transpose() << "]");
        if (!(fabs(got - want) <= tol)) violate("box-nearest", Str() << "[" << n.transpose() << "] is " << got << " away from [" << q.transpose() << "], the box [" << s.dim.transpose() << "] is " << want << " away");
        probe("query");
    }
    static void exec(const Plan& p) {
        std::unique_ptr<State> st[2];
        for (auto& x : st) x.reset(new State());
        for (auto& l : p.lines) {
            State& s = *st[(size_t)l.i(0) % 2];
            CallResult c;
            if (l.op == "dim") {
                Pt d;
                for (int i = 0; i < D; ++i) d(i) = (S)l.dbl(1 + (size_t)i);
                call(c, Line(), [&] { s.b->setDimension(d); });
                check_excuse(c, l, "setDimension");
                s.dim = d;
                s.given = true;
            } else if (l.op == "copy" && s.given) {
                std::unique_ptr<State>& t = st[((size_t)l.i(0) + 1) % 2];
                std::unique_ptr<Box> b;
                call(c, l, [&] { b.reset(new Box(*s.b)); });
                check_excuse(c, l, "copy");
                if (c.ok()) { t->b.swap(b); t->dim = s.dim; t->given = true; }
            } else if (l.op == "cloud" && s.given) {
                Rng r((u64)l.i(1));
                long n = std::min(l.i(2), 2000L);
                int how = (int)l.i(3);
                double noise = l.dbl(4), far = l.dbl(5);
                Md R = Md::Identity();
                Vd v = Vd::Zero();
                double ang = (double)r.range(-314, 314) / 100;
                if (D == 2) { R(0, 0) = R(1, 1) = cos(ang); R(0, 1) = -sin(ang); R(1, 0) = sin(ang); }
                else { Eigen::Quaterniond q((double)r.range(-100, 100), (double)r.range(-100, 100), (double)r.range(-100, 100), (double)r.range(1, 100)); q.normalize(); Eigen::Matrix3d m = q.toRotationMatrix(); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) R(i, j) = m(i, j); }
                for (int d = 0; d < D; ++d) v(d) = (double)r.range(-100, 100) / 100 * far;
                s.cloud.clear();
                for (long i = 0; i < n; ++i) {
                    Vd x;
                    int face = (int)r.below(D), side = r.chance(50) ? 1 : -1;
                    for (int d = 0; d < D; ++d) x(d) = (double)r.range(-500, 500) / 1000 * (double)s.dim(d);
                    if (how == 0 || how == 1) x(face) = 0.5 * side * (double)s.dim(face);        // on the surface
                    if (how == 1) x(D - 1) = 0.5 * (double)s.dim(D - 1);                         // one face only: flat
                    if (how == 2) for (int d = 0; d < D; ++d) x(d) *= 3;                         // all around
                    if (how == 3 && i) { x = (s.cloud[0].template cast<double>() - v); x = R.transpose() * x; }   // one point again and again
                    if (how == 4) for (int d = 1; d < D; ++d) x(d) = 0;                          // on a line
                    for (int d = 0; d < D; ++d) x(d) += (double)r.range(-100, 100) / 100 * noise;
                    x = R * x + v;
                    s.cloud.push_back(x.template cast<S>());
                }
                if (l.i(6)) {        // a rough first guess
                    double a = 0.3 * (double)r.range(-100, 100) / 100;
                    Md Q = R, Z = Md::Identity();
                    Z(0, 0) = Z(1, 1) = cos(a); Z(0, 1) = -sin(a); Z(1, 0) = sin(a);
                    Q = R * Z;
                    s.t = Tr::Identity();
                    for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) s.t.matrix()(i, j) = (S)Q(i, j); s.t.matrix()(i, D) = (S)(v(i) + 0.2 * (double)r.range(-100, 100) / 100); }
                }
            } else if (l.op == "ident") s.t = Tr::Identity();
            else if (l.op == "start" && s.given) start(s, l);
            else if (l.op == "step" && s.given) { Line one = l; for (long k = 0; k < std::max(1L, std::min(l.i(2), 40L)); ++k) { step(s, one); one.faults.clear(); if (one.args.size() > 1) one.args[1] = "0"; } }
            else if (l.op == "query" && s.given) query(s, l);
            note(Str() << l.op << " " << show(s.t));
        }
    }
};
void exec(const Plan& p) {
    std::string t = p.lines.empty() ? "" : p.lines[0].op;
    if (t == "t2f") World<float, 2>::exec(p);
    else if (t == "t2d") World<double, 2>::exec(p);
    else if (t == "t3f") World<float, 3>::exec(p);
    else World<double, 3>::exec(p);
}
void gen(Rng& r, Plan& p) {
    const char* T[] = {"t2f", "t2d", "t3f", "t3d"};
    p.add(T[r.below(4)]).a(0);
    int n = (int)r.range(3, 14), fp = r.chance(35) ? 0 : 30;
    auto dim = [&](long k) {
        Line& l = p.add("dim").a(k);
        double e = (double)r.range(10, 900) / 100;
        for (int i = 0; i < 3; ++i) l.d(r.chance(20) ? e : (double)r.range(10, 900) / 100);
    };
    auto cloud = [&](long k) { p.add("cloud").a(k).a((long)r.below(1u << 30)).a(r.chance(10) ? r.range(1, 3) : r.chance(4) ? r.range(200, 900) : 1 + r.skew(50)).a(r.chance(40) ? 0 : r.range(1, 4)).d(r.pick(std::vector<double>{0, 0.01, 0.3})).d(r.pick(std::vector<double>{0, 1, 8})).a(r.chance(50)); };
    auto step = [&](long k) { Line& l = p.add("step").a(k).a(r.chance(6)).a(r.chance(15) ? r.range(5, 30) : r.range(1, 3)); arm_alloc(r, l, fp, 8); if (r.chance(fp / 2)) l.f(F_cb_throw, 1 + r.skew(40)); };
    dim(0);
    cloud(0);
    for (int i = 0; i < n; ++i) {
        long k = r.chance(70) ? 0 : 1;
        int w = (int)r.below(100);
        if (w < 10) dim(k);
        else if (w < 28) cloud(k);
        else if (w < 34) { Line& l = p.add("copy").a(k); arm_alloc(r, l, fp, 2); }
        else if (w < 38) p.add("ident").a(k);
        else if (w < 56) { Line& l = p.add("start").a(k); arm_alloc(r, l, fp, 4); }
        else if (w < 72) { Line& l = p.add("query").a(k).a((long)r.below(1u << 30)); if (r.chance(fp / 3)) l.f(F_cb_throw, 1); }
        else step(k);
    }
    p.add("start").a(0);
    step(0);
}
SIM_SCENARIO(box, 1, gen, exec)
}

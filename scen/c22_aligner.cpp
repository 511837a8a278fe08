// C22: PointCloudPlaneAligner over histories of settings, computations and transformations.
#include "../sim/core.h"
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <pcl/common/impl/transforms.hpp>
#include <rofl/pcl/point_cloud_plane_aligner.h>
#include <cmath>
#include <memory>
using namespace sim;

namespace {
typedef rofl::Vector4 V4;
struct P { float x, y, z, i; };
bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
void setp(pcl::PointXYZ& o, const P& p) { o.x = p.x; o.y = p.y; o.z = p.z; }
void setp(pcl::PointXYZI& o, const P& p) { o.x = p.x; o.y = p.y; o.z = p.z; o.intensity = p.i; }
P getp(const pcl::PointXYZ& o) { return P{o.x, o.y, o.z, 0}; }
P getp(const pcl::PointXYZI& o) { return P{o.x, o.y, o.z, o.intensity}; }

template <class T> struct World {
    typedef rofl::PointCloudPlaneAligner<T> Al;
    typedef pcl::PointCloud<T> Cloud;
    struct State {
        std::unique_ptr<Al> a;
        std::vector<P> cloud;               // of the current input cloud
        typename Cloud::Ptr held;           // the caller's own reference, if it kept it
        uint32_t w = 0, h = 0;
        bool has = false, computed = false, dense = true;
        V4 plane, raw;                      // as oriented, as given
        bool given = false;
        float tol = 0.02f;
        rofl::Transform3 t;
        State() : a(new Al()), plane(0, 0, 1, 0), t(rofl::Transform3::Identity()) {}
    };

    static std::string show(const rofl::Transform3& t) { Str o; for (int i = 0; i < 16; ++i) o << t.matrix().data()[i] << " "; return o; }
    static bool equal(const rofl::Transform3& a, const rofl::Transform3& b) { for (int i = 0; i < 16; ++i) if (!same(a.matrix().data()[i], b.matrix().data()[i])) return false; return true; }
    // the computed frame against the definition
    static void judge(State& s, const std::string& when) {
        const rofl::Transform3& t = s.a->getTransform();
        double n[3] = {s.plane(0), s.plane(1), s.plane(2)}, len = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
        double R[3][3], tr[3];
        for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { R[i][j] = t.matrix()(i, j); if (!std::isfinite(R[i][j])) violate("align-rigid", Str() << when << ": the transformation is not finite"); } tr[i] = t.matrix()(i, 3); }
        for (int j = 0; j < 3; ++j) if (fabs(t.matrix()(3, j)) > 1e-6) violate("align-rigid", Str() << when << ": the transformation is not affine");
        if (fabs(t.matrix()(3, 3) - 1) > 1e-6) violate("align-rigid", Str() << when << ": the transformation is not affine");
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            double d = 0;
            for (int k = 0; k < 3; ++k) d += R[i][k] * R[j][k];
            if (!(fabs(d - (i == j)) <= 2e-2)) violate("align-rigid", Str() << when << ": the transformation does not keep distances");
        }
        double det = R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]);
        if (!(fabs(det - 1) <= 2e-2)) violate("align-rigid", Str() << when << ": the transformation mirrors space");
        for (int i = 0; i < 3; ++i) { double z = 0; for (int k = 0; k < 3; ++k) z += R[i][k] * n[k] / len; if (!(fabs(z - (i == 2)) <= 2e-2)) violate("align-normal", Str() << when << ": the plane's normal does not become the axis Z"); }
        // the inliers' centre comes to lie on the axis Z, heights along the normal are kept
        double c[3] = {0, 0, 0}, span = 0;
        long m = 0;
        bool unclear = false;
        for (auto& p : s.cloud) {
            double e = fabs(p.x * n[0] + p.y * n[1] + p.z * n[2] + s.plane(3));
            if (fabs(e - s.tol) < 1e-5 * (1 + fabs(p.x) + fabs(p.y) + fabs(p.z) + fabs(s.plane(3)))) unclear = true;      // rounding decides
            if ((e < s.tol) != (e / len < s.tol)) unclear = true;      // coefficients of another length: which distance is meant
            if (!(e < s.tol)) continue;
            c[0] += p.x; c[1] += p.y; c[2] += p.z; ++m;
            span = std::max(span, (double)fabs(p.x) + fabs(p.y) + fabs(p.z));
        }
        if (unclear) return;
        if (m) for (double& x : c) x /= (double)m;
        double tol = 2e-2 * (1 + span), q[3], zc = (c[0] * n[0] + c[1] * n[1] + c[2] * n[2]) / len;
        for (int i = 0; i < 3; ++i) q[i] = R[i][0] * c[0] + R[i][1] * c[1] + R[i][2] * c[2] + tr[i];
        if (!(fabs(q[0]) <= tol && fabs(q[1]) <= tol)) violate("align-centre", Str() << when << ": the centre of the " << m << " points on the plane is taken to " << q[0] << "," << q[1] << ", not to the axis Z");
        if (!(fabs(q[2] - zc) <= tol)) violate("align-centre", Str() << when << ": the height along the normal is " << q[2] << " instead of " << zc);
        if (m) probe("inliers"); else probe("no-inliers");
    }
    static rofl::Transform3 fresh(const State& s) {
        Al b;
        typename Cloud::Ptr c(new Cloud());
        for (auto& p : s.cloud) { T x; setp(x, p); c->push_back(x); }
        b.setInputCloud(c);
        b.setPlaneTol(s.tol);
        if (s.given) b.setPlaneCoeffs(s.raw);
        b.compute();
        return b.getTransform();
    }
    static void verify(State& s, const std::string& when) {
        const V4& p = s.a->getPlaneCoeffs();
        for (int i = 0; i < 4; ++i) if (p(i) != s.plane(i)) violate("align-plane", Str() << when << ": plane coefficient " << i << " is " << p(i) << ", not " << s.plane(i));
        if (!equal(s.a->getTransform(), s.t)) violate("align-stale", Str() << when << ": the transformation changed from " << show(s.t) << "to " << show(s.a->getTransform()) << "without being computed");
        if (s.held) {
            if (s.held->size() != s.cloud.size()) violate("align-input", Str() << when << ": the input cloud changed its size");
            for (size_t i = 0; i < s.cloud.size(); ++i) { P g = getp((*s.held)[i]); const P& w = s.cloud[i]; if (!same(g.x, w.x) || !same(g.y, w.y) || !same(g.z, w.z) || !same(g.i, w.i)) violate("align-input", Str() << when << ": point " << i << " of the input cloud changed"); }
        }
    }
    static void exec(const Plan& p) {
        State st[2];
        for (auto& l : p.lines) {
            State& s = st[(size_t)l.i(0) % 2];
            CallResult c;
            if (l.op == "cloud") {
                Rng r((u64)l.i(1));
                long n = std::min(l.i(2), 4000L);
                bool grid = l.i(4) && n > 0 && n % 2 == 0, keep = l.i(5) != 0, nan = l.i(6) != 0;
                double span = l.dbl(3);
                std::vector<P> v;
                double len = sqrt((double)s.plane(0) * s.plane(0) + (double)s.plane(1) * s.plane(1) + (double)s.plane(2) * s.plane(2)), nx = s.plane(0) / len, ny = s.plane(1) / len, nz = s.plane(2) / len, d = s.plane(3) / len;
                bool unit = fabs(len - 1) < 1e-3;
                for (long i = 0; i < n; ++i) {
                    double x = (double)r.range(-300, 300) / 300 * span, y = (double)r.range(-300, 300) / 300 * span, z = (double)r.range(-300, 300) / 300 * span;
                    double e = x * nx + y * ny + z * nz + d, want = 0;
                    int k = (int)r.below(10);
                    if (k < 6) want = unit ? (double)r.range(-40, 40) / 100 * s.tol : 0;          // clearly on the plane
                    else want = (r.chance(50) ? 1 : -1) * (1 + (double)r.range(0, 300) / 100);    // clearly off it
                    if (k < 6 && unit && s.tol > 0.05 && r.chance(20)) want = (r.chance(50) ? 1 : -1) * s.tol * 2;
                    x += (want - e) * nx; y += (want - e) * ny; z += (want - e) * nz;
                    P q{(float)x, (float)y, (float)z, (float)r.range(0, 999)};
                    if (nan && r.chance(10)) q.x = q.y = q.z = std::nanf("");
                    if (std::is_same<T, pcl::PointXYZ>::value) q.i = 0;
                    v.push_back(q);
                }
                typename Cloud::Ptr cl(new Cloud());
                for (auto& q : v) { T x; setp(x, q); cl->push_back(x); }
                cl->is_dense = !nan;
                if (grid) { cl->width = (uint32_t)(n / 2); cl->height = 2; }
                cl->header.frame_id = "f";
                typename Cloud::Ptr pass = cl;
                call(c, l, [&] { s.a->setInputCloud(pass); });
                check_excuse(c, l, "setInputCloud");
                if (c.ok()) { s.cloud = v; s.has = true; s.dense = !nan; s.w = cl->width; s.h = cl->height; s.held = keep ? cl : nullptr; }
            } else if (l.op == "plane") {
                V4 v((float)l.dbl(1), (float)l.dbl(2), (float)l.dbl(3), (float)l.dbl(4));
                call(c, l, [&] { s.a->setPlaneCoeffs(v); });
                check_excuse(c, l, "setPlaneCoeffs");
                s.raw = v;
                s.given = true;
                if (v(3) > 0) s.plane = v; else s.plane = -v;
                if (v(3) == 0 && s.a->getPlaneCoeffs()(0) == v(0) && s.a->getPlaneCoeffs()(1) == v(1) && s.a->getPlaneCoeffs()(2) == v(2)) s.plane = v;     // through the origin: no side looks towards it
            } else if (l.op == "tol") {
                call(c, l, [&] { s.a->setPlaneTol((float)l.dbl(1)); });
                s.tol = (float)l.dbl(1);
            } else if (l.op == "copy") {
                State& t = st[((size_t)l.i(0) + 1) % 2];
                std::unique_ptr<Al> b;
                call(c, l, [&] { b.reset(new Al(*s.a)); });
                check_excuse(c, l, "copy");
                if (c.ok()) { t.a.swap(b); t.cloud = s.cloud; t.held = s.held; t.has = s.has; t.dense = s.dense; t.w = s.w; t.h = s.h; t.computed = s.computed; t.plane = s.plane; t.raw = s.raw; t.given = s.given; t.tol = s.tol; t.t = s.t; }
            } else if (l.op == "compute") {
                if (!s.has) continue;
                call(c, l, [&] { s.a->compute(); });
                check_excuse(c, l, "compute");
                if (c.ok()) {
                    judge(s, "compute");
                    s.t = s.a->getTransform();
                    s.computed = true;
                    rofl::Transform3 o = fresh(s);
                    if (!equal(o, s.t)) violate("align-history", Str() << "the aligner computes " << show(s.t) << "but a new one with the same cloud, plane and tolerance computes " << show(o));
                    if (l.i(1)) {
                        std::string ours = show(s.t), other = in_fresh_process([&] { return show(fresh(s)); });
                        if (ours != other) violate("align-history", Str() << "the aligner computes " << ours << "but a new one in another process computes " << other);
                        probe("fresh-process");
                    }
                }
            } else if (l.op == "transform") {
                if (!s.has) continue;
                bool inplace = l.i(2) && s.held && l.faults.empty();
                Cloud out;
                for (long i = 0; i < l.i(1) % 50; ++i) out.push_back(T());
                Cloud& o = inplace ? *s.held : out;
                call(c, l, [&] { ((const Al&)*s.a).transform(o); });
                check_excuse(c, l, "transform");
                if (c.ok()) {
                    if (o.size() != s.cloud.size() || (o.size() && (o.width != s.w || o.height != s.h))) violate("align-shape", Str() << "transforming gave " << o.size() << " points (" << o.width << "x" << o.height << ") for " << s.cloud.size() << " (" << s.w << "x" << s.h << ")");
                    for (size_t i = 0; i < s.cloud.size(); ++i) {
                        const P& w = s.cloud[i];
                        P g = getp(o[i]);
                        if (!same(g.i, w.i)) violate("align-point", Str() << "transforming changed the intensity of point " << i);
                        if (std::isnan(w.x)) { if (!std::isnan(g.x)) violate("align-point", Str() << "invalid point " << i << " became valid"); continue; }
                        double sp = 1 + fabs(w.x) + fabs(w.y) + fabs(w.z) + fabs(s.t.matrix()(0, 3)) + fabs(s.t.matrix()(1, 3)) + fabs(s.t.matrix()(2, 3)), q[3];
                        for (int k = 0; k < 3; ++k) q[k] = s.t.matrix()(k, 0) * (double)w.x + s.t.matrix()(k, 1) * (double)w.y + s.t.matrix()(k, 2) * (double)w.z + s.t.matrix()(k, 3);
                        if (!(fabs(g.x - q[0]) <= 1e-4 * sp && fabs(g.y - q[1]) <= 1e-4 * sp && fabs(g.z - q[2]) <= 1e-4 * sp)) violate("align-point", Str() << "point " << i << " is taken to " << g.x << "," << g.y << "," << g.z << " instead of " << q[0] << "," << q[1] << "," << q[2]);
                    }
                    if (inplace) { for (size_t i = 0; i < s.cloud.size(); ++i) s.cloud[i] = getp(o[i]); for (auto& x : st) if (&x != &s && x.held == s.held) x.cloud = s.cloud; probe("in-place"); }
                    else probe("transformed");
                } else probe("transform-failed");
            }
            for (auto& x : st) verify(x, Str() << "after " << l.op << (c.ok() ? "" : " (failed)"));
            note(Str() << l.op << " " << c.ok() << " " << show(s.a->getTransform()));
        }
    }
};
void exec(const Plan& p) {
    bool xyzi = !p.lines.empty() && p.lines[0].op == "xyzi";
    if (xyzi) World<pcl::PointXYZI>::exec(p); else World<pcl::PointXYZ>::exec(p);
}
void gen(Rng& r, Plan& p) {
    if (r.chance(50)) p.add("xyzi").a(0);
    int n = (int)r.range(4, 18), fp = r.chance(40) ? 0 : 30;
    auto plane = [&](long k) {
        double x, y, z;
        int w = (int)r.below(10);
        if (w < 4) { x = y = z = 0; double v = r.chance(50) ? 1 : -1; int d = (int)r.below(3); (d == 0 ? x : d == 1 ? y : z) = v; }
        else if (w < 5) { x = 0.70710678; y = r.chance(50) ? 0.70710678 : 0; z = y ? 0 : -0.70710678; }
        else { double t = (double)r.range(-157, 157) / 100, f = (double)r.range(0, 628) / 100; x = cos(t) * cos(f); y = cos(t) * sin(f); z = sin(t); }
        double s = r.chance(75) ? 1 : r.pick(std::vector<double>{0.5, 2, 10}), d = r.chance(12) ? 0 : (double)r.range(-2000, 2000) / 100;
        p.add("plane").a(k).d(x * s).d(y * s).d(z * s).d(d * s);
    };
    auto cloud = [&](long k) { Line& l = p.add("cloud").a(k).a((long)r.below(1u << 30)).a(r.chance(8) ? 0 : r.chance(4) ? r.range(300, 2000) : 1 + r.skew(60)).d(r.pick(std::vector<double>{1, 5, 20})).a(r.chance(25)).a(r.chance(60)).a(r.chance(15)); arm_alloc(r, l, fp / 3, 2); };
    plane(0);
    cloud(0);
    for (int i = 0; i < n; ++i) {
        long k = r.chance(70) ? 0 : 1;
        int w = (int)r.below(100);
        if (w < 18) plane(k);
        else if (w < 34) cloud(k);
        else if (w < 42) p.add("tol").a(k).d(r.pick(std::vector<double>{0.02, 0.01, 0.05, 0.1, 0.3}));
        else if (w < 46) { Line& l = p.add("copy").a(k); arm_alloc(r, l, fp, 3); }
        else if (w < 74) { Line& l = p.add("compute").a(k).a(r.chance(8)); arm_alloc(r, l, fp, 3); }
        else { Line& l = p.add("transform").a(k).a(r.range(0, 49)).a(r.chance(15)); arm_alloc(r, l, fp, 4); }
    }
    p.add("compute").a(0).a(0);
    p.add("transform").a(0).a(3).a(0);
}
SIM_SCENARIO(aligner, 1, gen, exec)
}

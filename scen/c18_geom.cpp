#include "c18.h"
#include <rofl/geometry/box_registration.h>
#include <rofl/geometry/hough_line_detector.h>
#include <rofl/geometry/hough_plane_detector.h>

namespace c18 {
namespace {
using sim::Rng;
using sim::u64;
struct PlaneObj : Object {
    rofl::HoughPlaneDetector h;
    int nt, np, nr;
    PlaneObj(Rng r, int size) : nt(1 + (int)r.below(2u + (unsigned)size)), np(1 + (int)r.below(3u + 2u * (unsigned)size)), nr(2 + (int)r.below(3)) {
        h.init(nt, np, nr, 0.5);
        h.setPeakWindow(1, 1, 1);
        rofl::VectorVector3 pts;
        for (int k = 0; k < 1 + 2 * size; ++k) pts.push_back(rofl::Vector3((float)r.range(-20, 20) * 0.1f, (float)r.range(-20, 20) * 0.1f, (float)r.range(-20, 20) * 0.1f));
        h.insert(pts);
    }
    std::string query(u64 q, u64 a) const override {
        Out o;
        int t = (int)(a % (u64)nt), p = (int)(a / 7 % (u64)np), r = (int)(a / 49 % (u64)nr);
        switch (q % 10) {
            case 0: o.i((long long)h.getHoughTransform(t, p, r)); break;
            case 1: o.i((long long)h.getHoughSpectrum(t, p)); break;
            case 2: { rofl::Vector3 v = h.getNormal(t, p); o.d(v(0)).d(v(1)).d(v(2)); break; }
            case 3: { auto v = h.getPlaneParam({t, p, r}); for (int d = 0; d < 4; ++d) o.d(v(d)); break; }
            case 4: { std::vector<rofl::HoughPlaneDetector::Indices2> m; h.findSpectrumMax(m); for (auto& i : m) o.i(i[0]).i(i[1]); break; }
            case 5: { rofl::VectorVector3 n; h.findNormalMax(n); for (auto& v : n) o.d(v(0)).d(v(1)).d(v(2)); break; }
            case 6: { std::vector<rofl::HoughPlaneDetector::Indices3> m; h.findParallelPlanes(t, p, m); for (auto& i : m) o.i(i[0]).i(i[1]).i(i[2]); break; }
            case 7: { rofl::HoughPlaneDetector::VectorPlaneParam m; h.findParallelPlanes(t, p, m); for (auto& v : m) o.d(v(0)).d(v(3)); break; }
            case 8: { std::vector<rofl::HoughPlaneDetector::Indices3> m; h.findPlanes(m); for (auto& i : m) o.i(i[0]).i(i[1]).i(i[2]); break; }
            default: o.i(h.getThetaNum()).i(h.getPhiNum()).i(h.getRhoNum()).d(h.getThetaMin()).d(h.getPhiMin()).d(h.getRhoMin()).d(h.getThetaRes()).d(h.getPhiRes()).d(h.getRhoRes());
        }
        return o.s;
    }
    std::string describe() const override {
        Out o;
        for (int t = 0; t < nt; ++t) for (int p = 0; p < np; ++p) { o.i((long long)h.getHoughSpectrum(t, p)); for (int r = 0; r < nr; ++r) o.i((long long)h.getHoughTransform(t, p, r)); for (int c = 0; c < 3; ++c) o.d(h.getNormal(t, p)(c)); }
        return o.s + query(9, 0);
    }
};
struct LineObj : Object {
    rofl::HoughLineDetector h;
    int nt, nr;
    LineObj(Rng r, int size) : nt(2 + size), nr(2 + (int)r.below(3)) {
        h.init(nt, nr, 0.5f);
        h.setPeakWindow(1, 1);
        rofl::VectorVector2 p;
        for (int k = 0; k < 2 + 2 * size; ++k) p.push_back(rofl::Vector2((float)r.range(-9, 9) * 0.21f, (float)r.range(0, 9) * 0.21f));
        h.insert(p);
    }
    std::string query(u64 q, u64 a) const override {
        Out o;
        switch (q % 6) {
            case 0: o.i((long long)h.getHoughTransform((int)(a % (u64)nt), (int)(a / 7 % (u64)nr))); break;
            case 1: o.i((long long)h.getHoughSpectrum((int)(a % (u64)nt))); break;
            case 2: { std::vector<rofl::Scalar> m; h.findSpectrumAngleMax(m); for (double d : m) o.d(d); break; }
            case 3: { rofl::VectorVector2 m; h.findNormalMax(m); for (auto& v : m) o.d(v(0)).d(v(1)); break; }
            case 4: { std::vector<rofl::HoughLineDetector::Indices2> m; h.findLines(m); for (auto& i : m) o.i(i[0]).i(i[1]); break; }
            default: o.i(h.getThetaNum()).i(h.getRhoNum()).d(h.getThetaMin()).d(h.getRhoMin()).d(h.getThetaRes()).d(h.getRhoRes());
        }
        return o.s;
    }
    std::string describe() const override { Out o; for (int t = 0; t < nt; ++t) { o.i((long long)h.getHoughSpectrum(t)); for (int r = 0; r < nr; ++r) o.i((long long)h.getHoughTransform(t, r)); } return o.s + query(5, 0); }
};
struct BoxObj : Object {
    typedef rofl::BoxRegistration<float, 2> B;
    B b;
    B::VectorPoint cloud;
    BoxObj(Rng r, int size) { b.setDimension(B::Point((float)r.range(1, 9), (float)r.range(1, 9))); for (int k = 0; k < 2 + size; ++k) cloud.push_back(B::Point((float)r.range(-50, 50) * 0.1f, (float)r.range(-50, 50) * 0.1f)); }
    std::string query(u64 q, u64 a) const override {
        Out o;
        if (q % 3) { B::Point n(0, 0); b.associate(B::Point((float)(a % 90) * 0.1f - 4.5f, (float)(a / 90 % 90) * 0.1f - 4.5f), n); o.d(n(0)).d(n(1)); }
        else { B::Transform T = B::Transform::Identity(); b.estimateInitTranform(cloud, T); for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) o.d(T.matrix()(r, c)); }
        return o.s;
    }
    std::string describe() const override { return query(0, 0) + query(1, 0) + query(1, 8000); }
};
template <class T> Object* mk(u64 seed, int size) { return new T(Rng(seed), size); }
}  // namespace
void geom_objects(std::vector<Factory>& v) {
    const Factory f[] = {{"plane", mk<PlaneObj>}, {"line", mk<LineObj>}, {"box", mk<BoxObj>}};
    v.insert(v.end(), std::begin(f), std::end(f));
}
}  // namespace c18

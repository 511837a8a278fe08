#include "c17.h"
#include <rofl/geometry/base_geometry2.h>
#include <rofl/geometry/correspondence_graph_association.h>
#include <rofl/geometry/gis.h>
#include <rofl/geometry/hough_line_detector.h>
#include <rofl/geometry/hough_plane_detector.h>
#include <algorithm>

namespace c17 {
namespace {
void k_base2(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        rofl::Scalar x = (rofl::Scalar)num(a.r), y = (rofl::Scalar)num(a.r), t = (rofl::Scalar)num(a.r);
        rofl::Transform2 T = rofl::Transform2::Identity(), U = T;
        rofl::poseToIsometry2(x, y, t, T);
        rofl::poseToIsometry2(rofl::Vector3(x, y, t), U);
        for (int r = 0; r < 2; ++r) for (int c = 0; c < 3; ++c) o.d(T.matrix()(r, c)).d(U.matrix()(r, c));
        o.d(rofl::normalizeAngle2Pi(t)).i(rofl::insideAngleInterval(t, x, y)).i(rofl::insideAngleInterval(t, rofl::AngleInterval(x, y))).i(rofl::insideAngleIntervalEq(t, x, y));
        o.d(rofl::ccw(rofl::Vector2(x, y), rofl::Vector2(y, t), rofl::Vector2(t, x)));
    }
}
void k_gis(Arg& a, Out& o) {
    for (int k = 0; k < 1 + a.size; ++k) {
        rofl::Scalar la = (rofl::Scalar)a.r.range(-89000, 89000) * 1e-3f, lo = (rofl::Scalar)a.r.range(-179000, 179000) * 1e-3f, al = (rofl::Scalar)num(a.r), x = 0, y = 0, z = 0;
        rofl::convertLatLonAltToECEF(la, lo, al, x, y, z);
        o.d(x).d(y).d(z).d(rofl::meterPerDegLat(la)).d(rofl::meterPerDegLon(la));
        rofl::Scalar la2 = la + (rofl::Scalar)a.r.range(-100, 100) * 1e-4f, lo2 = lo + (rofl::Scalar)a.r.range(-100, 100) * 1e-4f;
        rofl::convertLatLonToLocalXY(la, lo, la2, lo2, x, y);
        o.d(x).d(y);
        rofl::convertLocalXYToLatLon(la, lo, x, y, z, al);
        o.d(z).d(al);
    }
}
void k_plane(Arg& a, Out& o) {
    rofl::HoughPlaneDetector h;
    int nt = 1 + (int)a.r.below(2u + (unsigned)a.size), np = 1 + (int)a.r.below(3u + 2u * (unsigned)a.size), nr = 2 + (int)a.r.below(3u);
    h.init(nt, np, nr, 0.5);
    if (a.r.chance(50)) h.setPeakWindow(1, 1, 1);
    else h.setPeakWindow(0.3f, 0.5f, 0.6f);
    rofl::VectorVector3 pts;
    for (int k = 0; k < 1 + a.size; ++k) pts.push_back(rofl::Vector3((double)a.r.range(-20, 20) * 0.1, (double)a.r.range(-20, 20) * 0.1, (double)a.r.range(-20, 20) * 0.1));
    if (a.r.chance(50)) h.insert(pts);
    else h.insert(pts.begin(), pts.end(), [](const rofl::Vector3& v) { return v; });
    o.i(h.getThetaNum()).i(h.getPhiNum()).i(h.getRhoNum()).d(h.getThetaMin()).d(h.getPhiMin()).d(h.getRhoMin()).d(h.getThetaRes()).d(h.getPhiRes()).d(h.getRhoRes());
    for (int t = 0; t < nt; ++t) for (int p = 0; p < np; ++p) {
        o.i((long long)h.getHoughSpectrum(t, p));
        for (int c = 0; c < 3; ++c) o.d(h.getNormal(t, p)(c));
        for (int r = 0; r < nr; ++r) o.i((long long)h.getHoughTransform(t, p, r));
    }
    std::vector<rofl::HoughPlaneDetector::Indices2> m;
    h.findSpectrumMax(m);
    for (auto& i : m) o.i(i[0]).i(i[1]);
    rofl::VectorVector3 nm;
    h.findNormalMax(nm);
    for (auto& v : nm) o.d(v(0)).d(v(1)).d(v(2));
    rofl::HoughPlaneDetector::VectorPlaneParam pp;
    h.findPlanes(pp);
    for (auto& v : pp) o.d(v(0)).d(v(1)).d(v(2)).d(v(3));
    h.findParallelPlanes(0, 0, pp);
    for (auto& v : pp) o.d(v(0)).d(v(1)).d(v(2)).d(v(3));
}
void k_line(Arg& a, Out& o) {
    rofl::HoughLineDetector h;
    int nt = 2 + a.size, nr = 2 + (int)a.r.below(4u);
    if (a.r.chance(50)) h.init(nt, nr, 0.25 + (double)a.r.below(4));
    else h.init({nt, nr}, rofl::Vector2(0.1, -1.0), rofl::Vector2(0.2, 0.5));
    if (a.r.chance(50)) h.setPeakWindow(1, 1); else h.setPeakWindow(0.4f, 0.5f);
    rofl::VectorVector2 pts;
    for (int k = 0; k < 2 + a.size; ++k) pts.push_back(rofl::Vector2((float)a.r.range(-9, 9) * 0.21f, (float)a.r.range(-9, 9) * 0.21f));
    h.insert(pts);
    o.i(h.getThetaNum()).i(h.getRhoNum()).d(h.getThetaMin()).d(h.getRhoMin()).d(h.getThetaRes()).d(h.getRhoRes());
    for (int t = 0; t < nt; ++t) { o.i((long long)h.getHoughSpectrum(t)); for (int r = 0; r < nr; ++r) o.i((long long)h.getHoughTransform(t, r)); }
    std::vector<rofl::HoughLineDetector::Index> m;
    h.findSpectrumIndexMax(m);
    for (int i : m) o.i(i);
    std::vector<rofl::Scalar> an;
    h.findSpectrumAngleMax(an);
    for (double d : an) o.d(d);
    rofl::VectorVector2 nm;
    h.findNormalMax(nm);
    for (auto& v : nm) o.d(v(0)).d(v(1));
    std::vector<rofl::HoughLineDetector::Indices2> li;
    h.findLines(li);
    for (auto& i : li) o.i(i[0]).i(i[1]);
    h.setZero();
    o.i((long long)h.getHoughSpectrum(0));
}
void k_assoc(Arg& a, Out& o) {
    std::vector<double> s, d;
    int n = 2 + (int)a.r.below(1u + (unsigned)a.size);
    for (int k = 0; k < n; ++k) { s.push_back((double)a.r.range(0, 60)); if (a.r.chance(85)) d.push_back(s.back() + 7); }
    while (d.size() < 2) d.push_back((double)a.r.range(0, 60));
    rofl::CorrespondenceGraphAssociation c;
    c.setTolerance(0.5 + (double)a.r.below(3));
    c.setDistanceMin((double)a.r.below(3));
    auto dist = [](double x, double y) { return std::fabs(x - y); };
    c.insertSrc(s.begin(), s.end(), dist);
    c.insertDst(d.begin(), d.end(), dist);
    std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> h;
    c.associate(h);
    std::vector<std::vector<std::pair<int, int> > > all;
    for (auto& x : h) { all.push_back(x.associations); std::sort(all.back().begin(), all.back().end()); }
    std::sort(all.begin(), all.end());
    for (auto& x : all) { o.t("|"); for (auto& p : x) o.i(p.first).i(p.second); }
    std::vector<rofl::LabelSet> q;
    c.associate(q);
    o.i((long long)q.size());
}
}  // namespace
void geom_kinds(std::vector<Kind>& v) {
    const Kind k[] = {{"base2", k_base2, 9, true, 20}, {"gis", k_gis, 8, true, 20}, {"plane", k_plane, 13, true, 2}, {"line", k_line, 12, true, 2},
                      {"assoc", k_assoc, 13, true, 2}};
    v.insert(v.end(), std::begin(k), std::end(k));
}
}  // namespace c17

#pragma once
#include "c17.h"
#include <rofl/geometry/box_registration.h>

namespace c17 {
namespace {
template <class S, int D> void box(Arg& a, Out& o) {
    typedef rofl::BoxRegistration<S, D> B;
    B b;
    typename B::Point dim, q, n;
    for (int d = 0; d < D; ++d) { dim(d) = (S)a.r.range(1, 9); q(d) = (S)num(a.r); n(d) = 0; }
    b.setDimension(dim);
    b.associate(q, n);
    for (int d = 0; d < D; ++d) o.d(n(d));
    typename B::VectorPoint cloud;
    for (int k = 0; k < 4 + a.size; ++k) { typename B::Point p; for (int d = 0; d < D; ++d) p(d) = (S)a.r.range(-90, 90) * (S)0.1; cloud.push_back(p); }
    typename B::Transform T = B::Transform::Identity();
    b.estimateInitTranform(cloud, T);
    for (int r = 0; r < D; ++r) for (int c = 0; c <= D; ++c) o.d(T.matrix()(r, c));
    b.computeTransform(cloud, T);
    for (int r = 0; r < D; ++r) for (int c = 0; c <= D; ++c) o.d(T.matrix()(r, c));
}
}  // namespace
}  // namespace c17

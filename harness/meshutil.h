// Meshes, independent geometric predicates and containment tests used by the mesh harnesses.
#pragma once
#include "simrt.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <set>
#include <vector>
#include "fcl/geometry/bvh/BVH_model.h"
#include "fcl/math/bv/AABB.h"
#include "fcl/math/bv/OBB.h"
#include "fcl/math/bv/OBBRSS.h"
#include "fcl/math/bv/RSS.h"
#include "fcl/math/bv/kDOP.h"
#include "fcl/math/bv/kIOS.h"
#include "fcl/math/bv/utility.h"
namespace mu {
using namespace fcl;
using sim::Rng;
typedef double S;
typedef Vector3<S> V3;
typedef std::array<int, 3> T3;
struct Mesh { std::vector<V3> v; std::vector<T3> t; };
typedef std::array<V3, 3> Tri;

inline Transform3<S> rnd_pose(Rng& r, double range, bool rot) {
  Transform3<S> t = Transform3<S>::Identity();
  if (rot) { V3 ax(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); if (ax.norm() < 1e-3) ax = V3(0, 0, 1); ax.normalize(); t.linear() = AngleAxis<S>(r.real(-3.1, 3.1), ax).toRotationMatrix(); }
  t.translation() = V3(r.real(-range, range), r.real(-range, range), r.real(-range, range)); return t;
}
// kinds: 0 soup, 1 height field, 2 closed (UV sphere), 3 strip, 4 box, 5 clustered soup, 6 degenerate-ish (flat / collinear / repeated)
inline Mesh make_mesh(uint64_t seed, int kind, int n, double size) {
  Rng r(seed * 7919 + 13); Mesh m; if (n < 1) n = 1;
  auto P = [&](double s) { return V3(r.real(-s, s), r.real(-s, s), r.real(-s, s)); };
  if (kind == 0 || kind == 5) {
    V3 c = V3::Zero();
    for (int i = 0; i < n; ++i) { if (kind == 5 && r.chance(0.7)) {} else c = P(size); double e = size * r.real(0.1, 0.8); int b = (int)m.v.size(); for (int k = 0; k < 3; ++k) m.v.push_back(c + P(e)); m.t.push_back({b, b + 1, b + 2}); }
  } else if (kind == 1) {
    int w = std::max(1, (int)std::sqrt(n / 2.0)); for (int i = 0; i <= w; ++i) for (int j = 0; j <= w; ++j) m.v.push_back(V3(size * (2.0 * i / w - 1), size * (2.0 * j / w - 1), size * r.real(-0.3, 0.3)));
    for (int i = 0; i < w; ++i) for (int j = 0; j < w; ++j) { int a = i * (w + 1) + j, b = a + w + 1; m.t.push_back({a, b, a + 1}); m.t.push_back({b, b + 1, a + 1}); }
  } else if (kind == 2) {
    int u = std::max(3, (int)std::sqrt((double)n)), w = std::max(2, u / 2); m.v.push_back(V3(0, 0, size)); m.v.push_back(V3(0, 0, -size));
    for (int i = 1; i < w; ++i) for (int j = 0; j < u; ++j) { double a = M_PI * i / w, b = 2 * M_PI * j / u; m.v.push_back(size * V3(std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a))); }
    auto at = [&](int i, int j) { return i == 0 ? 0 : i == w ? 1 : 2 + (i - 1) * u + (j % u); };
    for (int i = 0; i < w; ++i) for (int j = 0; j < u; ++j) { if (i) m.t.push_back({at(i, j), at(i + 1, j), at(i, j + 1)}); if (i + 1 < w) m.t.push_back({at(i, j + 1), at(i + 1, j), at(i + 1, j + 1)}); }
  } else if (kind == 3) {
    for (int i = 0; i < n + 2; ++i) m.v.push_back(V3(size * (2.0 * i / (n + 1) - 1) * 2, (i & 1) ? size * 0.2 : -size * 0.2, size * r.real(-0.1, 0.1)));
    for (int i = 0; i < n; ++i) m.t.push_back({i, i + 1, i + 2});
  } else if (kind == 4) {
    for (int i = 0; i < 8; ++i) m.v.push_back(size * V3(i & 1 ? 1 : -1, i & 2 ? 0.7 : -0.7, i & 4 ? 0.4 : -0.4));
    static const int f[12][3] = {{0, 2, 1}, {1, 2, 3}, {4, 5, 6}, {5, 7, 6}, {0, 1, 4}, {1, 5, 4}, {2, 6, 3}, {3, 6, 7}, {0, 4, 2}, {2, 4, 6}, {1, 3, 5}, {3, 7, 5}};
    for (auto& x : f) m.t.push_back({x[0], x[1], x[2]});
  } else {
    int mode = (int)r.below(4); V3 d = P(1), base = P(size), fixed = P(size);
    for (int i = 0; i < n; ++i) { int b = (int)m.v.size(); for (int k = 0; k < 3; ++k) { V3 p = P(size); if (mode == 0) p[2] = 0.25; else if (mode == 1) p = base + d * r.real(-size, size); else if (mode == 2) p = fixed; else if (r.chance(0.5)) p = fixed; m.v.push_back(p); } m.t.push_back({b, b + 1, b + 2}); }
  }
  return m;
}
inline V3 seg_closest(const V3& p, const V3& a, const V3& b) { V3 d = b - a; double l = d.squaredNorm(); double t = l > 0 ? (p - a).dot(d) / l : 0; t = std::max(0.0, std::min(1.0, t)); return a + t * d; }
inline double point_tri(const V3& p, const Tri& t) {
  V3 n = (t[1] - t[0]).cross(t[2] - t[0]); double nn = n.squaredNorm(), best = 1e300;
  if (nn > 0) { bool in = true; for (int k = 0; k < 3; ++k) if ((t[(k + 1) % 3] - t[k]).cross(p - t[k]).dot(n) < 0) in = false; if (in) best = std::fabs((p - t[0]).dot(n)) / std::sqrt(nn); }
  for (int k = 0; k < 3; ++k) best = std::min(best, (p - seg_closest(p, t[k], t[(k + 1) % 3])).norm()); return best;
}
inline double seg_seg(const V3& p1, const V3& q1, const V3& p2, const V3& q2) {
  V3 d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; double a = d1.squaredNorm(), e = d2.squaredNorm(), b = d1.dot(d2), c = d1.dot(r), f = d2.dot(r), den = a * e - b * b; double best = 1e300;
  if (den > 1e-14 * a * e && den > 0) { double s = (b * f - c * e) / den, t = (a * f - b * c) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = (p1 + s * d1 - p2 - t * d2).norm(); }
  best = std::min(best, (p1 - seg_closest(p1, p2, q2)).norm()); best = std::min(best, (q1 - seg_closest(q1, p2, q2)).norm());
  best = std::min(best, (p2 - seg_closest(p2, p1, q1)).norm()); best = std::min(best, (q2 - seg_closest(q2, p1, q1)).norm()); return best;
}
// edge p-q against triangle t: 2 clearly pierces (by margin m), 1 touches or pierces, 0 does not
inline int pierce(const V3& p, const V3& q, const Tri& t, double m) {
  V3 n = (t[1] - t[0]).cross(t[2] - t[0]); double l = n.norm(); if (l == 0) return 0; n /= l;
  double dp = (p - t[0]).dot(n), dq = (q - t[0]).dot(n); if ((dp > 0 && dq > 0) || (dp < 0 && dq < 0) || dp == dq) return 0;
  V3 x = p + (q - p) * (dp / (dp - dq)); double in = 1e300;
  for (int k = 0; k < 3; ++k) { V3 e = t[(k + 1) % 3] - t[k]; in = std::min(in, e.cross(x - t[k]).dot(n) / e.norm()); }
  if (in < 0) return 0; return in > m && std::fabs(dp) > m && std::fabs(dq) > m ? 2 : 1;
}
struct Rel { double d; bool clear_hit; };  // d = 0 if they intersect (or touch)
inline Rel relate(const Tri& a, const Tri& b, double m) {
  int best = 0; for (int k = 0; k < 3; ++k) { best = std::max(best, pierce(a[k], a[(k + 1) % 3], b, m)); best = std::max(best, pierce(b[k], b[(k + 1) % 3], a, m)); }
  if (best) return {0, best == 2};
  double d = 1e300; for (int k = 0; k < 3; ++k) { d = std::min(d, point_tri(a[k], b)); d = std::min(d, point_tri(b[k], a)); for (int j = 0; j < 3; ++j) d = std::min(d, seg_seg(a[k], a[(k + 1) % 3], b[j], b[(j + 1) % 3])); }
  return {d, false};
}
// ---- how far a point is outside a volume (0 if inside)
inline double outside(const AABB<S>& b, const V3& p) { double d = 0; for (int i = 0; i < 3; ++i) d = std::max(d, std::max(b.min_[i] - p[i], p[i] - b.max_[i])); return d; }
inline double outside(const OBB<S>& b, const V3& p) { double d = 0; for (int i = 0; i < 3; ++i) d = std::max(d, std::fabs(b.axis.col(i).dot(p - b.To)) - b.extent[i]); return d; }
inline double outside(const RSS<S>& b, const V3& p) { V3 q(b.axis.col(0).dot(p - b.To), b.axis.col(1).dot(p - b.To), b.axis.col(2).dot(p - b.To)); double dx = std::max(0.0, std::max(-q[0], q[0] - b.l[0])), dy = std::max(0.0, std::max(-q[1], q[1] - b.l[1])); return std::max(0.0, std::sqrt(dx * dx + dy * dy + q[2] * q[2]) - b.r); }
inline double outside(const OBBRSS<S>& b, const V3& p) { return std::max(outside(b.obb, p), outside(b.rss, p)); }
inline double outside(const kIOS<S>& b, const V3& p) { double d = outside(b.obb, p); for (unsigned i = 0; i < b.num_spheres; ++i) d = std::max(d, (p - b.spheres[i].o).norm() - b.spheres[i].r); return d; }
template <std::size_t N> double outside(const KDOP<S, N>& b, const V3& p) {
  double v[12] = {p[0], p[1], p[2], p[0] + p[1], p[0] + p[2], p[1] + p[2], p[0] - p[1], p[0] - p[2], p[1] - p[2], p[0] + p[1] - p[2], p[0] + p[2] - p[1], p[1] + p[2] - p[0]};
  double d = 0; for (std::size_t i = 0; i < N / 2; ++i) d = std::max(d, std::max(b.dist(i) - v[i], v[i] - b.dist(i + N / 2))); return d;
}
static const char* BVN[8] = {"AABB", "OBB", "RSS", "kIOS", "OBBRSS", "KDOP16", "KDOP18", "KDOP24"};
static const char* SPLITN[3] = {"mean", "median", "bv-center"};
template <class BV> void set_split(BVHModel<BV>& m, int s) { m.bv_splitter.reset(new detail::BVSplitter<BV>(s == 1 ? detail::SPLIT_METHOD_MEDIAN : s == 2 ? detail::SPLIT_METHOD_BV_CENTER : detail::SPLIT_METHOD_MEAN)); }

// Checks that the hierarchy is a tree over exactly n primitives and, if cur is given, that every
// node bounds the primitives below it (at cur and, if given, at prev).
template <class BV> std::vector<int> check_tree(const BVHModel<BV>& m, int n, const char* what, const std::vector<V3>* cur = nullptr, const std::vector<V3>* prev = nullptr, const std::vector<T3>* tris = nullptr, double tol = 0) {
  sim::NoFault nf;
  int nb = m.getNumBVs(); if (nb != 2 * n - 1) sim::fail("bad-tree", "%s: %d nodes for %d primitives", what, nb, n);
  std::vector<char> seen(nb, 0), prim(n, 0); std::vector<int> parent(nb, -1), st{0}; int cnt = 0;
  std::vector<int> leaf_of(n, -1);
  while (!st.empty()) {
    int i = st.back(); st.pop_back(); if (i < 0 || i >= nb) sim::fail("bad-tree", "%s: child index %d of %d nodes", what, i, nb); if (seen[i]) sim::fail("bad-tree", "%s: node %d reached twice", what, i); seen[i] = 1; ++cnt;
    const BVNode<BV>& b = m.getBV(i);
    if (b.isLeaf()) { int q = b.primitiveId(); if (q < 0 || q >= n) sim::fail("bad-tree", "%s: leaf for primitive %d of %d", what, q, n); if (prim[q]) sim::fail("bad-tree", "%s: two leaves for primitive %d", what, q); prim[q] = 1; leaf_of[q] = i; }
    else { for (int c : {b.leftChild(), b.rightChild()}) { if (c >= 0 && c < nb) parent[c] = i; st.push_back(c); } }
  }
  for (int q = 0; q < n; ++q) if (!prim[q]) sim::fail("bad-tree", "%s: no leaf for primitive %d of %d", what, q, n);
  if (cur) for (int q = 0; q < n; ++q) for (int i = leaf_of[q]; i >= 0; i = parent[i]) {
    int nv = tris ? 3 : 1;
    for (int k = 0; k < nv; ++k) { int v = tris ? (*tris)[q][k] : q;
      double d = outside(m.getBV(i).bv, (*cur)[v]); if (!(d <= tol)) sim::fail("not-bounded", "%s: node %d (%s) of %d misses a vertex of primitive %d by %.3g", what, i, m.getBV(i).isLeaf() ? "leaf" : "interior", nb, q, d);
      if (prev) { d = outside(m.getBV(i).bv, (*prev)[v]); if (!(d <= tol)) sim::fail("not-bounded", "%s: node %d (%s) of %d misses the previous position of a vertex of primitive %d by %.3g", what, i, m.getBV(i).isLeaf() ? "leaf" : "interior", nb, q, d); } }
  }
  return leaf_of;
}
}  // namespace mu

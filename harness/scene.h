// Geometries of every kind, narrow-phase queries on them, and comparable outcomes of queries.
#pragma once
#include "meshutil.h"
#include <cstring>
#include <map>
#include <memory>
#include <octomap/octomap.h>
#include "fcl/geometry/octree/octree.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/capsule.h"
#include "fcl/geometry/shape/cone.h"
#include "fcl/geometry/shape/convex.h"
#include "fcl/geometry/shape/cylinder.h"
#include "fcl/geometry/shape/ellipsoid.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/geometry/shape/triangle_p.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/narrowphase/distance.h"
namespace sc {
using namespace mu; using sim::Op;
typedef std::shared_ptr<CollisionGeometry<S>> GeomPtr;
enum { BOX, SPHERE, ELLIPSOID, CAPSULE, CONE, CYLINDER, CONVEX, PLANE, HALFSPACE, TRIANGLE, OCTREE, MESH0, NKIND = MESH0 + 8 };
static const char* GN[NKIND] = {"box", "sphere", "ellipsoid", "capsule", "cone", "cylinder", "convex", "plane", "half-space", "triangle", "octree", "mesh/AABB", "mesh/OBB", "mesh/RSS", "mesh/kIOS", "mesh/OBBRSS", "mesh/KDOP16", "mesh/KDOP18", "mesh/KDOP24"};
inline bool is_mesh(int k) { return k >= MESH0; }
template <class BV> GeomPtr mesh_geom(Rng& r, const Mesh& q) {
  auto m = std::make_shared<BVHModel<BV>>(); set_split(*m, (int)r.below(3)); std::vector<Triangle> ts; for (auto& t : q.t) ts.push_back(Triangle(t[0], t[1], t[2]));
  m->beginModel((int)ts.size(), (int)q.v.size()); m->addSubModel(q.v, ts); m->endModel();
  if (r.chance(0.15)) { std::vector<V3> nv = q.v; for (auto& p : nv) p += V3(0.05, -0.02, 0.03); m->beginReplaceModel(); m->replaceSubModel(nv); m->endReplaceModel(true, r.chance(0.5)); }
  return m;
}
inline std::shared_ptr<octomap::OcTree> make_octomap(Rng& r, double res, int cells, double range) {
  auto t = std::make_shared<octomap::OcTree>(res);
  for (int i = 0; i < cells; ++i) { octomap::point3d p((float)r.real(-range, range), (float)r.real(-range, range), (float)r.real(-range, range)); bool hit = r.chance(0.7); int n = r.range(1, 3); for (int k = 0; k < n; ++k) t->updateNode(p, hit); }
  t->updateInnerOccupancy(); if (r.chance(0.4)) t->prune(); return t;
}
inline GeomPtr make_geom(uint64_t seed, int kind, int n = 8) {
  Rng r(seed * 977 + kind * 31 + 5); GeomPtr g; auto L = [&] { return r.pick<double>({r.real(0.3, 1.5), r.real(0.3, 1.5), 1.0, 0.1, 2.5}); };
  switch (kind) {
    case BOX: g = std::make_shared<Box<S>>(L(), L(), L()); break;
    case SPHERE: g = std::make_shared<Sphere<S>>(L()); break;
    case ELLIPSOID: g = std::make_shared<Ellipsoid<S>>(L(), L(), L()); break;
    case CAPSULE: g = std::make_shared<Capsule<S>>(L() * 0.5, L()); break;
    case CONE: g = std::make_shared<Cone<S>>(L() * 0.7, L()); break;
    case CYLINDER: g = std::make_shared<Cylinder<S>>(L() * 0.7, L()); break;
    case CONVEX: {
      auto v = std::make_shared<std::vector<V3>>(); auto f = std::make_shared<std::vector<int>>(); int nf = 0; double a = L(), b = L(), c = L();
      auto F = [&](std::vector<int> x) { f->push_back((int)x.size()); for (int i : x) f->push_back(i); ++nf; };
      int m = (int)r.below(3);
      if (m == 0) { for (int i = 0; i < 8; ++i) v->push_back(V3(i & 1 ? a : -a, i & 2 ? b : -b, i & 4 ? c : -c)); F({0, 2, 3, 1}); F({4, 5, 7, 6}); F({0, 1, 5, 4}); F({2, 6, 7, 3}); F({0, 4, 6, 2}); F({1, 3, 7, 5}); }
      else if (m == 1) { v->push_back(V3(a, 0, 0)); v->push_back(V3(-a, 0, 0)); v->push_back(V3(0, b, 0)); v->push_back(V3(0, -b, 0)); v->push_back(V3(0, 0, c)); v->push_back(V3(0, 0, -c)); F({0, 2, 4}); F({2, 1, 4}); F({1, 3, 4}); F({3, 0, 4}); F({2, 0, 5}); F({1, 2, 5}); F({3, 1, 5}); F({0, 3, 5}); }
      else { int k = r.range(3, 9); for (int i = 0; i < k; ++i) { double x = 2 * M_PI * i / k; v->push_back(V3(a * std::cos(x), a * std::sin(x), -b)); } for (int i = 0; i < k; ++i) { double x = 2 * M_PI * i / k; v->push_back(V3(a * std::cos(x), a * std::sin(x), b)); } std::vector<int> lo, up; for (int i = 0; i < k; ++i) { lo.push_back(k - 1 - i); up.push_back(k + i); } F(lo); F(up); for (int i = 0; i < k; ++i) { int j = (i + 1) % k; F({i, j, k + j, k + i}); } }
      g = std::make_shared<Convex<S>>(v, nf, f, false); break; }
    case PLANE: { V3 d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); if (r.chance(0.3)) d = V3(0, 0, 1); g = std::make_shared<Plane<S>>(V3(d.normalized()), r.real(-1, 1)); break; }
    case HALFSPACE: { V3 d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); if (r.chance(0.3)) d = V3(1, 0, 0); g = std::make_shared<Halfspace<S>>(V3(d.normalized()), r.real(-1, 1)); break; }
    case TRIANGLE: { auto P = [&] { return V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); }; V3 a = P(), b = P(), c = P(); g = std::make_shared<TriangleP<S>>(a, b, c); break; }
    case OCTREE: { double res = r.pick<double>({0.25, 0.1, 0.5}); g = std::make_shared<OcTree<S>>(std::shared_ptr<const octomap::OcTree>(make_octomap(r, res, std::max(1, n / 2), r.pick<double>({0.6, 1.2})))); break; }
    default: {
      Mesh q = make_mesh(seed, (int)r.below(6), n, r.real(0.4, 1.5));
      switch (kind - MESH0) { case 0: g = mesh_geom<AABB<S>>(r, q); break; case 1: g = mesh_geom<OBB<S>>(r, q); break; case 2: g = mesh_geom<RSS<S>>(r, q); break; case 3: g = mesh_geom<kIOS<S>>(r, q); break; case 4: g = mesh_geom<OBBRSS<S>>(r, q); break; case 5: g = mesh_geom<KDOP<S, 16>>(r, q); break; case 6: g = mesh_geom<KDOP<S, 18>>(r, q); break; default: g = mesh_geom<KDOP<S, 24>>(r, q); } }
  }
  g->cost_density = r.real(0.5, 2); g->computeLocalAABB(); return g;
}
// ---- everything observable in a geometry
struct Hash { uint64_t h = 1469598103934665603ULL; template <class T> void pod(const T& x) { h = sim::hash_bytes(&x, sizeof x, h); } void bytes(const void* p, size_t n) { if (n) h = sim::hash_bytes(p, n, h); } void v(const V3& x) { bytes(x.data(), 24); } };
inline void hash_bv(Hash& h, const AABB<S>& b) { h.v(b.min_); h.v(b.max_); }
inline void hash_bv(Hash& h, const OBB<S>& b) { h.bytes(b.axis.data(), 72); h.v(b.To); h.v(b.extent); }
inline void hash_bv(Hash& h, const RSS<S>& b) { h.bytes(b.axis.data(), 72); h.v(b.To); h.pod(b.l[0]); h.pod(b.l[1]); h.pod(b.r); }
inline void hash_bv(Hash& h, const OBBRSS<S>& b) { hash_bv(h, b.obb); hash_bv(h, b.rss); }
inline void hash_bv(Hash& h, const kIOS<S>& b) { h.pod(b.num_spheres); for (unsigned i = 0; i < b.num_spheres; ++i) { h.v(b.spheres[i].o); h.pod(b.spheres[i].r); } hash_bv(h, b.obb); }
template <std::size_t N> void hash_bv(Hash& h, const KDOP<S, N>& b) { for (std::size_t i = 0; i < N; ++i) { S d = b.dist(i); h.pod(d); } }
template <class BV> void hash_mesh(Hash& h, const CollisionGeometry<S>* g) {
  const BVHModel<BV>& m = *static_cast<const BVHModel<BV>*>(g); h.pod(m.num_vertices); h.pod(m.num_tris); h.pod(m.build_state); for (int i = 0; i < m.num_vertices; ++i) h.v(m.vertices[i]);
  char pv = m.prev_vertices != nullptr; h.pod(pv); if (pv) for (int i = 0; i < m.num_vertices; ++i) h.v(m.prev_vertices[i]);
  for (int i = 0; i < m.num_tris; ++i) for (int k = 0; k < 3; ++k) { std::size_t x = m.tri_indices[i][k]; h.pod(x); }
  int nb = m.getNumBVs(); h.pod(nb); for (int i = 0; i < nb; ++i) { const BVNode<BV>& b = m.getBV(i); h.pod(b.first_child); h.pod(b.first_primitive); h.pod(b.num_primitives); hash_bv(h, b.bv); }
}
inline uint64_t geom_hash(const CollisionGeometry<S>* g, int kind) {
  sim::NoFault nf; Hash h; h.v(g->aabb_center); h.pod(g->aabb_radius); h.v(g->aabb_local.min_); h.v(g->aabb_local.max_); h.pod(g->cost_density); h.pod(g->threshold_occupied); h.pod(g->threshold_free); h.pod(g->user_data);
  switch (kind) {
    case BOX: h.v(static_cast<const Box<S>*>(g)->side); break;
    case SPHERE: h.pod(static_cast<const Sphere<S>*>(g)->radius); break;
    case ELLIPSOID: h.v(static_cast<const Ellipsoid<S>*>(g)->radii); break;
    case CAPSULE: h.pod(static_cast<const Capsule<S>*>(g)->radius); h.pod(static_cast<const Capsule<S>*>(g)->lz); break;
    case CONE: h.pod(static_cast<const Cone<S>*>(g)->radius); h.pod(static_cast<const Cone<S>*>(g)->lz); break;
    case CYLINDER: h.pod(static_cast<const Cylinder<S>*>(g)->radius); h.pod(static_cast<const Cylinder<S>*>(g)->lz); break;
    case CONVEX: { auto* c = static_cast<const Convex<S>*>(g); for (auto& p : c->getVertices()) h.v(p); for (int i : c->getFaces()) h.pod(i); h.v(c->getInteriorPoint()); break; }
    case PLANE: h.v(static_cast<const Plane<S>*>(g)->n); h.pod(static_cast<const Plane<S>*>(g)->d); break;
    case HALFSPACE: h.v(static_cast<const Halfspace<S>*>(g)->n); h.pod(static_cast<const Halfspace<S>*>(g)->d); break;
    case TRIANGLE: { auto* t = static_cast<const TriangleP<S>*>(g); h.v(t->a); h.v(t->b); h.v(t->c); break; }
    case OCTREE: { auto* o = static_cast<const OcTree<S>*>(g); for (auto& b : o->toBoxes()) for (double x : b) h.pod(x); S a = o->getOccupancyThres(), f = o->getFreeThres(), d = o->getDefaultOccupancy(); h.pod(a); h.pod(f); h.pod(d); break; }
    case MESH0 + 0: hash_mesh<AABB<S>>(h, g); break; case MESH0 + 1: hash_mesh<OBB<S>>(h, g); break; case MESH0 + 2: hash_mesh<RSS<S>>(h, g); break; case MESH0 + 3: hash_mesh<kIOS<S>>(h, g); break; case MESH0 + 4: hash_mesh<OBBRSS<S>>(h, g); break; case MESH0 + 5: hash_mesh<KDOP<S, 16>>(h, g); break; case MESH0 + 6: hash_mesh<KDOP<S, 18>>(h, g); break; case MESH0 + 7: hash_mesh<KDOP<S, 24>>(h, g); break;
  }
  return h.h;
}
// ---- queries
struct Scene { std::vector<GeomPtr> g; std::vector<int> kind; };
enum { COLLIDE, DISTANCE, CCD_NAIVE, CCD_CA, CCD_POLY, NQ };
static const char* QNAME[NQ] = {"collision", "distance", "naive continuous", "conservative-advancement", "polynomial continuous"};
struct Query {
  int a, b, kind, solver, flags; uint64_t pose; double range; int maxc;  // flags: 1 contacts / nearest points, 2 cost / signed, 4 via objects, 8 exact cost, 16-32 motion type, 64 extra tolerance, 128 no rotation
  Transform3<S> t1, t2, e1, e2; bool warm = false; V3 guess{V3(1, 0, 0)}; std::shared_ptr<CollisionObject<S>> xa, xb;  // made beforehand, or for the call
};
inline Query make_query(const Op& o, const Scene& s) {
  Query q; int n = (int)s.g.size(); q.a = std::abs(o.i(0)) % n; q.b = std::abs(o.i(1)) % n; q.kind = std::abs(o.i(2)) % NQ; q.pose = (uint64_t)std::fabs(o.at(3)); q.range = o.at(4, 1); q.solver = o.i(5) & 1; q.flags = o.i(6); q.maxc = std::max(0, o.i(7, 1));
  Rng r(q.pose * 61 + 7); bool rot = !(q.flags & 128); q.t1 = rnd_pose(r, 1, rot && r.chance(0.7)); q.t2 = q.t1 * rnd_pose(r, q.range, rot);
  q.e1 = q.t1 * rnd_pose(r, q.range, (q.flags & 48) && r.chance(0.7)); q.e2 = q.t2 * rnd_pose(r, q.range, (q.flags & 48) && r.chance(0.7));
  if (q.a == q.b && (q.flags & 512)) { q.t2 = q.t1; if (q.kind == DISTANCE) q.flags &= ~2; }  // the penetration depth of coinciding round shapes has no unique direction: the polytope expansion takes millions of faces
  auto unb = [&](int g) { return s.kind[g] == PLANE || s.kind[g] == HALFSPACE; };  // distances to planes and half-spaces are not supported by the library
  if ((q.kind == DISTANCE || q.kind == CCD_CA) && (unb(q.a) || unb(q.b))) q.kind = COLLIDE;
  if (q.kind == CCD_POLY && !(is_mesh(s.kind[q.a]) && is_mesh(s.kind[q.b]))) q.kind = CCD_NAIVE;
  return q;
}
struct Outcome { int thrown = 0; double ret = 0; std::vector<double> d; bool same(const Outcome& o) const { return thrown == o.thrown && !memcmp(&ret, &o.ret, 8) && d.size() == o.d.size() && (d.empty() || !memcmp(d.data(), o.d.data(), 8 * d.size())); }
  std::string show() const { char t[64]; std::string s; snprintf(t, sizeof t, "%s returned %.9g,", thrown ? thrown == 2 ? "(out of memory)" : "(exception)" : "", ret); s = t; for (size_t i = 0; i < d.size() && i < 24; ++i) { snprintf(t, sizeof t, " %.9g", d[i]); s += t; } return s; } };
inline void put(Outcome& o, const V3& v) { for (int i = 0; i < 3; ++i) o.d.push_back(v[i]); }
inline int gidx(const Scene& s, const CollisionGeometry<S>* g) { for (size_t i = 0; i < s.g.size(); ++i) if (s.g[i].get() == g) return (int)i; return g ? -2 : -1; }
inline void put_contact(Outcome& o, const Scene& s, const Contact<S>& c, bool info) { if (gidx(s, c.o1) < 0 || gidx(s, c.o2) < 0) sim::fail("wrong-objects", "a contact names an object that is not part of the query"); o.d.push_back(gidx(s, c.o1)); o.d.push_back(gidx(s, c.o2)); o.d.push_back((double)c.b1); o.d.push_back((double)c.b2); if (info) { put(o, c.pos); put(o, c.normal); o.d.push_back(c.penetration_depth); } }
inline CollisionRequest<S> creq(const Query& q) { CollisionRequest<S> r((size_t)q.maxc, q.flags & 1, 3, q.flags & 2, !(q.flags & 8), q.solver ? GST_INDEP : GST_LIBCCD); if (q.warm) { r.enable_cached_gjk_guess = true; r.cached_gjk_guess = q.guess; } return r; }
inline DistanceRequest<S> dreq(const Query& q) { return DistanceRequest<S>(q.flags & 1, q.flags & 2, 0, 0, 1e-6, q.solver ? GST_INDEP : GST_LIBCCD); }
inline double run_collide(const Scene& s, const Query& q, CollisionResult<S>& rs) { auto rq = creq(q);
  if (q.xa) return (double)collide(q.xa.get(), q.xb.get(), rq, rs);
  if (q.flags & 4) { CollisionObject<S> x(s.g[q.a], q.t1), y(s.g[q.b], q.t2); return (double)collide(&x, &y, rq, rs); }
  return (double)collide(s.g[q.a].get(), q.t1, s.g[q.b].get(), q.t2, rq, rs); }
inline double run_distance(const Scene& s, const Query& q, DistanceResult<S>& rs) { auto rq = dreq(q);
  if (q.xa) return distance(q.xa.get(), q.xb.get(), rq, rs);
  if (q.flags & 4) { CollisionObject<S> x(s.g[q.a], q.t1), y(s.g[q.b], q.t2); return distance(&x, &y, rq, rs); }
  return distance(s.g[q.a].get(), q.t1, s.g[q.b].get(), q.t2, rq, rs); }
inline double run_ccd(const Scene& s, const Query& q, ContinuousCollisionResult<S>& rs) {
  static const CCDSolverType T[3] = {CCDC_NAIVE, CCDC_CONSERVATIVE_ADVANCEMENT, CCDC_POLYNOMIAL_SOLVER}; int mt = (q.flags >> 4) & 3; if (q.kind == CCD_POLY) mt = 0;
  ContinuousCollisionRequest<S> rq(q.kind == CCD_NAIVE ? 8 : 10, 1e-3, (CCDMotionType)mt, q.solver ? GST_INDEP : GST_LIBCCD, T[q.kind - CCD_NAIVE]);
  if (q.xa) return continuousCollide(q.xa.get(), q.e1, q.xb.get(), q.e2, rq, rs);
  if (q.flags & 4) { CollisionObject<S> x(s.g[q.a], q.t1), y(s.g[q.b], q.t2); return continuousCollide(&x, q.e1, &y, q.e2, rq, rs); }
  return continuousCollide(s.g[q.a].get(), q.t1, q.e1, s.g[q.b].get(), q.t2, q.e2, rq, rs); }
inline void put_cost(Outcome& o, CollisionResult<S>& rs) { std::vector<CostSource<S>> cs; rs.getCostSources(cs); o.d.push_back((double)cs.size()); for (auto& c : cs) { put(o, c.aabb_min); put(o, c.aabb_max); o.d.push_back(c.cost_density); o.d.push_back(c.total_cost); } }
inline void put_result(Outcome& o, const Scene& s, const Query& q, CollisionResult<S>& rs) { o.d.push_back((double)rs.numContacts()); for (size_t i = 0; i < rs.numContacts(); ++i) put_contact(o, s, rs.getContact(i), q.flags & 1); put_cost(o, rs); }
inline void put_result(Outcome& o, const Scene& s, const Query& q, DistanceResult<S>& rs) { if (gidx(s, rs.o1) == -2 || gidx(s, rs.o2) == -2) sim::fail("wrong-objects", "the result of a distance query names an object that is not part of the query"); o.d.push_back(rs.min_distance); o.d.push_back(gidx(s, rs.o1)); o.d.push_back(gidx(s, rs.o2)); if (rs.o1) { o.d.push_back((double)rs.b1); o.d.push_back((double)rs.b2); if ((q.flags & 1) && rs.min_distance > 0) { put(o, rs.nearest_points[0]); put(o, rs.nearest_points[1]); } } }
template <class F> inline void guarded(Outcome& o, F f) { try { o.ret = f(); } catch (const std::bad_alloc&) { o.thrown = 2; } catch (const std::exception&) { o.thrown = 1; } }
inline Outcome run_fresh(const Scene& s, const Query& q) { sim::stack_refill();
  Outcome o;
  if (q.kind == COLLIDE) { CollisionResult<S> rs; guarded(o, [&] { return run_collide(s, q, rs); }); sim::Quiet qq; sim::NoFault nf; if (!o.thrown) put_result(o, s, q, rs); }
  else if (q.kind == DISTANCE) { DistanceResult<S> rs; guarded(o, [&] { return run_distance(s, q, rs); }); sim::Quiet qq; sim::NoFault nf; if (!o.thrown) put_result(o, s, q, rs); }
  else { ContinuousCollisionResult<S> rs; guarded(o, [&] { return run_ccd(s, q, rs); }); sim::Quiet qq; sim::NoFault nf; if (!o.thrown) { o.d.push_back(rs.is_collide); o.d.push_back(rs.time_of_contact); if (rs.is_collide) for (int i = 0; i < 2; ++i) { auto& t = i ? rs.contact_tf2 : rs.contact_tf1; for (int r = 0; r < 3; ++r) for (int c = 0; c < 4; ++c) o.d.push_back(t(r, c)); } } }
  return o;
}
inline std::string describe(const Scene& s, const Query& q) { char t[200]; snprintf(t, sizeof t, "%s of %s and %s (%s, flags %d)", QNAME[q.kind], GN[s.kind[q.a]], GN[s.kind[q.b]], q.solver ? "indep" : "libccd", q.flags); return t; }
// ---- outcomes passed from a forked copy
inline char* store(char* p, const Outcome& o) { memcpy(p, &o.thrown, 4); memcpy(p + 8, &o.ret, 8); uint64_t n = o.d.size(); memcpy(p + 16, &n, 8); if (n) memcpy(p + 24, o.d.data(), n * 8); return p + 24 + n * 8; }
inline const char* fetch(const char* p, Outcome& o) { memcpy(&o.thrown, p, 4); memcpy(&o.ret, p + 8, 8); uint64_t n; memcpy(&n, p + 16, 8); o.d.resize(n); if (n) memcpy(o.d.data(), p + 24, n * 8); return p + 24 + n * 8; }
}  // namespace sc

// C07 mesh construction protocol, C08 in-place changes, C09 front lists, C05 (mesh part).
#include "meshutil.h"
#if PROP == 8
#include "scene.h"
#endif
#include <cstring>
#include <iostream>
#include <memory>
#include "fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision_node.h"
#include "fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h"
using namespace mu; using sim::Plan; using sim::Op;
#ifndef PROP
#define PROP 7
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

#if PROP == 7 || PROP == 5
// ---------------------------------------------------------------- C07: call protocol
enum St { EMPTY = 0, BEGUN, PROCESSED, UPDATE_BEGUN, UPDATED, REPLACE_BEGUN };
static const char* STN[6] = {"empty", "begun", "processed", "update-begun", "updated", "replace-begun"};
struct Ref { int st = EMPTY; std::vector<V3> v, prev; std::vector<T3> t; bool has_prev = false, tree = false; int upd = 0; };
static const int NM = 3;
template <class BV> struct World {
  std::unique_ptr<BVHModel<BV>> m[NM]; Ref r[NM]; int split = 0, bv = 0;
  static int lib_state(int s) { static const int t[6] = {BVH_BUILD_STATE_EMPTY, BVH_BUILD_STATE_BEGUN, BVH_BUILD_STATE_PROCESSED, BVH_BUILD_STATE_UPDATE_BEGUN, BVH_BUILD_STATE_UPDATED, BVH_BUILD_STATE_REPLACE_BEGUN}; return t[s]; }
  void same(int s, const char* op) {
    sim::NoFault nf; BVHModel<BV>& b = *m[s]; Ref& f = r[s];
    if (b.build_state != lib_state(f.st)) sim::fail("wrong-state", "%s/%s after %s: build state %d, expected %s", BVN[bv], SPLITN[split], op, (int)b.build_state, STN[f.st]);
    if (b.num_vertices != (int)f.v.size() || b.num_tris != (int)f.t.size()) sim::fail("wrong-content", "%s after %s in state %s: %d vertices and %d triangles, expected %lu and %lu", BVN[bv], op, STN[f.st], b.num_vertices, b.num_tris, (unsigned long)f.v.size(), (unsigned long)f.t.size());
    size_t nv = f.v.size(); if (f.st == UPDATE_BEGUN) nv = f.upd;   // the rest has not been given yet
    for (size_t i = 0; i < nv; ++i) if (b.vertices[i] != f.v[i]) sim::fail("wrong-content", "%s after %s: vertex %lu of %lu differs from the one accepted", BVN[bv], op, (unsigned long)i, (unsigned long)f.v.size());
    for (size_t i = 0; i < f.t.size(); ++i) for (int k = 0; k < 3; ++k) if ((int)b.tri_indices[i][k] != f.t[i][k]) sim::fail("wrong-content", "%s after %s: triangle %lu of %lu differs from the one accepted", BVN[bv], op, (unsigned long)i, (unsigned long)f.t.size());
    if ((f.st == UPDATED || f.st == UPDATE_BEGUN) && !b.prev_vertices) sim::fail("wrong-content", "%s after %s: no previous frame", BVN[bv], op);
    if (f.st == PROCESSED && b.prev_vertices) sim::fail("wrong-content", "%s after %s: a previous frame nobody gave", BVN[bv], op);
    if (f.st == UPDATED || f.st == UPDATE_BEGUN) for (size_t i = 0; i < f.prev.size(); ++i) if (b.prev_vertices[i] != f.prev[i]) sim::fail("wrong-content", "%s after %s: previous vertex %lu differs", BVN[bv], op, (unsigned long)i);
    int mt = f.t.size() ? BVH_MODEL_TRIANGLES : f.v.size() ? BVH_MODEL_POINTCLOUD : BVH_MODEL_UNKNOWN;
    if (b.getModelType() != mt) sim::fail("wrong-content", "%s after %s: model type %d, expected %d", BVN[bv], op, (int)b.getModelType(), mt);
    if (f.st == PROCESSED || f.st == UPDATED) { char w[80]; snprintf(w, sizeof w, "%s/%s after %s", BVN[bv], SPLITN[split], op);
      
#if PROP == 5
      double sc = 1; for (auto& q : f.v) sc = std::max(sc, q.cwiseAbs().maxCoeff()); for (auto& q : f.prev) sc = std::max(sc, q.cwiseAbs().maxCoeff());
      check_tree(b, (int)(f.t.size() ? f.t.size() : f.v.size()), w, &f.v, f.st == UPDATED ? &f.prev : nullptr, f.t.empty() ? nullptr : &f.t, 1e-6 * sc);
#else
      check_tree(b, (int)(f.t.size() ? f.t.size() : f.v.size()), w);
      if (f.t.size()) moments(b, f, w);
#endif
      sim::count("probe.built-model-checked"); }
  }
  // volume, centre of mass and moment of inertia of the tetrahedra between the origin and the current triangles
  void moments(BVHModel<BV>& b, Ref& f, const char* w) {
    double vol = 0, av = 0, sc = 0; V3 c = V3::Zero(); double ac = 0, m2[3][3] = {{0}}, am = 0;
    for (auto& t : f.t) { const V3 &x = f.v[t[0]], &y = f.v[t[1]], &z = f.v[t[2]]; double d = x.dot(y.cross(z)), r = std::max(x.norm(), std::max(y.norm(), z.norm())), ad = x.norm() * y.norm() * z.norm(); V3 u = x + y + z; vol += d / 6; av += ad / 6; c += u * (d / 24); ac += ad * r / 8; am += ad * r * r / 10; sc = std::max(sc, r);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m2[i][j] += d / 120 * (u[i] * u[j] + x[i] * x[j] + y[i] * y[j] + z[i] * z[j]); }
    double e = 1e-11; if (!(std::fabs(b.computeVolume() - vol) <= e * av + 1e-300)) sim::fail("wrong-moments", "%s: volume %.12g, expected %.12g", w, b.computeVolume(), vol);
    if (std::fabs(vol) > 1e-3 * av) { V3 g = b.computeCOM(), h = c / vol; if (!((g - h).norm() <= 1e-7 * sc)) sim::fail("wrong-moments", "%s: centre of mass (%g %g %g), expected (%g %g %g)", w, g[0], g[1], g[2], h[0], h[1], h[2]); sim::count("probe.centre-of-mass"); }
    Eigen::Matrix3d I = b.computeMomentofInertia(); double tr = m2[0][0] + m2[1][1] + m2[2][2]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!(std::fabs(I(i, j) - ((i == j ? tr : 0) - m2[i][j])) <= e * am + 1e-300)) sim::fail("wrong-moments", "%s: moment of inertia (%d, %d) %.12g, expected %.12g", w, i, j, I(i, j), (i == j ? tr : 0) - m2[i][j]);
  }
  void run(const Plan& p);
};
static void pts(Rng& r, std::vector<V3>& out, int n) { double s = r.pick<double>({1, 10, 0.01}); for (int i = 0; i < n; ++i) { if (!out.empty() && r.chance(0.1)) out.push_back(out.back()); else out.push_back(V3(r.real(-s, s), r.real(-s, s), r.real(-s, s))); } }

template <class BV> void World<BV>::run(const Plan& p) {
  split = (int)p.get("split"); bv = (int)p.get("bv");
  sim::heap_mark();
  for (int i = 0; i < NM; ++i) { m[i].reset(new BVHModel<BV>()); set_split(*m[i], split); }
  for (auto& o : p.ops) {
    sim::step_budget(200000000);
    int s = (int)(std::abs(o.i(0)) % NM); BVHModel<BV>* b = m[s].get(); Ref& f = r[s]; Rng g((uint64_t)o.at(1) * 31 + 7);
    const std::string& n = o.name; int rc = 0, want = BVH_OK; Ref next = f; bool isrc = true;
    std::vector<V3> ps; std::vector<Triangle> ts; V3 q[3];
    const int OOS = BVH_ERR_BUILD_OUT_OF_SEQUENCE;
    int fault = PROP == 5 ? o.i(2, -1) : -1, x = o.i(3), y = o.i(4); bool threw = false; int before = f.st;
    sim::count(("op." + n).c_str());
    auto sub = [&](std::function<void()> fn) { if (fault >= 0) sim::fail_alloc_at(fault); try { fn(); } catch (const std::bad_alloc&) { threw = true; } bool fired = sim::alloc_fault_fired(); sim::fail_alloc_at(-1); if (threw && !fired) sim::fail("unexpected-exception", "%s %s: bad_alloc without an injected failure", BVN[bv], n.c_str()); if (fired) sim::count("fault.alloc"); if (!fired) fault = -1; };
    if (n == "begin") { next = Ref(); next.st = f.st == EMPTY ? BEGUN : EMPTY; if (f.st != EMPTY) want = OOS; sub([&] { rc = b->beginModel(x, y); }); if (threw || rc == BVH_ERR_MODEL_OUT_OF_MEMORY) next.st = EMPTY; }
    else if (n == "addv") { pts(g, ps, 1); if (f.st != BEGUN) want = OOS; else next.v.push_back(ps[0]); sub([&] { rc = b->addVertex(ps[0]); }); }
    else if (n == "addt") { pts(g, ps, 3); if (f.st != BEGUN) want = OOS; else { int k = (int)next.v.size(); for (auto& v : ps) next.v.push_back(v); next.t.push_back({k, k + 1, k + 2}); } sub([&] { rc = b->addTriangle(ps[0], ps[1], ps[2]); }); }
    else if (n == "addp") { pts(g, ps, x); if (f.st != BEGUN) want = OOS; else for (auto& v : ps) next.v.push_back(v); sub([&] { rc = b->addSubModel(ps); }); }
    else if (n == "adds") { pts(g, ps, std::max(1, x)); for (int k = 0; k < y; ++k) { int a = (int)g.below(ps.size()), c = (int)g.below(ps.size()), d = (int)g.below(ps.size()); ts.push_back(Triangle(a, c, d)); if (f.st == BEGUN) { int of = (int)f.v.size(); next.t.push_back({a + of, c + of, d + of}); } } if (f.st != BEGUN) want = OOS; else for (auto& v : ps) next.v.push_back(v); sub([&] { rc = b->addSubModel(ps, ts); }); }
    else if (n == "end") { if (f.st != BEGUN) want = OOS; else if (f.v.empty()) want = BVH_ERR_BUILD_EMPTY_MODEL; else { next.st = PROCESSED; next.tree = true; } sub([&] { rc = b->endModel(); }); }
    else if (n == "brep") { if (f.st != PROCESSED && f.st != UPDATED) want = BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME; else { next.st = REPLACE_BEGUN; next.upd = 0; next.prev.clear(); next.has_prev = false; } sub([&] { rc = b->beginReplaceModel(); }); }
    else if (n == "bupd") { if (f.st != PROCESSED && f.st != UPDATED) want = BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME; else { next.st = UPDATE_BEGUN; next.upd = 0; next.prev = f.v; next.has_prev = true; } sub([&] { rc = b->beginUpdateModel(); }); }
    else if (n == "rv" || n == "rt" || n == "rs" || n == "uv" || n == "ut" || n == "us") {
      bool up = n[0] == 'u'; int k = n[1] == 'v' ? 1 : n[1] == 't' ? 3 : x; if (n[1] == 's' && y == 1) k = std::max(0, (int)f.v.size() - f.upd);  // exactly the rest
      pts(g, ps, k);
      if (f.st != (up ? UPDATE_BEGUN : REPLACE_BEGUN)) want = OOS; else if (f.upd + k > (int)f.v.size()) want = BVH_ERR_INCORRECT_DATA; else for (int i = 0; i < k; ++i) next.v[next.upd++] = ps[i];
      sub([&] { rc = n == "rv" ? b->replaceVertex(ps[0]) : n == "rt" ? b->replaceTriangle(ps[0], ps[1], ps[2]) : n == "rs" ? b->replaceSubModel(ps) : n == "uv" ? b->updateVertex(ps[0]) : n == "ut" ? b->updateTriangle(ps[0], ps[1], ps[2]) : b->updateSubModel(ps); }); }
    else if (n == "erep") { if (f.st != REPLACE_BEGUN) want = OOS; else if (f.upd != (int)f.v.size()) want = BVH_ERR_INCORRECT_DATA; else next.st = PROCESSED; bool refit = x != 0; if (next.st == PROCESSED && want == BVH_OK) next.tree = true; sub([&] { rc = b->endReplaceModel(refit, y); }); }
    else if (n == "eupd") { if (f.st != UPDATE_BEGUN) want = OOS; else if (f.upd != (int)f.v.size()) want = BVH_ERR_INCORRECT_DATA; else next.st = UPDATED; bool refit = x != 0; if (want == BVH_OK) next.tree = true; sub([&] { rc = b->endUpdateModel(refit, y); }); }
    else if (n == "copy" || n == "assign" || n == "fresh") { isrc = false; int d = (int)(std::abs(o.i(3)) % NM); Ref& fd = r[d]; std::unique_ptr<BVHModel<BV>> nm;
      if (n == "fresh") { m[s].reset(); m[s].reset(new BVHModel<BV>()); set_split(*m[s], split); f = Ref(); next = f; }
      else if (n == "copy") { if (d != s) { sub([&] { nm.reset(new BVHModel<BV>(*m[s])); }); if (!threw) { m[d] = std::move(nm); fd = f; } } }
      else { sub([&] { *m[d] = *m[s]; }); if (!threw && d != s) fd = f; }
      same(d, n.c_str()); }
    else continue;
    if (isrc) {
      bool failed = threw || (rc == BVH_ERR_MODEL_OUT_OF_MEMORY && fault >= 0);
      if (failed) { if (n != "begin") { next = f; if (n == "end" || n == "erep" || n == "eupd") next.tree = false; } sim::count("probe.failed-allocation"); }
      else if (rc != want) sim::fail("wrong-answer", "%s: %s in state %s answered %d, expected %d (%lu vertices, %lu triangles, %d given)", BVN[bv], n.c_str(), STN[f.st], rc, want, (unsigned long)f.v.size(), (unsigned long)f.t.size(), f.upd);
      if (rc == BVH_OK) sim::count("probe.accepted"); else sim::count("probe.refused");
      f = next;
    }
    if (m[s]) same(s, n.c_str());
    sim::log("%s %s -> %d %s", n.c_str(), STN[before], rc, STN[f.st]); sim::sig(sim::mix(before * 64 + f.st * 8 + (rc == BVH_OK), sim::hash_bytes(n.data(), n.size())));
  }
  // every model that can be finished must finish
  for (int i = 0; i < NM; ++i) { m[i].reset(); r[i] = Ref(); }
  std::string what; uint64_t k = sim::heap_live_since_mark(&what); if (k) sim::fail("leak", "%s: %lu blocks not released after the models were destroyed:%s", BVN[bv], (unsigned long)k, what.c_str());
}
#elif PROP == 8
// ---------------------------------------------------------------- C08: changed in place
#ifndef NK
#define NK 7
#endif
template <class BV> struct Oriented { static const bool value = false; };
template <class BV> struct CN; template <> struct CN<OBB<S>> { typedef detail::MeshCollisionTraversalNodeOBB<S> type; }; template <> struct CN<RSS<S>> { typedef detail::MeshCollisionTraversalNodeRSS<S> type; };
template <> struct CN<kIOS<S>> { typedef detail::MeshCollisionTraversalNodekIOS<S> type; }; template <> struct CN<OBBRSS<S>> { typedef detail::MeshCollisionTraversalNodeOBBRSS<S> type; };
template <class BV> struct DN; template <> struct DN<RSS<S>> { typedef detail::MeshDistanceTraversalNodeRSS<S> type; }; template <> struct DN<kIOS<S>> { typedef detail::MeshDistanceTraversalNodekIOS<S> type; }; template <> struct DN<OBBRSS<S>> { typedef detail::MeshDistanceTraversalNodeOBBRSS<S> type; };
#endif
#if PROP == 8
static double scale_of(const std::vector<V3>& a) { double s = 1; for (auto& p : a) s = std::max(s, p.cwiseAbs().maxCoeff()); return s; }
template <class BV> struct World {
  int bv, split, split2; Mesh a, b; std::vector<V3> prev; bool updated = false, cloud = false, degen = false;
  BVHModel<BV> ma, mb;
  void build(BVHModel<BV>& m, const Mesh& q, int form) {
    m.beginModel(form & 1 ? (int)q.t.size() : 0, form & 2 ? (int)q.v.size() : 0);
    std::vector<Triangle> ts; for (auto& t : q.t) ts.push_back(Triangle(t[0], t[1], t[2]));
    if (cloud) m.addSubModel(q.v); else m.addSubModel(q.v, ts);
    if (m.endModel() != BVH_OK) sim::fail("build-failed", "endModel refused a mesh of %lu triangles", (unsigned long)q.t.size());
  }
  void nodes(const char* w) {
    char t[100]; snprintf(t, sizeof t, "%s/%s %s after %s", BVN[bv], SPLITN[split], cloud ? "points" : "mesh", w);
    double sc = std::max(scale_of(a.v), scale_of(prev));
    check_tree(ma, (int)(cloud ? a.v.size() : a.t.size()), t, &a.v, updated ? &prev : nullptr, cloud ? nullptr : &a.t, 1e-6 * sc); sim::count("probe.bounds-checked");
  }
  Tri tri(const Mesh& q, int i, const Transform3<S>& tf) { Tri t; for (int k = 0; k < 3; ++k) t[k] = tf * q.v[q.t[i][k]]; return t; }
  template <class N> bool init_o(N& node, const Transform3<S>& t1, const Transform3<S>& t2, const CollisionRequest<S>& rq, CollisionResult<S>& rs, bool sw) { return sw ? detail::initialize(node, (const BVHModel<BV>&)mb, t2, (const BVHModel<BV>&)ma, t1, rq, rs) : detail::initialize(node, (const BVHModel<BV>&)ma, t1, (const BVHModel<BV>&)mb, t2, rq, rs); }
  // oriented node types
  template <class X> auto collide_(int form, const Transform3<S>& t1, const Transform3<S>& t2, const CollisionRequest<S>& rq, CollisionResult<S>& rs, bool sw, X*) -> typename std::enable_if<!std::is_void<typename CN<X>::type>::value>::type {
    typename CN<X>::type node; if (!init_o(node, t1, t2, rq, rs, sw)) sim::fail("init-failed", "initialize refused two meshes"); detail::collide(&node); }
  template <class X> auto generic(const Transform3<S>& t1, const Transform3<S>& t2, const CollisionRequest<S>& rq, CollisionResult<S>& rs, bool sw, bool refit, bool bu, X*) -> void {
    BVHModel<BV> ca(ma), cb(mb); Transform3<S> u1 = t1, u2 = t2; detail::MeshCollisionTraversalNode<BV> node;
    bool ok = sw ? detail::initialize(node, cb, u2, ca, u1, rq, rs, refit, bu) : detail::initialize(node, ca, u1, cb, u2, rq, rs, refit, bu);
    if (!ok) sim::fail("init-failed", "initialize refused two meshes"); detail::collide(&node); }
  template <class X> void dist_(const Transform3<S>& t1, const Transform3<S>& t2, const DistanceRequest<S>& rq, DistanceResult<S>& rs, bool sw, int q, X*) {
    typename DN<X>::type node; bool ok = sw ? detail::initialize(node, (const BVHModel<BV>&)mb, t2, (const BVHModel<BV>&)ma, t1, rq, rs) : detail::initialize(node, (const BVHModel<BV>&)ma, t1, (const BVHModel<BV>&)mb, t2, rq, rs);
    if (!ok) sim::fail("init-failed", "initialize refused two meshes"); detail::distance(&node, (detail::BVHFrontList*)nullptr, q); }
  void dist_(const Transform3<S>& t1, const Transform3<S>& t2, const DistanceRequest<S>& rq, DistanceResult<S>& rs, bool sw, int q, AABB<S>*) {
    BVHModel<BV> ca(ma), cb(mb); Transform3<S> u1 = t1, u2 = t2; detail::MeshDistanceTraversalNode<BV> node; bool ok = sw ? detail::initialize(node, cb, u2, ca, u1, rq, rs) : detail::initialize(node, ca, u1, cb, u2, rq, rs);
    if (!ok) sim::fail("init-failed", "initialize refused two meshes"); detail::distance(&node, (detail::BVHFrontList*)nullptr, q); }
  template <class X> void collide_g(const Transform3<S>& t1, const Transform3<S>& t2, const CollisionRequest<S>& rq, CollisionResult<S>& rs, bool sw, int form, std::true_type, X* x) { if (form & 4) { generic(t1, t2, rq, rs, sw, form & 1, form & 2, x); return; } collide_(form, t1, t2, rq, rs, sw, x); }
  template <class X> void collide_g(const Transform3<S>& t1, const Transform3<S>& t2, const CollisionRequest<S>& rq, CollisionResult<S>& rs, bool sw, int form, std::false_type, X* x) { generic(t1, t2, rq, rs, sw, form & 1, form & 2, x); }
  template <class X> void distance_g(const Transform3<S>& t1, const Transform3<S>& t2, const DistanceRequest<S>& rq, DistanceResult<S>& rs, bool sw, int q, std::true_type, X* x) { dist_(t1, t2, rq, rs, sw, q, x); }
  template <class X> void distance_g(const Transform3<S>&, const Transform3<S>&, const DistanceRequest<S>&, DistanceResult<S>&, bool, int, std::false_type, X*) {}
  // the same through the interface users call, on geometries or on objects
  void toplevel(const CollisionGeometry<S>* x, const Transform3<S>& tx, const CollisionGeometry<S>* y, const Transform3<S>& ty, bool sw, bool objs, const CollisionRequest<S>& rq, CollisionResult<S>& rs) {
    if (sw) { toplevel(y, ty, x, tx, false, objs, rq, rs); return; } size_t n; std::shared_ptr<void> none; sim::stack_refill(); sim::count("probe.top-level");
    if (objs) { CollisionObject<S> p(std::shared_ptr<CollisionGeometry<S>>(none, const_cast<CollisionGeometry<S>*>(x)), tx), q(std::shared_ptr<CollisionGeometry<S>>(none, const_cast<CollisionGeometry<S>*>(y)), ty); n = collide(&p, &q, rq, rs); } else n = collide(x, tx, y, ty, rq, rs);
    if (n != rs.numContacts() || n > rq.num_max_contacts) sim::fail("wrong-count", "%s: a query for up to %lu contacts returned %lu and reported %lu", BVN[bv], (unsigned long)rq.num_max_contacts, (unsigned long)n, (unsigned long)rs.numContacts());
  }
  void topdistance(const CollisionGeometry<S>* x, const Transform3<S>& tx, const CollisionGeometry<S>* y, const Transform3<S>& ty, bool sw, bool objs, const DistanceRequest<S>& rq, DistanceResult<S>& rs) {
    if (sw) { topdistance(y, ty, x, tx, false, objs, rq, rs); return; } double d; std::shared_ptr<void> none; sim::stack_refill();
    if (objs) { CollisionObject<S> p(std::shared_ptr<CollisionGeometry<S>>(none, const_cast<CollisionGeometry<S>*>(x)), tx), q(std::shared_ptr<CollisionGeometry<S>>(none, const_cast<CollisionGeometry<S>*>(y)), ty); d = distance(&p, &q, rq, rs); } else d = distance(x, tx, y, ty, rq, rs);
    if (d != rs.min_distance) sim::fail("wrong-distance", "%s: distance returned %.9g, reported %.9g", BVN[bv], d, rs.min_distance);
  }
  // a mesh against a shape: every triangle on its own is asked the same, in place, in both solvers and for slightly moved shapes
  void with_shape(const Op& o) {
    if (cloud || degen) return; Rng g((uint64_t)o.at(0) * 151 + 7); int kind = ((o.i(2) % 9) + 9) % 9, form = o.i(3); bool sw = form & 1, contact = form & 2, objs = form & 4, indep = form & 8; double size = o.at(4, 1);
    sc::GeomPtr sh; { sim::NoFault nf; sh = sc::make_geom((uint64_t)std::fabs(o.at(5)), kind, 6); }
    Transform3<S> t1 = Transform3<S>::Identity(); if (!(o.i(1) & 2)) t1 = rnd_pose(g, size, g.chance(0.5)); Transform3<S> t2 = t1 * rnd_pose(g, (size + 0.5) * (o.i(1) & 1 ? 0.5 : 3), g.chance(0.7));
    size_t maxc = g.pick<size_t>({1, 3, 1000000000, 1000000000}); CollisionRequest<S> rq(maxc, contact); rq.gjk_solver_type = indep ? GST_INDEP : GST_LIBCCD; CollisionResult<S> rs; toplevel(&ma, t1, sh.get(), t2, sw, objs, rq, rs);
    int na = (int)a.t.size(); std::set<int> got;
    for (size_t i = 0; i < rs.numContacts(); ++i) { auto& c = rs.getContact(i); bool f = c.o1 == &ma; if (f ? c.o2 != sh.get() : (c.o1 != sh.get() || c.o2 != &ma)) sim::fail("wrong-pair", "%s with a %s: a contact names other geometries", BVN[bv], sc::GN[kind]); int t = (int)(f ? c.b1 : c.b2); if (t < 0 || t >= na) sim::fail("wrong-pair", "%s with a %s: a contact names triangle %d of %d", BVN[bv], sc::GN[kind], t, na); got.insert(t); }
    bool full = rs.numContacts() < maxc; double ext = scale_of(a.v) + t1.translation().norm() + t2.translation().norm(), e = 1e-4 * ext; int sure = 0; V3 lo = V3::Constant(1e300), hi = -lo; sh->computeLocalAABB(); double rad = sh->aabb_radius; V3 cen = t2 * sh->aabb_center; bool inf = kind == sc::PLANE || kind == sc::HALFSPACE;
    bool dist = !inf && bv >= 2 && bv <= 4; DistanceResult<S> dr; DistanceRequest<S> dq(form & 2, false, 0, 0, 1e-6, indep ? GST_INDEP : GST_LIBCCD); if (dist) topdistance(&ma, t1, sh.get(), t2, sw, objs, dq, dr);
    int named = dist && dr.min_distance < 1e300 ? (int)(dr.o1 == &ma ? dr.b1 : dr.b2) : -1; double dlo = 1e300, dhi = 1e300, nlo = 0, nhi = 1e300;
    // the solvers may change their answer with the last bits of a pose: a wrong answer counts if it stays wrong nearby
    auto moved = [&](int k) { Transform3<S> u = t2; u.translation()[k % 3] += (k < 3 ? e : -e) / (7 + k); return u; };
    auto stays = [&](int i, bool reported) { for (int k = 0; k < 6; ++k) { CollisionRequest<S> q1(1000000000, contact); q1.gjk_solver_type = rq.gjk_solver_type; CollisionResult<S> r1; toplevel(&ma, t1, sh.get(), moved(k), sw, objs, q1, r1); bool in = false; for (size_t c = 0; c < r1.numContacts(); ++c) { auto& x = r1.getContact(c); in |= (x.o1 == &ma ? x.b1 : x.b2) == i; } if (in != reported) return false; } return true; };
    { sim::Quiet qq; sim::NoFault nf;
      for (int i = 0; i < na; ++i) { Tri x = tri(a, i, t1); V3 c = (x[0] + x[1] + x[2]) / 3; double rr = 0; for (auto& p : x) rr = std::max(rr, (p - c).norm()); double apart = inf ? 0 : (c - cen).norm() - rr - rad;
        BVHModel<AABB<S>> one; one.beginModel(1, 3); one.addTriangle(x[0], x[1], x[2]); one.endModel(); int n = 0, tot = 0;
        if (apart <= 3 * e) for (int sv = 0; sv < 2; ++sv) for (int k = -1; k < 6; ++k) { Transform3<S> u = t2; if (k >= 0) u.translation()[k / 2] += k & 1 ? e : -e; CollisionRequest<S> q1(1, false); q1.gjk_solver_type = sv ? GST_INDEP : GST_LIBCCD; CollisionResult<S> r1; n += collide(&one, Transform3<S>::Identity(), sh.get(), u, q1, r1) > 0; ++tot; }
        bool must = tot && n == tot, in = got.count(i) > 0; sure += must;
        if (must && !in && full && stays(i, false)) sim::fail("missed-pair", "%s/%s: collision of %d triangles%s with a %s missed triangle %d", BVN[bv], SPLITN[split], na, updated ? " (updated)" : "", sc::GN[kind], i);
        if (in && !n && stays(i, true)) sim::fail("false-pair", "%s/%s: collision with a %s reports triangle %d, which it does not hit", BVN[bv], SPLITN[split], sc::GN[kind], i);
        if (dist) { BVHModel<RSS<S>> two; two.beginModel(1, 3); two.addTriangle(x[0], x[1], x[2]); two.endModel(); double l = 1e300, h = -1e300; for (int sv = 0; sv < 2; ++sv) for (int k = 0; k < 2; ++k) { DistanceRequest<S> q1(false, false, 0, 0, 1e-6, sv ? GST_INDEP : GST_LIBCCD); DistanceResult<S> r1; Transform3<S> I = Transform3<S>::Identity(); double d = k ? distance(sh.get(), t2, &two, I, q1, r1) : distance(&two, I, sh.get(), t2, q1, r1); l = std::min(l, d); h = std::max(h, d); }
          dlo = std::min(dlo, l); dhi = std::min(dhi, h); if (i == named) nlo = l, nhi = h; } } }
    if (dist && off(dr.min_distance, dlo, dhi, ext)) { int bad = 0; for (int k = 0; k < 6; ++k) { DistanceResult<S> r1; topdistance(&ma, t1, sh.get(), moved(k), sw, objs, dq, r1); bad += off(r1.min_distance, dlo, dhi, ext); } if (bad == 6) sim::fail("wrong-distance", "%s/%s: distance of %d triangles%s to a %s is %.9g, over the triangles it is %.9g to %.9g", BVN[bv], SPLITN[split], na, updated ? " (updated)" : "", sc::GN[kind], dr.min_distance, dlo, dhi); }
    if (dist && named >= 0 && off(dr.min_distance, nlo, nhi, ext)) { int bad = 0; for (int k = 0; k < 6; ++k) { DistanceResult<S> r1; topdistance(&ma, t1, sh.get(), moved(k), sw, objs, dq, r1); bad += (r1.o1 == &ma ? r1.b1 : r1.b2) == named && off(r1.min_distance, nlo, nhi, ext); } if (bad == 6) sim::fail("wrong-pair", "%s: the distance %.9g to a %s is said to be that of triangle %d, which is %.9g to %.9g away", BVN[bv], dr.min_distance, sc::GN[kind], named, nlo, nhi); }
    if (dist && (named < 0 || named >= na)) sim::fail("wrong-pair", "%s: the distance to a %s names triangle %d of %d", BVN[bv], sc::GN[kind], named, na);
    sim::count(sure ? "probe.shape-hit" : "probe.shape-miss"); if (dist && dlo > 1e-3 * ext) sim::count("probe.shape-apart"); sim::sig(sure * 16 + kind); sim::log("shape %s %lu", sc::GN[kind], (unsigned long)got.size()); if (dist) sim::logd("d", dr.min_distance);
  }
  static bool off(double got, double lo, double hi, double ext) { double t = 1e-3 * ext; return lo <= t ? got > hi + t && got > 2 * t : got < lo - t || got > hi + t; }
  void query(const Op& o) {
    if (cloud) return; Rng g((uint64_t)o.at(0) * 131 + 3); bool near = o.i(1) & 1, ident = o.i(1) & 2; double size = o.at(2, 1); int form = o.i(3); bool sw = o.i(4) & 1;
    Transform3<S> t1 = Transform3<S>::Identity(), t2 = rnd_pose(g, size * (near ? 0.4 : 2.5), g.chance(0.7));
    if (!ident) t1 = rnd_pose(g, size, g.chance(0.5)); if (!ident) t2 = t1 * t2;
    const bool dist = bv == 0 || (bv >= 2 && bv <= 4);
    double sc = std::max(scale_of(a.v), scale_of(b.v)) + t2.translation().norm() + t1.translation().norm(), m = 1e-6 * sc;
    int na = (int)a.t.size(), nb = (int)b.t.size();
    bool top = form & 8; size_t maxc = top ? g.pick<size_t>({1, 3, 1000000000, 1000000000}) : 1000000000; CollisionRequest<S> rq(maxc, top && !degen && (form & 4)); CollisionResult<S> rs;
    typedef std::integral_constant<bool, std::is_same<BV, OBB<S>>::value || std::is_same<BV, RSS<S>>::value || std::is_same<BV, kIOS<S>>::value || std::is_same<BV, OBBRSS<S>>::value> IsO;
    typedef std::integral_constant<bool, std::is_same<BV, AABB<S>>::value || std::is_same<BV, RSS<S>>::value || std::is_same<BV, kIOS<S>>::value || std::is_same<BV, OBBRSS<S>>::value> IsD;
    if (top) toplevel(&ma, t1, &mb, t2, sw, form & 1, rq, rs); else collide_g(t1, t2, rq, rs, sw, form, IsO(), (BV*)nullptr);
    std::set<std::pair<int, int>> got; std::vector<Contact<S>> cs; rs.getContacts(cs); for (auto& c : cs) { std::pair<int, int> pr = sw ? std::make_pair((int)c.b2, (int)c.b1) : std::make_pair((int)c.b1, (int)c.b2); if (pr.first < 0 || pr.first >= na || pr.second < 0 || pr.second >= nb) sim::fail("wrong-pair", "%s: contact names triangles %d and %d of %d and %d", BVN[bv], pr.first, pr.second, na, nb); got.insert(pr); }
    double best = 1e300; bool clearhit = false; int hits = 0;
    for (int i = 0; i < na; ++i) { Tri x = tri(a, i, t1); for (int j = 0; j < nb; ++j) { Tri y = tri(b, j, t2); Rel r = relate(x, y, m); best = std::min(best, r.d);
      bool in = got.count({i, j}); if (r.clear_hit) { clearhit = true; ++hits; }
      if (r.clear_hit && !in && cs.size() < maxc) sim::fail("missed-pair", "%s/%s: collision of %d x %d triangles%s missed the intersecting pair (%d,%d)", BVN[bv], SPLITN[split], na, nb, updated ? " (updated)" : "", i, j);
      if (in && r.d > m && !degen) sim::fail("false-pair", "%s/%s: collision reports pair (%d,%d), which is %.3g apart", BVN[bv], SPLITN[split], i, j, r.d); } }
    sim::count(clearhit ? "probe.query-hit" : best > m ? "probe.query-miss" : "probe.query-borderline"); sim::log("coll %lu best %.9g", (unsigned long)got.size(), best); sim::sig(hits * 4 + (best > m));
    if (dist && !degen) {
      DistanceRequest<S> dq(o.i(5) & 1); DistanceResult<S> dr; int qs = (o.i(5) & 2) ? 2 + o.i(5) / 4 : 2;
      if (top) topdistance(&ma, t1, &mb, t2, sw, form & 1, dq, dr); else distance_g(t1, t2, dq, dr, sw, qs, IsD(), (BV*)nullptr);
      if (dr.min_distance < 1e300) { int i = (int)(sw ? dr.b2 : dr.b1), j = (int)(sw ? dr.b1 : dr.b2); if (i < 0 || i >= na || j < 0 || j >= nb) sim::fail("wrong-pair", "%s: the distance names triangles %d and %d of %d and %d", BVN[bv], i, j, na, nb); Rel r = relate(tri(a, i, t1), tri(b, j, t2), m); if (r.d > m && !(std::fabs(r.d - dr.min_distance) <= 1e-5 * sc)) sim::fail("wrong-pair", "%s: the distance %.9g is said to be that of pair (%d,%d), which is %.9g apart", BVN[bv], dr.min_distance, i, j, r.d);
        if (dq.enable_nearest_points && best > m) { double e = (dr.nearest_points[0] - dr.nearest_points[1]).norm(); if (!(std::fabs(e - dr.min_distance) <= 1e-5 * sc)) sim::fail("wrong-points", "%s: the nearest points are %.9g apart, the distance is %.9g", BVN[bv], e, dr.min_distance); sim::count("probe.nearest-points"); } }
      double d = dr.min_distance; double tol = 1e-5 * sc;
      if (clearhit ? !(std::fabs(d) <= tol) : best > m ? !(std::fabs(d - best) <= tol) : !(d <= tol + best)) sim::fail("wrong-distance", "%s/%s: distance of %d x %d triangles%s is %.9g, brute force gives %.9g%s", BVN[bv], SPLITN[split], na, nb, updated ? " (updated)" : "", d, best, clearhit ? " (intersecting)" : "");
      sim::count("probe.distance-checked"); sim::logd("dist", d);
    }
  }
  void deform(Rng& g, int kind, double size, std::vector<V3>& nv) {
    nv = a.v; Transform3<S> tf = rnd_pose(g, size, true); V3 sc(g.real(0.2, 2), g.real(0.2, 2), g.real(0.2, 2)); double j = size * g.pick<double>({0.01, 0.1, 0.5}); int one = (int)g.below(nv.size());
    for (size_t i = 0; i < nv.size(); ++i) { V3& p = nv[i]; switch (kind) { case 0: p += V3(g.real(-j, j), g.real(-j, j), g.real(-j, j)); break; case 1: p = tf * p; break; case 2: p = p.cwiseProduct(sc); break; case 3: p += V3(size * 5, 0, -size * 3); break; case 4: p = V3(g.real(-size, size), g.real(-size, size), g.real(-size, size)); break; case 5: if ((int)i == one) p += V3(g.real(-3, 3), g.real(-3, 3), g.real(-3, 3)) * size; break; default: break; } }
  }
  void run(const Plan& p) {
    bv = (int)p.get("bv"); split = (int)p.get("split"); split2 = (int)p.get("split2"); double size = p.get("size", 1); cloud = p.get("cloud") != 0; degen = (int)p.get("ka") == 6 || (int)p.get("kb") == 6;
    a = make_mesh((uint64_t)p.get("sa"), (int)p.get("ka"), (int)p.get("na"), size); b = make_mesh((uint64_t)p.get("sb"), (int)p.get("kb"), (int)p.get("nb"), size);
    set_split(ma, split); set_split(mb, split2); build(ma, a, (int)p.get("form")); { bool c = cloud; cloud = false; build(mb, b, 0); cloud = c; }
    nodes("building");
    for (auto& o : p.ops) { sim::step_budget(600000000);
      if (o.name == "q") query(o); else if (o.name == "qs") with_shape(o);
      else if (o.name == "rep" || o.name == "upd") { // seed deformation refit bottomup form
        bool up = o.name == "upd"; Rng g((uint64_t)o.at(0) * 17 + 5); std::vector<V3> nv; deform(g, o.i(1), size, nv); int refit = o.i(2), bu = o.i(3), form = o.i(4), rc;
        sim::count(up ? (refit ? (bu ? "op.update-bottomup" : "op.update-topdown") : (bu ? "op.update-rebuild-bottomup" : "op.update-rebuild-topdown")) : (refit ? (bu ? "op.replace-bottomup" : "op.replace-topdown") : "op.replace-rebuild"));
        rc = up ? ma.beginUpdateModel() : ma.beginReplaceModel(); if (rc != BVH_OK) sim::fail("refused", "%s: begin refused (%d)", o.name.c_str(), rc);
        size_t i = 0; while (i < nv.size()) { if (form == 0) { up ? ma.updateSubModel(nv) : ma.replaceSubModel(nv); i = nv.size(); } else if (form == 1 || nv.size() - i < 3) { up ? ma.updateVertex(nv[i]) : ma.replaceVertex(nv[i]); ++i; } else { up ? ma.updateTriangle(nv[i], nv[i + 1], nv[i + 2]) : ma.replaceTriangle(nv[i], nv[i + 1], nv[i + 2]); i += 3; } }
        rc = up ? ma.endUpdateModel(refit, bu) : ma.endReplaceModel(refit, bu); if (rc != BVH_OK) sim::fail("refused", "%s: end refused (%d)", o.name.c_str(), rc);
        if (!up && updated) sim::count("probe.replaced-after-update"); if (up) prev = a.v; updated = up; a.v = nv;
        for (size_t k = 0; k < nv.size(); ++k) if (ma.vertices[k] != nv[k] || (up && ma.prev_vertices[k] != prev[k])) sim::fail("wrong-content", "%s: vertex %lu was not taken over", o.name.c_str(), (unsigned long)k);
        char w[60]; snprintf(w, sizeof w, "%s(%s)", up ? "update" : "replace", refit ? bu ? "refit bottom-up" : "refit top-down" : "rebuild"); nodes(w); sim::log("%s %s", o.name.c_str(), w);
      } }
  }
};
#elif PROP == 9
template <class BV> struct CN { typedef detail::MeshCollisionTraversalNode<BV> type; static const bool o = false; };
template <> struct CN<OBB<S>> { typedef detail::MeshCollisionTraversalNodeOBB<S> type; static const bool o = true; }; template <> struct CN<RSS<S>> { typedef detail::MeshCollisionTraversalNodeRSS<S> type; static const bool o = true; };
template <> struct CN<kIOS<S>> { typedef detail::MeshCollisionTraversalNodekIOS<S> type; static const bool o = true; }; template <> struct CN<OBBRSS<S>> { typedef detail::MeshCollisionTraversalNodeOBBRSS<S> type; static const bool o = true; };
typedef std::set<std::pair<int, int>> Pairs;
template <class BV> struct World {
  int bv, split; Mesh a, b; BVHModel<BV> ma, mb; std::vector<V3> cur; bool self = false;
  typedef typename CN<BV>::type Node; detail::BVHFrontList front; std::unique_ptr<Node> kept;
  std::vector<std::vector<int>> leaves1, leaves2;
  static void leaves(const BVHModel<BV>& m, int i, std::vector<std::vector<int>>& out) { out.resize(m.getNumBVs()); const BVNode<BV>& n = m.getBV(i); if (n.isLeaf()) { out[i] = {n.primitiveId()}; return; } leaves(m, n.leftChild(), out); leaves(m, n.rightChild(), out); out[i] = out[n.leftChild()]; auto& r = out[n.rightChild()]; out[i].insert(out[i].end(), r.begin(), r.end()); }
  void build(BVHModel<BV>& m, const Mesh& q) { m.beginModel(); std::vector<Triangle> ts; for (auto& t : q.t) ts.push_back(Triangle(t[0], t[1], t[2])); m.addSubModel(q.v, ts); m.endModel(); }
  void init(Node& n, const Transform3<S>& t1, const CollisionRequest<S>& rq, CollisionResult<S>& rs, std::true_type) { Transform3<S> id = Transform3<S>::Identity(); if (!detail::initialize(n, (const BVHModel<BV>&)ma, t1, (const BVHModel<BV>&)(self ? ma : mb), self ? t1 : id, rq, rs)) sim::fail("init-failed", "initialize refused"); }
  void init(Node& n, const Transform3<S>&, const CollisionRequest<S>& rq, CollisionResult<S>& rs, std::false_type) { Transform3<S> id = Transform3<S>::Identity(), id2 = id; if (!detail::initialize(n, ma, id, self ? ma : mb, id2, rq, rs)) sim::fail("init-failed", "initialize refused"); }
  void c2(detail::MeshCollisionTraversalNodeOBB<S>* n, detail::BVHFrontList* f) { detail::collide2(n, f); }
  void c2(detail::CollisionTraversalNodeBase<S>* n, detail::BVHFrontList* f) { detail::collide(n, f); }
  void go(Node* n, detail::BVHFrontList* f, int how) { if (self) detail::selfCollide(n, f); else if (how) c2(n, f); else detail::collide(n, f); }
  static Pairs pairs(CollisionResult<S>& r) { std::vector<Contact<S>> c; r.getContacts(c); Pairs p; for (auto& x : c) p.insert({(int)x.b1, (int)x.b2}); return p; }
  void run(const Plan& p) {
    bv = (int)p.get("bv"); split = (int)p.get("split"); self = p.get("self") != 0; double size = 1;
    a = make_mesh((uint64_t)p.get("sa"), (int)p.get("ka"), (int)p.get("na"), size); b = make_mesh((uint64_t)p.get("sb"), (int)p.get("kb"), (int)p.get("nb"), size);
    set_split(ma, split); set_split(mb, split); build(ma, a); build(mb, b); cur = a.v;
    leaves(ma, 0, leaves1); leaves(self ? ma : mb, 0, leaves2);
    std::integral_constant<bool, CN<BV>::o> isO; int step = 0; Transform3<S> pose = Transform3<S>::Identity();
    for (auto& o : p.ops) { if (o.name != "pose") continue; sim::step_budget(600000000);
      // seed, kind (0 jump 1 small step 2 same 3 far away), request form, recreate node, bottom-up
      Rng g((uint64_t)o.at(0) * 977 + 1); int kind = o.i(1); double range = o.at(5, 1);
      if (kind == 0) pose = rnd_pose(g, range, g.chance(0.8)); else if (kind == 1) { Transform3<S> d = Transform3<S>::Identity(); d.linear() = AngleAxis<S>(g.real(-0.2, 0.2), V3(g.real(-1, 1), g.real(-1, 1), 1.1).normalized()).toRotationMatrix(); d.translation() = V3(g.real(-0.1, 0.1), g.real(-0.1, 0.1), g.real(-0.1, 0.1)); pose = d * pose; } else if (kind == 3) { pose = Transform3<S>::Identity(); pose.translation() = V3(20, -3, 1); }
      static const char* KN[4] = {"op.jump", "op.small-step", "op.same-pose", "op.far-apart"}; sim::count(KN[kind & 3]);
      if (!CN<BV>::o) { std::vector<V3> nv = a.v; for (auto& v : nv) v = pose * v; ma.beginReplaceModel(); ma.replaceSubModel(nv); ma.endReplaceModel(true, o.i(4) & 1); }
      int rf = o.i(2); size_t mx = rf & 1 ? std::numeric_limits<int>::max() : (rf & 2 ? 1 : 3); bool contact = rf & 4; bool full = rf & 1; int how = rf & 8;
      CollisionRequest<S> rq(mx, contact); CollisionResult<S> rs;
      if (!kept || (o.i(3) & 1)) kept.reset(new Node()); init(*kept, pose, rq, rs, isO);
      bool first = front.empty(); go(kept.get(), &front, how);
      // the same question from scratch
      CollisionRequest<S> rq2(std::numeric_limits<int>::max(), false); CollisionResult<S> rs2; Node fresh; init(fresh, pose, rq2, rs2, isO); go(&fresh, nullptr, 0);
      Pairs x = pairs(rs), y = pairs(rs2);
      int n1 = (int)a.t.size(), n2 = self ? n1 : (int)b.t.size(); double m = 1e-6 * (2 + pose.translation().norm());
      auto border = [&](std::pair<int, int> q) { Tri s, t; for (int k = 0; k < 3; ++k) { s[k] = pose * a.v[a.t[q.first][k]]; t[k] = self ? V3(pose * a.v[a.t[q.second][k]]) : b.v[b.t[q.second][k]]; } Rel r = relate(s, t, m); return !r.clear_hit && r.d <= m; };
      if (full) { for (auto& q : y) if (!x.count(q) && !contact && !border(q)) sim::fail("front-missed", "%s/%s step %d: resumed query missed pair (%d,%d) of %lu", BVN[bv], SPLITN[split], step, q.first, q.second, (unsigned long)y.size());
        if (contact) for (auto& q : y) if (!x.count(q) && !border(q)) { Pairs z; sim::fail("front-missed", "%s/%s step %d: resumed contact query missed pair (%d,%d) of %lu", BVN[bv], SPLITN[split], step, q.first, q.second, (unsigned long)y.size()); }
        for (auto& q : x) if (!y.count(q) && !border(q)) sim::fail("front-extra", "%s/%s step %d: resumed query reports pair (%d,%d), the query from scratch does not", BVN[bv], SPLITN[split], step, q.first, q.second); }
      else { bool amb = false; for (auto& q : y) if (border(q)) amb = true; for (auto& q : x) if (border(q)) amb = true; if (!amb && x.empty() != y.empty()) sim::fail("front-verdict", "%s step %d: resumed query says %s, from scratch %s", BVN[bv], step, x.empty() ? "free" : "collision", y.empty() ? "free" : "collision");
        for (auto& q : x) if (!y.count(q) && !border(q)) sim::fail("front-extra", "%s/%s step %d: resumed query reports pair (%d,%d), the query from scratch does not", BVN[bv], SPLITN[split], step, q.first, q.second); if (rs.numContacts() > mx) sim::fail("too-many", "more contacts than requested"); }
      // and against brute force
      if (full && !self) for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) { Tri s, t; for (int k = 0; k < 3; ++k) { s[k] = pose * a.v[a.t[i][k]]; t[k] = b.v[b.t[j][k]]; } Rel r = relate(s, t, m); if (r.clear_hit && !x.count({i, j})) sim::fail("front-missed", "%s step %d: resumed query missed the intersecting pair (%d,%d)", BVN[bv], step, i, j); }
      // the front is a complete cut
      std::vector<char> cov((size_t)n1 * n2, 0); size_t fs = 0;
      for (auto& f : front) { ++fs; if (!f.valid) sim::fail("bad-front", "%s step %d: an invalid front node was left", BVN[bv], step); if (f.left < 0 || f.right < 0 || f.left >= (int)leaves1.size() || f.right >= (int)leaves2.size()) sim::fail("bad-front", "%s step %d: front node (%d,%d) does not exist", BVN[bv], step, f.left, f.right); for (int i : leaves1[f.left]) for (int j : leaves2[f.right]) { cov[(size_t)i * n2 + j] = 1; if (self) cov[(size_t)j * n2 + i] = 1; } }
      if (!(self && n1 == 1)) for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) if (!(self && i == j) && !cov[(size_t)i * n2 + j]) sim::fail("incomplete-front", "%s/%s step %d: no front node above triangle pair (%d,%d) (%lu front nodes)", BVN[bv], SPLITN[split], step, i, j, (unsigned long)fs);
      if (!first) sim::count(y.empty() ? "probe.resumed-free" : "probe.resumed-colliding"); sim::log("step %d pairs %lu front %lu", step, (unsigned long)y.size(), (unsigned long)fs); sim::sig(fs * 16 + std::min<size_t>(15, y.size())); ++step;
    }
  }
};
#endif

static void execute(const Plan& p) {
  std::cerr.setstate(std::ios::failbit);
  int bv = (int)p.get("bv"); sim::count((std::string("config.") + BVN[bv & 7]).c_str());
  switch (bv & 7) { case 0: { World<AABB<S>> w; w.run(p); break; } case 1: { World<OBB<S>> w; w.run(p); break; } case 2: { World<RSS<S>> w; w.run(p); break; } case 3: { World<kIOS<S>> w; w.run(p); break; }
    case 4: { World<OBBRSS<S>> w; w.run(p); break; } case 5: { World<KDOP<S, 16>> w; w.run(p); break; } case 6: { World<KDOP<S, 18>> w; w.run(p); break; } default: { World<KDOP<S, 24>> w; w.run(p); break; } }
}

static void generate(Rng& r, Plan& p, bool thorough) {
  p.set("bv", r.below(8)); p.set("split", r.below(3));
#if PROP == 7 || PROP == 5
  int n = r.pick<int>({8, 16, 30, 60}); if (thorough) n *= 2; double wild = r.pick<double>({0.05, 0.2, 0.6}); int maxadd = r.pick<int>({2, 6, 20});
  int st[NM] = {0, 0, 0};
  auto F = [&]() -> double { return PROP == 5 && r.chance(0.25) ? (double)r.below(r.chance(0.7) ? 3 : 12) : -1; };
  auto sd = [&]() -> double { return (double)r.below(1000000); };
  static const char* all[] = {"begin", "addv", "addt", "addp", "adds", "end", "brep", "bupd", "rv", "rt", "rs", "uv", "ut", "us", "erep", "eupd", "copy", "assign", "fresh"};
  for (int k = 0; k < n; ++k) {
    int s = (int)r.below(r.chance(0.7) ? 1 : NM); std::string op;
    if (r.chance(wild)) op = all[r.below(19)];
    else switch (st[s]) {   // the generator's own guess of the state, so that histories get deep
      case 0: op = "begin"; st[s] = 1; break;
      case 1: op = r.chance(0.3) ? "end" : all[1 + r.below(4)]; if (op == "end") st[s] = 2; break;
      case 2: op = r.chance(0.45) ? "brep" : r.chance(0.6) ? "bupd" : r.chance(0.5) ? "copy" : r.chance(0.5) ? "assign" : "begin"; if (op == "brep") st[s] = 3; else if (op == "bupd") st[s] = 4; else if (op == "begin") st[s] = 0; break;
      case 3: op = r.chance(0.6) ? "rs" : r.chance(0.5) ? "rv" : "rt"; if (op == "rs") { p.add("rs", {(double)s, sd(), F(), 0, 1}); op = "erep"; st[s] = 2; } break;
      case 4: op = r.chance(0.6) ? "us" : r.chance(0.5) ? "uv" : "ut"; if (op == "us") { p.add("us", {(double)s, sd(), F(), 0, 1}); op = "eupd"; st[s] = 5; } break;
      default: op = r.chance(0.6) ? "bupd" : r.chance(0.4) ? "begin" : r.chance(0.5) ? "copy" : "brep"; if (op == "bupd") st[s] = 4; else if (op == "begin") st[s] = 0; break; }
    double x = 0, y = 0;
    if (op == "begin") { x = r.pick<double>({0, 0, 1, 3, 8, -1}); y = r.pick<double>({0, 1, 2, 5, 30, -1}); }
    else if (op == "addp" || op == "rs" || op == "us") { x = r.below(maxadd + 1); y = r.chance(0.5); }
    else if (op == "adds") { x = r.range(1, maxadd + 1); y = r.below(maxadd + 1); }
    else if (op == "erep" || op == "eupd") { x = r.below(2); y = r.below(2); }
    else if (op == "copy" || op == "assign") { int d = (int)r.below(NM); x = d; st[d] = st[s]; } else if (op == "fresh") st[s] = 0;
    p.add(op, {(double)s, sd(), F(), x, y});
  }
  // finish whatever is begun
  for (int s = 0; s < NM; ++s) { p.add("addt", {(double)s, sd(), F(), 0, 0}); p.add("end", {(double)s, sd(), F(), 0, 0}); p.add("rs", {(double)s, sd(), F(), 0, 1}); p.add("erep", {(double)s, sd(), F(), (double)r.below(2), (double)r.below(2)}); p.add("us", {(double)s, sd(), F(), 0, 1}); p.add("eupd", {(double)s, sd(), F(), (double)r.below(2), (double)r.below(2)}); }
#elif PROP == 8
  p.set("split2", r.below(3)); p.set("size", r.pick<double>({1, 1, 10, 0.1})); p.set("cloud", r.chance(0.12)); p.set("form", r.below(4)); double size = p.get("size");
  int nm = r.pick<int>({1, 2, 3, 8, 20, 40}); if (thorough && r.chance(0.3)) nm *= 3;
  p.set("sa", r.below(1000000)); p.set("sb", r.below(1000000)); p.set("ka", r.below(NK)); p.set("kb", r.below(NK)); p.set("na", nm); p.set("nb", r.pick<int>({1, 4, 12, 30}));
  int n = r.range(2, thorough ? 16 : 8); double pu = r.pick<double>({0, 0.2, 0.5}); 
  for (int k = 0; k < n; ++k) {
    if (r.chance(0.6)) p.add(r.chance(pu) ? "upd" : "rep", {(double)r.below(1000000), (double)r.below(7), (double)r.chance(0.7), (double)r.below(2), (double)r.below(3)});
    else if (r.chance(0.45)) p.add("qs", {(double)r.below(1000000), (double)r.below(4), (double)r.below(9), (double)r.below(16), size, (double)r.below(1000000)});
    else p.add("q", {(double)r.below(1000000), (double)r.below(4), size, (double)r.below(16), (double)r.below(2), (double)r.below(24)});
  }
  p.add("q", {(double)r.below(1000000), 1, size, (double)r.below(16), (double)r.below(2), (double)r.below(24)}); p.add("q", {(double)r.below(1000000), 0, size, (double)r.below(16), (double)r.below(2), (double)r.below(24)}); p.add("qs", {(double)r.below(1000000), 1, (double)r.below(9), (double)r.below(16), size, (double)r.below(1000000)});
#elif PROP == 9
  p.set("self", r.chance(0.12)); p.set("sa", r.below(1000000)); p.set("sb", r.below(1000000)); p.set("ka", r.below(6)); p.set("kb", r.below(6)); p.set("na", r.pick<int>({1, 2, 5, 12, 30})); p.set("nb", r.pick<int>({1, 3, 10, 30}));
  int n = r.range(2, thorough ? 20 : 9); double range = r.pick<double>({0.5, 1.5, 3}); bool partial = r.chance(0.4); double pk[4] = {r.real(0.1, 1), r.real(0, 1), r.real(0, 0.3), r.real(0, 0.4)};
  for (int k = 0; k < n; ++k) { double t = r.unit() * (pk[0] + pk[1] + pk[2] + pk[3]); int kind = 3; for (int i = 0; i < 4; ++i) if ((t -= pk[i]) < 0) { kind = i; break; }
    int rf = (partial && r.chance(0.4)) ? (int)(r.below(8) & ~1) : 1 | (int)(r.below(2) << 2); p.add("pose", {(double)r.below(1000000), (double)kind, (double)rf, (double)r.below(2), (double)r.below(2), range}); }
#endif
}
sim::Check sim::the_check = {"C0" STR(PROP), generate, execute};

// C16: octrees changed while in use, queried directly and through tree-based managers, against brute force over their occupied cells.
#include "scene.h"
#include "managers.h"
using namespace sc;
using sim::Plan; using sim::Op;
typedef octomap::OcTree OM;
static const double TOL = 1e-3;
struct Tree { std::shared_ptr<OM> om; std::shared_ptr<OcTree<S>> oc; double res, occ = 0, fre = 0; };
struct Cell { intptr_t id; V3 c; double size; bool amb; V3 side; };
static std::vector<Tree> T; static Scene W; static Mgr* M = nullptr; static std::vector<std::unique_ptr<Obj>> objs; static std::vector<int> og; static std::vector<char> in;
// the cell's box as found by halving from the root, so that it agrees to the last bit with the box a traversal makes of it
static Cell cell(intptr_t id, const V3& c, double size, bool amb, double delta) { V3 lo = V3::Constant(-delta), hi = V3::Constant(delta); for (int k = 0; k < 40 && hi[0] - lo[0] > 1.5 * size; ++k) for (int i = 0; i < 3; ++i) { double m = (lo[i] + hi[i]) * 0.5; if (c[i] > m) lo[i] = m; else hi[i] = m; } return Cell{id, (lo + hi) * 0.5, size, amb, hi - lo}; }
static Box<S> box_of(const Cell& c, double f) { V3 s = c.side * f; return Box<S>(s); }
// the cells that are occupied now, read from the octree itself
static std::vector<Cell> cells(const Tree& t) {
  std::vector<Cell> v; const octomap::OcTreeNode* root = t.om->getRoot(); if (!root) return v;
  for (auto it = t.om->begin_leafs(), e = t.om->end_leafs(); it != e; ++it) { double l = it->getLogOdds(); if (l < t.occ) continue; v.push_back(cell(&*it - root, V3(it.getX(), it.getY(), it.getZ()), it.getSize(), l <= t.fre, 32768 * t.res)); }
  return v;
}
static Transform3<S> at(const Transform3<S>& tf, const V3& c) { return tf * Eigen::Translation<S, 3>(c); }
static int prims(int g) { return is_mesh(W.kind[g]) ? 1 : 0; }
template <class BV> static void tris_of(const CollisionGeometry<S>* g, std::vector<Tri>& o) { auto* m = static_cast<const BVHModel<BV>*>(g); for (int i = 0; i < m->num_tris; ++i) o.push_back({m->vertices[m->tri_indices[i][0]], m->vertices[m->tri_indices[i][1]], m->vertices[m->tri_indices[i][2]]}); }
static std::vector<Tri> tris(int g) {
  std::vector<Tri> o; auto* x = W.g[g].get();
  switch (W.kind[g] - MESH0) { case 0: tris_of<AABB<S>>(x, o); break; case 1: tris_of<OBB<S>>(x, o); break; case 2: tris_of<RSS<S>>(x, o); break; case 3: tris_of<kIOS<S>>(x, o); break; case 4: tris_of<OBBRSS<S>>(x, o); break; case 5: tris_of<KDOP<S, 16>>(x, o); break; case 6: tris_of<KDOP<S, 18>>(x, o); break; case 7: tris_of<KDOP<S, 24>>(x, o); break; }
  return o;
}
template <class F> static auto with_solver(int s, F f) -> decltype(f(detail::GJKSolver_libccd<S>())) { if (s) return f(detail::GJKSolver_indep<S>()); return f(detail::GJKSolver_libccd<S>()); }
// does the cell, grown by the given factor, hit the geometry (its i-th triangle)
static bool hit(const Tree&, const Cell& c, double grow, const Transform3<S>& tf, int g, const Tri* tr, const Transform3<S>& tg, int solver) {
  Box<S> b = box_of(c, grow); Transform3<S> bt = at(tf, c.c);
  if (tr) return with_solver(solver, [&](auto sv) { return sv.shapeTriangleIntersect(b, bt, (*tr)[0], (*tr)[1], (*tr)[2], tg, nullptr, nullptr, nullptr); });
  CollisionRequest<S> rq; rq.gjk_solver_type = solver ? GST_INDEP : GST_LIBCCD; CollisionResult<S> rs; return collide(&b, bt, W.g[g].get(), tg, rq, rs) > 0;
}
// 2: certainly, 1: touching or unclear, 0: not. The narrow-phase solvers may change their answer with the last bits of a box, so a verdict takes several sizes and both solvers
template <class F> static int verdict(F h) { static const double f[6] = {1, 1 - TOL, 1 + TOL, 1 - 3e-14, 1 + 5e-12, 1 - 1e-11}; int n = 0; for (int s = 0; s < 2; ++s) for (double x : f) { n += h(x, s); int k = 1 + (int)(&x - f) + 6 * s; if (n && n < k) return 1; } return n == 12 ? 2 : n ? 1 : 0; }
static double sphere_gap(const V3& a, double ra, const V3& b, double rb) { return (a - b).norm() - ra - rb; }
static void tri_ball(const Tri& t, V3& c, double& r) { c = (t[0] + t[1] + t[2]) / 3; r = 0; for (auto& p : t) r = std::max(r, (p - c).norm()); }
typedef std::pair<intptr_t, intptr_t> IP;
static const char* TN(int g) { return GN[W.kind[g]]; }
static void check_contacts(const char* what, const char* other, size_t n, size_t ret, int maxc, const std::map<IP, int>& want, const std::vector<IP>& got) {
  size_t must = 0; for (auto& w : want) must += w.second == 2;
  if (ret != n) sim::fail("wrong-count", "%s with a %s returned %lu but reported %lu contacts", what, other, (unsigned long)ret, (unsigned long)n);
  if (n > (size_t)maxc) sim::fail("too-many-contacts", "%s with a %s: %lu contacts, %d asked for", what, other, (unsigned long)n, maxc);
  std::set<IP> s; for (auto& g : got) { auto it = want.find(g); if (it == want.end() || !it->second) sim::fail("wrong-contact", "%s with a %s reports cell %ld, primitive %ld, which is %s", what, other, (long)g.first, (long)g.second, it == want.end() ? "not an occupied cell" : "not hit"); s.insert(g); }
  if (n < (size_t)maxc) { for (auto& w : want) if (w.second == 2 && !s.count(w.first)) sim::fail("missed-contact", "%s with a %s misses occupied cell %ld, primitive %ld (%lu certain hits, %lu reported)", what, other, (long)w.first.first, (long)w.first.second, (unsigned long)must, (unsigned long)s.size()); }
  sim::count(must ? "probe.collision-hit" : "probe.collision-miss"); sim::sig(must * 64 + std::min<size_t>(n, 40)); sim::logd("must", (double)must); sim::logd("n", (double)n);
}
static Transform3<S> pose_of(uint64_t seed, double range) { Rng r(seed * 71 + 3); bool rot = r.chance(0.5); return rnd_pose(r, range, rot); }
static void q_collide(Tree& t, int g, const Transform3<S>& tf, const Transform3<S>& tg, int flags, int maxc, int solver) {
  std::map<IP, int> want; { sim::Quiet qq; auto cs = cells(t); std::vector<Tri> tr; if (prims(g)) tr = tris(g);
    for (auto& c : cs) {
      int np = prims(g) ? (int)tr.size() : 1;
      for (int k = 0; k < np; ++k) {
        if (prims(g)) { V3 tc; double rr; tri_ball(tr[k], tc, rr); if (sphere_gap(tf * c.c, c.size * 0.87 * 1.01, tg * tc, rr) > 0) { want[{c.id, k}] = 0; continue; } }
        const Tri* p = prims(g) ? &tr[k] : nullptr; int v = verdict([&](double f, int sv) { return hit(t, c, f, tf, g, p, tg, sv); }); if (c.amb) v = std::min(v, 1);
        want[{c.id, prims(g) ? k : -1}] = v;
      }
    } }
  CollisionRequest<S> rq((size_t)maxc, flags & 1, 5, flags & 2, true, solver ? GST_INDEP : GST_LIBCCD); CollisionResult<S> rs; size_t ret; sim::stack_refill();
  if (flags & 8) { Obj a(t.oc, tf), b(W.g[g], tg); ret = flags & 4 ? collide(&b, &a, rq, rs) : collide(&a, &b, rq, rs); }
  else ret = flags & 4 ? collide(W.g[g].get(), tg, t.oc.get(), tf, rq, rs) : collide(t.oc.get(), tf, W.g[g].get(), tg, rq, rs);
  std::vector<IP> got; for (size_t i = 0; i < rs.numContacts(); ++i) { auto& c = rs.getContact(i); bool f = c.o1 == t.oc.get(); if (!f && c.o2 != t.oc.get()) sim::fail("wrong-contact", "a contact does not name the octree"); got.push_back(f ? IP{c.b1, prims(g) ? c.b2 : -1} : IP{c.b2, prims(g) ? c.b1 : -1}); }
  check_contacts("collision of an octree", TN(g), rs.numContacts(), ret, maxc, want, got);
}
static void q_collide2(Tree& a, Tree& b, const Transform3<S>& ta, const Transform3<S>& tb, int flags, int maxc, int solver) {
  std::map<IP, int> want; { sim::Quiet qq; auto ca = cells(a), cb = cells(b); if (ca.size() * cb.size() > 3000) return;
    for (auto& x : ca) for (auto& y : cb) {
      V3 p = ta * x.c, q = tb * y.c; int v = 0; if (sphere_gap(p, x.size * 0.87 * 1.01, q, y.size * 0.87 * 1.01) <= 0) { auto h = [&](double f, int sv) { Box<S> p1 = box_of(x, f), p2 = box_of(y, f); CollisionRequest<S> rq; rq.gjk_solver_type = sv ? GST_INDEP : GST_LIBCCD; CollisionResult<S> rs; return collide(&p1, at(ta, x.c), &p2, at(tb, y.c), rq, rs) > 0; }; v = verdict(h); }
      if (x.amb || y.amb) v = std::min(v, 1); want[{x.id, y.id}] = v;
    } }
  CollisionRequest<S> rq((size_t)maxc, flags & 1, 5, flags & 2, true, solver ? GST_INDEP : GST_LIBCCD); CollisionResult<S> rs; sim::stack_refill(); size_t ret = collide(a.oc.get(), ta, b.oc.get(), tb, rq, rs);
  std::vector<IP> got; for (size_t i = 0; i < rs.numContacts(); ++i) { auto& c = rs.getContact(i); got.push_back({c.b1, c.b2}); if (c.o1 != a.oc.get() || c.o2 != b.oc.get()) sim::fail("wrong-contact", "a contact does not name the octrees"); }
  check_contacts("collision of an octree", "octree", rs.numContacts(), ret, maxc, want, got);
}
// the distance of one pair: what either solver answers for boxes a few bits apart
struct Span { double lo = std::numeric_limits<double>::max(), hi = -std::numeric_limits<double>::max(); void add(double d) { lo = std::min(lo, d); hi = std::max(hi, d); } };
template <class F> static Span span(F f) { Span s; for (int sv = 0; sv < 2; ++sv) for (double x : {1.0, 1 - 1e-11, 1 + 5e-12}) s.add(f(x, sv)); return s; }
static bool outside(double got, double lo, double hi) { double t = TOL * (1 + std::fabs(hi)); return lo <= t ? (got > hi + t && got > 2 * t) : got < lo - t || got > hi + t; }
static void check_distance(const char* what, const char* other, double got, const std::map<IP, Span>& val, bool named, IP who, bool optional) {
  double lo = std::numeric_limits<double>::max(), hi = lo; for (auto& v : val) { lo = std::min(lo, v.second.lo); hi = std::min(hi, v.second.hi); }
  sim::logd("lo", lo); sim::logd("hi", hi); sim::logd("got", got);
  if (val.empty()) { if (got < 1e300) sim::fail("wrong-distance", "%s to a %s is %.9g, but no cell is occupied", what, other, got); sim::count("probe.distance-nothing"); return; }
  if (optional) return;
  if (outside(got, lo, hi)) sim::fail("wrong-distance", "%s to a %s is %.9g, over its %lu occupied cells it is %.9g to %.9g", what, other, got, (unsigned long)val.size(), lo, hi);
  if (named) { auto it = val.find(who); if (it == val.end()) sim::fail("wrong-cell", "%s to a %s names cell %ld, primitive %ld, which is not occupied", what, other, (long)who.first, (long)who.second); if (outside(got, it->second.lo, it->second.hi)) sim::fail("wrong-cell", "%s to a %s is %.9g, but the distance of the named cell is %.9g to %.9g", what, other, got, it->second.lo, it->second.hi); }
  bool apart = lo > TOL * (1 + hi); sim::count(hi - lo > TOL ? "probe.distance-unclear" : apart ? "probe.distance-apart" : "probe.distance-touching"); sim::sig(val.size() * 4 + apart + 1000);
}
static DistanceRequest<S> dr(int flags, int solver) { return DistanceRequest<S>(flags & 1, false, 0, 0, 1e-6, solver ? GST_INDEP : GST_LIBCCD); }
static Span box_distance(const Cell& c, const Transform3<S>& tf, const CollisionGeometry<S>* g, const Transform3<S>& tg) {
  auto one = [&](double f, int solver, bool swap) { Box<S> b = box_of(c, f); DistanceResult<S> rs; return swap ? distance(g, tg, &b, at(tf, c.c), dr(0, solver), rs) : distance(&b, at(tf, c.c), g, tg, dr(0, solver), rs); };
  Span x = span([&](double f, int solver) { return one(f, solver, false); }), y = span([&](double f, int solver) { return one(f, solver, true); }); x.add(y.lo); x.add(y.hi); return x;
}
static void q_distance(Tree& t, int g, const Transform3<S>& tf, const Transform3<S>& tg, int flags, int solver) {
  std::map<IP, Span> val; bool amb = false; { sim::Quiet qq; std::vector<Tri> tr; if (prims(g)) tr = tris(g);
    for (auto& c : cells(t)) { amb |= c.amb;
      if (!prims(g)) val[{c.id, -1}] = box_distance(c, tf, W.g[g].get(), tg);
      else for (size_t k = 0; k < tr.size(); ++k) val[{c.id, (intptr_t)k}] = span([&](double f, int si) { Box<S> b = box_of(c, f); return with_solver(si, [&](auto sv) { double d = -1; if (!sv.shapeTriangleDistance(b, at(tf, c.c), tr[k][0], tr[k][1], tr[k][2], tg, &d, nullptr, nullptr)) d = -1; return d; }); }); } }
  DistanceResult<S> rs; auto rq = dr(flags, solver); double d; sim::stack_refill();
  if (flags & 8) { Obj a(t.oc, tf), b(W.g[g], tg); d = flags & 4 ? distance(&b, &a, rq, rs) : distance(&a, &b, rq, rs); }
  else d = flags & 4 ? distance(W.g[g].get(), tg, t.oc.get(), tf, rq, rs) : distance(t.oc.get(), tf, W.g[g].get(), tg, rq, rs);
  bool f = rs.o1 == t.oc.get(); if (rs.min_distance < 1e300 && !f && rs.o2 != t.oc.get()) sim::fail("wrong-cell", "the result of a distance query does not name the octree");
  check_distance("distance of an octree", TN(g), d, val, d < 1e300, f ? IP{rs.b1, prims(g) ? rs.b2 : -1} : IP{rs.b2, prims(g) ? rs.b1 : -1}, amb);
}
static void q_distance2(Tree& a, Tree& b, const Transform3<S>& ta, const Transform3<S>& tb, int flags, int solver) {
  std::map<IP, Span> val; bool amb = false; { sim::Quiet qq; auto ca = cells(a), cb = cells(b); if (ca.size() * cb.size() > 600) return;
    for (auto& x : ca) for (auto& y : cb) { amb |= x.amb | y.amb; Box<S> q = box_of(y, 1); val[{x.id, y.id}] = box_distance(x, ta, &q, at(tb, y.c)); } }
  DistanceResult<S> rs; sim::stack_refill(); double d = distance(a.oc.get(), ta, b.oc.get(), tb, dr(flags, solver), rs);
  check_distance("distance of an octree", "octree", d, val, d < 1e300, IP{rs.b1, rs.b2}, amb);
}
// ---- through a manager
struct Rec { const Tree* t; Obj* oct; bool cellwise; std::vector<std::pair<int, Cell>> hits; std::vector<int> whole; double best = std::numeric_limits<double>::max(); int solver; };
static int obj_index(const Obj* o) { for (size_t i = 0; i < objs.size(); ++i) if (objs[i].get() == o) return (int)i; return -1; }
static bool on_pair(Obj* a, Obj* b, void* d) {
  sim::Quiet qq; Rec& r = *(Rec*)d; int i = obj_index(a); Obj* o = b; if (i < 0) { i = obj_index(b); o = a; }
  if (i < 0 || !in[i]) sim::fail("wrong-object", "the manager hands out an object that is not registered");
  if (o == r.oct) { r.whole.push_back(i); return false; }
  if (o->getNodeType() != GEOM_BOX) sim::fail("wrong-object", "the manager hands out something that is neither the octree nor one of its cells");
  auto* bx = static_cast<const Box<S>*>(o->collisionGeometry().get()); if (!bx->isOccupied()) { sim::count("probe.unknown-cell"); return false; }
  r.hits.push_back({i, Cell{0, r.oct->getTransform().inverse() * o->getTranslation(), bx->side[0], false, bx->side}}); return false;
}
static bool on_distance(Obj* a, Obj* b, void* d, double& dist) {
  Rec& r = *(Rec*)d; { sim::Quiet qq; int i = obj_index(a); Obj* o = b; if (i < 0) { i = obj_index(b); o = a; } if (i < 0 || !in[i]) sim::fail("wrong-object", "the manager hands out an object that is not registered"); if (o != r.oct && o->getNodeType() != GEOM_BOX) sim::fail("wrong-object", "the manager hands out something that is neither the octree nor one of its cells"); }
  DistanceResult<S> rs; distance(a, b, dr(0, r.solver), rs); r.best = std::min(r.best, rs.min_distance); dist = std::min(dist, rs.min_distance); return dist <= 0;
}
static void set_mode(int kind, bool as_geometry) {
  if (kind == 6) { auto* m = static_cast<DynamicAABBTreeCollisionManager<S>*>(M); m->octree_as_geometry_collide = m->octree_as_geometry_distance = as_geometry; }
  else { auto* m = static_cast<DynamicAABBTreeCollisionManager_Array<S>*>(M); m->octree_as_geometry_collide = m->octree_as_geometry_distance = as_geometry; }
}
static void q_manager(int mk, Tree& t, const Transform3<S>& tf, bool as_geometry, bool dist, int solver) {
  set_mode(mk, as_geometry); Obj oct(t.oc, tf); auto cs = cells(t); bool amb = false; for (auto& c : cs) amb |= c.amb;
  Rec r; r.t = &t; r.oct = &oct; r.solver = solver; sim::step_budget(4000000000ull);
  if (!dist) {
    M->collide(&oct, &r, on_pair); sim::Quiet qq;
    if (as_geometry) { std::set<int> s(r.whole.begin(), r.whole.end()); for (size_t i = 0; i < objs.size(); ++i) if (in[i] && oct.getAABB().overlap(objs[i]->getAABB()) != (s.count((int)i) > 0)) sim::fail("manager-pair", "the octree as a whole is %s object %d", s.count((int)i) ? "paired with the distant" : "not paired with the overlapping", (int)i); sim::count("probe.manager-whole"); return; }
    if (!r.whole.empty()) sim::fail("manager-pair", "the octree was handed out as a whole where its cells were asked for");
    size_t sure = 0;
    for (size_t i = 0; i < objs.size(); ++i) if (in[i]) { const AABB<S>& b = objs[i]->getAABB(); Box<S> ob(b.width(), b.height(), b.depth()); Transform3<S> ot = Transform3<S>::Identity(); ot.translation() = b.center();
      for (auto& c : cs) {
        auto h = [&](double f, int sv) { Box<S> p = box_of(c, f); if (sphere_gap(tf * c.c, c.size * 0.9, b.center(), ob.side.norm() / 2 * 1.01) > 0) return false; CollisionRequest<S> rq; rq.gjk_solver_type = sv ? GST_INDEP : GST_LIBCCD; CollisionResult<S> rs; return collide(&p, at(tf, c.c), &ob, ot, rq, rs) > 0; };
        int v = verdict(h), n = 0; for (auto& x : r.hits) if (x.first == (int)i && (x.second.c - c.c).norm() < 1e-6 * c.size + 1e-9 && std::fabs(x.second.size - c.size) < 1e-6 * c.size) ++n;
        if (n > 1) sim::fail("manager-pair", "object %d is offered the same cell %d times", (int)i, n);
        if (v == 2 && !n && !c.amb) sim::fail("manager-pair", "object %d (%s) is not offered an occupied cell its bounds overlap (size %.3g)", (int)i, TN(og[i]), c.size);
        if (v == 0 && n) { sim::count("probe.manager-extra"); }
        sure += v == 2;
      } }
    for (auto& x : r.hits) { bool ok = false; for (auto& c : cs) if ((x.second.c - c.c).norm() < 1e-6 * c.size + 1e-9 && std::fabs(x.second.size - c.size) < 1e-6 * c.size) ok = true; if (!ok) sim::fail("manager-pair", "object %d is offered a box as occupied that is no occupied cell", x.first); }
    sim::count(sure ? "probe.manager-cells" : "probe.manager-no-cells"); sim::sig(sure + 5000);
  } else {
    M->distance(&oct, &r, on_distance); sim::Quiet qq; double best = std::numeric_limits<double>::max(); size_t k = 0; for (size_t i = 0; i < objs.size(); ++i) k += in[i];
    if (k * cs.size() > 300 || amb) return;
    double hi = best; auto take = [&](const Span& x) { best = std::min(best, x.lo); hi = std::min(hi, x.hi); };
    for (size_t i = 0; i < objs.size(); ++i) if (in[i]) { if (as_geometry) { Span x; for (int sv = 0; sv < 2; ++sv) for (int sw = 0; sw < 2; ++sw) { DistanceResult<S> rs; x.add(sw ? distance(&oct, objs[i].get(), dr(0, sv), rs) : distance(objs[i].get(), &oct, dr(0, sv), rs)); } take(x); } else for (auto& c : cs) take(box_distance(c, tf, objs[i]->collisionGeometry().get(), objs[i]->getTransform())); }
    if (best > 1e300) { if (r.best < 1e300) sim::fail("manager-distance", "distance %.9g where nothing is occupied", r.best); sim::count("probe.distance-nothing"); return; }
    if (outside(r.best, best, hi)) sim::fail("manager-distance", "the manager's smallest distance to the octree %s is %.9g, over %lu cells and %lu objects it is %.9g to %.9g", as_geometry ? "as a whole" : "cell by cell", r.best, (unsigned long)cs.size(), (unsigned long)k, best, hi);
    bool apart = best > TOL * (1 + hi); sim::count(apart ? "probe.manager-apart" : "probe.manager-touching"); sim::sig(k * 2 + apart + 9000);
  }
}
static void check_boxes(Tree& t) {
  auto b = t.oc->toBoxes(); auto cs = cells(t); if (b.size() != cs.size()) sim::fail("wrong-boxes", "toBoxes gives %lu boxes, %lu cells are occupied", (unsigned long)b.size(), (unsigned long)cs.size());
  for (auto& x : b) { bool ok = false; for (auto& c : cs) if ((V3(x[0], x[1], x[2]) - c.c).norm() < 1e-9 + 1e-9 * c.size && std::fabs(x[3] - c.size) < 1e-9) ok = true; if (!ok) sim::fail("wrong-boxes", "toBoxes gives a box that is no occupied cell"); }
  for (auto& c : cs) { AABB<S> bb; unsigned depth = 0; V3 at = c.c; unsigned h = (unsigned)sim::mix((uint64_t)c.id, cs.size());
    // the point may lie on the border of the cell, within rounding
    if (h % 4) for (int i = 0; i < 3; ++i) { int w = (int)(h >> (4 + 3 * i)) % 4; double e = c.size / 2 + 1e-9 * t.res * ((int)((h >> (16 + 2 * i)) % 3) - 1); at[i] += w == 0 ? e : w == 1 ? -e : w == 2 ? 0.3 * c.size : 0; }
    const auto* n = t.oc->getNodeByQueryCellId(c.id, at, &bb, nullptr, &depth); if (!n) sim::fail("wrong-cell", "the occupied cell %ld is not found by its id", (long)c.id); if (n - t.oc->getRoot() != c.id || (bb.center() - c.c).norm() > 1e-6 || std::fabs(bb.width() - c.size) > 1e-6) sim::fail("wrong-cell", "another cell is found under the id %ld", (long)c.id); }
  if (std::fabs(t.oc->getOccupancyThres() - octomap::probability(t.occ)) > 1e-6 || std::fabs(t.oc->getFreeThres() - octomap::probability(t.fre)) > 1e-6) sim::fail("wrong-threshold", "a threshold read back is not the one set");
  sim::count("probe.boxes-checked");
}
static void change(Tree& t, const Op& o) {
  sim::NoFault nf; std::string n = o.name; octomap::point3d p((float)o.at(1), (float)o.at(2), (float)o.at(3)); OM& m = *t.om;
  if (n == "hit" || n == "miss") { int k = std::max(1, std::min(10, o.i(4, 1))); for (int i = 0; i < k; ++i) m.updateNode(p, n == "hit"); }
  else if (n == "add") m.updateNode(p, (float)o.at(4));
  else if (n == "set") m.setNodeValue(p, (float)o.at(4));
  else if (n == "block") { int e = std::max(1, std::min(4, o.i(4, 2))); octomap::OcTreeKey k; if (!m.coordToKeyChecked(p, k)) return; for (int i = 0; i < 3; ++i) k[i] = (octomap::key_type)(k[i] / e * e); for (int x = 0; x < e; ++x) for (int y = 0; y < e; ++y) for (int z = 0; z < e; ++z) { octomap::OcTreeKey q(k[0] + x, k[1] + y, k[2] + z); m.setNodeValue(q, (float)o.at(5)); } }
  else if (n == "lazy") { Rng r((uint64_t)o.at(4)); for (int i = 0; i < 6; ++i) m.updateNode(octomap::point3d((float)(o.at(1) + r.real(-0.4, 0.4)), (float)(o.at(2) + r.real(-0.4, 0.4)), (float)(o.at(3) + r.real(-0.4, 0.4))), r.chance(0.6), true); m.updateInnerOccupancy(); }
  else if (n == "ray") { octomap::point3d q((float)o.at(4), (float)o.at(5), (float)o.at(6)); m.insertRay(p, q); }
  else if (n == "del") {  // octomap (with assertions) aborts when the last child of a node or a node with children is deleted
    unsigned d = 16; octomap::OcTreeNode* q = m.getRoot() ? m.search(p, d - 1) : nullptr; if (!q) return;
    if (m.nodeHasChildren(q)) { int k = 0; for (unsigned i = 0; i < 8; ++i) k += m.nodeChildExists(q, i); if (k < 2) return; }
    m.deleteNode(p, d);
  }
  else if (n == "prune") m.prune();
  else if (n == "expand") { if (m.size() < 400) m.expand(); if (m.size() > 4000) m.prune(); }
  else if (n == "ml") m.toMaxLikelihood();
  else if (n == "wipe") m.clear();
  else if (n == "occ") { double l = octomap::logodds(o.at(4)); if (true) { t.oc->setOccupancyThres(o.at(4)); t.occ = l; } }
  else if (n == "free") { double l = octomap::logodds(o.at(4)); if (true) { t.oc->setFreeThres(o.at(4)); t.fre = l; } }
  else return;
  sim::count(("op." + n).c_str());
}
static void execute(const Plan& p) {
  sim::step_budget(4000000000ull); static const double RES[4] = {0.1, 0.25, 0.5, 0.05};
  for (auto& o : p.ops) if (o.name == "tree" && T.size() < 3) { Tree t; t.res = RES[((o.i(0) % 4) + 4) % 4]; t.om = std::make_shared<OM>(t.res); t.oc = std::make_shared<OcTree<S>>(std::shared_ptr<const OM>(t.om)); t.oc->computeLocalAABB(); T.push_back(t); }
  for (auto& o : p.ops) if (o.name == "geom" && W.g.size() < 8) { int k = ((o.i(1) % NKIND) + NKIND) % NKIND; if (k == OCTREE || k == PLANE || k == HALFSPACE) k = BOX; W.g.push_back(make_geom((uint64_t)o.at(0), k, std::max(1, o.i(2, 4)))); W.g.back()->cost_density = 1; W.kind.push_back(k); }
  if (T.empty() || W.g.empty()) return; int nt = (int)T.size(), ng = (int)W.g.size();
  int mk = (int)p.get("mgr", 6) == 7 ? 7 : 6; M = make_manager(p, mk, 0); int n = 0;
  for (auto& o : p.ops) {
    if (++n > 300) break; sim::step_budget(4000000000ull); Tree& t = T[((o.i(0) % nt) + nt) % nt]; int g = ((o.i(1) % ng) + ng) % ng;
    if (o.name == "q" || o.name == "d") {
      Transform3<S> tf = pose_of((uint64_t)std::fabs(o.at(2)), 1), tg = tf * pose_of((uint64_t)std::fabs(o.at(2)) + 1000003, o.at(3, 1)); int maxc = o.i(5, 1000) < 1 ? 1 : o.i(5, 1000);
      if (o.name == "q") q_collide(t, g, tf, tg, o.i(4), maxc, o.i(6) & 1); else q_distance(t, g, tf, tg, o.i(4), o.i(6) & 1);
    } else if (o.name == "qt" || o.name == "dt") {
      Tree& u = T[((o.i(1) % nt) + nt) % nt]; Transform3<S> tf = pose_of((uint64_t)std::fabs(o.at(2)), 1), tg = tf * pose_of((uint64_t)std::fabs(o.at(2)) + 1000003, o.at(3, 1));
      if (o.name == "qt") q_collide2(t, u, tf, tg, o.i(4), std::max(1, o.i(5, 1000)), o.i(6) & 1); else q_distance2(t, u, tf, tg, o.i(4), o.i(6) & 1);
    } else if (o.name == "reg") { if (objs.size() < 7) { objs.emplace_back(new Obj(W.g[g], pose_of((uint64_t)std::fabs(o.at(2)), o.at(3, 1)))); og.push_back(g); in.push_back(1); M->registerObject(objs.back().get()); } }
    else if (o.name == "unreg") { if (objs.empty()) continue; int i = std::abs(o.i(1)) % (int)objs.size(); if (in[i]) { M->unregisterObject(objs[i].get()); in[i] = 0; } }
    else if (o.name == "move") { if (objs.empty()) continue; int i = std::abs(o.i(1)) % (int)objs.size(); if (!in[i]) continue; objs[i]->setTransform(pose_of((uint64_t)std::fabs(o.at(2)), o.at(3, 1))); objs[i]->computeAABB(); M->update(objs[i].get()); }
    else if (o.name == "mq") q_manager(mk, t, pose_of((uint64_t)std::fabs(o.at(2)), o.at(3, 1)), o.i(4) & 1, o.i(4) & 2, o.i(5) & 1);
    else if (o.name == "boxes") check_boxes(t);
    else change(t, o);
  }
  delete M; M = nullptr;
}
static void generate(Rng& r, Plan& p, bool thorough) {
  p.set("mgr", r.chance(0.5) ? 6 : 7); gen_manager(r, p); int nt = r.range(1, 2), ng = r.range(1, 3);
  for (int i = 0; i < nt; ++i) p.add("tree", {(double)r.below(4)});
  for (int i = 0; i < ng; ++i) { int k = r.chance(0.45) ? MESH0 + (int)r.below(8) : r.pick<int>({BOX, SPHERE, ELLIPSOID, CAPSULE, CONE, CYLINDER, CONVEX, TRIANGLE}); p.add("geom", {(double)r.below(100000), (double)k, (double)r.range(1, 10)}); }
  int n = r.range(3, thorough ? 60 : 30); double range = r.pick<double>({0.2, 0.5, 1}); bool mgr = r.chance(0.5); std::vector<std::array<double, 3>> seen;
  auto P = [&](std::vector<double> a) { std::array<double, 3> q; if (!seen.empty() && r.chance(0.4)) q = seen[r.below(seen.size())]; else { for (int i = 0; i < 3; ++i) q[i] = r.real(-range, range); seen.push_back(q); } std::vector<double> v{(double)r.below(nt), q[0], q[1], q[2]}; v.insert(v.end(), a.begin(), a.end()); return v; };
  auto change = [&] {
    double u = r.unit();
    if (u < 0.3) p.add("hit", P({(double)r.range(1, 4)})); else if (u < 0.42) p.add("miss", P({(double)r.range(1, 6)})); else if (u < 0.47) p.add("add", P({r.pick<double>({0.3, -0.3, 1.5, -2})})); else if (u < 0.53) p.add("set", P({r.pick<double>({0.2, -0.2, 1.1, 3, -1.7})}));
    else if (u < 0.65) p.add("block", P({(double)r.pick<int>({2, 2, 4}), r.pick<double>({0.7, 2, 3.4, -0.5})})); else if (u < 0.69) p.add("lazy", P({(double)r.below(100000)})); else if (u < 0.74) p.add("ray", P({r.real(-range, range), r.real(-range, range), r.real(-range, range)}));
    else if (u < 0.82) p.add("del", P({})); else if (u < 0.86) p.add("prune", {(double)r.below(nt)}); else if (u < 0.89) p.add("expand", {(double)r.below(nt)}); else if (u < 0.9) p.add("ml", {(double)r.below(nt)}); else if (u < 0.91) p.add("wipe", {(double)r.below(nt)});
    else if (u < 0.96) p.add("occ", {(double)r.below(nt), 0, 0, 0, r.pick<double>({0.55, 0.6, 0.75, 0.9, 0.97, 0.3})}); else p.add("free", {(double)r.below(nt), 0, 0, 0, r.pick<double>({0.1, 0.2, 0.4, 0.49, 0.49, 0.52, 0.6, 0.8})});
  };
  int pre = r.range(0, 8); for (int i = 0; i < pre; ++i) change();
  for (int i = 0; i < n; ++i) {
    double u = r.unit(), sd = (double)r.below(1000000), rg = r.pick<double>({0.1, 0.5, 1, 2, 4}); int fl = (int)r.below(16); if (!r.chance(0.15)) fl &= ~2; double s = (double)r.below(2);
    if (u < 0.4) change(); else if (u < 0.58) p.add("q", {(double)r.below(nt), (double)r.below(ng), sd, rg, (double)fl, (double)r.pick<int>({1, 2, 5, 1000, 1000, 1000}), s}); else if (u < 0.7) p.add("d", {(double)r.below(nt), (double)r.below(ng), sd, rg, (double)fl, 0, s});
    else if (u < 0.76) p.add("qt", {(double)r.below(nt), (double)r.below(nt), sd, rg, (double)fl, (double)r.pick<int>({1, 3, 1000, 1000}), s}); else if (u < 0.8) p.add("dt", {(double)r.below(nt), (double)r.below(nt), sd, rg, (double)fl, 0, s});
    else if (u < 0.83) p.add("boxes", {(double)r.below(nt)});
    else if (mgr) { double w = r.unit(); if (w < 0.3) p.add("reg", {0, (double)r.below(ng), sd, r.pick<double>({0.5, 1, 3})}); else if (w < 0.36) p.add("unreg", {0, (double)r.below(8)}); else if (w < 0.5) p.add("move", {0, (double)r.below(8), sd, r.pick<double>({0.5, 1, 3})}); else p.add("mq", {(double)r.below(nt), 0, sd, r.pick<double>({0.5, 1, 2}), (double)r.pick<int>({0, 0, 0, 1, 2, 2, 2, 3}), s}); }
  }
}
sim::Check sim::the_check = {"C16", generate, execute};

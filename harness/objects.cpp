// C17: cached bounds and poses of objects over any history.  C18: moving objects over simulated time.
#include "scene.h"
#include "fcl/math/motion/interp_motion.h"
#include "fcl/math/motion/screw_motion.h"
#include "fcl/math/motion/spline_motion.h"
#include "fcl/math/motion/translation_motion.h"
#include "fcl/math/motion/tbv_motion_bound_visitor.h"
#include "fcl/math/motion/triangle_motion_bound_visitor.h"
#include "fcl/narrowphase/continuous_collision_object.h"
using namespace sc;
using sim::Plan; using sim::Op;
typedef CollisionObject<S> Obj; typedef Eigen::Matrix<S, 3, 3> M3; typedef Transform3<S> TF;
#ifndef PROP
#define PROP 17
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
struct Geo { GeomPtr g; int kind; std::vector<V3> v; std::vector<Triangle> t; std::shared_ptr<octomap::OcTree> om; long version = 0, local = -1; };
// the point of the geometry farthest along d (local frame), from the definition of the shape
static V3 support(const Geo& x, const V3& d) {
  auto best = [&](const std::vector<V3>& v) { V3 b = v[0]; for (auto& p : v) if (p.dot(d) > b.dot(d)) b = p; return b; }; double xy = std::hypot(d[0], d[1]); auto* g = x.g.get();
  switch (x.kind) {
    case BOX: { V3 s = static_cast<Box<S>*>(g)->side / 2; return V3(d[0] < 0 ? -s[0] : s[0], d[1] < 0 ? -s[1] : s[1], d[2] < 0 ? -s[2] : s[2]); }
    case SPHERE: return d.normalized() * static_cast<Sphere<S>*>(g)->radius;
    case ELLIPSOID: { V3 r = static_cast<Ellipsoid<S>*>(g)->radii, q = r.cwiseProduct(d); return r.cwiseProduct(q) / q.norm(); }
    case CAPSULE: { auto* c = static_cast<Capsule<S>*>(g); V3 p = d.normalized() * c->radius; p[2] += d[2] < 0 ? -c->lz / 2 : c->lz / 2; return p; }
    case CYLINDER: { auto* c = static_cast<Cylinder<S>*>(g); double k = xy > 1e-12 ? c->radius / xy : 0; return V3(d[0] * k, d[1] * k, d[2] < 0 ? -c->lz / 2 : c->lz / 2); }
    case CONE: { auto* c = static_cast<Cone<S>*>(g); double k = xy > 1e-12 ? c->radius / xy : 0; V3 a(0, 0, c->lz / 2), b(d[0] * k, d[1] * k, -c->lz / 2); return a.dot(d) > b.dot(d) ? a : b; }
    case CONVEX: return best(static_cast<Convex<S>*>(g)->getVertices());
    case TRIANGLE: { auto* t = static_cast<TriangleP<S>*>(g); return best({t->a, t->b, t->c}); }
    case OCTREE: { auto* o = static_cast<OcTree<S>*>(g); std::vector<V3> c; for (auto& b : o->toBoxes()) for (int i = 0; i < 8; ++i) c.push_back(V3(b[0] + (i & 1 ? 0.5 : -0.5) * b[3], b[1] + (i & 2 ? 0.5 : -0.5) * b[3], b[2] + (i & 4 ? 0.5 : -0.5) * b[3])); return c.empty() ? V3(0, 0, 0) : best(c); }
    default: return x.v.empty() ? V3(0, 0, 0) : best(x.v);
  }
}
static bool unbounded(int k) { return k == PLANE || k == HALFSPACE; }
static std::vector<V3> plane_points(const Geo& x) {
  V3 n; double d; if (x.kind == PLANE) { n = static_cast<Plane<S>*>(x.g.get())->n; d = static_cast<Plane<S>*>(x.g.get())->d; } else { n = static_cast<Halfspace<S>*>(x.g.get())->n; d = static_cast<Halfspace<S>*>(x.g.get())->d; }
  V3 u = (std::fabs(n[0]) < 0.7 ? V3(1, 0, 0) : V3(0, 1, 0)).cross(n).normalized(), w = n.cross(u); std::vector<V3> o;
  for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) { V3 p = n * d + u * (i * 100.0) + w * (j * 100.0); o.push_back(p); if (x.kind == HALFSPACE) o.push_back(p - n * 50); }
  return o;
}
template <class BV> static GeomPtr build(const std::vector<V3>& v, const std::vector<Triangle>& t) { auto m = std::make_shared<BVHModel<BV>>(); m->beginModel((int)t.size(), (int)v.size()); if (t.empty()) m->addSubModel(v); else m->addSubModel(v, t); m->endModel(); return m; }
template <class BV> static void deform_mesh(CollisionGeometry<S>* g, const std::vector<V3>& v, bool replace, bool refit, bool bottomup) {
  auto& m = *static_cast<BVHModel<BV>*>(g); if (replace && m.build_state == BVH_BUILD_STATE_PROCESSED) { m.beginReplaceModel(); m.replaceSubModel(v); m.endReplaceModel(refit, bottomup); } else { m.beginUpdateModel(); m.updateSubModel(v); m.endUpdateModel(refit, bottomup); } }
#define MESH_SWITCH(k, F) switch ((k) - MESH0) { case 0: F(AABB<S>); break; case 1: F(OBB<S>); break; case 2: F(RSS<S>); break; case 3: F(kIOS<S>); break; case 4: F(OBBRSS<S>); break; case 5: F(AS16); break; case 6: F(AS18); break; case 7: F(AS24); break; }
typedef KDOP<S, 16> AS16; typedef KDOP<S, 18> AS18; typedef KDOP<S, 24> AS24;
static Geo make_geo(uint64_t seed, int kind, int n) {
  Geo x; x.kind = kind; Rng r(seed * 17 + 3);
  if (is_mesh(kind)) { Mesh q = make_mesh(seed, (int)r.below(6), n, r.real(0.4, 1.5)); x.v = q.v; V3 sh(r.pick<double>({0, 0, 3}), 0, r.pick<double>({0, -1.5})); for (auto& p : x.v) p += sh; for (auto& t : q.t) x.t.push_back(Triangle(t[0], t[1], t[2])); if (r.chance(0.2)) x.t.clear();
#define F(BV) x.g = build<BV>(x.v, x.t)
    MESH_SWITCH(kind, F)
#undef F
  } else if (kind == OCTREE) { x.om = make_octomap(r, 0.25, std::max(1, n / 2), 1); x.g = std::make_shared<OcTree<S>>(std::shared_ptr<const octomap::OcTree>(x.om)); }
  else x.g = make_geom(seed, kind, n);
  return x;
}
// the same geometry, made anew
static GeomPtr twin(const Geo& x) {
  auto* g = x.g.get();
  switch (x.kind) {
    case BOX: return std::make_shared<Box<S>>(static_cast<Box<S>*>(g)->side);
    case SPHERE: return std::make_shared<Sphere<S>>(static_cast<Sphere<S>*>(g)->radius);
    case ELLIPSOID: return std::make_shared<Ellipsoid<S>>(static_cast<Ellipsoid<S>*>(g)->radii);
    case CAPSULE: return std::make_shared<Capsule<S>>(static_cast<Capsule<S>*>(g)->radius, static_cast<Capsule<S>*>(g)->lz);
    case CONE: return std::make_shared<Cone<S>>(static_cast<Cone<S>*>(g)->radius, static_cast<Cone<S>*>(g)->lz);
    case CYLINDER: return std::make_shared<Cylinder<S>>(static_cast<Cylinder<S>*>(g)->radius, static_cast<Cylinder<S>*>(g)->lz);
    case CONVEX: { auto* c = static_cast<Convex<S>*>(g); return std::make_shared<Convex<S>>(std::make_shared<std::vector<V3>>(c->getVertices()), c->getFaceCount(), std::make_shared<std::vector<int>>(c->getFaces()), false); }
    case PLANE: return std::make_shared<Plane<S>>(static_cast<Plane<S>*>(g)->n, static_cast<Plane<S>*>(g)->d);
    case HALFSPACE: return std::make_shared<Halfspace<S>>(static_cast<Halfspace<S>*>(g)->n, static_cast<Halfspace<S>*>(g)->d);
    case TRIANGLE: { auto* t = static_cast<TriangleP<S>*>(g); return std::make_shared<TriangleP<S>>(t->a, t->b, t->c); }
    case OCTREE: return std::make_shared<OcTree<S>>(std::shared_ptr<const octomap::OcTree>(x.om));
    default: { GeomPtr o;
#define F(BV) o = build<BV>(x.v, x.t)
      MESH_SWITCH(x.kind, F)
#undef F
      return o; }
  }
}
static void deform(Geo& x, Rng& r) {
  auto* g = x.g.get(); auto f = [&] { return r.pick<double>({0.5, 1.3, 2, 0.8}); };
  switch (x.kind) {
    case BOX: static_cast<Box<S>*>(g)->side[(int)r.below(3)] *= f(); break;
    case SPHERE: static_cast<Sphere<S>*>(g)->radius *= f(); break;
    case ELLIPSOID: static_cast<Ellipsoid<S>*>(g)->radii[(int)r.below(3)] *= f(); break;
    case CAPSULE: if (r.chance(0.5)) static_cast<Capsule<S>*>(g)->radius *= f(); else static_cast<Capsule<S>*>(g)->lz *= f(); break;
    case CONE: if (r.chance(0.5)) static_cast<Cone<S>*>(g)->radius *= f(); else static_cast<Cone<S>*>(g)->lz *= f(); break;
    case CYLINDER: if (r.chance(0.5)) static_cast<Cylinder<S>*>(g)->radius *= f(); else static_cast<Cylinder<S>*>(g)->lz *= f(); break;
    case PLANE: static_cast<Plane<S>*>(g)->d += r.real(-1, 1); break;
    case HALFSPACE: static_cast<Halfspace<S>*>(g)->d += r.real(-1, 1); break;
    case TRIANGLE: static_cast<TriangleP<S>*>(g)->b += V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); break;
    case OCTREE: { sim::NoFault nf; for (int i = 0; i < 3; ++i) x.om->updateNode(octomap::point3d((float)r.real(-1, 1), (float)r.real(-1, 1), (float)r.real(-1, 1)), r.chance(0.7)); break; }
    case CONVEX: return;
    default: { V3 s(r.real(-2, 2), 0, r.real(-1, 1)); double k = f(); for (auto& p : x.v) p = p * k + s; bool a = r.chance(0.5), b = r.chance(0.7), c = r.chance(0.5);
#define F(BV) deform_mesh<BV>(g, x.v, a, b, c)
      MESH_SWITCH(x.kind, F)
#undef F
    }
  }
  ++x.version;
}
static M3 rot(Rng& r) {
  if (r.chance(0.15)) return M3::Identity(); double a = r.pick<double>({r.real(-3, 3), r.real(-3, 3), M_PI / 2, M_PI, 1e-3, 1e-7, 1e-9}); V3 x = r.chance(0.4) ? V3(r.pick<V3>({V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)})) : V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); if (x.norm() < 1e-3) x = V3(0, 0, 1); return Eigen::AngleAxis<S>(a, x.normalized()).toRotationMatrix();
}
static V3 vec(Rng& r) { double s = r.pick<double>({1, 1, 10, 0.01, 1000}); return V3(r.real(-s, s), r.real(-s, s), r.real(-s, s)); }
static std::vector<Geo> G;
static bool near(double a, double b, double s) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + s); }
static double extent(const Geo& x) { if (unbounded(x.kind)) return 1; if (x.kind == OCTREE) return 32768 * 0.25; double m = 0; for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) { V3 d = V3::Zero(); d[i] = s; m = std::max(m, support(x, d).cwiseAbs().maxCoeff()); } return m; }
static void contains(const char* who, const AABB<S>& b, const Geo& x, const TF& t) {
  double tol = 1e-9 * (1 + extent(x) + t.translation().cwiseAbs().maxCoeff());
  if (unbounded(x.kind)) { for (auto& p : plane_points(x)) { V3 q = t * p; for (int k = 0; k < 3; ++k) if (!(q[k] >= b.min_[k] - 1e-7) || !(q[k] <= b.max_[k] + 1e-7)) sim::fail("outside-bounds", "%s: a point of the %s lies outside the bounds of its object (axis %d: %.9g not in [%.9g, %.9g])", who, GN[x.kind], k, q[k], b.min_[k], b.max_[k]); } return; }
  for (int k = 0; k < 3; ++k) for (int s = -1; s <= 1; s += 2) { V3 w = V3::Zero(); w[k] = s; double e = (t * support(x, t.linear().transpose() * w))[k]; if (s > 0 ? !(e <= b.max_[k] + tol) : !(e >= b.min_[k] - tol)) sim::fail("outside-bounds", "%s: the %s sticks out of the bounds of its object (axis %d: %.12g not in [%.12g, %.12g])", who, GN[x.kind], k, e, b.min_[k], b.max_[k]); }
}
#if PROP == 17
struct Ob { std::unique_ptr<Obj> o; int g; M3 R = M3::Identity(); V3 T = V3::Zero(); AABB<S> last; long seen = -1; void* ud = nullptr; };
static std::vector<Ob> O;
static bool same_bits(const AABB<S>& a, const AABB<S>& b) { return !memcmp(&a.min_, &b.min_, 24) && !memcmp(&a.max_, &b.max_, 24); }
static void check(const char* op, int changed) {
  sim::NoFault nf; sim::Quiet qq;
  for (size_t i = 0; i < O.size(); ++i) { Ob& x = O[i]; Obj& o = *x.o; Geo& g = G[x.g]; char who[120]; snprintf(who, sizeof who, "after %s of object %d", op, changed);
    if (o.collisionGeometry().get() != g.g.get()) sim::fail("wrong-geometry", "%s: object %lu has another geometry", who, (unsigned long)i);
    if (o.getRotation() != x.R || o.getTranslation() != x.T || o.getTransform().linear() != x.R || o.getTransform().translation() != x.T) sim::fail("wrong-pose", "%s: the pose read from object %lu is not the one set", who, (unsigned long)i);
    { V3 l = o.getTransform().matrix().row(3).head<3>(); if (l != V3(0, 0, 0) || o.getTransform().matrix()(3, 3) != 1) sim::fail("wrong-pose", "%s: the transform of object %lu is no rigid motion", who, (unsigned long)i); }
    M3 q = o.getQuatRotation().toRotationMatrix(); if (!((q - x.R).cwiseAbs().maxCoeff() <= 1e-9)) sim::fail("wrong-pose", "%s: the quaternion read from object %lu is another rotation", who, (unsigned long)i);
    double off = std::max((x.R - M3::Identity()).cwiseAbs().maxCoeff(), x.T.cwiseAbs().maxCoeff()); if ((off == 0 && !o.isIdentityTransform()) || (off > 1e-6 && o.isIdentityTransform())) sim::fail("wrong-pose", "%s: object %lu %s the identity transform", who, (unsigned long)i, off == 0 ? "denies" : "claims");
    if (o.getUserData() != x.ud) sim::fail("wrong-user-data", "%s: the user data of object %lu are not the ones set", who, (unsigned long)i);
    if (o.getNodeType() != g.g->getNodeType() || o.getObjectType() != g.g->getObjectType()) sim::fail("wrong-geometry", "%s: object %lu reports the type of another geometry", who, (unsigned long)i);
    if (o.getCostDensity() != g.g->cost_density || o.isOccupied() != (g.g->cost_density >= g.g->threshold_occupied) || o.isFree() != (g.g->cost_density <= g.g->threshold_free) || o.isUncertain() != (!o.isOccupied() && !o.isFree())) sim::fail("wrong-occupancy", "%s: object %lu is not as occupied as its geometry", who, (unsigned long)i);
    if ((int)i != changed && !same_bits(o.getAABB(), x.last)) sim::fail("influenced", "%s: the bounds of object %lu changed", who, (unsigned long)i);
  }
}
static void bounds(const char* op, int i) {  // right after the bounds of object i were computed
  Ob& x = O[i]; Geo& g = G[x.g]; x.last = x.o->getAABB(); x.seen = g.local; if (g.local != g.version) return; sim::NoFault nf; sim::Quiet qq;
  TF t = TF::Identity(); t.linear() = x.R; t.translation() = x.T; char who[100]; snprintf(who, sizeof who, "after %s of object %d", op, i); contains(who, x.last, g, t);
  GeomPtr tw = twin(g); Obj o(tw, t); double s = extent(g) + x.T.cwiseAbs().maxCoeff();
  for (int k = 0; k < 3; ++k) if (!near(o.getAABB().min_[k], x.last.min_[k], s) || !near(o.getAABB().max_[k], x.last.max_[k], s)) sim::fail("history-dependent", "%s: the bounds of the %s are [%.12g, %.12g] along axis %d, those of the same geometry made anew at the same pose [%.12g, %.12g]", who, GN[g.kind], x.last.min_[k], x.last.max_[k], k, o.getAABB().min_[k], o.getAABB().max_[k]);
  sim::count(is_mesh(g.kind) ? "probe.mesh-bounds-checked" : "probe.bounds-checked"); sim::sig(g.kind * 8 + ((x.R - M3::Identity()).cwiseAbs().maxCoeff() > 1e-12) * 4 + std::min<long>(g.version, 3)); sim::logd("lo", x.last.min_[0]); sim::logd("hi", x.last.max_[2]);
}
static void execute(const Plan& p) {
  for (auto& o : p.ops) if (o.name == "geom" && G.size() < 6) G.push_back(make_geo((uint64_t)std::fabs(o.at(0)), ((o.i(1) % NKIND) + NKIND) % NKIND, std::max(1, std::min(30, o.i(2, 5)))));
  if (G.empty()) return; int ng = (int)G.size(), n = 0;
  for (auto& o : p.ops) {
    if (++n > 300) break; sim::step_budget(400000000); int i = O.empty() ? -1 : std::abs(o.i(0)) % (int)O.size(); Rng r((uint64_t)std::fabs(o.at(1)) * 7 + 1); const std::string& c = o.name; bool mk = c == "new" || c == "copy";
    if (c == "geom") continue; if (!mk && i < 0) continue; if (c == "copy" && i < 0) continue; if (mk && O.size() >= 10) continue;
    sim::count(("op." + c).c_str());
    if (c == "new") { Ob x; x.g = std::abs(o.i(0)) % ng; int k = (int)(r.below(3)); M3 R = rot(r); V3 T = vec(r); TF t = TF::Identity(); t.linear() = R; t.translation() = T; Geo& g = G[x.g]; sim::stack_refill();
      if (k == 0) x.o.reset(new Obj(g.g)); else if (k == 1) x.o.reset(new Obj(g.g, t)); else x.o.reset(new Obj(g.g, R, T)); if (k) x.R = R, x.T = T; g.local = g.version; O.push_back(std::move(x)); bounds("the construction", (int)O.size() - 1); check("the construction", (int)O.size() - 1); continue; }
    if (c == "copy") { Ob x; Ob& s = O[i]; x.g = s.g; x.R = s.R; x.T = s.T; x.ud = s.ud; x.seen = s.seen; x.last = s.last; if (r.chance(0.5)) x.o.reset(new Obj(*s.o)); else { x.o.reset(new Obj(G[0].g)); G[0].local = G[0].version; *x.o = *s.o; } O.push_back(std::move(x)); check("copying", -1); continue; }
    Ob& x = O[i]; Obj& ob = *x.o;
    if (c == "assign") { int j = (int)r.below(O.size()); Ob& s = O[j]; ob = *s.o; x.g = s.g; x.R = s.R; x.T = s.T; x.ud = s.ud; x.last = s.last; x.seen = s.seen; check("assignment", -1); continue; }
    if (c == "rot") { M3 R = rot(r); ob.setRotation(R); x.R = R; }
    else if (c == "quat") { Quaternion<S> q(rot(r)); q.normalize(); ob.setQuatRotation(q); x.R = q.toRotationMatrix(); }
    else if (c == "trans") { V3 T = vec(r); ob.setTranslation(T); x.T = T; }
    else if (c == "tfRT") { M3 R = rot(r); V3 T = vec(r); ob.setTransform(R, T); x.R = R; x.T = T; }
    else if (c == "tfQT") { Quaternion<S> q(rot(r)); q.normalize(); V3 T = vec(r); ob.setTransform(q, T); x.R = q.toRotationMatrix(); x.T = T; }
    else if (c == "tf") { TF t = TF::Identity(); t.linear() = rot(r); t.translation() = vec(r); ob.setTransform(t); x.R = t.linear(); x.T = t.translation(); }
    else if (c == "id") { ob.setIdentityTransform(); x.R = M3::Identity(); x.T = V3::Zero(); }
    else if (c == "ud") { x.ud = (void*)(uintptr_t)(r.below(1000) * 8 + 8); ob.setUserData(x.ud); }
    else if (c == "cost") { double v = r.pick<double>({0, 0.3, 1, 2}); ob.setCostDensity(v); if (G[x.g].g->cost_density != v) sim::fail("wrong-occupancy", "the cost density set is not kept"); }
    else if (c == "bounds") { ob.computeAABB(); bounds("recomputation", i); }
    else if (c == "local") { G[x.g].g->computeLocalAABB(); G[x.g].local = G[x.g].version; check("recomputing the local bounds of the geometry", -1); continue; }
    else if (c == "deform") { deform(G[x.g], r); if (r.chance(0.8)) { G[x.g].g->computeLocalAABB(); G[x.g].local = G[x.g].version; } check("deforming the geometry", -1); continue; }
    else if (c == "drop") { O.erase(O.begin() + i); check("destroying an object", -1); continue; }
    else continue;
    check(c.c_str(), i); x.last = ob.getAABB();
  }
  O.clear();
}
static void generate(Rng& r, Plan& p, bool thorough) {
  int ng = r.range(1, 4); for (int i = 0; i < ng; ++i) p.add("geom", {(double)r.below(100000), (double)(r.chance(0.45) ? MESH0 + (int)r.below(8) : (int)r.below(MESH0)), (double)r.range(1, 12)});
  int n = r.range(5, thorough ? 80 : 40); auto sd = [&] { return (double)r.below(1000000); };
  for (int i = 0; i < n; ++i) { double u = r.unit(), k = (double)r.below(10);
    if (i == 0 || u < 0.1) p.add("new", {k, sd()}); else if (u < 0.15) p.add("copy", {k, sd()}); else if (u < 0.18) p.add("assign", {k, sd()}); else if (u < 0.25) p.add("rot", {k, sd()}); else if (u < 0.31) p.add("quat", {k, sd()}); else if (u < 0.39) p.add("trans", {k, sd()}); else if (u < 0.44) p.add("tfRT", {k, sd()}); else if (u < 0.49) p.add("tfQT", {k, sd()}); else if (u < 0.54) p.add("tf", {k, sd()}); else if (u < 0.57) p.add("id", {k}); else if (u < 0.59) p.add("ud", {k, sd()}); else if (u < 0.61) p.add("cost", {k, sd()}); else if (u < 0.83) p.add("bounds", {k}); else if (u < 0.87) p.add("local", {k}); else if (u < 0.97) p.add("deform", {k, sd()}); else p.add("drop", {k}); }
}
#else
// ---------------------------------------------------------------- C18
enum { STILL, TRANS, INTERP, SCREW, SPLINE };
static const char* MN[5] = {"default interpolated", "translational", "interpolated", "screw", "spline"};
struct Mo { std::shared_ptr<MotionBase<S>> m; int kind; TF a, b; V3 ref = V3::Zero(); V3 Td[4], Rd[4]; double now = 0, l = 0, r = 1; bool shared = false; };
static std::vector<Mo> M; struct CO { std::unique_ptr<ContinuousCollisionObject<S>> o; int g, m; void* ud = nullptr; }; static std::vector<CO> C;
static TF pose_at(const Mo& m, double t) {
  if (t > 1) t = 1; TF x = TF::Identity();
  if (m.kind == STILL) return x;
  if (m.kind == TRANS) { x.linear() = m.a.linear(); x.translation() = m.a.translation() * (1 - t) + m.b.translation() * t; return x; }
  if (m.kind == SPLINE) { double w[4] = {(1 - t) * (1 - t) * (1 - t) / 6, (4 - 6 * t * t + 3 * t * t * t) / 6, (1 + 3 * t + 3 * t * t - 3 * t * t * t) / 6, t * t * t / 6}; V3 T = V3::Zero(), R = V3::Zero(); for (int i = 0; i < 4; ++i) { T += m.Td[i] * w[i]; R += m.Rd[i] * w[i]; } x.translation() = T; if (R.norm() > 1e-14) x.linear() = Eigen::AngleAxis<S>(R.norm(), R.normalized()).toRotationMatrix(); return x; }
  Eigen::AngleAxis<S> aa(M3(m.b.linear() * m.a.linear().transpose())); M3 D = Eigen::AngleAxis<S>(aa.angle() * t, aa.axis()).toRotationMatrix(); x.linear() = D * m.a.linear();
  if (m.kind == INTERP) { V3 p = (m.a * m.ref) * (1 - t) + (m.b * m.ref) * t; x.translation() = p - x.linear() * m.ref; return x; }
  V3 ta = m.a.translation(), tb = m.b.translation(), o = tb - ta; if (aa.angle() < 1e-9) { x.translation() = ta + o * t; return x; }
  // the point of the axis: fixed by the rotation apart from the advance along the axis
  V3 k = aa.axis(); double adv = o.dot(k); V3 op = o - k * adv; V3 c = ta + op * 0.5 + k.cross(op) * (0.5 / std::tan(aa.angle() / 2)); x.translation() = c + D * (ta - c) + k * (adv * t); return x;
}
static double scale_of(const Mo& m) { double s = 1; for (double t : {0.0, 0.5, 1.0}) s = std::max(s, pose_at(m, t).translation().cwiseAbs().maxCoeff()); return s; }
static void check_pose(int i, const char* after) {
  sim::NoFault nf; Mo& m = M[i]; TF w = pose_at(m, m.now), t; m.m->getCurrentTransform(t); M3 R; V3 T, T2; Quaternion<S> q; double tol = 1e-8 * scale_of(m);
  if (!((t.translation() - w.translation()).norm() <= tol) || !((t.linear() - w.linear()).cwiseAbs().maxCoeff() <= 1e-8)) sim::fail("wrong-pose", "after %s, at time %.9g, the %s motion is at (%.9g %.9g %.9g) instead of (%.9g %.9g %.9g), rotation off by %.3g", after, m.now, MN[m.kind], t.translation()[0], t.translation()[1], t.translation()[2], w.translation()[0], w.translation()[1], w.translation()[2], (t.linear() - w.linear()).cwiseAbs().maxCoeff());
  m.m->getCurrentTransform(R, T); m.m->getCurrentTranslation(T2); if (R != t.linear() || T != t.translation() || T2 != T) sim::fail("wrong-pose", "the ways of reading the pose of a %s motion disagree", MN[m.kind]);
  m.m->getCurrentRotation(R); m.m->getCurrentRotation(q); if (R != t.linear() || !((q.toRotationMatrix() - R).cwiseAbs().maxCoeff() < 1e-8)) sim::fail("wrong-pose", "the ways of reading the rotation of a %s motion disagree", MN[m.kind]);
  m.m->getCurrentTransform(q, T); if (T != t.translation() || !((q.toRotationMatrix() - R).cwiseAbs().maxCoeff() < 1e-8)) sim::fail("wrong-pose", "the ways of reading the pose of a %s motion disagree", MN[m.kind]);
  sim::count("probe.pose-checked"); sim::sig(m.kind * 16 + (int)(std::min(m.now, 1.0) * 8)); sim::logd("x", t.translation()[0]);
}
static void inside(const Interval<S>& b, double v, double tol, const char* what, int kind, double t, double l, double r) { if (!(v >= b[0] - tol) || !(v <= b[1] + tol)) sim::fail("not-enclosed", "%s of a %s motion at time %.9g is %.12g, its enclosure over [%.9g, %.9g] is [%.12g, %.12g]", what, MN[kind], t, v, l, r, b[0], b[1]); }
static void check_taylor(int i, Rng& r) {
  Mo& m = M[i]; TMatrix3<S> tm; TVector3<S> tv; m.m->getTaylorModel(tm, tv); sim::NoFault nf; sim::Quiet qq; double st = 1e-9 * scale_of(m);
  double u = m.l + (m.r - m.l) * r.unit(), w = u + (m.r - u) * r.unit(); IMatrix3<S> bm = tm.getBound(), bt = tm.getTightBound(), bs = tm.getBound(u, w), ss = tm.getTightBound(u, w); IVector3<S> vm = tv.getBound(), vt = tv.getTightBound(), vs = tv.getBound(u, w), vss = tv.getTightBound(u, w);
  for (int s = 0; s <= 16; ++s) { double t = m.l + (m.r - m.l) * s / 16, t2 = u + (w - u) * s / 16; TF x = pose_at(m, t), y = pose_at(m, t2); IMatrix3<S> pm = tm.getBound(t); IVector3<S> pv = tv.getBound(t);
    for (int a = 0; a < 3; ++a) { inside(vm[a], x.translation()[a], st, "the translation", m.kind, t, m.l, m.r); inside(vt[a], x.translation()[a], st, "the translation (tight)", m.kind, t, m.l, m.r); inside(vs[a], y.translation()[a], st, "the translation", m.kind, t2, u, w); inside(vss[a], y.translation()[a], st, "the translation (tight)", m.kind, t2, u, w); inside(pv[a], x.translation()[a], st, "the translation", m.kind, t, t, t);
      if (m.kind == SPLINE) continue;  // the enclosure of its rotation is unfinished upstream
      for (int b = 0; b < 3; ++b) { inside(bm(a, b), x.linear()(a, b), 1e-9, "the rotation", m.kind, t, m.l, m.r); inside(bt(a, b), x.linear()(a, b), 1e-9, "the rotation (tight)", m.kind, t, m.l, m.r); inside(bs(a, b), y.linear()(a, b), 1e-9, "the rotation", m.kind, t2, u, w); inside(ss(a, b), y.linear()(a, b), 1e-9, "the rotation (tight)", m.kind, t2, u, w); inside(pm(a, b), x.linear()(a, b), 1e-9, "the rotation", m.kind, t, t, t); } } }
  sim::count("probe.enclosure-checked"); sim::sig(m.kind * 16 + 9 + (m.l > 0) * 2 + (m.r < 1)); sim::logd("lo", vm[0][0]);
}
static void check_mu(int i, Rng& r, bool tri) {
  Mo& m = M[i]; if (m.kind == SPLINE || m.kind == STILL) return; V3 n(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); if (n.norm() < 1e-3) n = V3(1, 0, 0); n.normalize(); double mu, rad = 0; std::vector<V3> ps;
  if (tri) { for (int k = 0; k < 3; ++k) ps.push_back(V3(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2))); TriangleMotionBoundVisitor<S> v(ps[0], ps[1], ps[2], n); mu = m.m->computeMotionBound(v); }
  else { RSS<S> b; b.axis = rot(r); b.To = V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); b.l[0] = r.real(0, 2); b.l[1] = r.real(0, 1); b.r = rad = r.real(0, 1); for (int k = 0; k < 4; ++k) ps.push_back(b.To + (k & 1 ? 1.0 : 0.0) * b.axis.col(0) * b.l[0] + (k & 2 ? 1.0 : 0.0) * b.axis.col(1) * b.l[1]); TBVMotionBoundVisitor<RSS<S>> v(b, n); mu = m.m->computeMotionBound(v); }
  sim::NoFault nf; double c = std::min(m.now, 1.0), tol = 1e-8 * scale_of(m); TF z = pose_at(m, c);
  for (int s = 1; s <= 16; ++s) { double t = c + (1 - c) * s / 16; TF x = pose_at(m, t); double d = -1e300; for (auto& p : ps) d = std::max(d, (x * p - z * p).dot(n)); double e = rad * ((x.linear() - z.linear()).transpose() * n).norm();
    if (!(d <= mu * (t - c) + tol)) sim::fail("motion-bound", "a point of a %s in %s motion moves %.9g along the direction between times %.9g and %.9g, its motion bound allows %.9g", tri ? "triangle" : "RSS", MN[m.kind], d, c, t, mu * (t - c));
    if (!tri && !(d + e <= mu * (t - c) + tol)) { double worst = -1e300; for (auto& p : ps) worst = std::max(worst, (x * p - z * p).dot(n) + e); if (!(worst <= mu * (t - c) + tol)) sim::fail("motion-bound", "a point of an RSS in %s motion moves %.9g along the direction between times %.9g and %.9g, its motion bound allows %.9g", MN[m.kind], worst, c, t, mu * (t - c)); } }
  sim::count(tri ? "probe.triangle-bound-checked" : "probe.volume-bound-checked"); sim::sig(m.kind * 16 + 14 + tri);
}
static void execute(const Plan& p) {
  for (auto& o : p.ops) if (o.name == "geom" && G.size() < 4) { int k = ((o.i(1) % NKIND) + NKIND) % NKIND; if (unbounded(k) || k == OCTREE) k = BOX; G.push_back(make_geo((uint64_t)std::fabs(o.at(0)), k, std::max(1, std::min(20, o.i(2, 5))))); G.back().g->computeLocalAABB(); }
  int n = 0;
  for (auto& o : p.ops) {
    if (++n > 200) break; sim::step_budget(400000000); Rng r((uint64_t)std::fabs(o.at(1)) * 7 + 1); const std::string& c = o.name; if (c == "geom") continue;
    if (c == "motion") { if (M.size() >= 6) continue; Mo m; m.kind = std::abs(o.i(0)) % 5; auto P = [&] { TF t = TF::Identity(); t.linear() = r.chance(0.2) ? M3(M3::Identity()) : M3(Eigen::AngleAxis<S>(r.real(-1.5, 1.5), V3(r.real(-1, 1), r.real(-1, 1), r.real(0.1, 1)).normalized()).toRotationMatrix()); t.translation() = V3(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)); if (r.chance(0.1)) t.translation() *= 100; return t; };
      m.a = P(); m.b = P(); if (r.chance(0.1)) m.b = m.a; if (r.chance(0.15)) m.b.linear() = m.a.linear(); int v = (int)r.below(4); M3 Ra = m.a.linear(), Rb = m.b.linear(); V3 Ta = m.a.translation(), Tb = m.b.translation(), ref(r.real(-2, 2), r.real(-2, 2), r.real(-2, 2)); sim::stack_refill();
      if (m.kind == STILL) m.m = std::make_shared<InterpMotion<S>>();
      else if (m.kind == TRANS) { if (v & 1) m.m = std::make_shared<TranslationMotion<S>>(m.a, m.b); else m.m = std::make_shared<TranslationMotion<S>>(Ra, Ta, Tb); }
      else if (m.kind == INTERP) { if (v == 0) m.m = std::make_shared<InterpMotion<S>>(m.a, m.b); else if (v == 1) m.m = std::make_shared<InterpMotion<S>>(Ra, Ta, Rb, Tb); else if (v == 2) { m.ref = ref; m.m = std::make_shared<InterpMotion<S>>(m.a, m.b, ref); } else { m.ref = ref; m.m = std::make_shared<InterpMotion<S>>(Ra, Ta, Rb, Tb, ref); } }
      else if (m.kind == SCREW) { if (v & 1) m.m = std::make_shared<ScrewMotion<S>>(m.a, m.b); else m.m = std::make_shared<ScrewMotion<S>>(Ra, Ta, Rb, Tb); }
      else if (v == 0) { for (int k = 0; k < 4; ++k) { m.Td[k] = V3(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)); m.Rd[k] = V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); } m.m = std::make_shared<SplineMotion<S>>(m.Td[0], m.Td[1], m.Td[2], m.Td[3], m.Rd[0], m.Rd[1], m.Rd[2], m.Rd[3]); }
      else { auto L = [](const M3& R) { Eigen::AngleAxis<S> a(R); return V3(a.axis() * a.angle()); }; V3 ra = L(Ra), rb = L(Rb); m.Td[0] = Ta * 2 - Tb; m.Td[1] = Ta; m.Td[2] = Tb; m.Td[3] = Tb * 2 - Ta; m.Rd[0] = ra * 2 - rb; m.Rd[1] = ra; m.Rd[2] = rb; m.Rd[3] = rb * 2 - ra; if (v & 1) m.m = std::make_shared<SplineMotion<S>>(m.a, m.b); else m.m = std::make_shared<SplineMotion<S>>(Ra, Ta, Rb, Tb); }
      M.push_back(m); sim::count(("op.motion-" + std::string(MN[m.kind])).c_str()); check_pose((int)M.size() - 1, "construction"); continue; }
    if (M.empty()) continue; int i = std::abs(o.i(0)) % (int)M.size(); Mo& m = M[i]; sim::count(("op." + c).c_str());
    if (c == "go") { double t = std::max(0.0, std::min(3.0, o.at(2))); m.m->integrate(t); m.now = std::min(t, 1.0); check_pose(i, "integration"); }
    else if (c == "pose") { for (size_t k = 0; k < M.size(); ++k) check_pose((int)k, "other calls"); }
    else if (c == "window") { if (m.shared) continue; double l = std::max(0.0, std::min(1.0, o.at(2))), h = std::max(l, std::min(1.0, o.at(3))); m.m->getTimeInterval()->setValue(l, h); m.l = l; m.r = h; check_pose(i, "setting the time interval"); }
    else if (c == "taylor") check_taylor(i, r);
    else if (c == "mu") check_mu(i, r, o.i(2) & 1);
    else if (c == "copy") { if (M.size() >= 6 || m.l > 0 || m.r < 1) continue; Mo q = m; q.shared = true; m.shared = true; switch (m.kind) { case STILL: case INTERP: q.m = std::make_shared<InterpMotion<S>>(static_cast<InterpMotion<S>&>(*m.m)); break; case TRANS: q.m = std::make_shared<TranslationMotion<S>>(static_cast<TranslationMotion<S>&>(*m.m)); break; case SCREW: q.m = std::make_shared<ScrewMotion<S>>(static_cast<ScrewMotion<S>&>(*m.m)); break; case SPLINE: q.m = std::make_shared<SplineMotion<S>>(static_cast<SplineMotion<S>&>(*m.m)); break; } M.push_back(q); check_pose((int)M.size() - 1, "copying"); }
    else if (c == "obj") { if (G.empty() || C.size() >= 6) continue; CO x; x.g = (int)r.below(G.size()); x.m = i; x.o.reset(new ContinuousCollisionObject<S>(G[x.g].g, m.m)); C.push_back(std::move(x)); }
    else if (c == "bounds") { if (C.empty()) continue; CO& x = C[std::abs(o.i(2)) % C.size()]; Mo& q = M[x.m]; if (q.kind == SPLINE) continue; x.o->computeAABB(); sim::NoFault nf; sim::Quiet qq; AABB<S> b = x.o->getAABB(); for (int s = 0; s <= 12; ++s) { double t = q.l + (q.r - q.l) * s / 12; char who[100]; snprintf(who, sizeof who, "a moving object (%s motion) at time %.6g of [%.6g, %.6g]", MN[q.kind], t, q.l, q.r); contains(who, b, G[x.g], pose_at(q, t)); } double far = 1e3 * (scale_of(q) + extent(G[x.g])); for (int k = 0; k < 3; ++k) if (!(b.min_[k] > -far) || !(b.max_[k] < far)) sim::fail("not-enclosed", "the bounds of a moving object are unreasonable: [%.9g, %.9g]", b.min_[k], b.max_[k]); if (x.o->getUserData() != x.ud) sim::fail("wrong-user-data", "the user data of a moving object are not the ones set"); if (x.o->collisionGeometry().get() != G[x.g].g.get() || x.o->getMotion() != q.m.get()) sim::fail("wrong-geometry", "a moving object lost its geometry or motion"); sim::count("probe.moving-bounds-checked"); sim::sig(q.kind * 16 + 13); sim::logd("lo", b.min_[0]); }
    else if (c == "ud") { if (C.empty()) continue; CO& x = C[std::abs(o.i(2)) % C.size()]; x.ud = (void*)(uintptr_t)(r.below(1000) * 8 + 8); x.o->setUserData(x.ud); }
  }
  C.clear(); M.clear();
}
static void generate(Rng& r, Plan& p, bool thorough) {
  int ng = r.range(1, 3), nm = r.range(1, 4); for (int i = 0; i < ng; ++i) p.add("geom", {(double)r.below(100000), (double)(r.chance(0.3) ? MESH0 + (int)r.below(8) : (int)r.below(MESH0)), (double)r.range(1, 8)});
  auto sd = [&] { return (double)r.below(1000000); }; for (int i = 0; i < nm; ++i) p.add("motion", {(double)r.pick<int>({STILL, TRANS, TRANS, INTERP, INTERP, INTERP, SCREW, SCREW, SCREW, SPLINE, SPLINE}), sd()});
  int n = r.range(4, thorough ? 60 : 30); double clock = 0;
  for (int i = 0; i < n; ++i) { double u = r.unit(), k = (double)r.below(6);
    if (u < 0.3) { double w = r.unit(); clock = w < 0.5 ? std::min(1.2, clock + r.real(0, 0.3)) : w < 0.8 ? r.unit() : r.pick<double>({0, 1, 1.5, 0.5}); p.add("go", {k, 0, clock}); } else if (u < 0.36) p.add("pose", {k}); else if (u < 0.48) { double l = r.pick<double>({0, r.unit(), r.unit() * 0.5}); p.add("window", {k, 0, l, l + (1 - l) * r.pick<double>({1, r.unit(), 0.1, 0})}); } else if (u < 0.64) p.add("taylor", {k, sd()}); else if (u < 0.78) p.add("mu", {k, sd(), (double)r.below(2)}); else if (u < 0.81) p.add("copy", {k}); else if (u < 0.87) p.add("obj", {k, sd()}); else if (u < 0.98) p.add("bounds", {k, 0, (double)r.below(6)}); else p.add("ud", {k, sd(), (double)r.below(6)}); }
}
#endif
sim::Check sim::the_check = {"C" STR(PROP), generate, execute};

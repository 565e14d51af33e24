// C01..C05 (manager part): histories of broad-phase operations against a set-of-objects model.
#include "simrt.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <utility>
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/narrowphase/collision_object.h"
using namespace fcl;
using sim::Rng; using sim::Plan; using sim::Op;
typedef double S; typedef CollisionObject<S> Obj; typedef BroadPhaseCollisionManager<S> Mgr;
#ifndef PROP
#define PROP 1
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

static const int NSLOT = 160;
static const char* KIND[8] = {"naive", "ssap", "sap", "interval", "hash-dense", "hash-sparse", "tree", "tree-array"};
typedef std::pair<int, int> IP;

struct Injected { int k; };
struct World {
  std::shared_ptr<Obj> obj[NSLOT]; AABB<S> bb[NSLOT];
  std::unique_ptr<Mgr> m[2]; std::set<int> in[2], dirty[2]; bool need_setup[2] = {false, false}, suspect[2] = {false, false}, poked[2] = {false, false}; std::vector<int> tried;
  int kind = 0; const Plan* plan = nullptr;
  std::map<const void*, int> idx;
};
static World* W;

static int id_of(const Obj* o) {
  sim::NoFault nf;
  auto it = W->idx.find(o);
  if (it == W->idx.end()) sim::fail("stale-object", "%s: callback received an object that does not exist (unregistered and destroyed earlier)", KIND[W->kind]);
  return it->second;
}
static double strict_gap(const AABB<S>& a, const AABB<S>& b) {  // >0: overlap depth, 0: touching, <0: apart
  double g = 1e300; for (int i = 0; i < 3; ++i) g = std::min(g, std::min(a.max_[i] - b.min_[i], b.max_[i] - a.min_[i])); return g;
}
static bool overlap_strict(const AABB<S>& a, const AABB<S>& b) { return strict_gap(a, b) > 0; }
static double bbdist(const AABB<S>& a, const AABB<S>& b) {
  double r = 0; for (int i = 0; i < 3; ++i) { double d = std::max(a.min_[i] - b.max_[i], b.min_[i] - a.max_[i]); if (d > 0) r += d * d; } return std::sqrt(r);
}

struct CD { std::vector<IP> pairs; int stop_at = -1, throw_at = -1; int calls = 0; bool stopped = false; double w = 0, min = std::numeric_limits<double>::max(); bool zero_stops = false; int first = 0; };
static double pairdist(int a, int b, double w) { double d = bbdist(W->bb[a], W->bb[b]); if (w > 0) { uint64_t h = sim::mix((uint64_t)std::min(a, b) * 1024 + std::max(a, b), 77); d += w * (double)(h % 1024) / 1024.0; } return d; }
static bool enter(CD* c, Obj* a, Obj* b) {
  sim::NoFault nf;
  if (c->stopped) sim::fail("callback-after-stop", "%s: callback invoked again after it asked to stop", KIND[W->kind]);
  int i = id_of(a), j = id_of(b);
  c->pairs.push_back({i, j}); ++c->calls;
  if (c->throw_at == c->calls) { c->stopped = true; sim::count("fault.callback-throw"); throw Injected{c->calls}; }
  if (c->stop_at == c->calls) { c->stopped = true; sim::count("fault.callback-cancel"); return true; }
  return false;
}
static bool on_collide(Obj* a, Obj* b, void* d) { return enter((CD*)d, a, b); }
static bool on_distance(Obj* a, Obj* b, void* d, S& dist) {
  CD* c = (CD*)d; bool stop = enter(c, a, b);
  double v = pairdist(c->pairs.back().first, c->pairs.back().second, c->w); if (v < c->min) c->min = v;
  if (c->pairs.back().first == c->pairs.back().second) {} 
  dist = c->min; if (c->zero_stops && dist <= 0) { c->stopped = true; return true; } return stop;
}

static Mgr* make_manager(const Plan& p, int which) {
  switch (W->kind) {
    case 0: return new NaiveCollisionManager<S>();
    case 1: return new SSaPCollisionManager<S>();
    case 2: return new SaPCollisionManager<S>();
    case 3: return new IntervalTreeCollisionManager<S>();
    case 4: case 5: {
      double c = p.get("cell", 1), lo = p.get("slo", -8), hi = p.get("shi", 8); unsigned n = (unsigned)p.get("table", 100);
      if (which && p.get("cell2", 0) > 0) { c = p.get("cell2"); n = n / 2 + 1; }
      Vector3<S> mn(lo, lo, lo), mx(hi, hi, hi);
      if (W->kind == 4) return new SpatialHashingCollisionManager<S>(c, mn, mx, n);
      return new SpatialHashingCollisionManager<S, detail::SparseHashTable<AABB<S>, Obj*, detail::SpatialHash<S>>>(c, mn, mx, n);
    }
    case 6: { auto* t = new DynamicAABBTreeCollisionManager<S>(); t->max_tree_nonbalanced_level = (int)p.get("nonbal", 10); t->tree_incremental_balance_pass = (int)p.get("incr", 10); t->tree_topdown_balance_threshold = (int)p.get("tdthr", 2); t->tree_topdown_level = (int)p.get("tdlev", 0); t->tree_init_level = (int)p.get("init", 0); return t; }
    default: { auto* t = new DynamicAABBTreeCollisionManager_Array<S>(); t->max_tree_nonbalanced_level = (int)p.get("nonbal", 10); t->tree_incremental_balance_pass = (int)p.get("incr", 10); t->tree_topdown_balance_threshold = (int)p.get("tdthr", 2); t->tree_topdown_level = (int)p.get("tdlev", 0); t->tree_init_level = (int)p.get("init", 0); return t; }
  }
}

static Transform3<S> pose(double x, double y, double z, int rot) {
  Transform3<S> t = Transform3<S>::Identity();
  if (rot) { Rng r((uint64_t)rot * 1299709); Vector3<S> ax(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)); if (ax.norm() < 1e-3) ax = Vector3<S>(0, 0, 1); ax.normalize(); t.linear() = AngleAxis<S>(r.real(0.1, 3.0), ax).toRotationMatrix(); }
  t.translation() = Vector3<S>(x, y, z); return t;
}
static void refresh(int i) { W->bb[i] = W->obj[i]->getAABB(); }

// ---------------------------------------------------------------- allocation-fault wrapper
// returns true if the operation ended with the injected bad_alloc
template <class F> static bool guarded(const Op& o, int failarg, F f) {
  int k = failarg < (int)o.a.size() ? o.i(failarg, -1) : -1;
#if PROP != 5
  k = -1;
#endif
  if (k >= 0) sim::fail_alloc_at(k);
  try { f(); sim::fail_alloc_at(-1); return false; }
  catch (const std::bad_alloc&) { bool fired = sim::alloc_fault_fired(); sim::fail_alloc_at(-1); if (!fired) sim::fail("unexpected-exception", "%s: bad_alloc without an injected failure", KIND[W->kind]); return true; }
}

static void membership(int w) {
  sim::NoFault nf;
  Mgr* m = W->m[w].get(); auto& in = W->in[w];
  if (m->size() != in.size()) sim::fail("wrong-size", "%s: size() is %lu with %lu objects registered", KIND[W->kind], (unsigned long)m->size(), (unsigned long)in.size());
  if (m->empty() != in.empty()) sim::fail("wrong-empty", "%s: empty() is %d with %lu objects registered", KIND[W->kind], (int)m->empty(), (unsigned long)in.size());
  std::vector<Obj*> v; m->getObjects(v);
  std::set<int> got; for (auto* o : v) { int i = id_of(o); if (!got.insert(i).second) sim::fail("wrong-objects", "%s: getObjects() lists object %d twice", KIND[W->kind], i); }
  if (got != in) sim::fail("wrong-objects", "%s: getObjects() has %lu objects, %lu registered, or a different set", KIND[W->kind], (unsigned long)got.size(), (unsigned long)in.size());
}

static void bring_up_to_date(int w, int form) {
  auto& d = W->dirty[w]; Mgr* m = W->m[w].get();
  if (W->need_setup[w] && (form & 4 || d.empty())) { m->setup(); W->need_setup[w] = false; }
  if (!d.empty()) {
    sim::count((form & 3) == 0 ? "op.update-all" : (form & 3) == 1 ? "op.update-one" : "op.update-list");
    std::vector<int> order(d.begin(), d.end()); if (form & 8) std::reverse(order.begin(), order.end());
    if ((form & 3) == 0) m->update();
    else if ((form & 3) == 1) for (int i : order) m->update(W->obj[i].get());
    else { std::vector<Obj*> v; for (int i : order) v.push_back(W->obj[i].get()); m->update(v); }
    d.clear();
  }
  if (W->need_setup[w]) { m->setup(); W->need_setup[w] = false; }
}

static std::string show(const AABB<S>& b) { char t[256]; snprintf(t, sizeof t, "[%.6g %.6g]x[%.6g %.6g]x[%.6g %.6g]", b.min_[0], b.max_[0], b.min_[1], b.max_[1], b.min_[2], b.max_[2]); return t; }

enum Q { SELF, ONE, CROSS };
static void candidates(Q q, int w, int id, std::vector<IP>& out) {
  if (q == SELF) { for (int a : W->in[w]) for (int b : W->in[w]) if (a < b) out.push_back({a, b}); }
  else if (q == ONE) { for (int a : W->in[w]) if (a != id) out.push_back({a, id}); }
  else for (int a : W->in[w]) for (int b : W->in[1 - w]) out.push_back({a, b});
}
static void run_query(Q q, int w, int id, CD& c, bool dist) {
  Mgr* m = W->m[w].get();
  if (dist) { if (q == SELF) m->distance(&c, on_distance); else if (q == ONE) m->distance(W->obj[id].get(), &c, on_distance); else m->distance(W->m[1 - w].get(), &c, on_distance); }
  else { if (q == SELF) m->collide(&c, on_collide); else if (q == ONE) m->collide(W->obj[id].get(), &c, on_collide); else m->collide(W->m[1 - w].get(), &c, on_collide); }
}
static const char* QN[3] = {"self", "object", "cross-manager"};

static void query(const Op& o, Q q, bool dist) {
  // args: manager, object id, update form, interrupt (0 none, k>0 cancel at k, k<0 throw at -k), weight, zero_stops, allocation fault
  int w = o.i(0) & 1, id = ((o.i(1) % NSLOT) + NSLOT) % NSLOT; if (q == ONE && !W->obj[id]) return;
  if (W->suspect[w] || (q == CROSS && W->suspect[1 - w])) return;
  bring_up_to_date(w, o.i(2)); if (q == CROSS) bring_up_to_date(1 - w, o.i(2) >> 4);
  int intr = o.i(3); double wt = dist ? std::fabs(o.at(4)) : 0; bool zs = dist && o.i(5) == 1;
#if PROP != 4
  intr = 0;
#endif
  for (int round = 0; round < 2; ++round) {
    bool faulted = round == 0 && (intr != 0
#if PROP == 5
      || o.i(6, -1) >= 0
#endif
    );
    if (round == 0 && !faulted) continue;
    CD c; c.w = wt; c.zero_stops = zs;
    if (faulted && intr > 0) c.stop_at = intr; if (faulted && intr < 0) c.throw_at = -intr;
    sim::step_budget(400000000);
    bool threw = false, oom = false;
    try {
      if (faulted && PROP == 5) oom = guarded(o, 6, [&] { run_query(q, w, id, c, dist); });
      else run_query(q, w, id, c, dist);
    } catch (const Injected& e) { threw = true; if (e.k != -intr) sim::fail("wrong-exception", "another exception arrived"); }
    if (c.throw_at > 0 && c.throw_at <= c.calls && !threw) sim::fail("exception-lost", "%s: the exception thrown by the callback did not reach the caller of the %s query", KIND[W->kind], QN[q]);
    sim::log("%s %s w%d id%d -> %d calls%s%s", dist ? "dist" : "coll", QN[q], w, id, c.calls, threw ? " threw" : "", oom ? " oom" : "");
    sim::set_step_limit(~0ULL);
    std::vector<IP> cand; candidates(q, w, id, cand);
    // every offered pair must be made of registered objects
    for (auto& pr : c.pairs) {
      bool a = W->in[w].count(pr.first), b = W->in[w].count(pr.second);
      if (q == SELF) { if (!a || !b) sim::fail("unregistered-object", "%s: self query offered an object that is not registered", KIND[W->kind]); if (pr.first == pr.second) sim::fail("self-pair", "%s: self %s query paired object %d with itself", KIND[W->kind], dist ? "distance" : "collision", pr.first); }
      else if (q == ONE) { if (!((a && pr.second == id) || (b && pr.first == id))) sim::fail("unregistered-object", "%s: object query offered an object that is not registered", KIND[W->kind]); }
      else { bool a2 = W->in[1 - w].count(pr.first), b2 = W->in[1 - w].count(pr.second); if (!((a && b2) || (b && a2))) sim::fail("unregistered-object", "%s: cross-manager query offered a pair not taken from the two managers", KIND[W->kind]); }
    }
    if (faulted && (c.stopped || threw || oom)) { sim::count(dist ? "probe.interrupted-distance" : "probe.interrupted-collide"); continue; }
    if (faulted) { continue; }
    if (!dist) {
      std::map<IP, int> seen; for (auto& pr : c.pairs) seen[{std::min(pr.first, pr.second), std::max(pr.first, pr.second)}]++;
      if (q == SELF) for (auto& s : seen) if (s.second > 1) sim::fail("duplicate-pair", "%s: self collision query offered pair (%d,%d) %d times", KIND[W->kind], s.first.first, s.first.second, s.second);
      int need = 0;
      for (auto& pr : cand) if (strict_gap(W->bb[pr.first], W->bb[pr.second]) >= 0) {
        ++need;
        if (!seen.count({std::min(pr.first, pr.second), std::max(pr.first, pr.second)}))
          sim::fail("missed-pair", "%s: %s collision query missed overlapping pair (%d,%d) of %lu objects: %s %s", KIND[W->kind], QN[q], pr.first, pr.second, (unsigned long)W->in[w].size(), show(W->bb[pr.first]).c_str(), show(W->bb[pr.second]).c_str());
      }
      if (need) sim::count("probe.query-with-overlaps"); else sim::count("probe.query-no-overlap");
      sim::sig(need * 64 + W->in[w].size());
    } else if (!cand.empty()) {
      double best = std::numeric_limits<double>::max(); for (auto& pr : cand) best = std::min(best, pairdist(pr.first, pr.second, wt));
      double got = c.min;
      if (q == ONE && W->in[w].count(id)) { double self = pairdist(id, id, wt); bool s = false; for (auto& pr : c.pairs) if (pr.first == pr.second) s = true; if (s) { best = std::min(best, self); } }
      if (!(std::fabs(got - best) <= 1e-9 * (1 + std::fabs(best)))) sim::fail("wrong-minimum", "%s: %s distance query found %.12g, brute force over %lu pairs gives %.12g", KIND[W->kind], QN[q], got, (unsigned long)cand.size(), best);
      sim::count("probe.distance-checked"); if (best > 0) sim::count("probe.distance-positive");
      sim::sig(W->in[w].size() * 4 + (best > 0));
    } else { sim::count("probe.distance-no-candidate"); }
  }
}

static void set_slot(int id, const Op& o) {
  // mk id shape sx sy sz x y z rot
  std::shared_ptr<CollisionGeometry<S>> g; double sx = std::fabs(o.at(2)), sy = std::fabs(o.at(3)), sz = std::fabs(o.at(4));
  switch (o.i(1) % 3) { case 1: g = std::make_shared<Sphere<S>>(sx / 2); break; case 2: g = std::make_shared<Halfspace<S>>(Vector3<S>(0, 0, 1), 0.0); break; default: g = std::make_shared<Box<S>>(sx, sy, sz); }
  W->obj[id] = std::make_shared<Obj>(g, pose(o.at(5), o.at(6), o.at(7), o.i(8))); W->obj[id]->computeAABB();
  W->idx[W->obj[id].get()] = id; refresh(id);
}
static void drop_slot(int id) { W->idx.erase(W->obj[id].get()); W->obj[id].reset(); }

// After a failed operation the manager may hold the objects it was given or not, but going on with it must be safe: what it
// hands out are objects it was given, nothing is read or written out of place, and taking back the objects that failed leaves none of them inside.
static bool on_poke_c(Obj* a, Obj* b, void*) { id_of(a); id_of(b); return false; }
static bool on_poke_d(Obj* a, Obj* b, void*, S& d) { d = std::min(d, pairdist(id_of(a), id_of(b), 0)); return false; }
static void poke(int w) {
  sim::NoFault nf; int how = (int)W->plan->get("poke", 0); if (!W->suspect[w]) { W->poked[w] = false; return; } if (W->poked[w] || !how) return;
  W->poked[w] = true; Mgr* m = W->m[w].get(); sim::count("probe.poked"); sim::log("poke %d", how); sim::step_budget(400000000);
  if (how & 1) { m->setup(); m->update(); }
  if (how & 2) { for (int id : W->tried) { m->unregisterObject(W->obj[id].get()); W->in[w].erase(id); W->dirty[w].erase(id); } if (how & 4) for (int id : W->tried) if (!W->in[0].count(id) && !W->in[1].count(id)) drop_slot(id); }
  if (how & 8) { m->setup(); if (how & 16) m->update(); m->collide(nullptr, on_poke_c); m->distance(nullptr, on_poke_d); for (int i = 0; i < 3; ++i) if (W->obj[i]) m->collide(W->obj[i].get(), nullptr, on_poke_c); }
  std::vector<Obj*> v; m->getObjects(v); for (auto* o : v) id_of(o);
  std::vector<int>().swap(W->tried);
}
// after a failed operation the manager may be cleared and used again
static void recover(int w) {
  sim::NoFault nf; if (!W->suspect[w] || W->plan->get("recover", 0) == 0) return;
  W->m[w]->clear(); if (!W->m[w]->empty() || W->m[w]->size()) sim::fail("not-empty", "%s: clear() after a failed operation left %lu objects", KIND[W->kind], (unsigned long)W->m[w]->size());
  for (int id : W->in[w]) W->m[w]->registerObject(W->obj[id].get());
  W->m[w]->setup(); W->dirty[w].clear(); W->need_setup[w] = false; W->suspect[w] = false; sim::count("probe.recovered");
}
static void step(const Op& o) {
  int w = o.i(0) & 1;
  auto slot = [&](int v) { return ((v % NSLOT) + NSLOT) % NSLOT; };
  sim::log("op %s", o.name.c_str());
  if (o.name == "mk") { int id = slot(o.i(0)); if (!W->obj[id]) set_slot(id, o); return; }
  if (o.name == "del") { int id = slot(o.i(0)); if (W->obj[id] && !W->in[0].count(id) && !W->in[1].count(id)) drop_slot(id); return; }
  if (o.name == "mv") {
    int id = slot(o.i(0)); if (!W->obj[id]) return; Obj* b = W->obj[id].get(); Transform3<S> t = pose(o.at(1), o.at(2), o.at(3), o.i(4));
    switch (o.i(5)) { case 1: b->setTranslation(t.translation()); break; case 2: b->setRotation(t.linear()); break; default: b->setTransform(t); }
    b->computeAABB(); refresh(id); sim::count(o.i(5) == 2 ? "op.rotate" : "op.move");
    for (int k = 0; k < 2; ++k) if (W->in[k].count(id)) W->dirty[k].insert(id);
    return;
  }
  if (o.name == "reg") { int id = slot(o.i(1)); if (!W->obj[id] || W->in[0].count(id) || W->in[1].count(id) || W->suspect[w]) return; sim::count("op.register");
    if (guarded(o, 2, [&] { W->m[w]->registerObject(W->obj[id].get()); })) { W->suspect[w] = true; W->tried = {id}; sim::count("probe.failed-mutation"); return; }
    W->in[w].insert(id); W->need_setup[w] = true; return; }
  if (o.name == "regs") { if (W->suspect[w]) return; std::vector<Obj*> v; std::vector<int> ids; for (size_t k = 2; k < o.a.size(); ++k) { int id = slot(o.i(k)); if (W->obj[id] && !W->in[0].count(id) && !W->in[1].count(id) && std::find(ids.begin(), ids.end(), id) == ids.end()) { ids.push_back(id); v.push_back(W->obj[id].get()); } }
    sim::count("op.register-batch");
    if (guarded(o, 1, [&] { W->m[w]->registerObjects(v); })) { W->suspect[w] = true; W->tried = ids; sim::count("probe.failed-mutation"); return; }
    for (int id : ids) W->in[w].insert(id); W->need_setup[w] = true; return; }
  if (o.name == "unreg" || o.name == "unregdel") { int id = slot(o.i(1)); if (!W->in[w].count(id) || W->suspect[w]) return;
    sim::count(W->dirty[w].count(id) ? "op.unregister-moved" : "op.unregister");
#if PROP != 3
    if (W->dirty[w].count(id)) { bring_up_to_date(w, 1); }
#endif
#if PROP != 3
    if (W->need_setup[w]) { W->m[w]->setup(); W->need_setup[w] = false; }
#endif
    if (guarded(o, 2, [&] { W->m[w]->unregisterObject(W->obj[id].get()); })) { W->suspect[w] = true; W->tried = {id}; sim::count("probe.failed-mutation"); return; }
    W->in[w].erase(id); W->dirty[w].erase(id); if (o.name == "unregdel") drop_slot(id); return; }
  if (o.name == "up") { if (W->suspect[w]) return; if (guarded(o, 2, [&] { bring_up_to_date(w, o.i(1)); })) { W->suspect[w] = true; sim::count("probe.failed-mutation"); } return; }
  if (o.name == "setup") { if (W->suspect[w]) return; sim::count("op.setup"); if (!W->dirty[w].empty()) return; if (guarded(o, 1, [&] { W->m[w]->setup(); })) { W->suspect[w] = true; return; } W->need_setup[w] = false; return; }
  if (o.name == "clear") { sim::count("op.clear"); if (guarded(o, 1, [&] { W->m[w]->clear(); })) { W->suspect[w] = true; return; } W->in[w].clear(); W->dirty[w].clear(); W->need_setup[w] = true; W->suspect[w] = false; return; }
  if (o.name == "qself") { sim::count("op.collide-self"); query(o, SELF, false); return; }
  if (o.name == "qobj") { sim::count("op.collide-object"); query(o, ONE, false); return; }
  if (o.name == "qcross") { sim::count("op.collide-cross"); query(o, CROSS, false); return; }
  if (o.name == "dself") { sim::count("op.distance-self"); query(o, SELF, true); return; }
  if (o.name == "dobj") { sim::count("op.distance-object"); query(o, ONE, true); return; }
  if (o.name == "dcross") { sim::count("op.distance-cross"); query(o, CROSS, true); return; }
}

static void execute(const Plan& p) {
  static World w; W = &w; w.plan = &p; w.kind = (int)p.get("kind"); sim::count((std::string("config.") + KIND[w.kind]).c_str());
  sim::heap_mark();
  // the world itself
  for (int k = 0; k < 2; ++k) w.m[k].reset(make_manager(p, k));
  for (auto& o : p.ops) {
    sim::step_budget(400000000);
    step(o);
    if (PROP == 5) for (int k = 0; k < 2; ++k) { poke(k); recover(k); }
    for (int k = 0; k < 2; ++k) if (!w.suspect[k] && PROP != 1 && PROP != 2) membership(k);
  }
  sim::step_budget(400000000);
  if (p.get("objfirst", 0) != 0) { for (int k = 0; k < 2; ++k) { w.m[k]->clear(); } for (int i = 0; i < NSLOT; ++i) if (w.obj[i]) drop_slot(i); for (int k = 0; k < 2; ++k) w.m[k].reset(); }
  else { for (int k = 0; k < 2; ++k) w.m[k].reset(); for (int i = 0; i < NSLOT; ++i) if (w.obj[i]) drop_slot(i); }
  for (int k = 0; k < 2; ++k) { w.in[k].clear(); w.dirty[k].clear(); }
  w.idx.clear(); std::vector<int>().swap(w.tried);
  std::string what; uint64_t n = sim::heap_live_since_mark(&what);
  if (n) sim::fail("leak", "%s: %lu blocks not released after everything was destroyed:%s", KIND[w.kind], (unsigned long)n, what.c_str());
}

static void generate(Rng& r, Plan& p, bool thorough) {
  int kind = (int)r.below(8); p.set("kind", kind);
  p.set("nonbal", r.pick<int>({0, 1, 2, 10})); p.set("incr", r.pick<int>({0, 1, 10, 40})); p.set("tdthr", r.pick<int>({1, 2, 2, 4, 16})); p.set("tdlev", r.below(2)); p.set("init", r.below(4));
  p.set("cell", r.pick<double>({0.5, 1, 2.5, 7, 20})); p.set("table", r.pick<int>({1, 3, 17, 100, 1000})); p.set("slo", -r.pick<double>({2, 8, 20})); p.set("shi", r.pick<double>({2, 8, 20})); if (r.chance(0.5)) p.set("cell2", r.pick<double>({0.5, 1, 3}));
  int nobj = r.pick<int>({0, 1, 2, 2, 3, 4, 6, 8, 12, 20, 32}); bool crowd = kind != 4 && kind != 5 && r.chance(thorough ? 0.15 : kind == 1 || kind == 3 ? 0.08 : 0.03); if (crowd) nobj = r.range(95, 155);
  // a small table with many cells is merely slow: bound the work of one object over all the cells
  for (const char* c : {"cell", "cell2"}) if (p.get(c, 0) > 0) while (true) { double n = std::pow(std::ceil((p.get("shi") - p.get("slo")) / p.get(c)) + 1, 3); if (n < 4000 && n * n / p.get("table") * (nobj + 1) < 1e6) break; p.set(c, p.get(c) * 1.5); }
  p.set("objfirst", r.below(2));
#if PROP == 5
  p.set("recover", r.below(2)); p.set("poke", r.below(32));
#endif
  double range = r.pick<double>({1, 4, 10, 10, 40, 1e4}), grid = r.pick<double>({0, 0, 1, 0.25});
  double smax = r.pick<double>({0.2, 1, 3, 3, 12}) * (range > 100 ? 100 : 1);
  if (crowd && r.chance(0.6)) { range = r.pick<double>({1, 4, 10}); smax = r.pick<double>({1, 3, 12}); }
  bool rots = r.chance(0.6), zeros = r.chance(0.25), plane = r.chance(0.1);
  auto co = [&] { double v = r.real(-range, range); if (r.chance(0.1)) v *= 3; if (grid > 0) v = std::round(v / grid) * grid; return v; };
  auto sz = [&] { double v = r.real(0.01, smax); if (grid > 0) v = std::round(v / grid) * grid; if (zeros && r.chance(0.3)) v = 0; return v; };
  auto rot = [&]() -> double { return rots && r.chance(0.5) ? (double)r.range(1, 1000) : 0; };
  double planes = plane ? 0.15 : 0;
  auto mk = [&](int id) { p.add("mk", {(double)id, r.chance(planes) ? 2.0 : (double)r.below(2), sz(), sz(), sz(), co(), co(), co(), rot()}); };
  auto fault = [&]() -> double {
#if PROP == 5
    return r.chance(0.35) ? (double)(r.chance(0.7) ? r.below(6) : r.below(40)) : -1;
#else
    return -1;
#endif
  };
  auto intr = [&]() -> double {
#if PROP == 4
    if (r.chance(0.7)) { double k = r.chance(0.6) ? r.range(1, 3) : r.range(1, 20); return r.chance(0.5) ? k : -k; }
#endif
    return 0; };
  auto Qop = [&](const char* n) { bool d = n[0] == 'd'; p.add(n, {(double)r.below(2), (double)r.below(nobj + 1), (double)r.below(256), intr(), d && r.chance(0.4) ? r.pick<double>({0.5, 5, 50}) : 0, d ? (double)r.below(2) : 0, fault()}); };
  for (int i = 0; i < nobj; ++i) mk(i);
  double cross = r.pick<double>({0, 0.2, 0.5});
  auto side = [&]() -> double { return r.chance(cross) ? 1 : 0; };
  if (r.chance(0.7)) { for (int w = 0; w < 2; ++w) { std::vector<double> a = {(double)w, fault()}; for (int i = 0; i < nobj; ++i) if (r.chance(w ? cross : 0.9)) a.push_back(i); p.add("regs", a); } }
  else for (int i = 0; i < nobj; ++i) p.add("reg", {side(), (double)i, fault()});
  int n = r.pick<int>({5, 10, 20, 40}); if (thorough) n *= 2;
  double pm = r.real(0.1, 3), pr = r.real(0.05, 1.5), pu = r.real(0.05, 1.5), pq = r.real(0.3, 2), pup = r.real(0, 1), pc = r.chance(0.3) ? 0.2 : 0.02;
#if PROP == 3
  pr *= 2; pu *= 2; pc *= 3;
#endif
  double qc = 1, qd = 1;
#if PROP == 1
  qd = 0.05;
#elif PROP == 2
  qc = 0.05;
#endif
  for (int k = 0; k < n; ++k) {
    double t = r.unit() * (pm + pr + pu + pq + pup + pc + 0.1);
    if ((t -= pm) < 0) { int id = (int)r.below(nobj + 1); double f = rots ? (double)r.pick<int>({0, 0, 1, 2, 2}) : (double)r.below(2);
      if (r.chance(0.4)) { /* a burst of moves */ int b = r.range(1, 6); for (int q = 0; q < b; ++q) p.add("mv", {(double)r.below(nobj + 1), co(), co(), co(), rot(), f}); }
      else p.add("mv", {(double)id, co(), co(), co(), rot(), f}); }
    else if ((t -= pr) < 0) { int id = (int)r.below(std::min(NSLOT, nobj + 6)); if (r.chance(0.3)) { std::vector<double> a = {(double)r.below(2), fault()}; int b = r.range(1, 8); for (int q = 0; q < b; ++q) a.push_back(r.below(std::min(NSLOT, nobj + 6))); p.add("regs", a); } else { mk(id); p.add("reg", {side(), (double)id, fault()}); } }
    else if ((t -= pu) < 0) p.add(r.chance(0.6) ? "unregdel" : "unreg", {(double)r.below(2), (double)r.below(nobj + 1), fault()});
    else if ((t -= pq) < 0) { double u = r.unit() * (qc + qd); const char* cs[3] = {"qself", "qobj", "qcross"}; const char* ds[3] = {"dself", "dobj", "dcross"}; int f = (int)r.below(3); Qop(u < qc ? cs[f] : ds[f]); }
    else if ((t -= pup) < 0) p.add("up", {(double)r.below(2), (double)r.below(16), fault()});
    else if ((t -= pc) < 0) p.add("clear", {(double)r.below(2), fault()});
    else p.add("setup", {(double)r.below(2), fault()});
  }
#if PROP != 2
  Qop("qself"); Qop("qobj"); Qop("qcross");
#endif
#if PROP != 1
  Qop("dself"); Qop("dobj"); Qop("dcross");
#endif
}

sim::Check sim::the_check = {"C0" STR(PROP), generate, execute};

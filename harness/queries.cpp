// C10 independence of queries, C06 concurrent queries, C05 failing allocations in queries.
#include "scene.h"
#include "managers.h"
using namespace sc;
using sim::Plan; using sim::Op;
#ifndef PROP
#define PROP 10
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
static Scene W;
static void build_scene(const Plan& p) { for (auto& o : p.ops) if (o.name == "geom") { int k = ((o.i(1) % NKIND) + NKIND) % NKIND; W.g.push_back(make_geom((uint64_t)o.at(0), k, std::max(1, o.i(2, 8)))); W.kind.push_back(k); } if (W.g.empty()) { W.g.push_back(make_geom(1, SPHERE)); W.kind.push_back(SPHERE); } }
static void gen_scene(Rng& r, Plan& p, int ng, double pm) {
  int focus = (int)r.below(4);  // mixed, shapes, meshes of one kind and shapes, octrees
  int mk = MESH0 + (int)r.below(8);
  for (int i = 0; i < ng; ++i) { int k; double u = r.unit(); if (focus == 1) k = (int)r.below(OCTREE); else if (focus == 2) k = u < 0.7 ? mk : (int)r.below(OCTREE); else if (focus == 3) k = u < 0.4 ? OCTREE : (int)r.below(NKIND); else k = u < pm ? MESH0 + (int)r.below(8) : (int)r.below(MESH0); p.add("geom", {(double)r.below(1000000), (double)k, (double)(k == OCTREE ? r.pick<int>({1, 3, 8}) : r.pick<int>({1, 4, 10, 24}))}); }
}
static std::vector<double> gen_query(Rng& r, int ng) {
  int kind = r.pick<int>({0, 0, 0, 0, 1, 1, 1, 2, 3, 4}); int fl = (int)r.below(16) | ((int)r.below(4) << 4) | (r.chance(0.25) ? 128 : 0) | (r.chance(0.5) ? 512 : 0); if (!r.chance(0.3)) fl &= ~(kind == 0 ? 2 : 0);
  return {(double)r.below(ng), (double)r.below(ng), (double)kind, (double)r.below(1000000), r.pick<double>({0.2, 0.7, 1.5, 4}), (double)r.below(2), (double)fl, (double)r.pick<int>({1, 1, 2, 5, 100})};
}
#if PROP == 10
static CollisionResult<S> cslot[3]; static DistanceResult<S> dslot[3];
struct CSnap { std::vector<Contact<S>> c; };
static bool same_contact(const Contact<S>& a, const Contact<S>& b) { return a.o1 == b.o1 && a.o2 == b.o2 && a.b1 == b.b1 && a.b2 == b.b2 && !memcmp(a.pos.data(), b.pos.data(), 24) && !memcmp(a.normal.data(), b.normal.data(), 24) && !memcmp(&a.penetration_depth, &b.penetration_depth, 8); }
static void execute(const Plan& p) {
  build_scene(p); sim::step_budget(4000000000ull); std::vector<uint64_t> gh; for (size_t i = 0; i < W.g.size(); ++i) gh.push_back(geom_hash(W.g[i].get(), W.kind[i]));
  std::vector<const Op*> ops; for (auto& o : p.ops) if (o.name == "q" || o.name == "acc" || o.name == "warm" || o.name == "clr") ops.push_back(&o);
  if (ops.size() > 60) ops.resize(60);
  // the outcome of each query made alone, in a process that has made no other query
  std::vector<Outcome> ref(ops.size()), all(ops.size()); int mode = (int)p.get("mode"); std::vector<std::pair<int, int>> todo;
  for (size_t i = 0; i < ops.size(); ++i) { if (ops[i]->name == "clr") continue; todo.push_back({(int)i, 0}); if (ops[i]->name == "acc") todo.push_back({(int)i, 1}); }
  auto one = [&](std::pair<int, int> t) { Query q = make_query(*ops[t.first], W); if (t.second) q.maxc = 100000; if (t.second && q.kind != COLLIDE) return Outcome(); return run_fresh(W, q); };
  auto keep = [&](std::pair<int, int> t) -> Outcome& { return t.second ? all[t.first] : ref[t.first]; };
  char* sb = (char*)sim::shared_block();
  if (mode == 0) { for (auto& t : todo) { sim::fork_run(1, [&] { sim::count("fault.heap-moved-and-refilled"); sim::heap_reseed((uint64_t)p.get("hs") + t.first, (int)p.get("fill2")); Outcome o = one(t); if (o.d.size() > 30000) o.d.resize(30000); store(sb, o); }); fetch(sb, keep(t)); } }
  else { Rng sh((uint64_t)p.get("hs")); for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[sh.below(i)]);
    sim::count("fault.heap-moved-and-refilled"); sim::fork_run(1, [&] { sim::heap_reseed((uint64_t)p.get("hs"), (int)p.get("fill2")); char* q = sb; for (auto& t : todo) { Outcome o = one(t); if (o.d.size() > 300) { o.d.resize(300); } q = store(q, o); } });
    const char* q = sb; for (auto& t : todo) q = fetch(q, keep(t)); }
  size_t cap = mode == 0 ? 30000 : 300; V3 guess(1, 0, 0); bool have_guess = false;
  for (size_t i = 0; i < ops.size(); ++i) {
    const Op& o = *ops[i]; if (o.name == "clr") { int s = std::abs(o.i(0)) % 3; if (o.i(1) & 1) cslot[s].clear(); else dslot[s].clear(); continue; }
    Query q = make_query(o, W); std::string d = describe(W, q);
    if (o.name == "q") { Outcome x = run_fresh(W, q); if (x.d.size() > cap) x.d.resize(cap); if (!x.same(ref[i])) sim::fail("history-dependent", "%s: after other queries %s; alone %s", d.c_str(), x.show().c_str(), ref[i].show().c_str()); sim::logd("ret", x.ret); sim::sig((q.kind * 40 + W.kind[q.a]) * 40 + W.kind[q.b] + (x.d.empty() ? 0 : x.d[0] > 0 ? 100000 : 200000)); sim::count("probe.repeated"); }
    else if (o.name == "warm") {
      if (q.kind != COLLIDE) continue; Outcome cold = ref[i]; if (cold.thrown) continue; q.warm = true; int gm = o.i(8); Rng g((uint64_t)o.at(9) + 1); q.guess = gm == 0 && have_guess ? guess : gm == 1 ? V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)) : gm == 2 ? V3(g.real(-1e3, 1e3), g.real(-1e3, 1e3), g.real(-1e3, 1e3)) : V3(1, 0, 0);
      Query dq = q; dq.warm = false; dq.kind = DISTANCE; dq.flags &= ~3; dq.solver = 0; Query deep = q; deep.warm = false; deep.flags |= 1; deep.flags &= ~2; deep.maxc = 100000;
      CollisionResult<S> rs; Outcome x; guarded(x, [&] { return run_collide(W, q, rs); });
      bool hit0 = cold.d[0] > 0, hit1 = !x.thrown && rs.numContacts() > 0;
      if (x.thrown || hit0 != hit1) { // only where the pair is neither touching nor nearly so
        double gap = -1; DistanceResult<S> dr; Outcome dx; if (W.kind[q.a] != PLANE && W.kind[q.a] != HALFSPACE && W.kind[q.b] != PLANE && W.kind[q.b] != HALFSPACE) guarded(dx, [&] { return run_distance(W, dq, dr); }); else dx.thrown = 1; if (!dx.thrown) gap = dr.min_distance;
        double depth = 0; CollisionResult<S> cr; guarded(dx, [&] { return run_collide(W, deep, cr); }); for (size_t k = 0; k < cr.numContacts(); ++k) depth = std::max(depth, cr.getContact(k).penetration_depth);
        bool clear = hit0 ? depth > 1e-2 : (gap > 1e-2 && gap < 1e100);
        if (clear) sim::fail("warm-start", "%s: with a warm-start guess (%g %g %g) %s; without %s (gap %.4g depth %.4g)", d.c_str(), q.guess[0], q.guess[1], q.guess[2], x.thrown ? "an exception" : hit1 ? "a collision" : "no collision", hit0 ? "a collision" : "none", gap, depth);
        sim::count("probe.warm-borderline"); } else sim::count(hit0 ? "probe.warm-hit" : "probe.warm-miss");
      if (!x.thrown) { guess = rs.cached_gjk_guess; have_guess = guess.allFinite(); }
    } else if (o.name == "acc" && q.kind == COLLIDE) {
      CollisionResult<S>& r = cslot[std::abs(o.i(8)) % 3]; std::vector<Contact<S>> before; r.getContacts(before); std::vector<CostSource<S>> cbefore; r.getCostSources(cbefore); Outcome x; guarded(x, [&] { return run_collide(W, q, r); });
      size_t k = before.size(), n = r.numContacts(); if (n < k) sim::fail("contact-lost", "%s: %lu accumulated contacts became %lu", d.c_str(), (unsigned long)k, (unsigned long)n);
      for (size_t j = 0; j < k; ++j) if (!same_contact(r.getContact(j), before[j])) sim::fail("contact-altered", "%s: accumulated contact %lu of %lu changed", d.c_str(), (unsigned long)j, (unsigned long)k);
      size_t lim = std::max(k, (size_t)q.maxc); if (n > lim) sim::fail("too-many-contacts", "%s: %lu contacts accumulated, %d requested, %lu there before", d.c_str(), (unsigned long)n, q.maxc, (unsigned long)k);
      if (q.flags & 2) if (r.numCostSources() > 3) sim::fail("too-many-costs", "%s: %lu cost sources, 3 requested", d.c_str(), (unsigned long)r.numCostSources());
      if (!x.thrown && !all[i].thrown && all[i].d.size() < cap) { size_t full = (size_t)all[i].d[0], want = std::min(lim, k + full); if (n != want) sim::fail("contact-count", "%s: %lu contacts after a query that alone finds %lu, with %lu there before and %d requested", d.c_str(), (unsigned long)n, (unsigned long)full, (unsigned long)k, q.maxc);
        size_t per = (q.flags & 1) ? 11 : 4; for (size_t j = k; j < n; ++j) { Outcome c; put_contact(c, W, r.getContact(j), q.flags & 1); bool f = false; for (size_t m = 0; m < full && !f; ++m) f = !memcmp(c.d.data(), &all[i].d[1 + m * per], 8 * per); if (!f) sim::fail("contact-unknown", "%s: accumulated contact is none of those the query finds alone", d.c_str()); } }
      if ((q.flags & 2) && q.maxc && !x.thrown && !all[i].thrown && all[i].d.size() < cap && r.numCostSources() <= 3) {  // the three most costly of those there and those the query finds, however many contacts are wanted
        typedef std::array<double, 8> C8; std::set<C8> u; auto key = [](const CostSource<S>& c) { C8 a = {{c.total_cost, c.cost_density, c.aabb_min[0], c.aabb_min[1], c.aabb_min[2], c.aabb_max[0], c.aabb_max[1], c.aabb_max[2]}}; return a; };
        for (auto& c : cbefore) u.insert(key(c)); size_t per = (q.flags & 1) ? 11 : 4, at = 1 + (size_t)all[i].d[0] * per, nc = (size_t)all[i].d.at(at);
        for (size_t m = 0; m < nc; ++m) { const double* e = &all[i].d[at + 1 + 8 * m]; C8 a = {{e[7], e[6], e[0], e[1], e[2], e[3], e[4], e[5]}}; u.insert(a); }
        std::vector<CostSource<S>> cs; r.getCostSources(cs); std::vector<double> want, got; for (auto it = u.rbegin(); it != u.rend() && want.size() < 3; ++it) want.push_back((*it)[0]); for (auto& c : cs) { got.push_back(c.total_cost); if (std::isfinite(c.total_cost) && !u.count(key(c))) sim::fail("cost-unknown", "%s: an accumulated cost source is none of those there before or found by the query alone", d.c_str()); }
        std::sort(got.rbegin(), got.rend()); bool fin = true; for (auto& a : u) fin = fin && std::isfinite(a[0]);  // parts of unbounded shapes
        if (fin && got != want) sim::fail("cost-lost", "%s: %lu cost sources kept, the most costly %.9g; expected %lu, %.9g", d.c_str(), (unsigned long)got.size(), got.empty() ? -1 : got[0], (unsigned long)want.size(), want.empty() ? -1 : want[0]); if (nc) sim::count("probe.costs-ranked"); }
      sim::count("probe.accumulated"); sim::sig(n * 7 + k);
    } else if (o.name == "acc" && q.kind == DISTANCE) {
      DistanceResult<S>& r = dslot[std::abs(o.i(8)) % 3]; double before = r.min_distance; const CollisionGeometry<S>*o1 = r.o1, *o2 = r.o2; long b1 = r.b1, b2 = r.b2; Outcome x; guarded(x, [&] { return run_distance(W, q, r); });
      if (!(r.min_distance <= before)) sim::fail("minimum-increased", "%s: the running minimum distance %.9g became %.9g", d.c_str(), before, r.min_distance);
      if (r.min_distance == before && (r.o1 != o1 || r.o2 != o2 || r.b1 != b1 || r.b2 != b2)) sim::fail("pair-altered", "%s: the closest pair changed although the distance %.9g did not", d.c_str(), before);
      if (!x.thrown && !ref[i].thrown && before > 0) { double alone = ref[i].d[0], want = std::min(before, alone); double tol = 1e-9 * std::max(1.0, std::fabs(want)); if (std::fabs(r.min_distance - want) > tol && !(want <= 0 && r.min_distance <= 0 && !(q.flags & 2))) sim::fail("wrong-minimum", "%s: the running minimum is %.12g; it was %.12g and the query alone gives %.12g", d.c_str(), r.min_distance, before, alone); }
      if (r.min_distance < before && (r.o1 == nullptr || !((r.o1 == W.g[q.a].get() && r.o2 == W.g[q.b].get()) || (r.o2 == W.g[q.a].get() && r.o1 == W.g[q.b].get())))) sim::fail("wrong-pair", "%s: the result names other objects", d.c_str());
      sim::count("probe.minimum"); sim::sig(r.min_distance < before);
    } else { Outcome x = run_fresh(W, q); if (x.d.size() > cap) x.d.resize(cap); if (!x.same(ref[i])) sim::fail("history-dependent", "%s: after other queries %s; alone %s", d.c_str(), x.show().c_str(), ref[i].show().c_str()); }
    for (size_t k = 0; k < W.g.size(); ++k) if (geom_hash(W.g[k].get(), W.kind[k]) != gh[k]) sim::fail("geometry-changed", "%s changed the %s it was given", d.c_str(), GN[W.kind[k]]);
  }
}
static void generate(Rng& r, Plan& p, bool thorough) {
  int ng = r.range(2, 5); gen_scene(r, p, ng, 0.4); p.set("mode", r.chance(0.5)); p.set("hs", r.below(1000000)); p.set("fill2", r.pick<int>({0, 255, 127, 63}));
  int n = r.range(2, thorough ? 16 : 9); double pa = r.pick<double>({0, 0.3, 0.7}), pw = r.pick<double>({0, 0.2, 0.5}); std::vector<std::vector<double>> past;
  for (int i = 0; i < n; ++i) { std::vector<double> a = !past.empty() && r.chance(0.3) ? r.pick(past) : gen_query(r, ng); if (!past.empty() && r.chance(0.1)) a = gen_query(r, ng); past.push_back(a);
    double u = r.unit(); if (u < pa) { if (r.chance(0.1)) p.add("clr", {(double)r.below(3), (double)r.below(2)}); if (a[2] > 1) a[2] = r.below(2); a.push_back((double)r.below(r.pick<int>({1, 2, 3}))); p.add("acc", a); } else if (u < pa + pw) { a[2] = 0; a[5] = r.chance(0.9); a.push_back((double)r.below(4)); a.push_back((double)r.below(1000000)); p.add("warm", a); } else p.add("q", a); }
}
#endif
#if PROP == 6
static void schedule_knobs(Rng& r, Plan& p, int horizon) { p.set("strat", r.below(3)); p.set("mean", r.pick<int>({3, 10, 50, 200, 1000})); p.set("hotp", r.pick<double>({0.01, 0.05, 0.3})); p.set("npct", r.range(1, 5)); p.set("horizon", r.pick<int>({horizon / 50, horizon / 8, horizon, horizon * 4})); p.set("sseed", r.below(1000000)); }
static const int NOBJ = 24; static std::vector<std::shared_ptr<Obj>> objs; static std::vector<int> og; static std::unique_ptr<Mgr> mg[2];
static int oid(const Obj* o) { for (size_t i = 0; i < objs.size(); ++i) if (objs[i].get() == o) return (int)i;
  if (mg_kind >= 6) for (int k : og) if (W.kind[k] == OCTREE) { sim::count("probe.octree-cell"); Hash h; h.v(o->getAABB().min_); h.v(o->getAABB().max_); return -10 - (int)(h.h % 1000000); }  // a cell of an octree
  sim::fail("wrong-objects", "a broad-phase callback received an object that is not registered"); }
struct CB { Outcome* o; int stop; int n = 0; int narrow; double min = std::numeric_limits<double>::max(); };
static bool cb_collide(Obj* a, Obj* b, void* d) {
  CB* c = (CB*)d; int i = oid(a), j = oid(b); double h = -1;
  if (c->narrow == 1 || c->narrow == 2) { CollisionRequest<S> rq(c->narrow == 1 ? 1 : 5, c->narrow == 2, 1, false, true, c->narrow == 1 ? GST_LIBCCD : GST_INDEP); CollisionResult<S> rs; try { h = (double)collide(a, b, rq, rs); } catch (const std::exception&) { h = -2; } if (c->narrow == 2 && i >= 0 && j >= 0) for (size_t k = 0; k < rs.numContacts(); ++k) { sim::Quiet q; put_contact(*c->o, W, rs.getContact(k), true); } }
  sim::Quiet q; sim::NoFault nf; c->o->d.push_back(i); c->o->d.push_back(j); c->o->d.push_back(h); return ++c->n >= c->stop;
}
static bool cb_distance(Obj* a, Obj* b, void* d, S& dist) {
  CB* c = (CB*)d; int i = oid(a), j = oid(b); double v = a->getAABB().distance(b->getAABB()); auto unb = [&](int x) { if (x < 0) return false; int k = W.kind[og[x]]; return k == PLANE || k == HALFSPACE; };
  if (c->narrow && !unb(i) && !unb(j)) { DistanceRequest<S> rq(c->narrow == 2, false, 0, 0, 1e-6, c->narrow == 1 ? GST_LIBCCD : GST_INDEP); DistanceResult<S> rs; try { v = distance(a, b, rq, rs); } catch (const std::exception&) { v = 0; } }
  { sim::Quiet q; sim::NoFault nf; c->o->d.push_back(i); c->o->d.push_back(j); c->o->d.push_back(v); }
  if (v < c->min) c->min = v; dist = c->min; return ++c->n >= c->stop || c->min <= 0;
}
static Outcome run_manager(const Op& o) {  // thread, manager, form, distance?, object, narrow, stop
  sim::stack_refill();
  Outcome x; CB c; c.o = &x; c.narrow = std::abs(o.i(5)) % 3; c.stop = o.i(6) > 0 ? o.i(6) : 1 << 30; int w = o.i(1) & 1, form = std::abs(o.i(2)) % 3; Mgr* m = mg[w].get(); bool dist = o.i(3) & 1; Obj* q = objs.empty() ? nullptr : objs[std::abs(o.i(4)) % objs.size()].get();
  if (form == 1 && !q) form = 0;
  guarded(x, [&] { if (dist) { if (form == 0) m->distance(&c, cb_distance); else if (form == 1) m->distance(q, &c, cb_distance); else m->distance(mg[1 - w].get(), &c, cb_distance); } else { if (form == 0) m->collide(&c, cb_collide); else if (form == 1) m->collide(q, &c, cb_collide); else m->collide(mg[1 - w].get(), &c, cb_collide); } return (double)m->size() + 0.5 * m->empty(); });
  return x;
}
static std::vector<const Op*> ops; static std::vector<Query> qs; static uint64_t ilv = 1;
static Outcome run_op(size_t i) {
  const Op& o = *ops[i]; if (o.name == "m") return run_manager(o); const Query& q = qs[i]; if (o.name == "q") return run_fresh(W, q);
  Outcome y = run_fresh(W, q), x; x.thrown = y.thrown; x.ret = y.ret; double v = W.g[q.a]->computeVolume(); V3 c = W.g[q.b]->computeCOM(); bool ov = !q.xa || q.xa->getAABB().overlap(q.xb->getAABB()); sim::Quiet qq; x.d.push_back(ov); x.d.push_back(v); put(x, c); x.d.insert(x.d.end(), y.d.begin(), y.d.end()); return x;
}
static std::string show_op(size_t i) { const Op& o = *ops[i]; if (o.name == "m") { char t[200]; snprintf(t, sizeof t, "%s %s %s query", MGRNAME[mg_kind & 7], (o.i(2) % 3) == 0 ? "self" : (o.i(2) % 3) == 1 ? "object" : "cross-manager", o.i(3) & 1 ? "distance" : "collision"); return t; } return describe(W, qs[i]); }
static void execute(const Plan& p) {
  build_scene(p); mg_kind = (int)p.get("mgr"); for (auto& g : W.g) g->computeLocalAABB();
  for (int k = 0; k < 2; ++k) { mg[k].reset(make_manager(p, mg_kind, k)); if (mg_kind >= 6) { bool b = p.get("ocg") != 0; if (mg_kind == 6) { auto* t = static_cast<DynamicAABBTreeCollisionManager<S>*>(mg[k].get()); t->octree_as_geometry_collide = b; t->octree_as_geometry_distance = true; } else { auto* t = static_cast<DynamicAABBTreeCollisionManager_Array<S>*>(mg[k].get()); t->octree_as_geometry_collide = b; t->octree_as_geometry_distance = true; } } }
  for (auto& o : p.ops) if (o.name == "obj" && (int)objs.size() < NOBJ) { int g = std::abs(o.i(0)) % (int)W.g.size(); if ((W.kind[g] == PLANE || W.kind[g] == HALFSPACE) && (mg_kind == 4 || mg_kind == 5)) continue; Rng r((uint64_t)o.at(1) * 13 + 1); auto x = std::make_shared<Obj>(W.g[g], rnd_pose(r, o.at(2, 2), r.chance(0.6))); x->computeAABB(); objs.push_back(x); og.push_back(g); mg[std::abs(o.i(3)) % 2]->registerObject(x.get()); }
  for (int k = 0; k < 2; ++k) mg[k]->setup();
  sim::step_budget(4000000000ull); int nt = std::max(1, std::min(4, (int)p.get("nt", 2))); std::vector<std::vector<int>> of(nt);
  for (auto& o : p.ops) if ((o.name == "q" || o.name == "m" || o.name == "own") && ops.size() < 12) { of[std::abs(o.i(0)) % nt].push_back((int)ops.size()); ops.push_back(&o); Op x = o; x.a.erase(x.a.begin()); Query q = make_query(x, W); if (o.name != "m" && (q.flags & 4)) { q.xa = std::make_shared<Obj>(W.g[q.a], q.t1); q.xb = std::make_shared<Obj>(W.g[q.b], q.t2); } qs.push_back(q); }
  std::vector<Outcome> ref(ops.size()), got(ops.size()); char* sb = (char*)sim::shared_block(); const size_t cap = 1500;
  double cost[16] = {0}; size_t off = 200000; double* sc = (double*)(sb + off);
  sim::fork_run(1, [&] { sim::heap_reseed((uint64_t)p.get("sseed"), (int)p.get("fill2", 0)); char* q = sb; for (size_t i = 0; i < ops.size(); ++i) { uint64_t s0 = sim::steps(); Outcome x = run_op(i); sc[i] = (double)(sim::steps() - s0); if (x.d.size() > cap) x.d.resize(cap); q = store(q, x); } }); { const char* q = sb; for (auto& r : ref) q = fetch(q, r); }
  // a query of very many steps is left out of the concurrent part, where each step costs more
  for (size_t i = 0; i < ops.size(); ++i) cost[i] = sc[i]; double total = 0; std::vector<char> out(ops.size(), 0); for (size_t i = 0; i < ops.size(); ++i) { if (total + cost[i] > 4e7) { out[i] = 1; sim::count("probe.too-long-for-threads"); } else total += cost[i]; }
  if (p.get("warm") != 0) { for (size_t i = 0; i < ops.size(); ++i) if (!out[i]) run_op(i); } else sim::count("probe.tables-not-yet-made");
  std::vector<uint64_t> gh; for (size_t i = 0; i < W.g.size(); ++i) gh.push_back(geom_hash(W.g[i].get(), W.kind[i]));
  std::vector<std::function<void()>> bodies; for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { for (int i : of[t]) { if (out[i]) continue; { sim::Quiet q; ilv = ilv * 1099511628211ull ^ (uint64_t)(t * 64 + i * 2 + 1) ^ (sim::preemptions() << 20); } Outcome x = run_op(i); sim::Quiet q; sim::NoFault nf; ilv = ilv * 1099511628211ull ^ (uint64_t)(t * 64 + i * 2) ^ (sim::preemptions() << 20); if (x.d.size() > cap) x.d.resize(cap); got[i] = x; } });
  sim::run_threads(bodies); sim::sig(ilv); { Hash h; for (auto& g : got) for (double d : g.d) h.pod(d); sim::sig(h.h); }
  for (size_t i = 0; i < ops.size(); ++i) { if (out[i]) continue; if (!got[i].same(ref[i])) sim::fail("schedule-dependent", "%s: with other threads %s; alone %s", show_op(i).c_str(), got[i].show().c_str(), ref[i].show().c_str()); sim::count(ops[i]->name == "m" ? "probe.manager-query-compared" : "probe.query-compared"); sim::logd("ret", got[i].ret); for (double d : got[i].d) sim::logd("d", d); }
  for (size_t k = 0; k < W.g.size(); ++k) if (geom_hash(W.g[k].get(), W.kind[k]) != gh[k]) sim::fail("geometry-changed", "concurrent queries changed the %s they were given", GN[W.kind[k]]);
  for (int k = 0; k < 2; ++k) mg[k].reset();
}
static void generate(Rng& r, Plan& p, bool thorough) {
  int ng = r.range(1, 4); gen_scene(r, p, ng, 0.5); int nt = r.pick<int>({2, 2, 3, 4}); p.set("nt", nt); p.set("fill2", r.pick<int>({0, 255, 127, 63})); p.set("mgr", r.below(8)); p.set("warm", r.chance(0.5)); p.set("ocg", r.below(2)); gen_manager(r, p); schedule_knobs(r, p, 20000);
  int no = r.pick<int>({0, 2, 4, 8}); double pm = no ? r.pick<double>({0.2, 0.5, 0.9}) : 0; double range = r.pick<double>({1, 2, 5});
  for (int i = 0; i < no; ++i) p.add("obj", {(double)r.below(ng), (double)r.below(100000), range, (double)r.below(2)});
  int n = r.range(2, thorough ? 10 : 6); bool same = r.chance(0.3); std::vector<double> last; std::string ln;
  for (int i = 0; i < n; ++i) {
    double t = i < nt ? i : (double)r.below(nt); std::vector<double> a; std::string nm;
    if (same && !last.empty() && r.chance(0.6)) { a = last; nm = ln; } else if (r.chance(pm)) { nm = "m"; a = {0, (double)r.below(2), (double)r.below(3), (double)r.chance(0.4), (double)r.below(NOBJ), (double)r.below(3), r.chance(0.3) ? (double)r.range(1, 4) : 0}; } else { nm = r.chance(0.25) ? "own" : "q"; a = gen_query(r, ng); a.insert(a.begin(), 0); }
    last = a; ln = nm; a[0] = t; p.add(nm, a);
  }
}
#endif
#if PROP == 5
// each query with failing allocations: it must fail or answer as if nothing had happened, leave what it was given alone, lose no memory and be repeatable
static std::vector<std::shared_ptr<Obj>> objs;
static void execute(const Plan& p) {
  build_scene(p); sim::step_budget(4000000000ull); std::vector<uint64_t> gh; for (size_t i = 0; i < W.g.size(); ++i) gh.push_back(geom_hash(W.g[i].get(), W.kind[i]));
  int n = 0;
  for (auto& o : p.ops) {
    if (o.name != "q" || ++n > 12) continue; Query q = make_query(o, W); std::string d = describe(W, q), what; { Outcome warm = run_fresh(W, q); (void)warm; }
    uint64_t a0 = sim::allocs(); Outcome ref = run_fresh(W, q); uint64_t made = sim::allocs() - a0; sim::logd("ret", ref.ret); sim::logd("made", (double)made); if (made > 4000) { sim::count("probe.too-many-allocations"); continue; }
    Rng r((uint64_t)o.at(8) * 17 + 5); int m = made == 0 ? 1 : (int)std::min<uint64_t>(made, 6);
    for (int j = 0; j < m; ++j) {
      int64_t k = m == (int)made ? j : j == 0 ? 0 : j == 1 ? (int64_t)made - 1 : (int64_t)r.below(made); sim::heap_mark(); { sim::fail_alloc_at(k); Outcome x = run_fresh(W, q); bool fired = sim::alloc_fault_fired(); sim::fail_alloc_at(-1);
        if (x.thrown == 2 && !fired) sim::fail("unexpected-exception", "%s: bad_alloc without an injected failure", d.c_str());
        if (x.thrown != 2 && !x.same(ref)) sim::fail(fired ? "failure-hidden" : "history-dependent", "%s with allocation %ld of %lu failing: %s; without failure %s", d.c_str(), (long)k, (unsigned long)made, x.show().c_str(), ref.show().c_str());
        sim::count(x.thrown == 2 ? "probe.query-failed" : fired ? "probe.failure-absorbed" : "probe.no-allocation"); sim::sig((((uint64_t)q.kind * 40 + W.kind[q.a]) * 40 + W.kind[q.b]) * 8 + x.thrown); }
      uint64_t left = sim::heap_live_since_mark(&what); if (left) sim::fail("leak", "%s with allocation %ld of %lu failing: %lu blocks not released:%s", d.c_str(), (long)k, (unsigned long)made, (unsigned long)left, what.c_str());
      for (size_t i = 0; i < W.g.size(); ++i) if (geom_hash(W.g[i].get(), W.kind[i]) != gh[i]) sim::fail("geometry-changed", "%s with a failing allocation changed the %s", d.c_str(), GN[W.kind[i]]);
    }
    Outcome again = run_fresh(W, q); if (!again.same(ref)) sim::fail("not-repeatable", "%s after failing allocations: %s; before %s", d.c_str(), again.show().c_str(), ref.show().c_str()); sim::count("probe.repeated-after-failure");
  }
}
static void generate(Rng& r, Plan& p, bool thorough) {
  int ng = r.range(1, 4); gen_scene(r, p, ng, 0.5); int n = r.range(1, thorough ? 8 : 4);
  for (int i = 0; i < n; ++i) { std::vector<double> a = gen_query(r, ng); a.push_back((double)r.below(1000000)); p.add("q", a); }
}
#endif
sim::Check sim::the_check = {PROP == 5 ? "C05" : PROP == 6 ? "C06" : "C10", generate, execute};

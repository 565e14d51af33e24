// Broad-phase managers of all kinds, made from the knobs of a plan.
#pragma once
#include <cmath>
#include "simrt.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/narrowphase/collision_object.h"
typedef fcl::CollisionObject<double> Obj; typedef fcl::BroadPhaseCollisionManager<double> Mgr;
static const char* MGRNAME[8] = {"naive", "ssap", "sap", "interval", "hash-dense", "hash-sparse", "tree", "tree-array"};
static int mg_kind = 0;
template <class T> static Mgr* tree_manager(const sim::Plan& p) { auto* t = new T(); t->max_tree_nonbalanced_level = (int)p.get("nonbal", 10); t->tree_incremental_balance_pass = (int)p.get("incr", 10); t->tree_topdown_balance_threshold = (int)p.get("tdthr", 2); t->tree_topdown_level = (int)p.get("tdlev", 0); t->tree_init_level = (int)p.get("init", 0); return t; }
static Mgr* make_manager(const sim::Plan& p, int kind, int which) {
  using namespace fcl; typedef double S;
  switch (kind) {
    case 0: return new NaiveCollisionManager<S>();
    case 1: return new SSaPCollisionManager<S>();
    case 2: return new SaPCollisionManager<S>();
    case 3: return new IntervalTreeCollisionManager<S>();
    case 4: case 5: {
      double c = p.get("cell", 1), lo = p.get("slo", -8), hi = p.get("shi", 8); unsigned n = (unsigned)p.get("table", 100);
      if (which && p.get("cell2", 0) > 0) { c = p.get("cell2"); n = n / 2 + 1; }
      Vector3<S> mn(lo, lo, lo), mx(hi, hi, hi);
      if (kind == 4) return new SpatialHashingCollisionManager<S>(c, mn, mx, n);
      return new SpatialHashingCollisionManager<S, fcl::detail::SparseHashTable<AABB<S>, CollisionObject<S>*, fcl::detail::SpatialHash<S>>>(c, mn, mx, n);
    }
    case 6: return tree_manager<DynamicAABBTreeCollisionManager<S>>(p);
    default: return tree_manager<DynamicAABBTreeCollisionManager_Array<S>>(p);
  }
}
static void gen_manager(sim::Rng& r, sim::Plan& p) {
  p.set("nonbal", r.pick<int>({0, 1, 2, 10})); p.set("incr", r.pick<int>({0, 1, 10, 40})); p.set("tdthr", r.pick<int>({1, 2, 2, 4, 16})); p.set("tdlev", r.below(2)); p.set("init", r.below(4));
  p.set("cell", r.pick<double>({1, 2.5, 7, 20})); p.set("table", r.pick<int>({3, 17, 100, 1000})); p.set("slo", -r.pick<double>({2, 8})); p.set("shi", r.pick<double>({2, 8})); if (r.chance(0.5)) p.set("cell2", r.pick<double>({1, 3}));
}

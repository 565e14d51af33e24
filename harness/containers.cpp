// C11 hierarchy trees, C12 interval tree, C13 hash tables: histories against a container model.
#include "simrt.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include "fcl/math/bv/AABB.h"
#include "fcl/math/bv/utility.h"
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
#include "fcl/broadphase/detail/interval_tree.h"
#include "fcl/broadphase/detail/simple_interval.h"
#include "fcl/broadphase/detail/simple_hash_table.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/detail/spatial_hash.h"
using namespace fcl;
using sim::Rng; using sim::Plan; using sim::Op;
typedef double S; typedef AABB<S> BV; typedef Vector3<S> V3;
#ifndef PROP
#define PROP 11
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
static const int N = 400;
static std::string show(const BV& b) { char t[256]; snprintf(t, sizeof t, "[%.6g %.6g]x[%.6g %.6g]x[%.6g %.6g]", b.min_[0], b.max_[0], b.min_[1], b.max_[1], b.min_[2], b.max_[2]); return t; }
static bool contains(const BV& a, const BV& b) { for (int i = 0; i < 3; ++i) if (!(a.min_[i] <= b.min_[i] && a.max_[i] >= b.max_[i])) return false; return true; }
static bool same(const BV& a, const BV& b) { for (int i = 0; i < 3; ++i) if (a.min_[i] != b.min_[i] || a.max_[i] != b.max_[i]) return false; return true; }
static BV box(const Op& o, int k) { BV b; for (int i = 0; i < 3; ++i) { double c = o.at(k + i), s = std::fabs(o.at(k + 3 + i)); b.min_[i] = c - s; b.max_[i] = c + s; } return b; }
static void leakcheck(const char* n) { std::string what; uint64_t c = sim::heap_live_since_mark(&what); if (c) sim::fail("leak", "%s: %lu blocks not released after everything was destroyed:%s", n, (unsigned long)c, what.c_str()); }

#if PROP == 11
// ------------------------------------------------------------------ trees behind one face
typedef detail::HierarchyTree<BV> PT; typedef detail::implementation_array::HierarchyTree<BV> AT;
struct Face {
  virtual ~Face() {}
  virtual void init(const std::vector<std::pair<BV, void*>>& l, int level, std::vector<size_t>& h) = 0;
  virtual size_t insert(const BV& b, void* d) = 0; virtual void remove(size_t h) = 0; virtual void clear() = 0;
  virtual bool empty() = 0; virtual size_t size() = 0; virtual size_t height() = 0; virtual size_t depth() = 0;
  virtual void reinsert(size_t h, int look) = 0; virtual bool update(size_t h, const BV& b, int form, const V3& v, S m) = 0;
  virtual void setbv(size_t h, const BV& b) = 0; virtual void refit() = 0;
  virtual void bottomup() = 0; virtual void topdown() = 0; virtual void incremental(int n) = 0; virtual size_t extract() = 0;
  virtual void check(const char* after) = 0; virtual BV bv(size_t h) = 0;
};
static std::map<size_t, std::pair<BV, int>>* LIVE;  // handle -> bounds, id
static std::map<size_t, BV>* EXACT;  // the volume each leaf was given last
static char TOKEN[N];
template <class F> static void verify(const char* name, const char* after, F& f) {
  sim::NoFault nf;
  auto& live = *LIVE; std::set<size_t> seen; size_t height = 0;
  size_t root = f.root();
  if (f.none(root) != live.empty()) sim::fail("wrong-root", "%s after %s: root %s with %lu live leaves", name, after, f.none(root) ? "absent" : "present", (unsigned long)live.size());
  if (f.size() != live.size()) sim::fail("wrong-size", "%s after %s: size() %lu, %lu leaves live", name, after, (unsigned long)f.size(), (unsigned long)live.size());
  if (f.empty() != live.empty()) sim::fail("wrong-empty", "%s after %s: empty() %d with %lu leaves live", name, after, (int)f.empty(), (unsigned long)live.size());
  size_t nodes = 0;
  if (!f.none(root)) {
    if (!f.none(f.parent(root))) sim::fail("bad-link", "%s after %s: the root has a parent", name, after);
    struct It { size_t n, d; }; std::vector<It> st = {{root, 0}};
    while (!st.empty()) {
      It it = st.back(); st.pop_back(); height = std::max(height, it.d);
      if (++nodes > 4 * live.size() + 8) sim::fail("bad-link", "%s after %s: more nodes reachable than a tree of %lu leaves has", name, after, (unsigned long)live.size());
      if (f.leaf(it.n)) {
        auto p = live.find(it.n); if (p == live.end()) sim::fail("dead-leaf", "%s after %s: a leaf that was removed is in the tree", name, after);
        if (!seen.insert(it.n).second) sim::fail("duplicate-leaf", "%s after %s: a leaf is in the tree twice", name, after);
        if (f.data(it.n) != (void*)&TOKEN[p->second.second]) sim::fail("wrong-data", "%s after %s: a leaf lost its object", name, after);
        { auto e = EXACT->find(it.n); if (e != EXACT->end() && !same(f.bvof(it.n), e->second)) sim::fail("leaf-bounds", "%s after %s: leaf bounds %s, the last ones given are %s", name, after, show(f.bvof(it.n)).c_str(), show(e->second).c_str()); }
        if (!contains(f.bvof(it.n), p->second.first)) sim::fail("leaf-bounds", "%s after %s: leaf bounds %s do not hold %s", name, after, show(f.bvof(it.n)).c_str(), show(p->second.first).c_str());
      } else {
        for (int k = 0; k < 2; ++k) {
          size_t c = f.child(it.n, k); if (f.none(c)) sim::fail("bad-link", "%s after %s: an interior node lacks a child", name, after);
          if (f.parent(c) != it.n) sim::fail("bad-link", "%s after %s: a child's parent link does not point back", name, after);
          if (!contains(f.bvof(it.n), f.bvof(c))) sim::fail("not-bounding", "%s after %s: node bounds %s do not hold child bounds %s", name, after, show(f.bvof(it.n)).c_str(), show(f.bvof(c)).c_str());
          st.push_back({c, it.d + 1});
        }
      }
    }
  }
  if (seen.size() != live.size()) sim::fail("lost-leaf", "%s after %s: %lu of %lu live leaves are in the tree", name, after, (unsigned long)seen.size(), (unsigned long)live.size());
  if (f.height() != height) sim::fail("wrong-height", "%s after %s: height reported %lu, is %lu", name, after, (unsigned long)f.height(), (unsigned long)height);
  if (f.depth() != height) sim::fail("wrong-height", "%s after %s: depth reported %lu, is %lu", name, after, (unsigned long)f.depth(), (unsigned long)height);
  if (f.extract() != live.size()) sim::fail("wrong-extract", "%s after %s: extractLeaves() gives a different number of leaves", name, after);
  sim::sig(live.size() * 64 + height); sim::log("h%lu n%lu", (unsigned long)height, (unsigned long)live.size());
}
struct P : Face {
  PT t; typedef PT::NodeType Node; static Node* n(size_t h) { return (Node*)h; }
  P(int a, int b) : t(a, b) {}
  size_t root() { return (size_t)t.getRoot(); } bool none(size_t h) { return h == 0; } size_t parent(size_t h) { return (size_t)n(h)->parent; } size_t child(size_t h, int k) { return (size_t)n(h)->children[k]; }
  bool leaf(size_t h) { return n(h)->isLeaf(); } void* data(size_t h) { return n(h)->data; } BV bvof(size_t h) { return n(h)->bv; } BV bv(size_t h) override { return n(h)->bv; }
  void init(const std::vector<std::pair<BV, void*>>& l, int level, std::vector<size_t>& h) override {
    std::vector<Node*> v; for (auto& p : l) { Node* x = new Node; x->bv = p.first; x->parent = nullptr; x->children[1] = nullptr; x->data = p.second; v.push_back(x); h.push_back((size_t)x); } t.init(v, level); }
  size_t insert(const BV& b, void* d) override { return (size_t)t.insert(b, d); } void remove(size_t h) override { t.remove(n(h)); } void clear() override { t.clear(); }
  bool empty() override { return t.empty(); } size_t size() override { return t.size(); } size_t height() override { return t.getMaxHeight(); } size_t depth() override { return t.getMaxDepth(); }
  void reinsert(size_t h, int k) override { t.update(n(h), k); }
  bool update(size_t h, const BV& b, int f, const V3& v, S m) override { return f == 0 ? t.update(n(h), b) : f == 1 ? t.update(n(h), b, v) : t.update(n(h), b, v, m); }
  void setbv(size_t h, const BV& b) override { n(h)->bv = b; } void refit() override { t.refit(); } void bottomup() override { t.balanceBottomup(); } void topdown() override { t.balanceTopdown(); } void incremental(int k) override { t.balanceIncremental(k); }
  size_t extract() override { if (!t.getRoot()) return 0; std::vector<Node*> v; t.extractLeaves(t.getRoot(), v); return v.size(); }
  void check(const char* a) override { verify("pointer tree", a, *this); }
};
struct A : Face {
  AT t; typedef detail::implementation_array::NodeBase<BV> Node; Node& n(size_t h) { return t.getNodes()[h]; }
  A(int a, int b) : t(a, b) {}
  size_t root() { return t.getRoot(); } bool none(size_t h) { return h == AT::NULL_NODE; } size_t parent(size_t h) { return n(h).parent; } size_t child(size_t h, int k) { return n(h).children[k]; }
  bool leaf(size_t h) { return n(h).isLeaf(); } void* data(size_t h) { return n(h).data; } BV bvof(size_t h) { return n(h).bv; } BV bv(size_t h) override { return n(h).bv; }
  void init(const std::vector<std::pair<BV, void*>>& l, int level, std::vector<size_t>& h) override {
    std::vector<Node> v(l.size()); for (size_t i = 0; i < l.size(); ++i) { v[i].bv = l[i].first; v[i].parent = AT::NULL_NODE; v[i].children[1] = AT::NULL_NODE; v[i].data = l[i].second; h.push_back(i); } t.init(v.data(), (int)v.size(), level); }
  size_t insert(const BV& b, void* d) override { return t.insert(b, d); } void remove(size_t h) override { t.remove(h); } void clear() override { t.clear(); }
  bool empty() override { return t.empty(); } size_t size() override { return t.size(); } size_t height() override { return t.getMaxHeight(); } size_t depth() override { return t.getMaxDepth(); }
  void reinsert(size_t h, int k) override { t.update(h, k); }
  bool update(size_t h, const BV& b, int f, const V3& v, S m) override { return f == 0 ? t.update(h, b) : f == 1 ? t.update(h, b, v) : t.update(h, b, v, m); }
  void setbv(size_t h, const BV& b) override { n(h).bv = b; } void refit() override { t.refit(); } void bottomup() override { t.balanceBottomup(); } void topdown() override { t.balanceTopdown(); } void incremental(int k) override { t.balanceIncremental(k); }
  size_t extract() override { if (t.getRoot() == AT::NULL_NODE) return 0; std::vector<Node> v(t.size() + 1); Node* e = v.data(); t.extractLeaves(t.getRoot(), e); return e - v.data(); }
  void check(const char* a) override { verify("array tree", a, *this); }
};
static void execute(const Plan& p) {
  static std::map<size_t, std::pair<BV, int>> live; LIVE = &live; std::map<int, size_t> by; static std::map<size_t, BV> exact; EXACT = &exact;
  sim::heap_mark();
  {
  std::unique_ptr<Face> f(p.get("array") != 0 ? (Face*)new A((int)p.get("bu", 16), (int)p.get("td", 0)) : new P((int)p.get("bu", 16), (int)p.get("td", 0)));
  sim::count(p.get("array") != 0 ? "config.array" : "config.pointer");
  bool stale = false;  // volumes set by hand since the last refit
  auto fit = [&] { if (stale) { f->refit(); stale = false; } };
  for (auto& o : p.ops) {
    sim::step_budget(400000000); int id = ((o.i(0) % N) + N) % N; auto it = by.find(id); bool has = it != by.end();
    if (o.name == "init") { std::vector<std::pair<BV, void*>> l; std::vector<int> ids; std::vector<size_t> h;
      // boxes are derived from the op's own seed: n, level, seed, style
      Rng r((uint64_t)o.i(2) + 1); int n = std::max(1, std::min(o.i(0), N)), st = o.i(3);
      for (int i = 0; i < n; ++i) { BV b; double c[3], s[3]; for (int k = 0; k < 3; ++k) { c[k] = st == 1 ? 0 : st == 2 ? std::floor(r.real(-2, 3)) : st == 3 && k ? 1 : st == 4 ? i * 0.125 : r.real(-10, 10); s[k] = st == 2 || st == 1 ? (st == 1 ? 1 : 0) : r.real(0, 2); } for (int k = 0; k < 3; ++k) { b.min_[k] = c[k] - s[k]; b.max_[k] = c[k] + s[k]; } if (st == 5 && r.chance(0.3)) { b.min_.setConstant(-std::numeric_limits<S>::max()); b.max_.setConstant(std::numeric_limits<S>::max()); } l.push_back({b, &TOKEN[i]}); ids.push_back(i); }
      f->init(l, o.i(1) & 3, h); live.clear(); by.clear(); exact.clear(); for (int i = 0; i < n; ++i) { by[i] = h[i]; live[h[i]] = {l[i].first, i}; exact[h[i]] = l[i].first; } stale = false; static const char* IL[] = {"op.init0", "op.init1", "op.init2", "op.init3"}; sim::count(IL[o.i(1) & 3]); }
    else if (o.name == "ins") { fit(); if (has) continue; BV b = box(o, 1); size_t h = f->insert(b, &TOKEN[id]); if (live.count(h)) sim::fail("handle-reused", "insert() returned the handle of a live leaf"); live[h] = {b, id}; exact[h] = b; by[id] = h; sim::count("op.insert"); }
    else if (o.name == "rem") { fit(); if (!has) continue; size_t h = it->second; live.erase(h); exact.erase(h); by.erase(it); f->remove(h); sim::count("op.remove"); }
    else if (o.name == "upd") { fit(); if (!has) continue; BV b = box(o, 1); size_t h = it->second; BV old = f->bv(h); bool r = f->update(h, b, o.i(7) % 3, V3(o.at(8), o.at(9), o.at(10)), 0.25);
      BV now = f->bv(h); if (!r && !same(now, old)) sim::fail("update-result", "update() answered false but changed the leaf's volume"); if (!r && !contains(old, b)) sim::fail("update-result", "update() answered false although the new volume leaves the old one"); if (r && o.i(7) % 3 == 0 && !same(now, b)) sim::fail("update-result", "update() gave the leaf another volume than the new one"); exact[h] = now; live[h].first = b; sim::count(r ? "op.update-moved" : "op.update-inside"); }
    else if (o.name == "reins") { fit(); if (!has) continue; f->reinsert(it->second, o.i(1)); sim::count("op.reinsert"); }
    else if (o.name == "set") { if (!has) continue; BV b = box(o, 1); f->setbv(it->second, b); live[it->second].first = b; exact[it->second] = b; stale = true; sim::count("op.set-volume"); }
    else if (o.name == "refit") { f->refit(); stale = false; sim::count("op.refit"); }
    else if (o.name == "bottomup") { fit(); f->bottomup(); sim::count("op.balance-bottomup"); }
    else if (o.name == "topdown") { fit(); f->topdown(); sim::count("op.balance-topdown"); }
    else if (o.name == "incr") { fit(); f->incremental(o.i(0)); sim::count("op.balance-incremental"); }
    else if (o.name == "clear") { f->clear(); live.clear(); exact.clear(); by.clear(); stale = false; sim::count("op.clear"); }
    if (!stale) f->check(o.name.c_str());
  }
  }
  live.clear(); exact.clear(); by.clear(); leakcheck("tree");
}
static void generate(Rng& r, Plan& p, bool thorough) {
  p.set("array", r.below(2)); p.set("bu", r.pick<int>({0, 1, 2, 4, 16})); p.set("td", r.below(2));
  int ids = r.pick<int>({1, 2, 3, 5, 8, 16, 40}); int n = r.pick<int>({4, 10, 25, 60}) * (thorough ? 2 : 1); bool grid = r.chance(0.3); double range = r.pick<double>({0, 1, 10, 1000}), smax = r.pick<double>({0, 0.5, 5});
  auto c = [&] { double v = r.real(-range, range); return grid ? std::round(v) : v; }; auto s = [&] { double v = r.real(0, smax); return grid ? std::round(v) : v; };
  double wi = r.real(0.2, 2), wr = r.real(0, 1.5), wu = r.real(0, 2), wb = r.real(0, 0.6), ws = r.real(0, 0.5), wx = r.real(0, 0.15);
  if (r.chance(0.6)) p.add("init", {(double)(r.chance(0.05) ? r.range(40, 300) : r.range(1, ids)), (double)r.below(4), (double)r.below(1000000), (double)r.below(6)});
  for (int k = 0; k < n; ++k) {
    double t = r.unit() * (wi + wr + wu + wb + ws + wx); double id = (double)r.below(ids);
    if ((t -= wi) < 0) p.add("ins", {id, c(), c(), c(), s(), s(), s()});
    else if ((t -= wr) < 0) p.add("rem", {id});
    else if ((t -= wu) < 0) { if (r.chance(0.25)) p.add("reins", {id, (double)r.range(-1, 4)}); else p.add("upd", {id, c(), c(), c(), s(), s(), s(), (double)r.below(3), c(), c(), c()}); }
    else if ((t -= wb) < 0) { int q = (int)r.below(3); if (q == 0) p.add("bottomup"); else if (q == 1) p.add("topdown"); else p.add("incr", {(double)r.range(-1, 12)}); }
    else if ((t -= ws) < 0) { int b = r.range(1, 4); for (int q = 0; q < b; ++q) p.add("set", {(double)r.below(ids), c(), c(), c(), s(), s(), s()}); p.add("refit"); }
    else if (r.chance(0.5)) p.add("clear"); else p.add("init", {(double)r.range(1, ids), (double)r.below(4), (double)r.below(1000000), (double)r.below(6)});
  }
}
#elif PROP == 12
typedef detail::IntervalTree<S> IT; typedef detail::SimpleInterval<S> IV; typedef detail::IntervalTreeNode<S> ND;
static void execute(const Plan& p) {
  sim::heap_mark();
  {
    std::unique_ptr<IT> t(new IT); std::map<int, std::pair<std::unique_ptr<IV>, ND*>> live; std::map<const IV*, int> idx;
    IV absent; absent.low = -1; absent.high = 1;
    auto drop = [&](int id) { idx.erase(live[id].first.get()); live.erase(id); };
    auto q = [&](double lo, double hi) {
      std::deque<IV*> res = t->query(lo, hi); std::set<int> got, want;
      for (IV* i : res) { auto f = idx.find(i); if (f == idx.end()) sim::fail("stale-interval", "query returned an interval that is not stored"); if (!got.insert(f->second).second) sim::fail("duplicate-interval", "query returned an interval twice"); }
      for (auto& l : live) if (l.second.first->low <= hi && l.second.first->high >= lo) want.insert(l.first);
      if (got != want) sim::fail("wrong-answer", "query [%.9g %.9g] over %lu intervals returned %lu, %lu overlap (or other ones)", lo, hi, (unsigned long)live.size(), (unsigned long)got.size(), (unsigned long)want.size());
      sim::sig(want.size() * 4096 + live.size()); sim::count(want.empty() ? "probe.query-none" : "probe.query-some"); sim::log("q %lu of %lu", (unsigned long)want.size(), (unsigned long)live.size()); };
    for (auto& o : p.ops) {
      sim::step_budget(100000000); int id = ((o.i(0) % N) + N) % N; auto it = live.find(id); bool has = it != live.end();
      if (o.name == "ins") { if (has) continue; auto v = std::unique_ptr<IV>(new IV); v->low = o.at(1); v->high = o.at(1) + std::fabs(o.at(2)); if (o.i(3) == 1) v->low = -std::numeric_limits<S>::infinity(); if (o.i(3) == 2) v->high = std::numeric_limits<S>::max(); if (o.i(3) == 3) v->low = -std::numeric_limits<S>::max(); if (o.i(3) == 4) v->high = std::numeric_limits<S>::infinity(); ND* n = t->insert(v.get()); idx[v.get()] = id; live[id] = {std::move(v), n}; sim::count("op.insert"); }
      else if (o.name == "bulk") { Rng r(o.i(2) + 1); for (int k = 0; k < o.i(0) && k < N; ++k) if (!live.count(k)) { auto v = std::unique_ptr<IV>(new IV); v->low = o.i(1) ? std::floor(r.real(-5, 5)) : r.real(-50, 50); v->high = v->low + (o.i(1) ? std::floor(r.real(0, 3)) : r.real(0, 10)); ND* n = t->insert(v.get()); idx[v.get()] = k; live[k] = {std::move(v), n}; } sim::count("op.bulk-insert"); }
      else if (o.name == "del") { if (!has) continue; IV* got = t->deleteNode(it->second.second); if (got != it->second.first.get()) sim::fail("wrong-delete", "deleteNode() returned another interval than the one stored in the node"); drop(id); sim::count("op.delete-node"); }
      else if (o.name == "deli") { if (!has) continue; t->deleteNode(it->second.first.get()); drop(id); sim::count("op.delete-interval"); }
      else if (o.name == "dela") { t->deleteNode(&absent); sim::count("op.delete-absent"); }
      else if (o.name == "q") q(o.at(0), o.at(0) + std::fabs(o.at(1)));
      else if (o.name == "qall") { q(-std::numeric_limits<S>::max(), std::numeric_limits<S>::max()); q(-std::numeric_limits<S>::infinity(), std::numeric_limits<S>::infinity()); }
      else if (o.name == "walk") { if (!has) continue;  // neighbours in key order, both ways, cover all intervals once
        std::set<const IV*> s; for (ND* n = it->second.second; ; ) { s.insert(nullptr); break; }
        size_t cnt = 1; double last = it->second.first->low; std::vector<ND*> nodes; for (auto& l : live) nodes.push_back(l.second.second);
        std::set<ND*> all(nodes.begin(), nodes.end()), seen = {it->second.second};
        std::map<ND*, double> key; for (auto& l : live) key[l.second.second] = l.second.first->low;
        for (ND* n = t->getSuccessor(it->second.second); all.count(n); n = t->getSuccessor(n)) { if (!seen.insert(n).second) sim::fail("wrong-walk", "getSuccessor() visits a node twice"); if (key[n] < last) sim::fail("wrong-walk", "getSuccessor() goes down"); last = key[n]; ++cnt; }
        last = it->second.first->low;
        for (ND* n = t->getPredecessor(it->second.second); all.count(n); n = t->getPredecessor(n)) { if (!seen.insert(n).second) sim::fail("wrong-walk", "getPredecessor() visits a node twice"); if (key[n] > last) sim::fail("wrong-walk", "getPredecessor() goes up"); last = key[n]; ++cnt; }
        if (cnt != live.size()) sim::fail("wrong-walk", "neighbours reach %lu of %lu intervals", (unsigned long)cnt, (unsigned long)live.size()); sim::count("op.walk"); }
    }
    sim::step_budget(200000000);
    if (p.get("drain") != 0) while (!live.empty()) { auto it = p.get("drain") == 1 ? live.begin() : std::prev(live.end()); IV* got = t->deleteNode(it->second.second); if (got != it->second.first.get()) sim::fail("wrong-delete", "enumeration by removal returned another interval"); drop(it->first); if (live.size() % 8 == 0) q(-std::numeric_limits<S>::max(), std::numeric_limits<S>::max()); }
    if (p.get("treefirst") != 0) t.reset();
    live.clear(); idx.clear();
  }
  leakcheck("interval tree");
}
static void generate(Rng& r, Plan& p, bool thorough) {
  p.set("drain", r.below(3)); p.set("treefirst", r.below(2));
  int ids = r.pick<int>({1, 2, 3, 6, 12, 40, 100}); int n = r.pick<int>({5, 15, 40, 120}) * (thorough ? 2 : 1); bool grid = r.chance(0.5); double range = r.pick<double>({0, 3, 10, 100}), len = r.pick<double>({0, 1, 4, 50}), ext = r.chance(0.2) ? 0.2 : 0;
  auto c = [&] { double v = r.real(-range, range); return grid ? std::round(v) : v; }; auto l = [&] { double v = r.real(0, len); return grid ? std::round(v) : v; };
  double wi = r.real(0.3, 2), wd = r.real(0.1, 1.5), wq = r.real(0.3, 1.5);
  if (r.chance(0.15)) p.add("bulk", {(double)r.range(10, thorough ? 399 : 150), (double)r.below(2), (double)r.below(100000)});
  for (int k = 0; k < n; ++k) {
    double t = r.unit() * (wi + wd + wq + 0.2), id = (double)r.below(ids);
    if ((t -= wi) < 0) p.add("ins", {id, c(), l(), r.chance(ext) ? (double)r.range(1, 4) : 0});
    else if ((t -= wd) < 0) p.add(r.chance(0.5) ? "del" : "deli", {id});
    else if ((t -= wq) < 0) p.add("q", {c() + (r.chance(0.2) ? 0.5 : 0), l()});
    else { int w = (int)r.below(3); if (w == 0) p.add("dela"); else if (w == 1) p.add("qall"); else p.add("walk", {id}); }
  }
  p.add("qall"); p.add("walk", {0});
}
#else  // 13
// a cell hash that scatters: every integer cell of the region gives one pseudo-random key
struct Scatter { double cell; uint64_t salt; std::vector<unsigned int> operator()(const BV& b) const { std::vector<unsigned int> k; for (int x = (int)std::floor(b.min_[0] / cell); x <= (int)std::floor(b.max_[0] / cell); ++x) for (int y = (int)std::floor(b.min_[1] / cell); y <= (int)std::floor(b.max_[1] / cell); ++y) k.push_back((unsigned)sim::mix(sim::mix(salt, x), y)); return k; } };
typedef detail::SpatialHash<S> SH;
struct Face { virtual ~Face() {} virtual void init(size_t) = 0; virtual void insert(const BV&, int) = 0; virtual void remove(const BV&, int) = 0; virtual std::vector<int> query(const BV&) = 0; virtual void clear() = 0; };
template <class T> struct Tab : Face { T t; template <class H> Tab(const H& h) : t(h) {} void init(size_t n) override { t.init(n); } void insert(const BV& b, int v) override { t.insert(b, v); } void remove(const BV& b, int v) override { t.remove(b, v); } std::vector<int> query(const BV& b) override { return t.query(b); } void clear() override { t.clear(); } };
static void execute(const Plan& p) {
  sim::heap_mark();
  {
    double cell = p.get("cell", 1); if (!(cell > 0)) cell = 1; BV scene(V3(-p.get("half", 4), -p.get("half", 4), -p.get("half", 4)), V3(p.get("half", 4), p.get("half", 4), p.get("half", 4))); SH sh(scene, cell); Scatter sc{cell, (uint64_t)p.get("salt")};
    std::unique_ptr<Face> t; int kind = (int)p.get("kind"); static const char* KN[4] = {"dense+spatial", "sparse+spatial", "dense+scatter", "sparse+scatter"}; sim::count((std::string("config.") + KN[kind & 3]).c_str());
    switch (kind & 3) { case 0: t.reset(new Tab<detail::SimpleHashTable<BV, int, SH>>(sh)); break; case 1: t.reset(new Tab<detail::SparseHashTable<BV, int, SH>>(sh)); break; case 2: t.reset(new Tab<detail::SimpleHashTable<BV, int, Scatter>>(sc)); break; default: t.reset(new Tab<detail::SparseHashTable<BV, int, Scatter>>(sc)); }
    t->init(std::max(1, (int)p.get("size", 10)));
    std::map<int, BV> live;
    auto share = [&](const BV& a, const BV& b) { for (int k = 0; k < ((kind & 2) ? 2 : 3); ++k) { double o = (kind & 2) ? 0 : scene.min_[k]; long al = (long)std::floor((a.min_[k] - o) / cell), ah = (long)std::floor((a.max_[k] - o) / cell), bl = (long)std::floor((b.min_[k] - o) / cell), bh = (long)std::floor((b.max_[k] - o) / cell); if (ah < bl || bh < al) return false; } return true; };
    // an odd layout of cells is the implementation's own affair; what counts is that regions with a common point meet
    auto cells = [&](const BV& a) { double n = 1; for (int k = 0; k < ((kind & 2) ? 2 : 3); ++k) n *= (a.max_[k] - a.min_[k]) / cell + 2; return n; };
    double load = 0, bins = (kind & 1) ? 1000 : std::max(1, (int)p.get("size", 10));  // work of a query = cells looked up x entries met; plans beyond the budget skip the operation
    auto meet = [&](const BV& a, const BV& b) { for (int k = 0; k < 3; ++k) if (a.max_[k] < b.min_[k] || b.max_[k] < a.min_[k]) return false; return true; };
    for (auto& o : p.ops) {
      sim::step_budget(1000000000); int id = ((o.i(0) % N) + N) % N; auto it = live.find(id); bool has = it != live.end();
      if (o.name == "ins") { if (has) continue; BV b = box(o, 1); if (cells(b) > 1e5) continue; t->insert(b, id); live[id] = b; load += cells(b); sim::count("op.insert"); }
      else if (o.name == "dup") { if (!has || cells(it->second) > 1e4) continue; t->insert(it->second, id); load += cells(it->second); sim::count("op.insert-again"); }
      else if (o.name == "rem") { if (!has) continue; if (cells(it->second) * (1 + load / bins) > 2e6) continue; t->remove(it->second, id); load -= cells(it->second); live.erase(it); sim::count("op.remove"); }
      else if (o.name == "remabs") { if (has || cells(box(o, 1)) * (1 + load / bins) > 2e6) continue; t->remove(box(o, 1), id); sim::count("op.remove-absent"); }
      else if (o.name == "clear") { t->clear(); live.clear(); load = 0; sim::count("op.clear"); }
      else if (o.name == "q") {
        BV b = box(o, 1); if (cells(b) * (1 + load / bins) > 2e6) { sim::count("probe.query-skipped"); continue; } std::vector<int> res = t->query(b); std::set<int> got;
        for (int v : res) { if (!live.count(v)) sim::fail("stale-entry", "%s: query returned an entry that was removed", KN[kind & 3]); if (!got.insert(v).second) sim::fail("duplicate-entry", "%s: query returned an entry twice", KN[kind & 3]); }
        int n = 0, m = 0; for (auto& l : live) { bool s = share(l.second, b); if (s) ++m; if (meet(l.second, b)) { ++n; if (!got.count(l.first)) sim::fail("missed-entry", "%s: query of %s missed live entry %s", KN[kind & 3], show(b).c_str(), show(l.second).c_str()); } else if (s && !got.count(l.first)) sim::fail("missed-entry", "%s: query of %s missed live entry %s in the same cell (cell size %g)", KN[kind & 3], show(b).c_str(), show(l.second).c_str(), cell); }
        sim::sig(n * 4096 + m * 64 + live.size()); sim::count(m ? "probe.query-some" : "probe.query-none"); sim::log("q %d %d %lu", n, m, (unsigned long)res.size());
      }
    }
    live.clear();
  }
  leakcheck("hash table");
}
static void generate(Rng& r, Plan& p, bool thorough) {
  p.set("kind", r.below(4)); p.set("cell", r.pick<double>({0.5, 1, 1, 2.5, 3})); p.set("half", r.pick<double>({2, 4, 4, 8})); p.set("size", r.pick<int>({1, 2, 7, 50, 1000})); p.set("salt", r.below(1000));
  int ids = r.pick<int>({1, 2, 4, 10, 30}); int n = r.pick<int>({5, 15, 40}) * (thorough ? 2 : 1); bool grid = r.chance(0.5); double range = r.pick<double>({2, 4, 8, 12}), smax = r.pick<double>({0, 0.5, 1, 4});
  auto c = [&] { double v = r.real(-range, range); return grid ? std::round(v * 2) / 2 : v; }; auto s = [&] { double v = r.real(0, smax); return grid ? std::round(v * 2) / 2 : v; };
  if (p.get("size") < 50) { p.set("cell", r.pick<double>({2, 2.5, 3})); p.set("half", r.pick<double>({2, 4})); } else if (p.get("cell") < 1) p.set("half", r.pick<double>({2, 4}));  // bounds the work of a query
  double wi = r.real(0.3, 2), wr = r.real(0.1, 1.2), wq = r.real(0.3, 1.5);
  for (int k = 0; k < n; ++k) {
    double t = r.unit() * (wi + wr + wq + 0.1), id = (double)r.below(ids);
    if ((t -= wi) < 0) p.add("ins", {id, c(), c(), c(), s(), s(), s()});
    else if ((t -= wr) < 0) p.add("rem", {id});
    else if ((t -= wq) < 0) p.add("q", {0, c(), c(), c(), s(), s(), s()});
    else if (r.chance(0.5)) p.add("dup", {id}); else if (r.chance(0.5)) p.add("remabs", {id, c(), c(), c(), s(), s(), s()}); else p.add("clear");
  }
  p.add("q", {0, 0, 0, 0, range, range, range}); p.add("q", {0, c(), c(), c(), s(), s(), s()});
}
#endif
sim::Check sim::the_check = {"C" STR(PROP), generate, execute};

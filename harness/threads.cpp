// C14 profiler, C15 seeds and random streams: threads, clock, stream and allocation faults.
#include "simrt.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include "fcl/common/detail/profiler.h"
#include "fcl/math/rng.h"
#include "fcl/math/detail/seed.h"
#include "fcl/math/sampler/sampler_r.h"
#include "fcl/math/sampler/sampler_se2.h"
#include "fcl/math/sampler/sampler_se2_disk.h"
#include "fcl/math/sampler/sampler_se3_euler.h"
#include "fcl/math/sampler/sampler_se3_quat.h"
#include "fcl/math/sampler/sampler_se3_euler_ball.h"
#include "fcl/math/sampler/sampler_se3_quat_ball.h"
using namespace fcl;
using sim::Rng; using sim::Plan; using sim::Op;
#ifndef PROP
#define PROP 14
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
static void schedule_knobs(Rng& r, Plan& p, int horizon) { p.set("strat", r.below(3)); p.set("mean", r.pick<int>({2, 5, 20, 100, 400})); p.set("hotp", r.pick<double>({0.02, 0.1, 0.4})); p.set("npct", r.range(1, 5)); p.set("horizon", r.pick<int>({horizon / 8, horizon, horizon * 4})); p.set("sseed", r.below(1000000)); }

#if PROP == 14
typedef fcl::detail::Profiler Prof;
// ---------------------------------------------------------------- recorded history
static const int MAXREC = 256, MAXREAD = 8, MT = 4;
struct Rec { int kind, name; double val; uint64_t inv, ret; bool threw; int nread; int64_t read[MAXREAD]; };  // kind: 'e' 'a' 'b' 'n' 'c'lear 'S'tart 's'top 't'(status) 'R'unning
static Rec rec[MT + 1][MAXREC]; static int nrec[MT + 1]; static uint64_t gseq;
static Rng crng(1); static int64_t jump[MT + 1]; static int cstyle;
static const char* NAMES[] = {"a", "b", "blk", "x"};
static void on_clock() {
  sim::Quiet q; int64_t t = sim::now_ns(); static const int64_t MS = 1000000;
  switch (cstyle) { case 0: t += 20 * MS; break; case 1: break; case 2: t += (int64_t)crng.below(3000) * MS; break;
    default: { static const int64_t J[] = {0, 1, 20, 1000, 3600000, -5000, -3600000, 7}; t += J[crng.below(8)] * MS; if (t < sim::now_ns()) sim::count("fault.clock-backward"); else if (t == sim::now_ns()) sim::count("fault.clock-stalled"); else if (t > sim::now_ns() + 3000000 * MS) sim::count("fault.clock-jump"); } }
  int id = sim::self(); if (jump[id]) { t += jump[id]; sim::count(jump[id] < 0 ? "fault.clock-backward" : "fault.clock-jump"); jump[id] = 0; }
  sim::set_now_ns(t);
  int n = nrec[id]; if (id && n < MAXREC && rec[id][n].nread < MAXREAD) rec[id][n].read[rec[id][n].nread++] = t;
}
struct Throwing : std::streambuf { int left; explicit Throwing(int n) : left(n) {} int overflow(int c) override { if (left-- <= 0) { sim::count("fault.stream-throw"); throw 42; } return c; } std::streamsize xsputn(const char*, std::streamsize n) override { left -= (int)n; if (left <= 0) { sim::count("fault.stream-throw"); throw 42; } return n; } };
static Rec* opened(int id, int kind, int name, double val) { sim::Quiet q; if (nrec[id] >= MAXREC) return nullptr; Rec& r = rec[id][nrec[id]]; r.kind = kind; r.name = name; r.val = val; r.threw = false; r.nread = 0; r.inv = ++gseq; r.ret = ~0ull; return &r; }
static void closed(int id, Rec* r, bool threw) { sim::Quiet q; r->threw = threw; r->ret = ++gseq; ++nrec[id]; }
template <class F> static bool timed(int id, int kind, int name, double val, F f) {
  Rec* r = opened(id, kind, name, val); if (!r) return false; bool threw = false;
  try { f(); } catch (const std::bad_alloc&) { threw = true; sim::Quiet q; sim::count("probe.op-out-of-memory"); } catch (int) { threw = true; }
  closed(id, r, threw); return !threw;
}
// ---------------------------------------------------------------- reports
struct Sec { std::map<std::string, double> ev, av, sd; struct B { double total, lo, hi, avg; long parts; }; std::map<std::string, B> bl; };
static Sec& section(std::map<std::string, Sec>& m, const std::string& k) { return m[k]; }
static bool parse(const std::string& text, double& total, std::map<std::string, Sec>& secs, std::string& err) {
  std::istringstream in(text); std::string l; Sec* cur = nullptr; int mode = 0; bool head = false;
  while (std::getline(in, l)) {
    if (l.empty()) continue;
    size_t p;
    if ((p = l.find("Total counted time : ")) != std::string::npos) { total = atof(l.c_str() + p + 21); head = true; cur = &section(secs, "merged"); continue; }
    if (!l.compare(0, 7, "Thread ")) { std::string id = l.substr(7); if (!id.empty() && id.back() == ':') id.pop_back(); if (secs.count(id)) { err = "thread " + id + " reported twice"; return false; } cur = &section(secs, id); mode = 0; continue; }
    if (l == "Events:") { mode = 1; continue; } if (l == "Averages:") { mode = 2; continue; } if (l == "Blocks of time:") { mode = 3; continue; }
    if (!l.compare(0, 18, "Unaccounted time :")) { mode = 0; continue; }
    if (!cur) { err = "unexpected line: " + l; return false; }
    p = l.find(": "); if (p == std::string::npos) { err = "unexpected line: " + l; return false; }
    std::string n = l.substr(0, p); const char* v = l.c_str() + p + 2;
    if (mode == 1) { if (cur->ev.count(n)) { err = "event " + n + " reported twice"; return false; } cur->ev[n] = atof(v); }
    else if (mode == 2) { cur->av[n] = atof(v); const char* s = strstr(v, "stddev = "); cur->sd[n] = s ? atof(s + 9) : NAN; }
    else if (mode == 3) { Sec::B b{}; b.total = atof(v); const char* s = strchr(v, '['); if (s) b.lo = atof(s + 1); s = strstr(v, "--> "); if (s) b.hi = atof(s + 4); s = strstr(v, "], "); if (s) b.parts = atol(s + 3); if (b.parts) { s = strstr(v, " parts, "); b.avg = s ? atof(s + 8) : NAN; } cur->bl[n] = b; }
    else { err = "unexpected line: " + l; return false; }
  }
  if (!head) { err = "no report"; return false; }
  return true;
}
static bool close_to(double a, double b, double tol = 2e-5) { return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }
// what thread id recorded between its operations j and k
struct Model { std::map<int, uint64_t> ev; std::map<int, std::vector<double>> av; struct B { bool open = false; int64_t start = 0; bool sure = true; double total = 0, lo = 1e300, hi = -1e300; long parts = 0; }; std::map<int, B> bl; };
static Model model(int id, int j, int k) {
  Model m;
  for (int i = j; i < k; ++i) { Rec& r = rec[id][i]; if (r.threw) continue;
    if (r.kind == 'e') m.ev[r.name] += (uint64_t)r.val; else if (r.kind == 'a') m.av[r.name].push_back(r.val);
    else if (r.kind == 'b') { auto& b = m.bl[r.name]; b.open = true; if (r.nread == 0) sim::fail("clock-not-read", "beginning a block does not look at the clock"); if (r.nread == 1) b.start = r.read[0]; else b.sure = false; }
    else if (r.kind == 'n') { auto& b = m.bl[r.name]; if (!b.open) continue; if (r.nread != 1) b.sure = false; double d = (r.read[0] - b.start) * 1e-9; b.total += d; b.lo = std::min(b.lo, d); b.hi = std::max(b.hi, d); ++b.parts; } }
  return m;
}
static bool agrees(const Sec& s, const Model& m, std::string& why) {
  char t[200];
  for (auto& e : s.ev) { uint64_t want = 0; for (auto& w : m.ev) if (e.first == NAMES[w.first]) want = w.second; if (e.second != (double)want) { snprintf(t, sizeof t, "event %s counted %.0f times, recorded %lu", e.first.c_str(), e.second, (unsigned long)want); why = t; return false; } }
  for (auto& w : m.ev) if (w.second && !s.ev.count(NAMES[w.first])) { why = std::string("event ") + NAMES[w.first] + " missing"; return false; }
  for (auto& a : s.av) { const std::vector<double>* v = nullptr; for (auto& w : m.av) if (a.first == NAMES[w.first]) v = &w.second; if (!v) { why = "average " + a.first + " was never recorded"; return false; }
    double sum = 0, sq = 0; for (double x : *v) { sum += x; sq += x * x; } double mean = sum / v->size(); if (!close_to(mean, a.second)) { snprintf(t, sizeof t, "average %s is %g, recorded %g over %lu samples", a.first.c_str(), a.second, mean, (unsigned long)v->size()); why = t; return false; }
    if (v->size() > 1) { double sd = std::sqrt(std::fabs(sq - v->size() * mean * mean) / (v->size() - 1.0)), g = s.sd.at(a.first); if (!(std::fabs(sd - g) <= 1e-3 * (1 + std::fabs(sd)))) { snprintf(t, sizeof t, "deviation of %s is %g, recorded %g over %lu samples", a.first.c_str(), g, sd, (unsigned long)v->size()); why = t; return false; } } }
  for (auto& w : m.av) if (!s.av.count(NAMES[w.first])) { why = std::string("average ") + NAMES[w.first] + " missing"; return false; }
  for (auto& w : m.bl) if (w.second.parts && !s.bl.count(NAMES[w.first])) { why = std::string("block ") + NAMES[w.first] + " missing"; return false; }
  for (auto& b : s.bl) { const Model::B* w = nullptr; for (auto& x : m.bl) if (b.first == NAMES[x.first]) w = &x.second; long parts = w ? w->parts : 0;
    if (b.second.parts != parts) { snprintf(t, sizeof t, "block %s has %ld parts, recorded %ld", b.first.c_str(), b.second.parts, parts); why = t; return false; }
    if (parts && w->sure) { if (!close_to(b.second.total, w->total) || !close_to(b.second.lo, w->lo) || !close_to(b.second.hi, w->hi) || !close_to(b.second.avg, w->total / parts)) { snprintf(t, sizeof t, "block %s: total %g [%g, %g] avg %g, clock readings give %g [%g, %g] avg %g", b.first.c_str(), b.second.total, b.second.lo, b.second.hi, b.second.avg, w->total, w->lo, w->hi, w->total / parts); why = t; return false; } }
    if (!parts && !close_to(b.second.total, 0)) { why = "block " + b.first + " has time without parts"; return false; } }
  return true;
}
static std::string tid_name(int id) { (void)id; std::ostringstream o; o << std::this_thread::get_id(); return o.str(); }
static std::string tname[MT + 1]; static int NT;
// The report taken in the window [inv, ret] must show, for each thread, exactly the operations
// between one and the same last clear and the moment of the report.
static void judge(const char* which, const std::string& text, uint64_t inv, uint64_t ret, bool merge) {
  double total = 0; std::map<std::string, Sec> secs; std::string err;
  if (!parse(text, total, secs, err)) sim::fail("bad-report", "%s: %s", which, err.c_str());
  struct C { uint64_t inv, ret; }; std::vector<C> cl = {{0, 0}};
  for (int t = 1; t <= NT; ++t) for (int i = 0; i < nrec[t]; ++i) if (rec[t][i].kind == 'c' && rec[t][i].inv < ret) cl.push_back({rec[t][i].inv, rec[t][i].ret});
  std::string why = "no clear is the last one"; 
  Sec& ms = secs["merged"];
  for (auto& c : cl) {
    bool over = false; for (auto& d : cl) if (d.inv > c.ret && d.ret < inv) over = true; if (over) continue;
    bool all = true; std::vector<std::vector<Model>> cand(NT + 1);
    for (int t = 1; t <= NT && all; ++t) {
      int jlo = 0, jhi = 0, klo = 0, khi = 0;
      for (int i = 0; i < nrec[t]; ++i) { if (rec[t][i].ret < c.inv) jlo = i + 1; if (rec[t][i].inv < c.ret) jhi = i + 1; if (rec[t][i].ret < inv) klo = i + 1; if (rec[t][i].inv < ret) khi = i + 1; }
      bool one = false; auto s = secs.find(tname[t]); static const Sec none; const Sec& sec = s == secs.end() ? none : s->second;
      for (int j = jlo; j <= jhi && !one; ++j) for (int k = std::max(klo, j); k <= std::max(khi, j); ++k) { Model m = model(t, j, k); if (merge) { cand[t].push_back(m); one = true; if (cand[t].size() > 6) { cand[t].clear(); one = false; return; } one = false; continue; } if (agrees(sec, m, why)) { one = true; break; } }
      if (!merge && !one) { all = false; why = "thread " + std::to_string(t) + ": " + why; }
    }
    if (merge) {  // all combinations (few: only quiescent or nearly quiescent reports)
      size_t combos = 1; for (int t = 1; t <= NT; ++t) combos *= std::max<size_t>(1, cand[t].size()); if (combos > 64) return;
      all = false;
      for (size_t x = 0; x < combos && !all; ++x) { size_t y = x; Model m; for (int t = 1; t <= NT; ++t) if (!cand[t].empty()) { Model& o = cand[t][y % cand[t].size()]; y /= cand[t].size(); for (auto& e : o.ev) m.ev[e.first] += e.second; for (auto& a : o.av) m.av[a.first].insert(m.av[a.first].end(), a.second.begin(), a.second.end()); for (auto& b : o.bl) { auto& d = m.bl[b.first]; d.total += b.second.total; d.parts += b.second.parts; d.sure = d.sure && b.second.sure; d.lo = std::min(d.lo, b.second.lo); d.hi = std::max(d.hi, b.second.hi); } } if (agrees(ms, m, why)) all = true; }
    }
    if (all) { if (!merge) for (auto& s : secs) if (s.first != "merged") { bool known = false; for (int t = 1; t <= NT; ++t) if (tname[t] == s.first) known = true; if (!known && (s.second.ev.size() || s.second.av.size() || s.second.bl.size())) sim::fail("wrong-report", "%s: a thread that never recorded is reported", which); } sim::count(merge ? "probe.report-merged-checked" : "probe.report-checked"); return; }
  }
  sim::fail("wrong-report", "%s: %s", which, why.c_str());
}
struct Mid { std::string text; uint64_t inv, ret; bool merge; bool fault; };
static std::vector<Mid> mids[MT + 1];
static void execute(const Plan& p) {
  NT = std::max(1, std::min(MT, (int)p.get("nt", 2))); cstyle = (int)p.get("cstyle"); crng = Rng((uint64_t)p.get("cseed", 1)); sim::clock_hook = on_clock;
  int mode = (int)p.get("inst"); std::unique_ptr<Prof> own; if (mode != 2) own.reset(new Prof(false, mode == 1));
  auto prof = [&]() -> Prof& { return mode == 2 ? Prof::Instance() : *own; };
  std::vector<std::vector<Op>> ops(NT); for (auto& o : p.ops) if (!o.name.empty() && o.name[0] != '@') ops[((o.i(0) % NT) + NT) % NT].push_back(o);
  sim::step_budget(50000000); bool sole = p.get("sole") != 0;
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < NT; ++t) bodies.push_back([&, t] {
    int id = t + 1; { sim::Quiet q; tname[id] = tid_name(id); }
    for (auto& o : ops[t]) {
      int n = ((o.i(1) % 4) + 4) % 4; const std::string name = NAMES[n];
      auto doev = [&](unsigned k) { timed(id, 'e', n, k, [&] { if (k == 1) { if (mode == 2) Prof::Event(name); else prof().event(name); } else { if (mode == 2) Prof::Event(name, k); else prof().event(name, k); } }); };
      if (o.name == "e") doev((unsigned)std::abs(o.i(2, 1)));
      else if (o.name == "a") timed(id, 'a', n, o.at(2), [&] { if (mode == 2) Prof::Average(name, o.at(2)); else prof().average(name, o.at(2)); });
      else if (o.name == "b") timed(id, 'b', n, 0, [&] { if (mode == 2) Prof::Begin(name); else prof().begin(name); });
      else if (o.name == "n") timed(id, 'n', n, 0, [&] { if (mode == 2) Prof::End(name); else prof().end(name); });
      else if (o.name == "sb") {  // a scoped block; what it times is recorded as its begin and end
        if (nrec[id] + 4 >= MAXREC) continue;
        std::unique_ptr<Prof::ScopedBlock> b; if (!timed(id, 'b', n, 0, [&] { Prof& f = prof(); sim::NoFault nf; b.reset(new Prof::ScopedBlock(name, f)); })) continue;
        for (int k = 0; k < o.i(2); ++k) { int n2 = (n + 1) % 4; timed(id, 'e', n2, 3, [&] { prof().event(NAMES[n2], 3); }); }
        timed(id, 'n', n, 0, [&] { sim::NoFault nf; b.reset(); });
      }
      else if (o.name == "start") { if (sole && id != 1) continue; timed(id, 'S', 0, 0, [&] { if (mode == 2) Prof::Start(); else prof().start(); }); }
      else if (o.name == "stop") { if (sole && id != 1) continue; timed(id, 's', 0, 0, [&] { if (mode == 2) Prof::Stop(); else prof().stop(); }); }
      else if (o.name == "clear") { if (sole && id != 1) continue; timed(id, 'c', 0, 0, [&] { if (mode == 2) Prof::Clear(); else prof().clear(); }); sim::Quiet q; sim::count("op.clear"); }
      else if (o.name == "run") { bool r = false; timed(id, 'R', 0, 0, [&] { r = mode == 2 ? Prof::Running() : prof().running(); }); sim::Quiet q; rec[id][nrec[id] - 1].val = r; }
      else if (o.name == "sstart") { if (sole) continue; timed(id, 'x', 0, 0, [&] { Prof::ScopedStart s(prof()); }); }
      else if (o.name == "status") { if (sole && id != 1) continue;
        int thr = o.i(3, -1); bool mg = o.i(2) != 0;
        if (thr >= 0) { std::unique_ptr<Throwing> sb; std::unique_ptr<std::ostream> os; { sim::Quiet q; sim::NoFault nf; sb.reset(new Throwing(thr)); os.reset(new std::ostream(sb.get())); os->exceptions(std::ios::badbit); } timed(id, 't', 0, 0, [&] { prof().status(*os, mg); }); { sim::Quiet q; os.reset(); } }
        else { std::unique_ptr<std::ostringstream> os; { sim::Quiet q; sim::NoFault nf; os.reset(new std::ostringstream); } if (timed(id, 't', 0, 0, [&] { if (mode == 2) Prof::Status(*os, mg); else prof().status(*os, mg); })) { sim::Quiet q; sim::NoFault nf; Rec& r = rec[id][nrec[id] - 1]; mids[id].push_back({os->str(), r.inv, r.ret, mg, !os->good()}); } } sim::Quiet q; sim::count("op.status"); }
      else if (o.name == "jump") { sim::Quiet q; jump[id] = (int64_t)(o.at(1) * 1e6); }
      else if (o.name == "oom") { sim::Quiet q; sim::fail_alloc_at(o.i(1)); }
    }
    sim::Quiet q; if (NT == 1 || id == 1) {}
  });
  sim::run_threads(bodies); sim::fail_alloc_at(-1);
  // the profiler is quiescent now: both reports are exact
  std::string rep[2]; uint64_t inv = ++gseq;
  std::vector<std::function<void()>> last = {[&] { for (int m = 0; m < 2; ++m) { std::ostringstream os; try { prof().status(os, m == 1); } catch (...) { sim::fail("unusable", "reporting fails after all faults stopped"); } rep[m] = os.str(); } }};
  int keep = nrec[1]; nrec[1] = MAXREC; sim::run_threads(last); nrec[1] = keep; uint64_t ret = ++gseq;
  sim::NoFault nf;
  for (int t = 1; t <= NT; ++t) for (auto& m : mids[t]) if (!m.fault && !p.get("faulty")) judge("report while recording", m.text, m.inv, m.ret, m.merge);
  judge("per-thread report", rep[0], inv, ret, false); judge("merged report", rep[1], inv, ret, true);
  double t0 = 0, t1 = 0; { std::map<std::string, Sec> a, b; std::string e; parse(rep[0], t0, a, e); parse(rep[1], t1, b, e); if (!close_to(t0, t1)) sim::fail("wrong-total", "two reports of a stopped profiler count %g and %g seconds", t0, t1); }
  if (sole) {  // thread 1 alone starts and stops: the total is known
    const auto reads = [](const Rec& r, const char* what) { if (!r.threw && r.nread == 0) sim::fail("clock-not-read", "%s does not look at the clock", what); };
    bool running = mode == 1; bool sure = mode != 1; int64_t st = 0; double tot = 0;
    for (int i = 0; i < nrec[1]; ++i) { Rec& r = rec[1][i]; int64_t v = r.nread ? r.read[0] : 0;
      if (r.kind == 'S' && !running) { reads(r, "starting a stopped profiler"); running = true; if (r.nread != 1) sure = false; st = v; }
      else if ((r.kind == 's' || r.kind == 't') && running) { reads(r, "stopping a running profiler"); running = false; if (r.nread != 1) sure = false; tot += (v - st) * 1e-9; }
      else if (r.kind == 'c') { tot = 0; if (running) { reads(r, "clearing a running profiler"); if (r.nread != 1) sure = false; else sure = true; st = v; } else sure = true; }
      else if (r.kind == 'R' && !r.threw && (r.val != 0) != running) sim::fail("wrong-running", "running() says %d although the profiler was %s", (int)r.val, running ? "started" : "stopped"); }
    if (sure && !running && !close_to(tot, t0)) sim::fail("wrong-total", "total counted time %g s, clock readings give %g s", t0, tot);
    if (sure && !running) sim::count("probe.total-checked");
  }
  uint64_t n = 0; for (int t = 1; t <= NT; ++t) { n += nrec[t]; for (int i = 0; i < nrec[t]; ++i) { sim::sig((uint64_t)rec[t][i].inv * 4 + t); } } sim::sig(n); sim::log("%lu ops", (unsigned long)n); sim::log("%s", rep[1].c_str());
}
static void generate(Rng& r, Plan& p, bool thorough) {
  int nt = r.pick<int>({1, 2, 2, 3, 4}); p.set("nt", nt); p.set("inst", r.pick<int>({0, 0, 1, 2, 2})); p.set("cstyle", r.below(4)); p.set("cseed", r.below(100000)); p.set("sole", r.chance(0.5)); bool oom = r.chance(0.2), thr = r.chance(0.3); p.set("faulty", oom); schedule_knobs(r, p, 3000);
  int n = r.pick<int>({4, 10, 20, 40}) * (thorough ? 2 : 1);
  double wc = r.chance(0.5) ? r.real(0, 0.3) : 0, ws = r.chance(0.6) ? r.real(0, 0.3) : 0, wt = r.chance(0.5) ? r.real(0, 0.3) : 0; bool pair = r.chance(0.7);
  for (int k = 0; k < n; ++k) {
    double t = r.unit() * (2 + wc + 2 * ws + wt), id = (double)r.below(nt), nm = (double)r.below(4);
    if ((t -= 0.7) < 0) p.add("e", {id, nm, (double)r.pick<int>({1, 1, 2, 7, 1000, 0})});
    else if ((t -= 0.4) < 0) p.add("a", {id, nm, (double)r.range(-50, 50) / 4});
    else if ((t -= 0.5) < 0) { p.add("b", {id, nm}); if (pair || r.chance(0.8)) { if (r.chance(0.3)) p.add("jump", {id, (double)r.pick<int>({-100000, -20, 0, 40, 500000})}); p.add("n", {id, nm}); } }
    else if ((t -= 0.3) < 0) p.add("sb", {id, nm, (double)r.below(3)});
    else if ((t -= 0.1) < 0) { if (oom) p.add("oom", {id, (double)r.below(4)}); else if (!pair) p.add("n", {id, nm}); else p.add("run", {id}); }
    else if ((t -= wc) < 0) p.add("clear", {id});
    else if ((t -= ws) < 0) p.add("start", {id});
    else if ((t -= ws) < 0) p.add(r.chance(0.8) ? "stop" : r.chance(0.5) ? "run" : "sstart", {id});
    else p.add("status", {id, 0, (double)r.below(2), thr && r.chance(0.6) ? (double)r.below(120) : -1});
  }
}
#else  // 15
// ---------------------------------------------------------------- random streams
// A program: a sequence of generators and samplers created in a fixed order, each drawn from.
struct Out { uint32_t n; uint32_t gens; double v[16000]; uint64_t first[64]; uint64_t seed; };
static void range_check(const char* f, double v, double lo, double hi) { if (!(v >= lo && v <= hi)) sim::fail("out-of-range", "%s gave %.17g outside [%.17g, %.17g]", f, v, lo, hi); }
static void draws(RNG<double>& g, const Op& o, Out& out) {
  auto put = [&](double v) { if (!std::isfinite(v)) sim::fail("out-of-range", "a drawn value is not finite"); if (out.n < 16000) out.v[out.n++] = v; };
  double lo = o.at(2), hi = lo + std::fabs(o.at(3)); int il = (int)lo, ih = il + std::abs(o.i(3)); double rm = std::fabs(o.at(2)), rM = rm + std::fabs(o.at(3)), foc = std::fabs(o.at(4)) + 0.25;
  for (int k = 0; k < std::min(200, std::abs(o.i(1))); ++k) switch ((o.i(5) + (o.i(6) ? k : 0)) % 11) {
    case 0: { double v = g.uniform01(); range_check("uniform01", v, 0, 1); put(v); break; }
    case 1: { double v = g.uniformReal(lo, hi); range_check("uniformReal", v, lo, hi); put(v); break; }
    case 2: { int v = g.uniformInt(il, ih); range_check("uniformInt", v, il, ih); put(v); break; }
    case 3: { if (ih - il <= 3 && k == 0) { RNG<double> c(g); unsigned seen = 0, bs = 0; double mn = 1, mx = 0; for (int j = 0; j < 400; ++j) { int v = c.uniformInt(il, ih); range_check("uniformInt", v, il, ih); seen |= 1u << (v - il); bs |= 1u << c.uniformBool(); double u = c.uniform01(); mn = std::min(mn, u); mx = std::max(mx, u); }  // each value is missed with a probability below 1e-49
        if (seen != (1u << (ih - il + 1)) - 1) sim::fail("value-missing", "400 draws of uniformInt(%d, %d) never gave some of the values", il, ih); if (bs != 3) sim::fail("value-missing", "400 draws of uniformBool() were all the same"); if (mn > 0.25 || mx < 0.75) sim::fail("value-missing", "400 draws of uniform01() lay in [%g, %g]", mn, mx); sim::count("probe.coverage"); }
      put(g.uniformBool()); break; }
    case 4: put(g.gaussian01()); break;
    case 5: put(g.gaussian(lo, rm)); break;
    case 6: { double v = g.halfNormalReal(lo, hi, foc); range_check("halfNormalReal", v, lo, hi); put(v); break; }
    case 7: { int v = g.halfNormalInt(il, ih, foc); range_check("halfNormalInt", v, il, ih); put(v); break; }
    case 8: { double q[4]; g.quaternion(q); double n = 0; for (double x : q) { n += x * x; put(x); } range_check("quaternion norm", n, 1 - 1e-9, 1 + 1e-9); break; }
    case 9: { double e[3]; g.eulerRPY(e); const double pi = 3.14159265358979323846; for (int i = 0; i < 3; ++i) { range_check("eulerRPY", e[i], i == 1 ? -pi / 2 : -pi, i == 1 ? pi / 2 : pi); put(e[i]); } break; }
    default: { double x, y, z; g.disk(rm, rM, x, y); double s = 1e-9 * (1 + rM); range_check("disk radius", std::sqrt(x * x + y * y), rm - s, rM + s); put(x); put(y); g.ball(rm, rM, x, y, z); range_check("ball radius", std::sqrt(x * x + y * y + z * z), rm - s, rM + s); put(x); put(y); put(z); }
  }
}
template <class V> static void putv(Out& out, const V& v) { for (int i = 0; i < v.size(); ++i) { if (!std::isfinite(v[i])) sim::fail("out-of-range", "a sampled value is not finite"); if (out.n < 16000) out.v[out.n++] = v[i]; } }
static void sampler(const Op& o, Out& out) {
  double a = o.at(2), b = a + std::fabs(o.at(3)); int n = std::min(50, std::abs(o.i(1))); const double pi = 3.14159265358979323846;
  auto quat = [](double w, double x, double y, double z) { range_check("sampled quaternion norm", w * w + x * x + y * y + z * z, 1 - 1e-9, 1 + 1e-9); };
  switch (std::abs(o.i(5)) % 7) {
    case 0: { VectorN<double, 3> l, u; l << a, a - 1, a * 2; u << b, b + 2, std::max(a * 2, b * 2); SamplerR<double, 3> s; s.setBound(l, u); for (int k = 0; k < n; ++k) { auto v = s.sample(); for (int i = 0; i < 3; ++i) range_check("SamplerR", v[i], l[i], u[i]); putv(out, v); } break; }
    case 1: { SamplerSE2<double> s(a, b, a - 1, b + 1); for (int k = 0; k < n; ++k) { auto v = s.sample(); range_check("SamplerSE2 x", v[0], a, b); range_check("SamplerSE2 y", v[1], a - 1, b + 1); range_check("SamplerSE2 angle", v[2], -pi, pi); putv(out, v); } break; }
    case 2: { double cx = o.at(4), cy = -o.at(4); SamplerSE2_disk<double> s(cx, cy, std::fabs(a), std::fabs(a) + std::fabs(o.at(3)), 0.25, 0.5); for (int k = 0; k < n; ++k) { auto v = s.sample(); range_check("SamplerSE2_disk angle", v[2], -pi, pi); putv(out, v); } break; }
    case 3: { SamplerSE3Euler<double> s(Vector3<double>(a, a, a), Vector3<double>(b, b, b)); for (int k = 0; k < n; ++k) { auto v = s.sample(); for (int i = 0; i < 3; ++i) range_check("SamplerSE3Euler position", v[i], a, b); for (int i = 3; i < 6; ++i) range_check("SamplerSE3Euler angle", v[i], -pi, pi); putv(out, v); } break; }
    case 4: { SamplerSE3Quat<double> s(Vector3<double>(a, a, a), Vector3<double>(b, b, b)); for (int k = 0; k < n; ++k) { auto v = s.sample(); for (int i = 0; i < 3; ++i) range_check("SamplerSE3Quat position", v[i], a, b); quat(v[3], v[4], v[5], v[6]); putv(out, v); } break; }
    case 5: { double R = std::fabs(a) + 0.5; SamplerSE3Euler_ball<double> s(R); for (int k = 0; k < n; ++k) { auto v = s.sample(); range_check("SamplerSE3Euler_ball radius", std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), 0, R * (1 + 1e-9)); putv(out, v); } break; }
    default: { double R = std::fabs(a) + 0.5; SamplerSE3Quat_ball<double> s(R); for (int k = 0; k < n; ++k) { auto v = s.sample(); range_check("SamplerSE3Quat_ball radius", std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), 0, R * (1 + 1e-9)); quat(v[3], v[4], v[5], v[6]); putv(out, v); } }
  }
}
static uint64_t fingerprint(RNG<double>& g) { uint64_t h = 1; for (int i = 0; i < 4; ++i) { double v = g.uniform01(); h = sim::hash_bytes(&v, sizeof v, h); } return h; }
static int cstyle15; static Rng crng15(1);
static void on_clock15() { sim::Quiet q; static const int64_t J[] = {0, 1000, 999999937, -1000000007, 3600000000000LL, 12345}; int64_t t = sim::now_ns() + J[crng15.below(6)]; sim::set_now_ns(t); sim::count("fault.clock-moved"); }
static const uint64_t ZERO = 1ull << 40;  // a seed of 0, documented to mean 1
static void program(const Plan& p, uint64_t user, Out& out) {
  out.n = 0; out.gens = 0;
  if (user) { if (detail::Seed::isFirstSeedGenerated()) sim::fail("first-seed", "a first seed exists before first use"); RNG<double>::setSeed(user == ZERO ? 0 : (std::uint_fast32_t)user); if (user == ZERO) user = 1; }
  std::vector<std::unique_ptr<RNG<double>>> gens; int nt = std::max(1, std::min(4, (int)p.get("nt", 1)));
  if (nt == 1) {
    bool asked = false;
    for (auto& o : p.ops) {
      if (o.name == "gen") { if (gens.size() >= 12) continue; gens.emplace_back(new RNG<double>); RNG<double> copy(*gens.back()); out.first[out.gens++] = fingerprint(copy); }
      else if (o.name == "draw") { if (!gens.empty()) draws(*gens[std::abs(o.i(0)) % gens.size()], o, out); }
      else if (o.name == "sampler") sampler(o, out);
      else if (o.name == "getseed") { uint64_t s = RNG<double>::getSeed(); if (user && s != user) sim::fail("wrong-seed", "getSeed() gives %lu after setSeed(%lu)", (unsigned long)s, (unsigned long)user); if (asked && s != out.seed) sim::fail("wrong-seed", "getSeed() changed its answer"); asked = true; out.seed = s; }
    }
    if (!asked) out.seed = RNG<double>::getSeed();
  } else {
    // threads create the generators; every one draws only from its own
    std::vector<std::vector<uint64_t>> fp(nt); std::vector<uint64_t> seen(nt, 0); std::vector<std::function<void()>> bodies; std::vector<int> cnt(nt, 0); for (auto& o : p.ops) if (o.name == "gen") { int& c = cnt[std::abs(o.i(0)) % nt]; if (c < 3) ++c; }
    for (int t = 0; t < nt; ++t) fp[t].resize(cnt[t]);
    bool ask = p.get("ask") != 0;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { for (int k = 0; k < cnt[t]; ++k) { if (ask && k == t % 2) seen[t] = RNG<double>::getSeed(); RNG<double> g; fp[t][k] = fingerprint(g); } if (ask && !cnt[t]) seen[t] = RNG<double>::getSeed(); });
    sim::run_threads(bodies);
    for (auto& f : fp) for (uint64_t x : f) if (out.gens < 64) out.first[out.gens++] = x;
    out.seed = RNG<double>::getSeed(); for (uint64_t s : seen) if (s && s != out.seed) sim::fail("wrong-seed", "two threads were told different first seeds");
  }
  if (user && out.seed != user) sim::fail("wrong-seed", "getSeed() gives %lu after setSeed(%lu)", (unsigned long)out.seed, (unsigned long)user);
  if (!RNG<double>::getSeed() && user) sim::fail("wrong-seed", "seed 0");
  std::set<uint64_t> d(out.first, out.first + out.gens); if (d.size() != out.gens) sim::fail("same-stream", "two of %u generators produce the same stream", out.gens);
}
static void execute(const Plan& p) {
  Out* out = (Out*)sim::shared_block(); static_assert(sizeof(Out) < (1 << 18) / 1 , ""); static Out a, b;
  uint64_t user = std::max<uint64_t>(1, (uint64_t)p.get("user", 1)), other = user + 1 + (uint64_t)p.get("delta", 0); int nt = std::max(1, std::min(4, (int)p.get("nt", 1)));
  sim::clock_hook = on_clock15;
  auto go = [&](int variant, uint64_t u, Out& to, const Plan& q) { sim::fork_run(variant, [&] { crng15 = Rng((uint64_t)p.get("cseed") + 77 * variant); sim::set_now_ns(1700000000000000000LL + (int64_t)(variant * 86400000000000LL)); sim::heap_reseed(variant * 31 + 7, variant * 85); sim::step_budget(20000000); program(q, u, *out); }); to = *out; };
  auto same = [&](const Out& x, const Out& y) { return x.n == y.n && !memcmp(x.v, y.v, x.n * sizeof(double)); };
  go(0, user, a, p);
  std::vector<uint64_t> sa(a.first, a.first + a.gens), sb;
  go(1, user, b, p); sb.assign(b.first, b.first + b.gens);
  if (nt == 1) {
    if (!same(a, b) || sa != sb) sim::fail("not-reproducible", "two runs with seed %lu give different streams", (unsigned long)user); sim::count("probe.reproduced");
  } else {
    std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end()); if (sa != sb) sim::fail("schedule-dependent", "the seeds handed out to %d threads depend on the interleaving", nt); sim::count("probe.threads-reproduced");
    Plan q = p; q.set("nt", 1); q.ops.erase(std::remove_if(q.ops.begin(), q.ops.end(), [](const Op& o) { return o.name != "gen"; }), q.ops.end()); go(2, user, b, q); sb.assign(b.first, b.first + b.gens); if (b.gens >= a.gens) { sb.resize(a.gens); std::sort(sb.begin(), sb.end()); if (sa != sb) sim::fail("schedule-dependent", "threads are handed out other seeds than one thread"); }
  }
  go(3, other, b, p);
  uint32_t common = 0; for (uint32_t i = 0; i < b.gens; ++i) for (uint32_t k = 0; k < a.gens; ++k) common += a.first[k] == b.first[i];
  if (common >= 2 || (common && (a.gens == 1 || b.gens == 1))) sim::fail("seed-ignored", "seeds %lu and %lu give a common stream", (unsigned long)user, (unsigned long)other);
  if (user == 1) { go(6, ZERO, b, p); sb.assign(b.first, b.first + b.gens); std::sort(sb.begin(), sb.end()); go(7, 1, a, p); sa.assign(a.first, a.first + a.gens); std::sort(sa.begin(), sa.end()); if (sa != sb) sim::fail("not-reproducible", "seed 0 is not taken as seed 1"); sim::count("probe.seed-zero"); }
  if (p.get("unset") != 0) {  // without a seed: the seed told afterwards repeats the run
    go(4, 0, a, p); if (a.seed && a.seed < 2147483563) { uint64_t s = a.seed; go(5, s, b, p); (void)s; } else { uint64_t s = a.seed; if (s) { go(5, s, b, p); if (nt == 1 && !same(a, b)) sim::fail("not-reproducible", "the seed told by getSeed() does not repeat the run"); sim::count("probe.seed-told-repeats"); } } }
  for (uint32_t i = 0; i < a.gens; ++i) sim::sig(a.first[i]); sim::sig(a.n); sim::log("n %u g %u h %lx", a.n, a.gens, (unsigned long)sim::hash_bytes(a.v, a.n * sizeof(double)));
}
static void generate(Rng& r, Plan& p, bool thorough) {
  p.set("nt", r.pick<int>({1, 1, 2, 3, 4})); p.set("user", r.pick<double>({1, 2, 42, (double)r.range(1, 2000000000), (double)r.range(1, 100000), 4294967295.0})); p.set("delta", r.pick<double>({0, 0, 1, 1000, 255, 65535, 131071, 16777215, 1073741823.0, 2147483647.0, (double)r.below(1u << 31)})); p.set("cseed", r.below(100000)); p.set("unset", r.chance(0.4)); p.set("ask", r.below(2)); schedule_knobs(r, p, 400);
  int n = r.pick<int>({2, 5, 10, 25}) * (thorough ? 2 : 1); double m = r.pick<double>({0, 1, 10, 1e6}), w = r.pick<double>({0, 1, 3, 100}); bool grid = r.chance(0.5); auto c = [&](double x) { double v = r.real(-x, x); return grid ? std::round(v) : v; };
  p.add("gen", {0});
  for (int k = 0; k < n; ++k) { double t = r.unit(); if (t < 0.35) p.add("gen", {(double)r.below(4)}); else if (t < 0.8) p.add("draw", {(double)r.below(12), (double)r.range(1, 40), c(m), c(w), r.real(0, 4), (double)r.below(11), (double)r.below(2)}); else if (t < 0.9) p.add("sampler", {0, (double)r.range(1, 15), c(m), c(w), r.real(0, 4), (double)r.below(7)}); else p.add("getseed"); }
}
#endif
sim::Check sim::the_check = {"C" STR(PROP), generate, execute};

// Deterministic simulation runtime: seeded arena allocator with memory checking and allocation
// faults, virtual clock, seeded thread scheduler with a happens-before race detector.
// simrt.cpp is the only file built without instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plans
// A plan is one exactly repeatable execution: header knobs + a list of operations (including
// injected faults and, once recorded, the thread schedule).  Its text form is the replay file.
struct Op { std::string name; std::vector<double> a; double at(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; } int i(size_t k, int d = 0) const { return (int)at(k, d); } };
struct Plan {
  std::string check;
  std::vector<std::pair<std::string, double>> head;
  std::vector<Op> ops;
  double get(const std::string& k, double d = 0) const { for (auto& h : head) if (h.first == k) return h.second; return d; }
  void set(const std::string& k, double v) { for (auto& h : head) if (h.first == k) { h.second = v; return; } head.push_back({k, v}); }
  void add(const std::string& n, std::vector<double> a = {}) { ops.push_back(Op{n, std::move(a)}); }
  std::string text() const;
  bool parse(const std::string& t);
};

// ---------------------------------------------------------------- reporting (inside a run)
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // feeds the event hash; text kept if verbose
void logd(const char* tag, double v);
void count(const char* name, uint64_t n = 1);     // fault kinds fired, probes, operation mix
void sig(uint64_t v);                             // feeds the distinct-state signature of the run
uint64_t steps();
void set_step_limit(uint64_t n);                  // absolute; exceeding it is a "no-progress" violation
void step_budget(uint64_t n);                     // n more steps from now
extern bool verbose;

// ---------------------------------------------------------------- heap
void heap_mark();                                 // remember the set of live blocks
uint64_t heap_live_since_mark(std::string* what); // blocks allocated since the mark and still live
void fail_alloc_at(int64_t k);                    // k-th allocation from now (0-based) fails; <0 disarms
bool alloc_fault_fired();
uint64_t allocs();                                // allocations made so far
struct NoFault { NoFault(); ~NoFault(); int64_t saved; };  // harness code in which allocation never fails

// ---------------------------------------------------------------- clock (virtual, ns)
int64_t now_ns(); void set_now_ns(int64_t);
extern int64_t clock_autostep_ns;                 // added at each reading
extern void (*clock_hook)();                      // called at each reading (may jump the clock)

// ---------------------------------------------------------------- threads
// Runs the bodies as threads 1..n under the seeded scheduler.  Interleaving is decided at every
// instrumented memory access, lock, atomic and static-initialisation guard.
void run_threads(const std::vector<std::function<void()>>& bodies);
// Runs fn in a forked copy of the process (own statics, own heap) and returns when it has finished.
// A failure in it is a failure of the run.  salt changes the schedule drawn by run_threads in it.
void fork_run(uint64_t salt, const std::function<void()>& fn);
void* shared_block();                             // 256 KB shared between the run and its forked copies
void heap_reseed(uint64_t seed, int fill);        // another placement and fill of the blocks to come
void stack_refill();                              // overwrites 128 KB of stack below the caller with the fill byte
int self();                                       // 0 outside, 1..n inside
uint64_t preemptions();
struct Quiet { Quiet(); ~Quiet(); };              // no preemption and no race tracking of harness code

// ---------------------------------------------------------------- what a check supplies
struct Check {
  const char* id;
  void (*generate)(Rng&, Plan&, bool thorough);
  void (*execute)(const Plan&);
};
extern Check the_check;

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
}  // namespace sim

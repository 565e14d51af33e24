#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <new>
#include <unordered_map>
#include <map>
#include <set>

extern "C" char __data_start, _end;

namespace sim {
bool verbose = false;

// =============================================================== shared result block
static const int MAXCNT = 160, MAXSCHED = 1 << 16;
struct Counter { char name[56]; uint64_t n; };
struct SchedRec { uint64_t step; int tid; int seg; };
struct Shared {
  volatile int done;             // 1 = finished ok, 2 = violation
  char kind[64]; char msg[4096];
  uint64_t hash, steps, sigv, preempt; int64_t simtime;
  int ncnt; Counter cnt[MAXCNT];
  int nsched; SchedRec sched[MAXSCHED];
  int seg;                       // calls of run_threads so far
  size_t logn; char logbuf[1 << 20]; char block[1 << 18];
};
static Shared* sh = nullptr;
static bool active = false;            // true in the child while a plan executes
static uint64_t g_steps, g_limit = ~0ULL;

uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL)); r.next(); return r.next(); }
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) { auto c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
void log(const char* fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  sh->hash = hash_bytes(b, n, sh->hash);
  if (verbose && sh->logn + n + 2 < sizeof sh->logbuf) { memcpy(sh->logbuf + sh->logn, b, n); sh->logn += n; sh->logbuf[sh->logn++] = '\n'; }
}
void logd(const char* tag, double v) {
  sh->hash = hash_bytes(&v, sizeof v, hash_bytes(tag, strlen(tag), sh->hash));
  if (verbose && sh->logn + 128 < sizeof sh->logbuf) sh->logn += snprintf(sh->logbuf + sh->logn, 127, "%s %.17g\n", tag, v);
}
void count(const char* name, uint64_t n) {
  for (int i = 0; i < sh->ncnt; ++i) if (!strcmp(sh->cnt[i].name, name)) { sh->cnt[i].n += n; return; }
  if (sh->ncnt < MAXCNT) { strncpy(sh->cnt[sh->ncnt].name, name, 55); sh->cnt[sh->ncnt++].n = n; }
}
void sig(uint64_t v) { sh->sigv = hash_bytes(&v, sizeof v, sh->sigv); }
uint64_t steps() { return g_steps; }
void set_step_limit(uint64_t n) { g_limit = n; }
void step_budget(uint64_t n) { g_limit = g_steps + n; }
static void finish(int code) { sh->steps += g_steps; sh->done = code; _exit(code == 1 ? 0 : 3); }
static void vfail(const char* kind, const char* fmt, va_list ap) {
  active = false;
  strncpy(sh->kind, kind, sizeof sh->kind - 1);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  sh->hash = hash_bytes(kind, strlen(kind), sh->hash);
  finish(2); __builtin_unreachable();
}
void fail(const char* kind, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(kind, fmt, ap); __builtin_unreachable(); }
extern "C" [[noreturn]] void sim_assert_failed(const char* cond, const char* file, int line) { const char* f = strrchr(file, '/'); fail("bad-index", "%s does not hold (%s:%d)", cond, f ? f + 1 : file, line); }

// =============================================================== heap
static const uintptr_t ARENA = 0x100000000000ULL;
static const size_t ASIZE = 1ULL << 30;
static const uintptr_t SHADOW = 0x180000000000ULL;   // 1 byte per 8
static const int LANES = 4;
static uint8_t* const shadow = (uint8_t*)SHADOW;
struct Hdr { uint64_t magic; uint64_t size; uint32_t id; uint32_t kind; uint64_t off; };  // 32 bytes before the block
static const uint64_t LIVE = 0x51a1ead1b10cULL, DEAD = 0xdeadb10cdeadULL;
static uintptr_t lane_pos[LANES], lane_end[LANES];
static Rng heap_rng(1);
static uint32_t g_allocs; static int g_reuse; static uint8_t g_fill;
static int64_t g_failat = -1; static bool g_fired; static int g_nofault;
static uint32_t g_mark;
static const int FL = 64, FLN = 64;
static uintptr_t fl[FL][FLN]; static int fln[FL];
// live-block table: id -> address
static uintptr_t* live_tab; static uint32_t live_cap;
static inline bool in_arena(uintptr_t p) { return p - ARENA < ASIZE; }
static void* real_malloc(size_t n); 
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_memalign(size_t, size_t);
static void* real_malloc(size_t n) { return __libc_malloc(n); }

static void heap_init(uint64_t seed, int reuse, int fill) {
  heap_rng = Rng(seed); g_reuse = reuse; g_fill = (uint8_t)fill;
  for (int i = 0; i < LANES; ++i) { lane_pos[i] = ARENA + (ASIZE / LANES) * i + 64; lane_end[i] = ARENA + (ASIZE / LANES) * (i + 1) - 4096; }
  live_cap = 1 << 22;
  live_tab = (uintptr_t*)mmap(nullptr, live_cap * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void mark_addr(uintptr_t p, size_t n, bool ok) {
  size_t g = (p - ARENA) >> 3, full = n >> 3;
  memset(shadow + g, ok ? 8 : 0xfd, full);
  if (n & 7) shadow[g + full] = ok ? (uint8_t)(n & 7) : 0xfd;
}
static void shadow_clear_race(uintptr_t p, size_t n);
static void* heap_alloc(size_t n, size_t align, uint32_t kind) {
  size_t want = (n + 15) & ~(size_t)15; if (want == 0) want = 16;
  if (align < 16) align = 16;
  uintptr_t p = 0;
  int c = (int)(want / 16); 
  if (g_reuse && align == 16 && c < FL && fln[c] > 0 && (g_reuse == 2 || heap_rng.below(2))) {
    int k = g_reuse == 2 ? fln[c] - 1 : (int)heap_rng.below(fln[c]);
    p = fl[c][k]; fl[c][k] = fl[c][--fln[c]];
  } else {
    int l = (int)heap_rng.below(LANES);
    uintptr_t q = lane_pos[l] + 32 + heap_rng.below(3) * 16;
    q = (q + align - 1) & ~(uintptr_t)(align - 1);
    if (n > ASIZE || q + want + 32 > lane_end[l]) return nullptr;   // simulated memory exhausted
    p = q; lane_pos[l] = q + want + 16;
  }
  Hdr* h = (Hdr*)(p - 32);
  uint32_t id = g_allocs++;
  h->magic = LIVE; h->size = n; h->id = id; h->kind = kind; h->off = want;
  if (id < live_cap) live_tab[id] = p;
  mark_addr(p, want, false); mark_addr(p, n, true);
  memset((void*)p, g_fill, n < 65536 ? n : 65536);
  if (n == 0) mark_addr(p, 8, false);
  shadow_clear_race(p, want);
  return (void*)p;
}
static void heap_free(void* v, uint32_t kind) {
  uintptr_t p = (uintptr_t)v; Hdr* h = (Hdr*)(p - 32);
  if ((p & 15) || h->magic != LIVE) {
    if (!(p & 15) && h->magic == DEAD) fail("double-free", "block freed twice (allocation #%u, size %lu)", h->id, h->size);
    fail("bad-free", "free of a pointer that is not a live block");
  }
  bool m1 = h->kind == 1, m2 = kind == 1;
  if (m1 != m2) fail("mismatched-free", "malloc/new mismatch (allocation #%u, size %lu)", h->id, h->size);
  h->magic = DEAD;
  if (h->id < live_cap) live_tab[h->id] = 0;
  shadow_clear_race(p, h->off);
  mark_addr(p, h->off, false);
  memset(v, 0xDD, h->size < 65536 ? h->size : 65536);
  int c = (int)(h->off / 16);
  if (g_reuse && c < FL && fln[c] < FLN) fl[c][fln[c]++] = p;
}
static bool should_fail() {
  if (g_nofault || g_failat < 0) return false;
  if (g_failat-- == 0) { g_fired = true; count("fault.alloc"); return true; }
  return false;
}
void heap_mark() { g_mark = g_allocs; }
uint64_t heap_live_since_mark(std::string* what) {
  uint64_t n = 0; char b[96];
  for (uint32_t i = g_mark; i < g_allocs && i < live_cap; ++i) if (live_tab[i]) {
    if (what && n < 4) { Hdr* h = (Hdr*)(live_tab[i] - 32); snprintf(b, sizeof b, " #%u(%lu bytes)", h->id, h->size); *what += b; }
    ++n;
  }
  return n;
}
void fail_alloc_at(int64_t k) { g_failat = k; g_fired = false; }
bool alloc_fault_fired() { return g_fired; }
uint64_t allocs() { return g_allocs; }
NoFault::NoFault() : saved(0) { ++g_nofault; }
NoFault::~NoFault() { --g_nofault; }

// =============================================================== clock
static int64_t g_now = 1700000000000000000LL; int64_t clock_autostep_ns = 0; void (*clock_hook)() = nullptr;
int64_t now_ns() { return g_now; } void set_now_ns(int64_t v) { g_now = v; }
static int64_t read_clock() { if (clock_hook) clock_hook(); int64_t v = g_now; g_now += clock_autostep_ns; return v; }

// =============================================================== threads
static const int MAXT = 8;
struct VC { uint32_t c[MAXT]; };
static __thread int t_id = 0; static __thread int t_quiet = 0;
static __thread uintptr_t t_lo = 0, t_hi = 0;
static bool mt = false; static int nthreads = 0, cur = 0;
enum { RUN, BLOCKED, DONE };
struct Th { int state; int fut; void* waits; VC vc; pthread_t h; const std::function<void()>* body; uint64_t prio; };
static Th th[MAXT];
static Rng sched_rng(1);
static int strat; static double s_p; static int64_t countdown; static uint64_t s_mean;
static uint64_t pct_points[8]; static int npct; static uint64_t mt_steps;
static std::vector<std::pair<uint64_t, int>>* explicit_sched; static size_t exp_pos; static bool use_explicit;
static uint64_t n_preempt;
struct Cell { uint64_t wclk; uint8_t wtid, wmask; uint8_t last; uint8_t rmask[5]; uint32_t rclk[5]; uint32_t pad; uintptr_t wpc; uintptr_t rpc[5]; };
template <class T> struct Libc { using value_type = T; Libc() {} template <class U> Libc(const Libc<U>&) {} T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { __libc_free(p); } template <class U> bool operator==(const Libc<U>&) const { return true; } template <class U> bool operator!=(const Libc<U>&) const { return false; } };
template <class K, class V> using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Libc<std::pair<const K, V>>>;
static Map<uintptr_t, Cell>* cells;
static Map<uintptr_t, VC>* syncvc;
struct Mtx { int owner; int rec; int readers; };
static Map<void*, Mtx>* mtxs;
uint64_t preemptions() { return n_preempt; }
int self() { return t_id; }
Quiet::Quiet() { ++t_quiet; } Quiet::~Quiet() { --t_quiet; }
static void futex_wait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void futex_post(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static int main_fut;
static void record(int tid) { if (sh->nsched < MAXSCHED) { sh->sched[sh->nsched].step = mt_steps; sh->sched[sh->nsched].seg = sh->seg; sh->sched[sh->nsched++].tid = tid; } uint64_t x = mt_steps * 8 + tid; sh->hash = hash_bytes(&x, 8, sh->hash); }
static void switch_to(int t) { int me = cur; if (t == me) return; cur = t; futex_post(&th[t].fut); futex_wait(&th[me].fut); }
static int pick_other(int me, bool forced) {
  int c[MAXT], n = 0; for (int i = 1; i <= nthreads; ++i) if (th[i].state == RUN && i != me) c[n++] = i;
  if (!n) return 0;
  if (use_explicit) {
    if (exp_pos < explicit_sched->size() && (*explicit_sched)[exp_pos].first == mt_steps) { int t = (*explicit_sched)[exp_pos++].second; if (t >= 1 && t <= nthreads && th[t].state == RUN && t != me) return t; if (!forced) return 0; }
    return forced ? c[0] : 0;
  }
  if (strat == 1) { int best = c[0]; for (int i = 1; i < n; ++i) if (th[c[i]].prio > th[best].prio) best = c[i]; return best; }
  return c[sched_rng.below(n)];
}
static void draw() { double u = sched_rng.unit(); countdown = 1 + (int64_t)(-__builtin_log(1 - u) * (double)s_mean); }
static inline void preempt(bool hot) {
  // called before an access / sync operation of the running thread
  ++mt_steps;
  if (use_explicit) {
    while (exp_pos < explicit_sched->size() && (*explicit_sched)[exp_pos].first < mt_steps) ++exp_pos;
    if (exp_pos < explicit_sched->size() && (*explicit_sched)[exp_pos].first == mt_steps) { int t = pick_other(cur, false); if (t) { ++n_preempt; record(t); switch_to(t); } }
    return;
  }
  bool sw = false;
  if (strat == 1) { for (int i = 0; i < npct; ++i) if (pct_points[i] == mt_steps) { th[cur].prio = i; sw = true; } if (sw) { int t = pick_other(cur, false); if (!t || th[t].prio < th[cur].prio) sw = false; } }
  else { if (--countdown <= 0) { sw = true; draw(); } if (!sw && hot && strat == 2 && sched_rng.chance(s_p)) sw = true; }
  if (sw) { int t = pick_other(cur, false); if (t) { ++n_preempt; record(t); switch_to(t); } }
}
static void block_on(void* w) {
  int me = cur; th[me].state = BLOCKED; th[me].waits = w;
  ++mt_steps; int t = pick_other(me, true);
  if (!t) fail("deadlock", "all threads blocked");
  record(t); count("sched.blocked"); switch_to(t);
}
static void wake(void* w) { for (int i = 1; i <= nthreads; ++i) if (th[i].state == BLOCKED && th[i].waits == w) th[i].state = RUN; }
static void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void acquire(void* a) { auto it = syncvc->find((uintptr_t)a); if (it != syncvc->end()) vjoin(th[t_id].vc, it->second); }
static void release(void* a, bool join) { VC& v = (*syncvc)[(uintptr_t)a]; if (join) vjoin(v, th[t_id].vc); else v = th[t_id].vc; th[t_id].vc.c[t_id]++; }
static void shadow_clear_race(uintptr_t p, size_t n) { if (!mt || !cells) return; for (uintptr_t g = p >> 3; g < (p + n + 7) >> 3; ++g) cells->erase(g); }

static void race(uintptr_t addr, const char* k1, int t1, uintptr_t pc1, const char* k2, int t2, uintptr_t pc2) {
  fail("data-race", "%s by thread %d at pc 0x%lx races with %s by thread %d at pc 0x%lx (%s)", k1, t1, pc1, k2, t2, pc2, in_arena(addr) ? "heap" : "global");
}
static bool tracked(uintptr_t p) { return in_arena(p) || (p >= (uintptr_t)&__data_start && p < (uintptr_t)&_end); }
static void race_access(uintptr_t p, unsigned n, bool wr, uintptr_t pc) {
  Th& me = th[t_id];
  uintptr_t g0 = p >> 3, g1 = (p + n - 1) >> 3;
  for (uintptr_t g = g0; g <= g1; ++g) {
    unsigned lo = g == g0 ? (p & 7) : 0, hi = g == g1 ? ((p + n - 1) & 7) : 7;
    uint8_t mask = (uint8_t)(((1u << (hi - lo + 1)) - 1) << lo);
    Cell& c = (*cells)[g];
    if (c.wtid && c.wtid != t_id && (c.wmask & mask) && c.wclk > me.vc.c[c.wtid]) race(p, wr ? "write" : "read", t_id, pc, "write", c.wtid, c.wpc);
    if (wr) {
      for (int i = 1; i <= nthreads && i < 5; ++i) if (i != t_id && (c.rmask[i] & mask) && c.rclk[i] > me.vc.c[i]) race(p, "write", t_id, pc, "read", i, c.rpc[i]);
      if (c.wtid == t_id && c.wclk == me.vc.c[t_id]) c.wmask |= mask; else c.wmask = mask;
      c.wtid = (uint8_t)t_id; c.wclk = me.vc.c[t_id]; c.wpc = pc;
    } else {
      if (c.rclk[t_id] == me.vc.c[t_id]) c.rmask[t_id] |= mask; else c.rmask[t_id] = mask;
      c.rclk[t_id] = me.vc.c[t_id]; c.rpc[t_id] = pc;
    }
    c.last = (uint8_t)t_id;
  }
}
static bool hot_addr(uintptr_t p, bool wr) { auto it = cells->find(p >> 3); return it != cells->end() ? (it->second.last != t_id || (wr && !in_arena(p))) : !in_arena(p) && wr; }

static void bad_access(uintptr_t p, unsigned n, bool wr, uintptr_t pc) {
  uint8_t s = shadow[(p - ARENA) >> 3];
  if (s == 0xfd) fail("use-after-free", "%s of %u bytes in freed or out-of-bounds heap memory at pc 0x%lx", wr ? "write" : "read", n, pc);
  fail("heap-overflow", "%s of %u bytes outside a heap block at pc 0x%lx", wr ? "write" : "read", n, pc);
}
static inline void check_mem(uintptr_t p, size_t n, bool wr, uintptr_t pc) {
  if (!in_arena(p) || n == 0) return;
  size_t g0 = (p - ARENA) >> 3, g1 = (p + n - 1 - ARENA) >> 3;
  for (size_t g = g0; g <= g1; ++g) { uint8_t s = shadow[g]; if (s == 8) continue; unsigned last = g == g1 ? ((p + n - 1) & 7) : 7; if (s > 8 || last >= s) bad_access(p, (unsigned)n, wr, pc); }
}
static void over_limit() { if (!active) return; fail("no-progress", "more than %lu steps taken without finishing", g_limit); }
static inline __attribute__((always_inline)) void acc(void* a, unsigned n, bool wr, uintptr_t pc) {
  if (__builtin_expect(!active, 0)) return;
  if (__builtin_expect(++g_steps > g_limit, 0)) over_limit();
  uintptr_t p = (uintptr_t)a;
  if (__builtin_expect(mt, 0) && t_id && !t_quiet) {
    if (p - t_lo >= t_hi - t_lo) { bool tr = tracked(p); preempt(tr && strat == 2 && hot_addr(p, wr)); if (tr) race_access(p, n, wr, pc); }
  }
  check_mem(p, n, wr, pc);
}

static int done_id, next_id;
static void* thread_main(void* v) {
  Th* me = (Th*)v; int id = (int)(me - th);
  t_id = id;
  t_hi = (uintptr_t)__builtin_frame_address(0) + 65536; t_lo = t_hi - 65536 - (4 << 20);
  stack_t ss; ss.ss_sp = __libc_malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  futex_wait(&me->fut);
  (*me->body)();
  me->state = DONE;
  ++mt_steps;
  int t = pick_other(id, true);
  if (!t) { for (int i = 1; i <= nthreads; ++i) if (th[i].state != DONE) fail("deadlock", "all remaining threads blocked"); }
  else record(t);
  t_quiet = 1000;            // destructors of thread-local objects run next, still alone
  done_id = id; next_id = t; // the main thread joins this one before it lets the next one run
  futex_post(&main_fut);
  return nullptr;
}
static const Plan* cur_plan; static uint64_t sched_salt;
void run_threads(const std::vector<std::function<void()>>& bodies) {
  bool was = active; active = false;
  nthreads = (int)bodies.size(); if (nthreads > 4) nthreads = 4;
  if (!cells) { cells = new Map<uintptr_t, Cell>(); syncvc = new Map<uintptr_t, VC>(); mtxs = new Map<void*, Mtx>(); }
  cells->clear(); syncvc->clear();
  cells->reserve(1 << 14);
  strat = (int)cur_plan->get("strat", 0); s_mean = (uint64_t)cur_plan->get("mean", 100); s_p = cur_plan->get("hotp", 0.1);
  ++sh->seg; sched_rng = Rng(((uint64_t)cur_plan->get("sseed", 1) * 7919 + 13) ^ (sched_salt * 0x9e3779b97f4a7c15ULL));
  use_explicit = cur_plan->get("explicit", 0) != 0;
  if (use_explicit) { explicit_sched = new std::vector<std::pair<uint64_t, int>>(); for (auto& o : cur_plan->ops) if (o.name == "@sw" && o.i(2, 1) == sh->seg) explicit_sched->push_back({(uint64_t)o.at(0), o.i(1)}); exp_pos = 0; }
  npct = (int)cur_plan->get("npct", 2); if (npct > 8) npct = 8; uint64_t horizon = (uint64_t)cur_plan->get("horizon", 20000);
  for (int i = 0; i < npct; ++i) pct_points[i] = 1 + sched_rng.below(horizon);
  mt_steps = 0; draw();
  for (int i = 1; i <= nthreads; ++i) { th[i].state = RUN; th[i].fut = 0; th[i].body = &bodies[i - 1]; memset(&th[i].vc, 0, sizeof(VC)); th[i].vc.c[i] = 1; th[i].prio = 100 + sched_rng.below(1000); }
  main_fut = 0;
  for (int i = 1; i <= nthreads; ++i) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20); if (pthread_create(&th[i].h, &at, thread_main, &th[i])) { fprintf(stderr, "pthread_create failed\n"); _exit(9); } pthread_attr_destroy(&at); }
  mt = true; active = was;
  cur = 0; int first = use_explicit ? 0 : 1 + (int)sched_rng.below(nthreads);
  if (use_explicit) { first = 1; if (!explicit_sched->empty() && (*explicit_sched)[0].first == 0) { first = (*explicit_sched)[0].second; exp_pos = 1; if (first < 1 || first > nthreads) first = 1; } }
  record(first); cur = first; futex_post(&th[first].fut);
  for (;;) {
    futex_wait(&main_fut);
    pthread_join(th[done_id].h, nullptr);
    if (!next_id) break;
    cur = next_id; futex_post(&th[next_id].fut);
  }
  mt = false; active = false;
  sh->preempt += n_preempt; n_preempt = 0;
  active = was;
}

void* shared_block() { return sh->block; }
void heap_reseed(uint64_t seed, int fill) { heap_rng = Rng(seed); g_fill = (uint8_t)fill; }
__attribute__((noinline)) void stack_refill() { volatile uint8_t b[131072]; for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t*)(b + i) = g_fill * 0x0101010101010101ull; count("fault.stack-refilled"); }
void fork_run(uint64_t salt, const std::function<void()>& fn) {
  bool was = active; active = false; pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(9); }
  active = was;
  if (pid == 0) { sched_salt = salt; struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_PROF, &it, nullptr); alarm(600); fn(); active = false; sh->steps += g_steps; _exit(7); }
  active = false; int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (sh->done) _exit(3);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 7) { active = was; fail("abnormal-exit", "a forked copy ended with status %d", st); }
  active = was;
}
// mutex model
static bool managed() { return active && mt && t_id; }
static int m_lock(void* m, bool tr) {
  preempt(true); ++g_steps; if (g_steps > g_limit) over_limit();
  Mtx& x = (*mtxs)[m];
  while (x.owner || x.readers) { if (tr) return EBUSY; if (x.owner == t_id) fail("deadlock", "thread %d locks a mutex it already holds", t_id); block_on(m); }
  x.owner = t_id; acquire(m); return 0;
}
static int m_unlock(void* m) {
  Mtx& x = (*mtxs)[m]; if (x.owner != t_id) fail("bad-unlock", "thread %d unlocks a mutex held by %d", t_id, x.owner);
  x.owner = 0; release(m, false); wake(m); preempt(true); return 0;
}
static int r_lock(void* m, bool wr) {
  preempt(true); Mtx& x = (*mtxs)[m];
  while (wr ? (x.owner || x.readers) : x.owner) block_on(m);
  if (wr) x.owner = t_id; else x.readers++;
  acquire(m); return 0;
}
static int r_unlock(void* m) { Mtx& x = (*mtxs)[m]; if (x.owner == t_id) x.owner = 0; else x.readers--; release(m, true); wake(m); preempt(true); return 0; }
// a held mutex after the threads have finished (used by single-threaded code later on)
static int64_t pself_perm;

// =============================================================== plan text
std::string Plan::text() const {
  std::string o = "check " + check + "\n"; char b[64];
  for (auto& h : head) { snprintf(b, sizeof b, " %.17g\n", h.second); o += "head " + h.first + b; }
  for (auto& p : ops) { o += "op " + p.name; for (double d : p.a) { snprintf(b, sizeof b, " %.17g", d); o += b; } o += "\n"; }
  return o;
}
bool Plan::parse(const std::string& t) {
  size_t i = 0; check.clear(); head.clear(); ops.clear();
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
    std::string l = t.substr(i, e - i); i = e + 1;
    if (l.empty() || l[0] == '#') continue;
    char* s = &l[0]; char* sv = nullptr; char* w = strtok_r(s, " ", &sv); if (!w) continue; std::string k = w;
    if (k == "check") { w = strtok_r(nullptr, " ", &sv); check = w ? w : ""; }
    else if (k == "head") { w = strtok_r(nullptr, " ", &sv); std::string n = w ? w : ""; w = strtok_r(nullptr, " ", &sv); head.push_back({n, w ? strtod(w, nullptr) : 0}); }
    else if (k == "op") { w = strtok_r(nullptr, " ", &sv); Op o; o.name = w ? w : ""; while ((w = strtok_r(nullptr, " ", &sv))) o.a.push_back(strtod(w, nullptr)); ops.push_back(o); }
  }
  return !check.empty();
}

// =============================================================== running one plan in a forked child
struct Outcome { int done; std::string kind, msg; uint64_t hash, steps, sigv, preempt; int64_t simtime; std::vector<std::pair<std::string, uint64_t>> cnt; std::vector<SchedRec> sched; std::string logtext; };
static void on_signal(int s, siginfo_t* si, void* uc) {
  (void)si;
  if (sh->done) _exit(4);
  uintptr_t pc = 0;
#if defined(__x86_64__)
  pc = (uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
#endif
  const char* n = s == SIGSEGV ? "crash-SIGSEGV" : s == SIGABRT ? "crash-SIGABRT" : s == SIGFPE ? "crash-SIGFPE" : s == SIGBUS ? "crash-SIGBUS" : s == SIGILL ? "crash-SIGILL" : "no-progress";
  active = false;
  strcpy(sh->kind, n); bool own = pc >= 0x400000 && pc < (uintptr_t)&_end;
  snprintf(sh->msg, sizeof sh->msg, "signal %d at pc 0x%lx%s", s, own ? pc : 0, own ? "" : " (in a shared library)");
  sh->hash = hash_bytes(n, strlen(n), sh->hash);
  sh->steps = g_steps; sh->done = 2; _exit(3);
}
static int wall_limit = 60;
static Outcome run_plan(const Plan& p, bool want_log = false) {
  memset(sh, 0, offsetof(Shared, cnt)); sh->ncnt = 0; sh->nsched = 0; sh->logn = 0; sh->seg = 0; memset(sh->block, 0, 4096); sh->hash = 1469598103934665603ULL; sh->sigv = 1469598103934665603ULL;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(9); }
  if (pid == 0) {
    verbose = want_log;
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = wall_limit; setitimer(ITIMER_PROF, &it, nullptr); alarm(wall_limit * 10);
    if (!want_log) { FILE* f = freopen("/dev/null", "w", stderr); (void)f; f = freopen("/dev/null", "w", stdout); (void)f; }
    cur_plan = &p;
    heap_init((uint64_t)p.get("heapseed", 1), (int)p.get("reuse", 0), (int)p.get("fill", 0xA5));
    pself_perm = (int64_t)p.get("heapseed", 1);
    g_steps = 0; g_limit = (uint64_t)p.get("maxsteps", 400000000.0);
    active = true;
    the_check.execute(p);
    active = false;
    sh->simtime = g_now - 1700000000000000000LL;
    finish(1);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  if (!sh->done) {  // died without reporting (killed, exit() from library code)
    char b[128]; snprintf(b, sizeof b, WIFSIGNALED(st) ? "child killed by signal %d" : "child left by exit(%d)", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    strcpy(sh->kind, "abnormal-exit"); strcpy(sh->msg, b); sh->done = 2;
  }
  o.done = sh->done; o.kind = sh->kind; o.msg = sh->msg; o.hash = sh->hash; o.steps = sh->steps; o.sigv = sh->sigv; o.preempt = sh->preempt; o.simtime = sh->simtime;
  for (int i = 0; i < sh->ncnt; ++i) o.cnt.push_back({sh->cnt[i].name, sh->cnt[i].n});
  o.sched.assign(sh->sched, sh->sched + sh->nsched);
  if (want_log) o.logtext.assign(sh->logbuf, sh->logn);
  return o;
}

// =============================================================== minimiser
static bool still(const Plan& p, const std::string& kind, int& budget, Outcome* keep = nullptr) {
  if (budget-- <= 0) return false;
  Outcome o = run_plan(p); if (keep) *keep = o; return o.done == 2 && o.kind == kind;
}
static Plan with_schedule(const Plan& p, const Outcome& o) {
  if (o.sched.empty()) return p;
  Plan q = p; q.ops.erase(std::remove_if(q.ops.begin(), q.ops.end(), [](const Op& x) { return x.name == "@sw"; }), q.ops.end());
  q.set("explicit", 1); for (auto& s : o.sched) q.add("@sw", {(double)s.step, (double)s.tid, (double)s.seg}); return q;
}
static Plan minimise(Plan p, const std::string& kind, double maxsec) {
  int budget = 4000; time_t t0 = time(nullptr);
  auto timeup = [&] { return time(nullptr) - t0 > maxsec; };
  bool again = true;
  while (again && budget > 0 && !timeup()) {
    again = false;
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < p.ops.size() && budget > 0 && !timeup();) {
        Plan q = p; size_t e = std::min(q.ops.size(), i + chunk); q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
        if (still(q, kind, budget)) { p = q; again = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
  }
  // simpler arguments
  for (size_t i = 0; i < p.ops.size() && budget > 0 && !timeup(); ++i) if (p.ops[i].name != "@sw") for (size_t k = 0; k < p.ops[i].a.size(); ++k) {
    double v = p.ops[i].a[k]; double cand[4] = {0, 1, (double)(int64_t)v, (double)(int64_t)(v * 4) / 4};
    for (double c : cand) if (c != v && (c == (double)(int64_t)v || std::abs(v) < 1e9)) { if (c == v) continue; Plan q = p; q.ops[i].a[k] = c; if (still(q, kind, budget)) { p = q; break; } }
  }
  for (size_t i = 0; i < p.head.size() && budget > 0 && !timeup(); ++i) {
    const std::string& n = p.head[i].first; if (n == "explicit" || p.head[i].second == 0) continue;
    Plan q = p; q.head[i].second = n == "heapseed" ? 1 : 0; if (q.head[i].second == p.head[i].second) continue; if (still(q, kind, budget)) p = q;
  }
  return p;
}
static std::string jesc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string slurp(const char* f) { std::string s; FILE* h = fopen(f, "r"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static Plan make_plan(uint64_t seed, uint64_t index, bool thorough) {
  uint64_t s = mix(mix(seed, hash_bytes(the_check.id, strlen(the_check.id))), index);
  Rng r(s); Plan p; p.check = the_check.id;
  p.set("seed", (double)seed); p.set("index", (double)index);
  p.set("heapseed", (double)(r.next() % 1000000007)); p.set("reuse", (double)r.below(3)); p.set("fill", (double)(r.chance(0.5) ? 0xA5 : r.below(256)));
  the_check.generate(r, p, thorough);
  return p;
}
static double wall() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

int real_main(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> a; for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, double d) { auto it = a.find(k); return it == a.end() ? d : atof(it->second.c_str()); };
  bool thorough = num("--thorough", 0) != 0;
  wall_limit = (int)num("--wall", 60);
  if (mode == "explore") {
    uint64_t seed = (uint64_t)num("--seed", 1), first = (uint64_t)num("--first", 0), stride = (uint64_t)num("--stride", 1), n = (uint64_t)num("--count", 100);
    double maxsec = num("--maxsec", 1e9), t0 = wall(); uint64_t twice = (uint64_t)num("--twice", 25);
    std::map<std::string, uint64_t> cnt, runs_with; std::set<uint64_t> sigs, hashes; uint64_t runs = 0, nsteps = 0, npre = 0, dbl = 0, nondet = 0; double simt = 0; std::string sample, viol;
    uint64_t rollhash = 0, firstbad = 0;
    for (uint64_t k = 0; k < n && wall() - t0 < maxsec; ++k) {
      uint64_t idx = first + k * stride; Plan p = make_plan(seed, idx, thorough);
      Outcome o = run_plan(p); ++runs; nsteps += o.steps; npre += o.preempt; simt += o.simtime * 1e-9;
      for (auto& c : o.cnt) { cnt[c.first] += c.second; runs_with[c.first]++; }
      sigs.insert(o.sigv); hashes.insert(o.hash); rollhash ^= mix(o.hash, idx);
      if (o.done == 1 && twice && k % twice == 0) { Outcome o2 = run_plan(p); ++dbl; if (o2.hash != o.hash || o2.done != o.done) { ++nondet; firstbad = idx; } }
      if (k == 0) { sample = p.text(); if (sample.size() > 3000) sample = sample.substr(0, 3000) + "..."; }
      if (o.done == 2) {
        Outcome o2 = run_plan(p);
        if (o2.done != 2 || o2.kind != o.kind || o2.hash != o.hash) { printf("{\"error\":\"violation did not repeat\",\"index\":%lu,\"kind\":\"%s\",\"kind2\":\"%s\",\"msg\":\"%s\"}\n", idx, jesc(o.kind).c_str(), jesc(o2.kind).c_str(), jesc(o.msg).c_str()); return 2; }
        Plan q = with_schedule(p, o); int b = 1; 
        if (!o.sched.empty() && !still(q, o.kind, b)) q = p;
        Plan m = minimise(q, o.kind, num("--minsec", 60));
        Outcome om = run_plan(m), om2 = run_plan(m);
        if (om.done != 2 || om.kind != o.kind || om.hash != om2.hash) { m = p; om = o; }
        std::string path = a["--out"]; FILE* f = fopen(path.c_str(), "w");
        std::string mm = om.msg; for (auto& c : mm) if (c == '\n') c = ' ';
        fprintf(f, "# violation: %s: %s\n# event-hash %016lx, found at seed %lu run %lu (%lu ops before minimising)\n%s", om.kind.c_str(), mm.c_str(), om.hash, seed, idx, p.ops.size(), m.text().c_str()); fclose(f);
        printf("{\"violation\":true,\"index\":%lu,\"kind\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016lx\",\"ops\":%lu,\"ops_min\":%lu,\"path\":\"%s\",\"runs\":%lu}\n", idx, jesc(om.kind).c_str(), jesc(om.msg).c_str(), om.hash, p.ops.size(), m.ops.size(), path.c_str(), runs);
        return 1;
      }
    }
    printf("{\"runs\":%lu,\"steps\":%lu,\"preemptions\":%lu,\"simtime_s\":%.6f,\"twice\":%lu,\"nondet\":%lu,\"nondet_index\":%lu,\"rollhash\":\"%016lx\",\"wall\":%.3f,\"sample\":\"%s\",\"counts\":{", runs, nsteps, npre, simt, dbl, nondet, firstbad, rollhash, wall() - t0, jesc(sample).c_str());
    bool f = true; for (auto& c : cnt) { printf("%s\"%s\":%lu", f ? "" : ",", c.first.c_str(), c.second); f = false; }
    printf("},\"runs_with\":{"); f = true; for (auto& c : runs_with) { printf("%s\"%s\":%lu", f ? "" : ",", c.first.c_str(), c.second); f = false; }
    printf("},\"sigs\":["); f = true; for (auto s : sigs) { printf("%s\"%lx\"", f ? "" : ",", s); f = false; }
    printf("],\"hashes\":%lu}\n", (unsigned long)hashes.size());
    return 0;
  }
  if (mode == "replay") {
    Plan p; if (!p.parse(slurp(a["--plan"].c_str()))) { fprintf(stderr, "bad plan\n"); return 2; }
    Outcome o = run_plan(p, num("--verbose", 0) != 0);
    if (num("--verbose", 0)) fputs(o.logtext.c_str(), stdout);
    printf("{\"done\":%d,\"kind\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016lx\",\"steps\":%lu}\n", o.done, jesc(o.kind).c_str(), jesc(o.msg).c_str(), o.hash, o.steps);
    return o.done == 2 ? 1 : 0;
  }
  if (mode == "show") { Plan p = make_plan((uint64_t)num("--seed", 1), (uint64_t)num("--index", 0), thorough); fputs(p.text().c_str(), stdout); return 0; }
  if (mode == "minimise") {
    Plan p; if (!p.parse(slurp(a["--plan"].c_str()))) return 2; Outcome o = run_plan(p); if (o.done != 2) { printf("passes\n"); return 0; }
    Plan m = minimise(with_schedule(p, o), o.kind, 60); fputs(m.text().c_str(), stdout); return 1;
  }
  fprintf(stderr, "usage: explore|replay|show|minimise ...\n"); return 2;
}
}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  void* p = mmap((void*)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* q = mmap((void*)SHADOW, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p != (void*)ARENA || q != (void*)SHADOW || sh == MAP_FAILED) { perror("mmap"); return 9; }
  return real_main(argc, argv);
}

// =============================================================== interposed allocation
using namespace sim;
static void* op_new(size_t n, size_t al, bool nothrow) {
  if (!active) { void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  if (should_fail()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  void* p = heap_alloc(n, al, 0);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  return p;
}
static void op_del(void* p) { if (!p) return; if (in_arena((uintptr_t)p)) { if (active) heap_free(p, 0); } else __libc_free(p); }
void* operator new(size_t n) { return op_new(n, 16, false); }
void* operator new[](size_t n) { return op_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void operator delete(void* p) noexcept { op_del(p); }
void operator delete[](void* p) noexcept { op_del(p); }
void operator delete(void* p, size_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t) noexcept { op_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p); }
#if __cpp_aligned_new
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p); }
#endif
extern "C" {
void* __wrap_malloc(size_t n) { if (!active) return __libc_malloc(n); if (should_fail()) { errno = ENOMEM; return nullptr; } return heap_alloc(n, 16, 1); }
void __wrap_free(void* p) { if (!p) return; if (in_arena((uintptr_t)p)) { if (active) heap_free(p, 1); } else __libc_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (!active) return __libc_calloc(a, b); if (should_fail()) { errno = ENOMEM; return nullptr; } void* p = heap_alloc(a * b, 16, 1); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
  if (p && !in_arena((uintptr_t)p)) return __libc_realloc(p, n);
  if (!active) return p ? nullptr : __libc_malloc(n);
  if (should_fail()) { errno = ENOMEM; return nullptr; }
  void* q = heap_alloc(n, 16, 1); if (p && q) { size_t o = ((Hdr*)((uintptr_t)p - 32))->size; memcpy(q, p, o < n ? o : n); heap_free(p, 1); } return q;
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) { if (!active) { *r = __libc_memalign(al, n); return *r ? 0 : ENOMEM; } if (should_fail()) return ENOMEM; *r = heap_alloc(n, al, 1); return *r ? 0 : ENOMEM; }
void* __wrap_aligned_alloc(size_t al, size_t n) { void* r = nullptr; return __wrap_posix_memalign(&r, al, n) ? nullptr : r; }
}

// =============================================================== interposed clock
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (!active) { struct timeval tv; gettimeofday(&tv, nullptr); return time_point(duration(tv.tv_sec * 1000000000LL + tv.tv_usec * 1000LL)); }
  return time_point(duration(read_clock()));
}
steady_clock::time_point steady_clock::now() noexcept {
  if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec)); }
  return time_point(duration(read_clock()));
}
}}}
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!active) return (int)syscall(SYS_clock_gettime, c, ts); int64_t v = read_clock(); ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0; }
extern "C" int __wrap_gettimeofday(struct timeval* tv, void*) { if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; } int64_t v = read_clock(); tv->tv_sec = v / 1000000000LL; tv->tv_usec = (v % 1000000000LL) / 1000; return 0; }
extern "C" time_t __wrap_time(time_t* t) { time_t v; if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else v = read_clock() / 1000000000LL; if (t) *t = v; return v; }

// =============================================================== interposed synchronisation
template <class F> static F next_sym(const char* n) { static_assert(sizeof(F) == sizeof(void*), ""); F f; void* p = dlsym(RTLD_NEXT, n); memcpy(&f, &p, sizeof p); return f; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (managed()) return m_lock(m, false); static auto f = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (managed()) return m_lock(m, true); static auto f = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (managed()) return m_unlock(m); static auto f = next_sym<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (managed()) return r_lock(m, false); static auto f = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (managed()) return r_lock(m, true); static auto f = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (managed()) return r_unlock(m); static auto f = next_sym<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!managed()) { static auto f = next_sym<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(o, fn); }
  preempt(true); Mtx& x = (*mtxs)[o]; while (x.owner == t_id ? false : x.owner > 0) block_on(o);
  if (*(int*)o == 2) { acquire(o); return 0; }
  x.owner = t_id; fn(); *(int*)o = 2; x.owner = 0; release(o, true); wake(o); return 0;
}
// a stable, seeded thread identity instead of the address of the thread's control block
pthread_t pthread_self() { if (active && t_id) return (pthread_t)(0x7000 + 64 * (((t_id * 5 + pself_perm) % 8 + 8) % 8)); if (active) return (pthread_t)0x6000; static auto f = next_sym<pthread_t (*)()>("pthread_self"); return f(); }
int __cxa_guard_acquire(uint64_t* g) {
  unsigned char* b = (unsigned char*)g;
  if (managed()) {
    preempt(true); Mtx& x = (*mtxs)[g];
    while (b[0] == 0 && x.owner) { if (x.owner == t_id) fail("deadlock", "recursive static initialisation"); block_on(g); }
    if (b[0]) { acquire(g); return 0; }
    x.owner = t_id; count("probe.static-init-in-threads"); return 1;
  }
  return b[0] ? 0 : 1;
}
void __cxa_guard_release(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[0] = 1; if (managed()) { (*mtxs)[g].owner = 0; release(g, true); wake(g); preempt(true); } }
void __cxa_guard_abort(uint64_t* g) { if (managed()) { (*mtxs)[g].owner = 0; release(g, true); wake(g); } }
}

// =============================================================== instrumentation callbacks
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* a) { acc(a, n, false, PC); } void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_read_write##n(void* a) { acc(a, n, true, PC); } void __tsan_unaligned_read_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { if (*a != v) acc(a, 8, true, PC); else acc(a, 8, false, PC); }
void __tsan_vptr_read(void** a) { acc(a, 8, false, PC); }
static void range(void* a, size_t n, bool wr, uintptr_t pc) {
  if (!active || !n) return; uintptr_t p = (uintptr_t)a;
  g_steps += 1 + n / 64; if (g_steps > g_limit) over_limit();
  if (mt && t_id && !t_quiet && p - t_lo >= t_hi - t_lo) { bool tr = tracked(p); preempt(tr && strat == 2 && hot_addr(p, wr)); if (tr) { while (n > 8) { race_access(p, 8, wr, pc); p += 8; n -= 8; } race_access(p, (unsigned)n, wr, pc); return; } }
  check_mem(p, n, wr, pc);
}
void __tsan_read_range(void* a, unsigned long n) { range(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { range(a, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { range(const_cast<void*>(s), n, false, PC); range(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range(const_cast<void*>(s), n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range(d, n, true, PC); return memset(d, c, n); }
static inline void apre(void* a, uintptr_t pc, unsigned n, bool wr) { if (!active) return; if (++g_steps > g_limit) over_limit(); check_mem((uintptr_t)a, n, wr, pc); if (mt && t_id && !t_quiet) preempt(true); }
static inline void aacq(void* a, int mo) { if (active && mt && t_id && mo != 0 && mo != 3) acquire(a); }
static inline void arel(void* a, int mo, bool rmw) { if (active && mt && t_id && (mo == 3 || mo == 4 || mo == 5)) release(a, rmw); }
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) { apre((void*)a, PC, sizeof(T), false); T v = *a; aacq((void*)a, mo); return v; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); arel((void*)a, mo, false); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); aacq((void*)a, mo); arel((void*)a, mo, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); aacq((void*)a, mo); arel((void*)a, mo, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); aacq((void*)a, mo); arel((void*)a, mo, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); aacq((void*)a, mo); arel((void*)a, mo, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); aacq((void*)a, mo); arel((void*)a, mo, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); aacq((void*)a, mo); arel((void*)a, mo, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) { apre((void*)a, PC, sizeof(T), true); aacq((void*)a, mo); arel((void*)a, mo, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { apre((void*)a, PC, sizeof(T), true); if (*a == *e) { aacq((void*)a, mo); arel((void*)a, mo, true); *a = v; return 1; } aacq((void*)a, fmo); *e = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { apre((void*)a, PC, sizeof(T), true); T o = *a; if (o == e) { aacq((void*)a, mo); arel((void*)a, mo, true); *a = v; } else aacq((void*)a, fmo); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}

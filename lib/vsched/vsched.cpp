// vsched: a schedule-fuzzing runtime behind clang's ThreadSanitizer instrumentation.
//
// The harness is compiled with -fsanitize=thread but linked with this file instead of the TSan
// runtime. Every atomic operation, plain access (race detection only), mutex, condition variable,
// futex, thread, clock and allocation call of the code under test ends up here. Exactly one thread
// runs at a time; this runtime decides which, and it decides which value permitted by the C++ memory
// model an atomic load returns (a sound subset: views over the modification order, seq_cst accesses
// are treated as fenced). All decisions are "choices" with default 0; a run is reproduced by its
// list of non-default choices.
#include "vsched.h"
#include <pthread.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <new>
#include <set>
#include <unordered_map>
#include <unordered_set>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define TLS static __thread __attribute__((tls_model("initial-exec")))

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}

extern "C" char vs_pool[] asm("_ZZNSt8__detail18__waiter_pool_base6_S_forEPKvE3__w") __attribute__((weak));
// ------------------------------------------------------------------------------------------ raw syscalls
static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

namespace {
constexpr int MAXT = 20;               // logical threads per execution
constexpr int MAXLOC = 96;             // atomic locations with history
constexpr int HIST = 6;                // stores kept per location
constexpr size_t ARENA = 64u << 20;
constexpr size_t STACK = 512u << 10;

struct VC { u32 c[MAXT]; };
struct Clock {
  VC vc; u32 view[MAXLOC];
};
int g_nloc;                            // locations in use (views beyond are unused)
int g_nt;

inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < g_nt; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
inline void view_join(u32* a, const u32* b) { for (int i = 0; i < g_nloc; i++) if (b[i] > a[i]) a[i] = b[i]; }
inline void join(Clock& a, const Clock& b) { vc_join(a.vc, b.vc); view_join(a.view, b.view); }

struct Store { u64 val; bool hasmsg; Clock msg; };
struct Loc {
  uintptr_t addr; u8 size; bool nostale; int id;   // id <0: no history
  u32 newest; u32 oldest;                          // indices into modification order
  Store h[HIST];
};

enum Kind : u8 { K_THREAD, K_STALE, K_SPURIOUS, K_WAKE, K_TIME, K_USER, K_RND };
enum State : u8 { RUNNABLE, BLOCKED, FINISHED };

struct Thr {
  int id; State st; u32 go;            // go: token futex
  const void* on; int onk;             // what it is blocked on
  u64 deadline;                        // virtual ns, 0 = none
  bool timedout, notified;
  Clock clk, relf, acqp;
  u32 prio;                            // PCT
  pthread_t pt; bool detached, joined;
  void* (*fn)(void*); void* arg; void* ret;
  struct Dtor { void (*f)(void*); void* o; } dt[32]; int ndt;
  u32 stale_run;
  uintptr_t stk_lo, stk_hi;
  int yields;
};

struct Ent { u32 clk; u8 tid, mask, wr, at; void* pc; };
constexpr int NENT = 7;
struct Cell { u32 gen; u8 n; u8 atom; u8 freed; u8 pad; u64 pad2; Ent e[NENT]; };

struct Hdr { u32 magic; u32 st; size_t sz; u32 al; u32 kind; void* pc; size_t total; u64 pad[2]; }; // 48..64 bytes
static_assert(sizeof(Hdr) <= 64);

struct Mtx { int owner; int cnt; Clock clk; };

// decisions
struct Dev { u32 idx; u32 val; };
constexpr int MAXDEV = 4096;
struct Shared {                        // mapped shared: result of one worker / one candidate run
  volatile u32 state;                  // 0 running, 1 violation
  u64 caseno; u32 sched_no; u32 scen;
  u32 ndev; Dev dev[MAXDEV];
  char msg[2000]; char kind[32]; int nbt; void* bt[40]; void* pc2;
  // statistics
  u64 execs, nontriv, distinct, switches, stales, spur, timejumps, steps, inconclusive, deadlk;
  u64 cases;
  u32 gen_n; u32 gen_rec[4096];
  u32 nlab; struct { char l[40]; u64 n; } lab[64];
  u32 nsamp; char samp[4][1600];
};
Shared* g_sh;

// configuration of one execution
struct Cfg {
  u64 seed; int strat;                 // 0 replay/default, 1 random walk, 2 PCT
  u32 p_switch;                        // per 1024
  u32 p_stale; u32 p_spur; u32 p_time; // per 1024
  u32 max_stale; int pct_d; u32 est_steps;
};
Cfg cfg;
const std::vector<Dev>* g_replay; size_t g_rpos;

bool g_active, g_fair, g_leakcheck; int g_force_nt;
u64 g_rng; u32 g_choice; u64 g_step; u64 g_vtime; u32 g_nstale; u32 g_gen;
u64 g_trace; u32 g_nsw; u64 g_shared_ops; u32 g_nspur, g_ntime;
Thr g_thr[MAXT];
u32 g_pct_change[8]; u32 g_pct_low;
Clock g_sc; // only view used
char* g_arena; size_t g_apos; size_t g_apeak;
Cell* g_ash;                           // shadow of arena
char* g_stk; Cell* g_ssh;              // stacks and shadow
size_t g_live;
u32 g_main_done; // futex
const u64 LIMIT = 30000, LIMIT2 = 400000;
std::unordered_map<uintptr_t, Cell>* g_gsh;
u64 g_max_sw;
const char* g_labels[16]; int g_nlabels;
std::unordered_set<u64>* g_seen;
bool g_verbose;
std::vector<Dev>* g_devs;
u64 g_aborts; bool g_abort_exec;

struct Tab {                           // addr -> object tables, open addressing, generation stamped
  struct S { uintptr_t k; u32 gen; void* v; };
  static constexpr u32 N = 4096; S s[N];
  void** get(uintptr_t k) {
    u32 h = (u32) ((k * 0x9E3779B97F4A7C15ull) >> 40) % N;
    for (u32 i = 0; i < N; i++, h = (h + 1) % N) {
      if (s[h].gen != g_gen) { s[h].gen = g_gen; s[h].k = k; s[h].v = nullptr; return &s[h].v; }
      if (s[h].k == k) return &s[h].v;
    }
    return nullptr;
  }
};
Tab g_loctab, g_mtxtab;
Loc* g_locs; int g_locs_n; constexpr int MAXLOCS = 2048;
Mtx* g_mtxs; int g_mtxs_n; constexpr int MAXMTX = 512;

TLS Thr* self; TLS int in_rt; TLS int ghost;
struct RT { RT() { in_rt++; } ~RT() { in_rt--; } };

inline u64 rnd() { u64 z = (g_rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline bool managed() { return self && g_active && !in_rt; }

[[noreturn]] void die(const char* kind, const char* msg, void* pc2 = nullptr) {
  in_rt++;
  if (g_sh && g_sh->state == 0) {
    snprintf(g_sh->kind, sizeof g_sh->kind, "%s", kind);
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg);
    u32 n = (u32) std::min<size_t>(g_devs ? g_devs->size() : 0, MAXDEV);
    for (u32 i = 0; i < n; i++) g_sh->dev[i] = (*g_devs)[i];
    g_sh->ndev = n;
    g_sh->nbt = backtrace(g_sh->bt, 40);
    g_sh->pc2 = pc2;
    g_sh->state = 1;
  }
  raw_syscall(SYS_exit_group, 3);
  __builtin_unreachable();
}

// ---------------------------------------------------------------------------------- choices
u32 choice(u32 n, Kind k) {
  // returns 0..n-1; 0 is the default
  if (n <= 1) return 0;
  u32 idx = g_choice++;
  u32 v = 0;
  if (cfg.strat == 0) {
    if (g_replay) {
      while (g_rpos < g_replay->size() && (*g_replay)[g_rpos].idx < idx) g_rpos++;
      if (g_rpos < g_replay->size() && (*g_replay)[g_rpos].idx == idx) v = (*g_replay)[g_rpos].val % n;
    }
  } else if (g_fair && k != K_THREAD && k != K_USER && k != K_RND) {
    v = 0;
  } else switch (k) {
    case K_STALE: if (g_nstale < cfg.max_stale && (rnd() & 1023) < cfg.p_stale) v = 1 + rnd() % (n - 1); break;
    case K_SPURIOUS: if (g_nspur < 6 && (rnd() & 1023) < cfg.p_spur) v = 1; break;
    case K_TIME: if ((rnd() & 1023) < cfg.p_time) v = 1; break;
    case K_WAKE: v = rnd() % n; break;
    case K_USER: case K_RND: v = rnd() % n; break;
    case K_THREAD: break; // handled by caller through choice_forced
  }
  if (v) g_devs->push_back({idx, v});
  return v;
}
u32 choice_thread(u32 n, u32 want) {   // thread choice with strategy decision 'want' already made
  if (n <= 1) return 0;
  u32 idx = g_choice++;
  u32 v = want;
  if (cfg.strat == 0) {
    v = 0;
    if (g_replay) {
      while (g_rpos < g_replay->size() && (*g_replay)[g_rpos].idx < idx) g_rpos++;
      if (g_rpos < g_replay->size() && (*g_replay)[g_rpos].idx == idx) v = (*g_replay)[g_rpos].val % n;
    }
  }
  if (v) g_devs->push_back({idx, v});
  return v;
}

// ---------------------------------------------------------------------------------- token passing
void fwait(u32* a) {
  for (;;) {
    if (__atomic_load_n(a, __ATOMIC_ACQUIRE)) { __atomic_store_n(a, 0u, __ATOMIC_RELAXED); return; }
    raw_syscall(SYS_futex, (long) a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  }
}
void fpost(u32* a) {
  __atomic_store_n(a, 1u, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long) a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
void switch_to(Thr* t) {
  Thr* me = self;
  if (t == me) return;
  g_nsw++; g_sh->switches++;
  fpost(&t->go);
  if (me->st != FINISHED) fwait(&me->go);
}

Thr* earliest_timed() {
  Thr* b = nullptr;
  for (int i = 0; i < g_nt; i++) { Thr& t = g_thr[i]; if (t.st == BLOCKED && t.deadline && (!b || t.deadline < b->deadline)) b = &t; }
  return b;
}
void fire_timer(Thr* t) {
  if (g_vtime < t->deadline) g_vtime = t->deadline;
  t->st = RUNNABLE; t->timedout = true; t->on = nullptr;
}

[[noreturn]] void report_deadlock() {
  char buf[1600]; int n = snprintf(buf, sizeof buf, "deadlock: no thread can run;");
  for (int i = 0; i < g_nt; i++) {
    const char* k[] = {"?", "mutex", "condition variable", "futex/atomic wait", "join", "static guard"};
    n += snprintf(buf + n, sizeof buf - n, " T%d:%s", i, g_thr[i].st == FINISHED ? "finished" : k[g_thr[i].onk]);
  }
  die("deadlock", buf);
}

// pick next thread to run. 'must' = current cannot continue.
void schedule(bool must, bool yielding = false) {
  Thr* me = self;
  Thr* cand[MAXT]; u32 n = 0;
  if (!must) cand[n++] = me;
  for (int k = 1; k <= g_nt; k++) { Thr& t = g_thr[(me->id + k) % g_nt]; if (&t != me && t.st == RUNNABLE) cand[n++] = &t; }
  if (n) { // asked in every mode so that a recorded schedule replays with the same choice numbers
    Thr* e = earliest_timed();
    if (e && choice(2, K_TIME)) { g_ntime++; g_sh->timejumps++; fire_timer(e); cand[n++] = e; }
  }
  if (n == 0) {
    Thr* e = earliest_timed();
    if (!e) report_deadlock();
    fire_timer(e); cand[n++] = e;
  }
  u32 want = 0;
  if (n > 1) {
    if (cfg.strat == 1 || g_fair) {
      if (must) want = (u32) (rnd() % n);
      else if (yielding) { if ((rnd() & 1023) < 700 || g_fair) want = 1 + (u32) (rnd() % (n - 1)); }
      else if ((rnd() & 1023) < (g_fair ? 40 : cfg.p_switch)) want = 1 + (u32) (rnd() % (n - 1));
    } else if (cfg.strat == 2) {
      for (int i = 0; i < cfg.pct_d; i++) if (g_step == g_pct_change[i]) me->prio = --g_pct_low;
      if (yielding) me->prio = --g_pct_low;
      u32 b = 0; for (u32 i = 1; i < n; i++) if (cand[i]->prio > cand[b]->prio) b = i;
      want = b;
    } else if (cfg.strat == 0) {
      // default policy for replay/base runs: stay; when yielding go to the next one
    }
  }
  u32 c;
  if (cfg.strat == 0 && yielding && n > 1) {
    // default (0) when yielding = next thread; value v = cand[(v+1)%n]
    c = choice_thread(n, 0); c = (c + 1) % n;
  } else if (yielding && n > 1) {
    // record relative to the yielding default
    u32 rel = (want + n - 1) % n; rel = choice_thread(n, rel); c = (rel + 1) % n;
  } else c = choice_thread(n, want);
  Thr* t = cand[c];
  if (t != me) switch_to(t);
}

void tick_limits() {
  g_step++; g_sh->steps++;
  if (UNLIKELY(g_step == LIMIT)) { g_fair = true; }
  if (UNLIKELY(g_step > LIMIT + LIMIT2)) die("livelock", "no progress: execution does not finish under a fair schedule");
  if (UNLIKELY(g_step > LIMIT && cfg.strat == 0)) { cfg.strat = 1; g_rng = 12345 + g_step; }
}
inline void trace(u64 x) { g_trace = (g_trace ^ x) * 0x100000001b3ull; }
void sp(bool yielding = false) {       // scheduling point
  tick_limits();
  schedule(false, yielding);
}
void block(const void* on, int kind, u64 deadline) {
  self->st = BLOCKED; self->on = on; self->onk = kind; self->deadline = deadline; self->timedout = false; self->notified = false;
  tick_limits();
  schedule(true);
  self->deadline = 0; self->on = nullptr;
}
void wake(Thr* t) { t->st = RUNNABLE; t->notified = true; t->on = nullptr; t->deadline = 0; }

inline void tick(Thr* t) { t->clk.vc.c[t->id]++; }

// ---------------------------------------------------------------------------------- shadow memory
inline Cell* cell_of(uintptr_t a) {
  if (a - (uintptr_t) g_arena < ARENA) return &g_ash[(a - (uintptr_t) g_arena) >> 3];
  if (a - (uintptr_t) g_stk < STACK * MAXT) return &g_ssh[(a - (uintptr_t) g_stk) >> 3];
  return &(*g_gsh)[a >> 3];
}
inline bool in_arena(uintptr_t a) { return a - (uintptr_t) g_arena < ARENA; }
inline void fresh(Cell* c) { if (c->gen != g_gen) { c->gen = g_gen; c->n = 0; c->atom = 0; c->freed = 0; } }

void drop_loc(uintptr_t granule, u8 mask) {
  for (int i = 0; i < 8; i++) {
    void** v = g_loctab.get(granule + i);
    if (v && *v) {
      Loc* l = (Loc*) *v;
      if (!(((((1u << (l->size ? l->size : 1)) - 1) << i)) & mask)) continue; // a neighbour, not this atomic
      l->oldest = l->newest + 1; l->newest = l->oldest; // history restarts
      l->h[l->newest % HIST].hasmsg = false;
      l->h[l->newest % HIST].val = ~0ull; l->nostale = l->nostale;
      l->size = 0; // re-read on next access
    }
  }
}

void access_cell(uintptr_t a, u8 mask, bool wr, bool at, void* pc, bool isfree = false) {
  Cell* c = cell_of(a);
  fresh(c);
  if (UNLIKELY(c->freed) && (c->freed & 1)) {
    char b[200]; snprintf(b, sizeof b, "heap use after free: %s%s of freed memory by T%d", at ? "atomic " : "", wr ? "write" : "read", self->id);
    die("use-after-free", b, c->e[0].pc);
  }
  Thr* t = self;
  u32 me = t->clk.vc.c[t->id];
  int slot = -1;
  for (int i = 0; i < c->n;) {
    Ent& e = c->e[i];
    if (e.mask & mask) {
      if (e.tid == t->id) {
        if (e.mask == mask && e.wr == wr && e.at == at) { slot = i; }
      } else if ((wr || e.wr) && !(at && e.at) && e.clk > t->clk.vc.c[e.tid]) {
        char b[300];
        snprintf(b, sizeof b, "data race: %s%s by T%d%s conflicts with unordered earlier %s%s by T%d", at ? "atomic " : "", isfree ? "free" : wr ? "write" : "read",
                 t->id, in_arena(a) ? " (heap)" : (a - (uintptr_t) g_stk < STACK * MAXT) ? " (stack)" : " (global)", e.at ? "atomic " : "", e.wr ? "write" : "read", e.tid);
        die("race", b, e.pc);
      }
      if (wr && !at && (e.mask & ~mask) == 0 && slot != i) { // covered by this write
        c->e[i] = c->e[--c->n]; if (slot == c->n) slot = i; continue;
      }
    }
    i++;
  }
  if (wr && !at && (c->atom & mask)) { c->atom &= (u8) ~mask; drop_loc(a & ~7ull, mask); }
  if (slot < 0) {
    if (c->n < NENT) slot = c->n++;
    else { // evict: prefer a read that happens-before us, else oldest read, else random
      slot = -1;
      for (int i = 0; i < NENT; i++) if (!c->e[i].wr && c->e[i].clk <= t->clk.vc.c[c->e[i].tid]) { slot = i; break; }
      if (slot < 0) for (int i = 0; i < NENT; i++) if (c->e[i].at) { slot = i; break; }
      if (slot < 0) slot = (int) (g_step % NENT);
    }
  }
  c->e[slot] = Ent{me, (u8) t->id, mask, (u8) wr, (u8) at, pc};
}
void access(uintptr_t a, size_t n, bool wr, bool at, void* pc) {
  if (UNLIKELY(ghost)) return;
  RT g;
  if (LIKELY((a & 7) + n <= 8)) { access_cell(a, (u8) (((1u << n) - 1) << (a & 7)), wr, at, pc); return; }
  while (n) {
    size_t k = std::min<size_t>(8 - (a & 7), n);
    access_cell(a, (u8) (((1u << k) - 1) << (a & 7)), wr, at, pc);
    a += k; n -= k;
  }
}
bool foreign_stack(uintptr_t) { return false; }

// ---------------------------------------------------------------------------------- atomics
uintptr_t g_pool_lo, g_pool_hi;        // libstdc++ waiter pool: never stale
Loc* loc_of(uintptr_t a, int size, u64 cur) {
  void** v = g_loctab.get(a);
  if (!v) return nullptr;
  Loc* l = (Loc*) *v;
  if (!l) {
    if (g_locs_n >= MAXLOCS) return nullptr;
    l = &g_locs[g_locs_n++]; *v = l;
    l->addr = a; l->size = 0; l->newest = l->oldest = 1;
    l->nostale = a >= g_pool_lo && a < g_pool_hi;
    if (g_nloc < MAXLOC) {
      l->id = g_nloc++;
      for (int i = 0; i < g_nt; i++) g_thr[i].clk.view[l->id] = g_thr[i].relf.view[l->id] = g_thr[i].acqp.view[l->id] = 0;
      g_sc.view[l->id] = 0;
    } else l->id = -1;
    l->h[1 % HIST].hasmsg = false;
  }
  if (l->size != size) { // first access or after reset
    l->oldest = l->newest; l->size = (u8) size; l->h[l->newest % HIST].val = cur; l->h[l->newest % HIST].hasmsg = false;
  } else if (l->h[l->newest % HIST].val != cur) { // changed behind our back
    l->newest++; l->oldest = l->newest; l->h[l->newest % HIST].val = cur; l->h[l->newest % HIST].hasmsg = false;
  }
  return l;
}
template <class T> u64 tou(T v) { u64 x = 0; memcpy(&x, &v, sizeof(T) < 8 ? sizeof(T) : 8); return x; }
template <class T> T fromu(u64 x) { T v; memset(&v, 0, sizeof v); memcpy(&v, &x, sizeof(T) < 8 ? sizeof(T) : 8); return v; }
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void mark_atom(uintptr_t a) { Cell* c = cell_of(a); fresh(c); c->atom |= (u8) (1u << (a & 7)); }

void do_read(Loc* l, u32 idx, int mo) {
  Thr* t = self; Store& s = l->h[idx % HIST];
  if (l->id >= 0 && t->clk.view[l->id] < idx) t->clk.view[l->id] = idx;
  if (s.hasmsg) { if (is_acq(mo)) join(t->clk, s.msg); else join(t->acqp, s.msg); }
}
void do_write(Loc* l, u64 val, int mo, bool rmw) {
  Thr* t = self;
  Store* prev = &l->h[l->newest % HIST];
  u32 idx = l->newest + 1;
  Store& s = l->h[idx % HIST];
  bool prevmsg = rmw && prev->hasmsg;
  if (l->id >= 0) t->clk.view[l->id] = idx;
  if (is_rel(mo)) { s.msg = t->clk; } else { s.msg = t->relf; if (l->id >= 0 && s.msg.view[l->id] < idx) s.msg.view[l->id] = idx; }
  s.hasmsg = true;
  if (prevmsg) join(s.msg, prev->msg);
  s.val = val;
  l->newest = idx; if (l->newest - l->oldest >= HIST) l->oldest = l->newest - HIST + 1;
  if (is_rel(mo)) tick(t);
}
inline void sc_pre(int mo) { if (mo == __ATOMIC_SEQ_CST) view_join(self->clk.view, g_sc.view); }
inline void sc_post(int mo) { if (mo == __ATOMIC_SEQ_CST) view_join(g_sc.view, self->clk.view); }

u32 pick_idx(Loc* l, bool allow) {
  Thr* t = self;
  if (!allow || l->id < 0 || l->nostale) return l->newest;
  u32 lo = std::max(l->oldest, t->clk.view[l->id]);
  if (lo >= l->newest) return l->newest;
  u32 k = choice(l->newest - lo + 1, K_STALE);
  if (k) { g_nstale++; g_sh->stales++; }
  return l->newest - k;
}
template <class T> T a_load(volatile T* p, int mo, void* pc) {
  if (!managed()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  RT g;
  sp();
  { int gh = ghost; access((uintptr_t) p, sizeof(T), false, true, pc); ghost = gh; }
  T cur = *p;
  if (sizeof(T) > 8) return cur;
  Loc* l = loc_of((uintptr_t) p, sizeof(T), tou(cur));
  if (!l) return cur;
  mark_atom((uintptr_t) p);
  sc_pre(mo);
  u32 i = pick_idx(l, !g_fair);
  u64 v = l->h[i % HIST].val;
  do_read(l, i, mo);
  sc_post(mo);
  trace((u64) self->id << 56 ^ v << 8 ^ 1);
  return fromu<T>(v);
}
template <class T> void a_store(volatile T* p, T v, int mo, void* pc) {
  if (!managed()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
  RT g;
  sp();
  access((uintptr_t) p, sizeof(T), true, true, pc);
  Loc* l = sizeof(T) <= 8 ? loc_of((uintptr_t) p, sizeof(T), tou((T) *p)) : nullptr;
  *p = v;
  trace((u64) self->id << 56 ^ tou(v) << 8 ^ 2);
  if (!l) return;
  mark_atom((uintptr_t) p);
  sc_pre(mo); do_write(l, tou(v), mo, false); sc_post(mo);
}
template <class T, class F> T a_rmw(volatile T* p, F f, int mo, void* pc) {
  if (!managed()) { T o = __atomic_load_n(p, __ATOMIC_SEQ_CST); T n; do n = f(o); while (!__atomic_compare_exchange_n(p, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)); return o; }
  RT g;
  sp();
  access((uintptr_t) p, sizeof(T), true, true, pc);
  T o = *p; T n = f(o);
  Loc* l = sizeof(T) <= 8 ? loc_of((uintptr_t) p, sizeof(T), tou(o)) : nullptr;
  *p = n;
  trace((u64) self->id << 56 ^ tou(n) << 8 ^ 3);
  if (!l) return o;
  mark_atom((uintptr_t) p);
  sc_pre(mo); do_read(l, l->newest, mo); do_write(l, tou(n), mo, true); sc_post(mo);
  return o;
}
template <class T> bool a_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, void* pc) {
  if (!managed()) return __atomic_compare_exchange_n(p, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  RT g;
  sp();
  access((uintptr_t) p, sizeof(T), true, true, pc);
  T o = *p;
  Loc* l = sizeof(T) <= 8 ? loc_of((uintptr_t) p, sizeof(T), tou(o)) : nullptr;
  if (!l) { if (o == *exp) { *p = des; return true; } *exp = o; return false; }
  mark_atom((uintptr_t) p);
  if (o == *exp) {
    if (weak && choice(2, K_SPURIOUS)) {
      g_nspur++; g_sh->spur++;
      sc_pre(fmo); do_read(l, l->newest, fmo); sc_post(fmo);
      return false;
    }
    *p = des;
    trace((u64) self->id << 56 ^ tou(des) << 8 ^ 4);
    sc_pre(mo); do_read(l, l->newest, mo); do_write(l, tou(des), mo, true); sc_post(mo);
    return true;
  }
  sc_pre(fmo);
  u32 i = pick_idx(l, !g_fair);
  if (l->h[i % HIST].val == tou(*exp)) i = l->newest;
  u64 v = l->h[i % HIST].val;
  do_read(l, i, fmo);
  sc_post(fmo);
  trace((u64) self->id << 56 ^ v << 8 ^ 5);
  *exp = fromu<T>(v);
  return false;
}
void fence(int mo) {
  if (!managed()) return;
  RT g; sp();
  Thr* t = self;
  if (is_acq(mo)) join(t->clk, t->acqp);
  if (mo == __ATOMIC_SEQ_CST) { view_join(t->clk.view, g_sc.view); view_join(g_sc.view, t->clk.view); }
  if (is_rel(mo)) { t->relf = t->clk; tick(t); }
}
} // namespace

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (managed() && *p != v) access((uintptr_t) p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (managed()) access((uintptr_t) p, 8, false, false, PC); }
#define RW(n) \
  void __tsan_read##n(void* p) { if (managed()) access((uintptr_t) p, n, false, false, PC); } \
  void __tsan_write##n(void* p) { if (managed()) access((uintptr_t) p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { if (managed()) access((uintptr_t) p, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { if (managed()) access((uintptr_t) p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { if (managed()) access((uintptr_t) p, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { if (managed()) access((uintptr_t) p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* p) { if (managed()) access((uintptr_t) p, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* p) { if (managed()) access((uintptr_t) p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (managed()) access((uintptr_t) p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (managed()) access((uintptr_t) p, n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (managed() && n) { access((uintptr_t) s, n, false, false, PC); access((uintptr_t) d, n, true, false, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (managed() && n) { access((uintptr_t) s, n, false, false, PC); access((uintptr_t) d, n, true, false, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (managed() && n) access((uintptr_t) d, n, true, false, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* p, int mo) { return a_load<T>((volatile T*) p, mo, PC); } \
  void __tsan_atomic##n##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T) { return v; }, mo, PC); } \
  T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T) (o + v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T) (o - v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T) (o & v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T) (o | v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T) (o ^ v); }, mo, PC); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T) ~(o & v); }, mo, PC); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, false, PC); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { return a_cas<T>(p, e, d, mo, fmo, true, PC); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { a_cas<T>(p, &e, d, mo, fmo, false, PC); return e; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)

// ------------------------------------------------------------------------------------ allocation
} // extern C
namespace {
void* arena_alloc(size_t n, size_t al, u32 kind, void* pc) {
  RT g;
  if (al < 16) al = 16;
  size_t base = (g_apos + sizeof(Hdr) + al - 1) & ~(al - 1);
  size_t end = base + ((n + 15) & ~15ull) + 16;
  if (end > ARENA) { if (kind == 9) return nullptr; die("inconclusive", "arena exhausted"); }
  g_apos = end; if (g_apos > g_apeak) g_apeak = g_apos;
  Hdr* h = (Hdr*) (g_arena + base - sizeof(Hdr));
  h->magic = 0xA110C8ED; h->st = 1; h->sz = n; h->al = (u32) al; h->kind = kind; h->pc = pc;
  g_live++;
  char* p = g_arena + base;
  memset(p, 0xA5, n); // uninitialised memory is not zero
  // red zone
  memset(p + n, 0xEE, ((n + 15) & ~15ull) + 16 - n);
  return p;
}
void arena_free(void* p, u32 kind, long size, void* pc) {
  Hdr* h = (Hdr*) ((char*) p - sizeof(Hdr));
  if (!managed()) { if (h->magic == 0xA110C8ED && h->st == 1) { h->st = 2; g_live--; } return; }
  RT g;
  if (h->magic != 0xA110C8ED) die("bad-free", "free of a pointer that was not returned by an allocation");
  if (h->st != 1) die("double-free", "memory freed twice", h->pc);
  if (h->kind != kind) die("bad-free", "allocation and deallocation functions do not match (new/new[]/malloc/aligned)", h->pc);
  if (size >= 0 && (size_t) size != h->sz) { char b[160]; snprintf(b, sizeof b, "sized deallocation with wrong size: allocated %zu, freed as %ld", h->sz, size); die("bad-free", b, h->pc); }
  for (size_t i = 0; i < 16; i++) if ((u8) ((char*) p)[h->sz + i] != 0xEE) die("heap-overflow", "write past the end of a heap block", h->pc);
  // a free is a write of the whole block
  size_t n = h->sz; uintptr_t a = (uintptr_t) p;
  for (size_t o = 0; o < n; o += 8) {
    Cell* c = cell_of(a + o);
    if (c->gen == g_gen && c->n) { access_cell(a + o, 0xff, true, false, pc, true); }
    fresh(c); c->freed = 1; c->e[0].pc = pc;
  }
  memset(p, 0xDD, n);
  h->st = 2; h->pc = pc; g_live--;
}
// kinds: 1 malloc, 2 new, 3 new[], 4 aligned new, 5 aligned new[]
void* xalloc(size_t n, size_t al, u32 kind, void* pc) {
  if (managed()) return arena_alloc(n, al, kind, pc);
  return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
}
void xfree(void* p, u32 kind, long size, void* pc) {
  if (!p) return;
  if (g_arena && in_arena((uintptr_t) p)) arena_free(p, kind, size, pc);
  else __libc_free(p);
}
}
extern "C" {
void* malloc(size_t n) { return xalloc(n, 16, 1, PC); }
void free(void* p) { xfree(p, 1, -1, PC); }
void* calloc(size_t a, size_t b) { if (!managed()) return __libc_calloc(a, b); void* p = xalloc(a * b, 16, 1, PC); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
  if (p && g_arena && in_arena((uintptr_t) p)) { Hdr* h = (Hdr*) ((char*) p - sizeof(Hdr)); void* q = xalloc(n, 16, 1, PC); memcpy(q, p, std::min(n, h->sz)); free(p); return q; }
  if (managed() && !p) return xalloc(n, 16, 1, PC);
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { return xalloc(n, al, 1, PC); }
void* aligned_alloc(size_t al, size_t n) { return xalloc(n, al, 1, PC); }
int posix_memalign(void** r, size_t al, size_t n) { *r = xalloc(n, al, 1, PC); return *r ? 0 : ENOMEM; }
}
void* operator new(size_t n) { return xalloc(n, 16, 2, PC); }
void* operator new[](size_t n) { return xalloc(n, 16, 3, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xalloc(n, 16, 2, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return xalloc(n, 16, 3, PC); }
void* operator new(size_t n, std::align_val_t a) { return xalloc(n, (size_t) a, 4, PC); }
void* operator new[](size_t n, std::align_val_t a) { return xalloc(n, (size_t) a, 5, PC); }
void operator delete(void* p) noexcept { xfree(p, 2, -1, PC); }
void operator delete[](void* p) noexcept { xfree(p, 3, -1, PC); }
void operator delete(void* p, size_t n) noexcept { xfree(p, 2, (long) n, PC); }
void operator delete[](void* p, size_t n) noexcept { xfree(p, 3, (long) n, PC); }
void operator delete(void* p, std::align_val_t) noexcept { xfree(p, 4, -1, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { xfree(p, 5, -1, PC); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { xfree(p, 4, (long) n, PC); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { xfree(p, 5, (long) n, PC); }

// ------------------------------------------------------------------------------------ pthread
namespace {
template <class F> F real(const char* n) { static_assert(sizeof(F) == 8); RT g; return (F) dlsym(RTLD_NEXT, n); }
int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);
int (*r_join)(pthread_t, void**);
int (*r_mlock)(pthread_mutex_t*); int (*r_mtry)(pthread_mutex_t*); int (*r_munlock)(pthread_mutex_t*);
int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*); int (*r_csig)(pthread_cond_t*); int (*r_cbc)(pthread_cond_t*);
int (*r_ctw)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int (*r_gettime)(clockid_t, timespec*);
int (*r_detach)(pthread_t);
void (*r_eadd)(void*); void (*r_erel)(void*);
void* (*r_begincatch)(void*); void (*r_endcatch)();
void init_real() {
  if (r_create) return;
  r_create = real<decltype(r_create)>("pthread_create"); r_join = real<decltype(r_join)>("pthread_join");
  r_mlock = real<decltype(r_mlock)>("pthread_mutex_lock"); r_mtry = real<decltype(r_mtry)>("pthread_mutex_trylock");
  r_munlock = real<decltype(r_munlock)>("pthread_mutex_unlock"); r_cwait = real<decltype(r_cwait)>("pthread_cond_wait");
  r_csig = real<decltype(r_csig)>("pthread_cond_signal"); r_cbc = real<decltype(r_cbc)>("pthread_cond_broadcast");
  r_ctw = real<decltype(r_ctw)>("pthread_cond_timedwait");
  r_gettime = real<decltype(r_gettime)>("clock_gettime"); r_detach = real<decltype(r_detach)>("pthread_detach");
  r_eadd = real<decltype(r_eadd)>("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
  r_erel = real<decltype(r_erel)>("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
  r_begincatch = real<decltype(r_begincatch)>("__cxa_begin_catch"); r_endcatch = real<decltype(r_endcatch)>("__cxa_end_catch");
}
Mtx* mtx_of(const void* m) {
  void** v = g_mtxtab.get((uintptr_t) m);
  if (!v) die("inconclusive", "too many mutexes");
  if (!*v) { if (g_mtxs_n >= MAXMTX) die("inconclusive", "too many mutexes"); Mtx* x = &g_mtxs[g_mtxs_n++]; x->owner = -1; x->cnt = 0; memset(&x->clk, 0, sizeof x->clk); *v = x; }
  return (Mtx*) *v;
}
void touch(const void* m, void* pc) { // detect use after free of sync objects
  if (in_arena((uintptr_t) m)) { Cell* c = cell_of((uintptr_t) m); fresh(c); if (c->freed) die("use-after-free", "mutex/condition variable/futex operation on freed memory", c->e[0].pc); 
    access((uintptr_t) m, 8, true, true, pc); }
}
void m_acquire(Mtx* x, const void* m) {
  while (x->owner >= 0) block(m, 1, 0);
  x->owner = self->id; x->cnt = 1;
  join(self->clk, x->clk);
}
void m_release(Mtx* x, const void* m) {
  x->owner = -1; x->cnt = 0;
  join(x->clk, self->clk); tick(self);
  for (int i = 0; i < g_nt; i++) if (g_thr[i].st == BLOCKED && g_thr[i].on == m && g_thr[i].onk == 1) wake(&g_thr[i]);
}
// Locks that the standard library annotates itself (std::atomic<std::shared_ptr>): the annotation is the synchronisation.
void ann_acquire(const void* a) { RT g; join(self->clk, mtx_of((const char*) a + 1)->clk); }
void ann_release(const void* a) { RT g; join(mtx_of((const char*) a + 1)->clk, self->clk); tick(self); }
void ann_destroy(const void* a) { RT g; Mtx* x = mtx_of((const char*) a + 1); memset(&x->clk, 0, sizeof x->clk); }
int do_lock(pthread_mutex_t* m, bool tr, void* pc) {
  RT g; sp(); touch(m, pc);
  trace((u64) self->id << 56 ^ 11);
  Mtx* x = mtx_of(m);
  if (x->owner == self->id) {
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { x->cnt++; return 0; }
    if (tr) return EBUSY;
    if (!tr) { block(m, 1, 0); } // self deadlock
  }
  if (tr && x->owner >= 0) return EBUSY;
  m_acquire(x, m);
  return 0;
}
int do_unlock(pthread_mutex_t* m, void* pc) {
  RT g; touch(m, pc);
  Mtx* x = mtx_of(m);
  if (x->owner != self->id) die("mutex", "unlock of a mutex that the thread does not own");
  if (x->cnt > 1) { x->cnt--; return 0; }
  m_release(x, m);
  sp();
  return 0;
}
u64 ts_ns(const timespec* t) { return (u64) t->tv_sec * 1000000000ull + (u64) t->tv_nsec; }
int do_cwait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, void* pc) {
  RT g; sp(); touch(c, pc);
  Mtx* x = mtx_of(m);
  if (x->owner != self->id) die("mutex", "condition wait without owning the mutex");
  if (deadline && deadline <= g_vtime) { m_release(x, m); sp(); m_acquire(x, m); return ETIMEDOUT; }
  m_release(x, m);
  bool to = false;
  if (choice(2, K_SPURIOUS)) { g_nspur++; sp(); }
  else { block(c, 2, deadline); to = self->timedout; }
  m_acquire(x, m);
  return to ? ETIMEDOUT : 0;
}
int do_cnotify(pthread_cond_t* c, bool all, void* pc) {
  RT g; sp(); touch(c, pc);
  Thr* w[MAXT]; u32 n = 0;
  for (int i = 0; i < g_nt; i++) if (g_thr[i].st == BLOCKED && g_thr[i].on == c && g_thr[i].onk == 2) w[n++] = &g_thr[i];
  if (all) for (u32 i = 0; i < n; i++) wake(w[i]);
  else if (n) wake(w[choice(n, K_WAKE)]);
  return 0;
}
long do_futex(u32* a, int op, u32 val, const timespec* ts, void* pc) {
  RT g;
  int cmd = op & FUTEX_CMD_MASK;
  sp(); touch(a, pc);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (*a != val) { errno = EAGAIN; return -1; }
    u64 dl = ts ? (cmd == FUTEX_WAIT ? g_vtime + ts_ns(ts) : ts_ns(ts)) : 0;
    if (ts && dl <= g_vtime) { errno = ETIMEDOUT; return -1; }
    if (choice(2, K_SPURIOUS)) { g_nspur++; return 0; }
    block(a, 3, dl);
    if (self->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    Thr* w[MAXT]; u32 n = 0; long k = 0;
    for (int i = 0; i < g_nt; i++) if (g_thr[i].st == BLOCKED && g_thr[i].on == a && g_thr[i].onk == 3) w[n++] = &g_thr[i];
    while (n && k < (long) (int) val) { u32 i = choice(n, K_WAKE); wake(w[i]); w[i] = w[--n]; k++; }
    return k;
  }
  errno = ENOSYS; return -1;
}
void finish_thread() {
  Thr* me = self;
  while (me->ndt) { auto d = me->dt[--me->ndt]; d.f(d.o); }
  RT g;
  in_rt += 1;
  me->st = FINISHED; tick(me);
  for (int i = 0; i < g_nt; i++) if (g_thr[i].st == BLOCKED && g_thr[i].on == me && g_thr[i].onk == 4) wake(&g_thr[i]);
  bool all = true; for (int i = 0; i < g_nt; i++) if (g_thr[i].st != FINISHED) all = false;
  if (all) { fpost(&g_main_done); return; }
  tick_limits();
  schedule(true);
}
// OS threads are pooled (one per logical id) because creating hundreds of thousands of threads per second
// exhausts kernel memory; the executable's thread-local storage is reset for every execution.
u32 g_ndone; pthread_t g_pool[MAXT]; bool g_pooled[MAXT];
const char* g_tls_init; size_t g_tls_filesz, g_tls_memsz, g_tls_off;
int find_tls(dl_phdr_info* i, size_t, void*) { // first entry: the executable
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    auto& p = i->dlpi_phdr[k];
    g_tls_init = (const char*) i->dlpi_addr + p.p_vaddr; g_tls_filesz = p.p_filesz; g_tls_memsz = p.p_memsz;
    g_tls_off = (p.p_memsz + p.p_align - 1) & ~(p.p_align - 1); // x86-64: the executable's block ends at the thread pointer
  }
  return 1;
}
void reset_tls() {
  if (!g_tls_memsz) return;
  char* b = (char*) __builtin_thread_pointer() - g_tls_off;
  memcpy(b, g_tls_init, g_tls_filesz); memset(b + g_tls_filesz, 0, g_tls_memsz - g_tls_filesz);
}
void* thr_main(void* a) {
  Thr* t = (Thr*) a;
  for (;;) {
    fwait(&t->go);
    reset_tls(); self = t; in_rt = 0; ghost = 0;
    t->ret = t->fn(t->arg);
    finish_thread();
    self = nullptr;
    __atomic_fetch_add(&g_ndone, 1u, __ATOMIC_ACQ_REL);
    raw_syscall(SYS_futex, (long) &g_ndone, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
  }
}
Thr* new_thr(void* (*fn)(void*), void* arg) {
  if (g_nt >= MAXT) die("inconclusive", "too many threads");
  Thr* t = &g_thr[g_nt]; memset((void*) t, 0, offsetof(Thr, dt)); t->ndt = 0; t->stale_run = 0; t->yields = 0;
  t->id = g_nt++; t->fn = fn; t->arg = arg; t->st = RUNNABLE;
  for (int i = 0; i < g_nt; i++) { g_thr[i].clk.vc.c[t->id] = 0; g_thr[i].relf.vc.c[t->id] = 0; g_thr[i].acqp.vc.c[t->id] = 0; }
  if (self && g_active) t->clk = self->clk;
  t->clk.vc.c[t->id] = 1;
  t->prio = 1000 + (u32) (rnd() % 100000);
  t->stk_lo = (uintptr_t) g_stk + STACK * t->id; t->stk_hi = t->stk_lo + STACK;
  if (!g_pooled[t->id]) {
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*) t->stk_lo, STACK);
    if (r_create(&g_pool[t->id], &at, thr_main, t)) die("inconclusive", "pthread_create failed");
    pthread_attr_destroy(&at);
    g_pooled[t->id] = true;
  }
  t->pt = g_pool[t->id];
  return t;
}
Thr* find_thr(pthread_t p) { for (int i = 0; i < g_nt; i++) if (g_thr[i].pt == p) return &g_thr[i]; return nullptr; }
}
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  init_real();
  if (!managed()) return r_create(out, at, fn, arg);
  RT g;
  Thr* t = new_thr(fn, arg);
  tick(self);
  *out = t->pt;
  sp();
  return 0;
}
int pthread_join(pthread_t p, void** r) {
  init_real();
  if (!managed()) return r_join(p, r);
  RT g; sp();
  Thr* t = find_thr(p);
  if (!t || t->joined || t->detached) die("thread", "join of a thread that is not joinable");
  while (t->st != FINISHED) block(t, 4, 0);
  t->joined = true; join(self->clk, t->clk);
  if (r) *r = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  init_real();
  if (!managed()) return r_detach(p);
  Thr* t = find_thr(p); if (t) t->detached = true; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (managed()) return do_lock(m, false, PC); init_real(); return r_mlock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (managed()) return do_lock(m, true, PC); init_real(); return r_mtry(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (managed()) return do_unlock(m, PC); init_real(); return r_munlock(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (managed()) return do_cwait(c, m, 0, PC); init_real(); return r_cwait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (managed()) return do_cwait(c, m, ts_ns(ts), PC); init_real(); return r_ctw(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { if (managed()) return do_cwait(c, m, ts_ns(ts), PC); init_real(); return r_ctw(c, m, ts); }
int pthread_cond_signal(pthread_cond_t* c) { if (managed()) return do_cnotify(c, false, PC); init_real(); return r_csig(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (managed()) return do_cnotify(c, true, PC); init_real(); return r_cbc(c); }
int sched_yield(void) { if (managed()) { RT g; sp(true); return 0; } return (int) raw_syscall(SYS_sched_yield); }
int nanosleep(const timespec* ts, timespec*) {
  if (!managed()) return (int) raw_syscall(SYS_nanosleep, (long) ts, 0);
  RT g; u64 d = g_vtime + ts_ns(ts); while (g_vtime < d) block(&g_vtime, 3, d); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec* ts, timespec* rem) {
  if (!managed()) return (int) -raw_syscall(SYS_clock_nanosleep, c, fl, (long) ts, (long) rem);
  RT g; u64 d = (fl & 1) ? ts_ns(ts) : g_vtime + ts_ns(ts); while (g_vtime < d) block(&g_vtime, 3, d); return 0;
}
int clock_gettime(clockid_t c, timespec* ts) {
  if (managed()) { RT g; u64 t = ++g_vtime; ts->tv_sec = (time_t) (t / 1000000000ull); ts->tv_nsec = (long) (t % 1000000000ull); return 0; }
  return (int) raw_syscall(SYS_clock_gettime, c, (long) ts);
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && managed()) return do_futex((u32*) a[0], (int) a[1], (u32) a[2], (const timespec*) a[3], PC);
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
  return r;
}
int get_nprocs(void) { return 2; }
int get_nprocs_conf(void) { return 2; }
// magic statics
int __cxa_guard_acquire(u64* gd) {
  u8* b = (u8*) gd;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  if (!managed()) { return !*b; }
  RT g;
  for (;;) { if (b[0]) return 0; if (!b[1]) { b[1] = (u8) (1 + self->id); return 1; } if (b[1] == 1 + self->id) die("guard", "recursive static initialisation"); block(gd, 5, 0); }
}
void __cxa_guard_release(u64* gd) {
  u8* b = (u8*) gd;
  if (managed()) { b[1] = 0; a_store<u8>(b, 1, __ATOMIC_RELEASE, PC); for (int i = 0; i < g_nt; i++) if (g_thr[i].st == BLOCKED && g_thr[i].on == gd) wake(&g_thr[i]); }
  else { b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); }
}
void __cxa_guard_abort(u64* gd) { ((u8*) gd)[1] = 0; if (managed()) for (int i = 0; i < g_nt; i++) if (g_thr[i].st == BLOCKED && g_thr[i].on == gd) wake(&g_thr[i]); }
int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void*) {
  if (self && g_active) { if (self->ndt < 32) self->dt[self->ndt++] = {f, o}; return 0; }
  return 0; // thread locals of unmanaged threads are not destroyed
}
// exception_ptr reference counts live in uninstrumented code: model them as one acq_rel object
}
namespace {
Clock g_excl;
void exc_sync() { if (!managed()) return; RT g; sp(); join(self->clk, g_excl); join(g_excl, self->clk); tick(self); }
}
extern "C" {
void vs_eadd(void* e) asm("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
void vs_eadd(void* e) { init_real(); exc_sync(); r_eadd(e); }
void vs_erel(void* e) asm("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void vs_erel(void* e) { init_real(); exc_sync(); r_erel(e); }
void* __cxa_begin_catch(void* e) noexcept { init_real(); exc_sync(); return r_begincatch(e); }
void __cxa_end_catch() { init_real(); exc_sync(); r_endcatch(); }
u32 vs_rd_getval(void*) asm("_ZNSt13random_device9_M_getvalEv");
u32 vs_rd_getval(void*) { if (!managed()) return 4; RT g; u32 hi = choice(64, K_RND); return hi * 2654435761u + 12345u; }
void vs_rd_init(void*, const std::string&) asm("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void vs_rd_init(void*, const std::string&) {}
void vs_rd_fini(void*) asm("_ZNSt13random_device7_M_finiEv");
void vs_rd_fini(void*) {}
}

// ------------------------------------------------------------------------------------ harness API
namespace vs {
[[noreturn]] void fail(const char* fmt, ...) {
  RT g; char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); die("assert", b);
}
void label(const char* l) { for (int i = 0; i < g_nlabels; i++) if (g_labels[i] == l) return; if (g_nlabels < 16) g_labels[g_nlabels++] = l; }
uint32_t choose(uint32_t n) { RT g; return choice(n, K_USER); }
uint64_t now_ns() { return g_vtime; }
uint32_t time_jumps() { return g_ntime; }
size_t live_allocs() { return g_live; }
size_t stack_used() { char c; return self ? self->stk_hi - (uintptr_t) &c : 0; }
void point() { if (managed()) { RT g; sp(); } }
bool active() { return g_active; }
void nontrivial(bool b) { g_force_nt = b ? 1 : -1; }
int tid() { return self ? self->id : -1; }
void set_no_leak_check() { g_leakcheck = false; }
Ghost::Ghost() { ghost++; }
Ghost::~Ghost() { ghost--; }
void idle(int n) { RT g; for (int i = 0; i < n; i++) sp(true); }
uint32_t Gen::below(uint32_t n) {
  uint32_t v = 0;
  if (replay) { v = pos < replay->size() ? (*replay)[pos] : 0; if (n) v %= n; }
  else { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31; v = n ? (uint32_t) (z % n) : 0; }
  pos++; rec.push_back(v); return v;
}
}

// ------------------------------------------------------------------------------------ execution
namespace {
const std::function<void()>* g_body;
void* body_main(void*) { (*g_body)(); return nullptr; }

void run_exec(const vs::Case& c) {
  g_gen++; if (!g_gen) g_gen = 1;
  g_rng = cfg.seed; g_choice = 0; g_rpos = 0; g_step = 0; g_vtime = 1000000000000ull; g_nstale = g_nspur = g_ntime = 0;
  g_trace = 1469598103934665603ull; g_nsw = 0; g_fair = false; g_leakcheck = true; g_nlabels = 0; g_force_nt = 0;
  g_nt = 0; g_nloc = 0; g_locs_n = 0; g_mtxs_n = 0; g_apos = 0; g_live = 0; g_main_done = 0; g_ndone = 0;
  memset(&g_sc, 0, sizeof g_sc); memset(&g_excl, 0, sizeof g_excl);
  g_devs->clear(); g_gsh->clear();
  g_pct_low = 900;
  if (cfg.strat == 2) for (int i = 0; i < cfg.pct_d; i++) g_pct_change[i] = (u32) (rnd() % std::max<u32>(cfg.est_steps, 10));
  g_body = &c.body;
  g_active = true;
  self = nullptr;
  Thr* t0 = new_thr(body_main, nullptr);
  fpost(&t0->go);
  fwait(&g_main_done);
  g_active = false;
  for (;;) { u32 n = __atomic_load_n(&g_ndone, __ATOMIC_ACQUIRE); if (n >= (u32) g_nt) break; raw_syscall(SYS_futex, (long) &g_ndone, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, n, 0, 0, 0); }
  for (int i = 1; i < g_nt; i++) if (!g_thr[i].joined && !g_thr[i].detached) die("thread", "thread neither joined nor detached");
  if (g_leakcheck && g_live) {
    void* pc = nullptr; size_t sz = 0;
    for (size_t o = 0; o + sizeof(Hdr) <= g_apos; o += 16) { Hdr* h = (Hdr*) (g_arena + o); if (h->magic == 0xA110C8ED && h->st == 1) { pc = h->pc; sz = h->sz; break; } }
    char b[200]; snprintf(b, sizeof b, "leak: %zu heap blocks still allocated at the end of the execution (first: %zu bytes)", g_live, sz);
    die("leak", b, pc);
  }
  g_sh->execs++;
  if (g_force_nt >= 0 && ((g_nt > 1 && g_devs->size() > 0) || g_force_nt > 0)) {
    if (g_nsw > 1 || g_force_nt > 0) { g_sh->nontriv++; if (g_seen->size() < 4000000 && g_seen->insert(g_trace).second) g_sh->distinct++; }
  }
  for (int i = 0; i < g_nlabels; i++) {
    u32 k = 0; for (; k < g_sh->nlab; k++) if (!strcmp(g_sh->lab[k].l, g_labels[i])) break;
    if (k == g_sh->nlab && k < 64) { snprintf(g_sh->lab[k].l, 40, "%s", g_labels[i]); g_sh->lab[k].n = 0; g_sh->nlab++; }
    if (k < 64) g_sh->lab[k].n++;
  }
  // wipe headers for next execution
  memset(g_arena, 0, std::min(g_apos, ARENA));
}

void on_sig(int s) {
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT (assertion or std::terminate)" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "SIGFPE";
  if (!g_active) { static const char m[] = "vsched: crash outside of an execution\n"; raw_syscall(SYS_write, 2, (long) m, sizeof m - 1); raw_syscall(SYS_exit_group, 9); }
  die("crash", n);
}
void init_rt() {
  if (vs_pool) { g_pool_lo = (uintptr_t) vs_pool; g_pool_hi = g_pool_lo + 1024; }
  init_real(); dl_iterate_phdr(find_tls, nullptr);
  void* bt[4]; backtrace(bt, 4); // loads libgcc
  g_arena = (char*) mmap((void*) 0x100000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  g_ash = (Cell*) mmap((void*) 0x110000000000, ARENA / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_stk = (char*) mmap((void*) 0x120000000000, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_ssh = (Cell*) mmap((void*) 0x130000000000, STACK * MAXT / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_arena == MAP_FAILED || g_ash == MAP_FAILED || g_stk == MAP_FAILED || g_ssh == MAP_FAILED) { perror("mmap"); exit(9); }
  g_locs = (Loc*) mmap(nullptr, sizeof(Loc) * MAXLOCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_mtxs = (Mtx*) mmap(nullptr, sizeof(Mtx) * MAXMTX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_gsh = new std::unordered_map<uintptr_t, Cell>(); g_seen = new std::unordered_set<u64>(); g_devs = new std::vector<Dev>(); g_devs->reserve(100000);
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa {}; sa.sa_handler = on_sig; sa.sa_flags = SA_RESETHAND;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
}

u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull + b; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

const std::vector<vs::Scenario>* g_sc_list;
std::vector<u32> g_scen_tab;

void strategy(u64 seed, u32 est) {
  u64 r = mix(seed, 77);
  cfg.seed = seed; cfg.est_steps = est;
  u32 k = (u32) (r % 10);
  cfg.p_stale = (r >> 8) % 3 == 0 ? 0 : ((r >> 12) % 2 ? 60 : 250); cfg.max_stale = 1 + (u32) ((r >> 16) % 8);
  cfg.p_spur = (r >> 20) % 3 == 0 ? 60 : 0;
  cfg.p_time = (r >> 24) % 2 ? 20 : 0;
  if (k < 5) { cfg.strat = 1; static const u32 ps[] = {15, 40, 100, 250, 500}; cfg.p_switch = ps[(r >> 32) % 5]; }
  else { cfg.strat = 2; cfg.pct_d = 1 + (int) ((r >> 32) % 4); }
}

struct Opt { u64 seed = 1; double secs = 30; u64 cases = 1000000; u32 per = 40; int workers = 8; std::string out, replaydir = ".", replay, prop = "X"; std::vector<std::string> only; std::vector<std::string> known; bool one = false; u32 maxfail = 1; bool shrink = true; } opt;

double wall() { timespec t; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long) &t); return (double) t.tv_sec + t.tv_nsec * 1e-9; }

void make_case(u64 caseno, const std::vector<u32>* rep, vs::Gen& g, vs::Case& c, u32& scen, int force_scen = -1) {
  g = vs::Gen(); g.s = mix(opt.seed, caseno); g.replay = rep;
  scen = force_scen >= 0 ? (u32) force_scen : g_scen_tab[caseno % g_scen_tab.size()];
  c = (*g_sc_list)[scen].make(g);
}
void put_gen(const vs::Gen& g) { g_sh->gen_n = (u32) std::min<size_t>(g.rec.size(), 4096); for (u32 i = 0; i < g_sh->gen_n; i++) g_sh->gen_rec[i] = g.rec[i]; }

void pin(int k) { cpu_set_t s; CPU_ZERO(&s); long n = sysconf(_SC_NPROCESSORS_ONLN); (void) n; CPU_SET(k % 8, &s); raw_syscall(SYS_sched_setaffinity, 0, sizeof s, (long) &s); }

[[noreturn]] void worker(Shared* sh, int w, u64 start, double tend) {
  g_sh = sh; pin(w);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (u64 cn = start; cn < opt.cases; cn += (u64) opt.workers) {
    if (wall() > tend) break;
    vs::Gen g; vs::Case c; u32 scen;
    make_case(cn, nullptr, g, c, scen);
    sh->caseno = cn; sh->scen = scen; put_gen(g);
    sh->cases++;
    if (sh->nsamp < 4 && (cn / (u64) opt.workers) % 7 == 0) { snprintf(sh->samp[sh->nsamp], 1600, "%s: %s", (*g_sc_list)[scen].name, c.desc.c_str()); sh->nsamp++; }
    cfg = Cfg{}; cfg.strat = 0; g_replay = nullptr; sh->sched_no = 0;
    run_exec(c);
    u32 est = (u32) g_step;
    u32 per = opt.per;
    if (est > 3000) per = per / 2 + 1;
    for (u32 k = 1; k <= per; k++) {
      strategy(mix(mix(opt.seed, cn), k), est); sh->sched_no = k;
      run_exec(c);
    }
  }
  raw_syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

Shared* map_shared() { return (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

// run one candidate in a child: returns true if it fails; result in sh
bool try_run(Shared* sh, int scen, const std::vector<u32>& gen, const std::vector<Dev>* devs, u32 nsched, u64 sseed) {
  memset((void*) sh, 0, sizeof(Shared));
  pid_t p = fork();
  if (!p) {
    g_sh = sh; pin(0); prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(60);
    vs::Gen g; vs::Case c; u32 s;
    make_case(0, &gen, g, c, s, scen);
    put_gen(g); sh->scen = s;
    // one unscheduled execution first: function-local statics are then initialised, as they were in the worker
    if (devs) { cfg = Cfg{}; cfg.strat = 0; g_replay = nullptr; run_exec(c); cfg = Cfg{}; cfg.strat = 0; g_replay = devs; run_exec(c); }
    else {
      cfg = Cfg{}; cfg.strat = 0; g_replay = nullptr; run_exec(c); u32 est = (u32) g_step;
      for (u32 k = 1; k <= nsched; k++) { strategy(mix(sseed, k), est); run_exec(c); }
    }
    raw_syscall(SYS_exit_group, 0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return sh->state == 1;
}

struct Failure { int scen; std::vector<u32> gen; std::vector<Dev> devs; std::string kind, msg; std::vector<void*> bt; void* pc2; u64 caseno; u32 sched; };
Failure grab(Shared* sh) {
  Failure f; f.scen = (int) sh->scen; f.gen.assign(sh->gen_rec, sh->gen_rec + sh->gen_n); f.devs.assign(sh->dev, sh->dev + sh->ndev);
  f.kind = sh->kind; f.msg = sh->msg; f.bt.assign(sh->bt, sh->bt + std::max(0, sh->nbt)); f.pc2 = sh->pc2; f.caseno = sh->caseno; f.sched = sh->sched_no; return f;
}
void shrink_devs(Shared* sh, Failure& f, double tend) {
  std::vector<Dev> cur = f.devs;
  if (!try_run(sh, f.scen, f.gen, &cur, 0, 0)) return;
  if (std::string(sh->kind) != f.kind) {}
  size_t chunk = std::max<size_t>(1, cur.size() / 2);
  while (wall() < tend && !cur.empty()) {
    bool any = false;
    for (size_t i = 0; i < cur.size() && wall() < tend;) {
      std::vector<Dev> t(cur.begin(), cur.begin() + (long) i); t.insert(t.end(), cur.begin() + (long) std::min(cur.size(), i + chunk), cur.end());
      if (try_run(sh, f.scen, f.gen, &t, 0, 0) && f.kind == sh->kind) { Failure n = grab(sh); cur = n.devs.size() <= t.size() ? n.devs : t; any = true; f.msg = n.msg; f.bt = n.bt; f.pc2 = n.pc2; }
      else i += chunk;
    }
    if (!any) { if (chunk == 1) break; chunk = (chunk + 1) / 2; }
  }
  f.devs = cur;
}
void shrink_gen(Shared* sh, Failure& f, double tend) {
  bool any = true;
  auto attempt = [&](const std::vector<u32>& g) {
    if (!try_run(sh, f.scen, g, nullptr, 150, 99) || f.kind != sh->kind) return false;
    Failure n = grab(sh); if (n.gen.size() > f.gen.size()) return false;
    if (n.gen.size() == f.gen.size() && !(n.gen < f.gen)) return false;
    f.gen = n.gen; f.devs = n.devs; f.msg = n.msg; f.bt = n.bt; f.pc2 = n.pc2; return true;
  };
  while (any && wall() < tend) {
    any = false;
    for (size_t k : {8, 4, 2, 1}) for (size_t i = 0; i + k <= f.gen.size() && wall() < tend;) {
      auto g = f.gen; g.erase(g.begin() + (long) i, g.begin() + (long) (i + k)); if (attempt(g)) any = true; else i++;
    }
    for (size_t i = 0; i < f.gen.size() && wall() < tend; i++) {
      if (!f.gen[i]) continue;
      auto g = f.gen; g[i] = 0; if (attempt(g)) { any = true; continue; }
      g = f.gen; if (i < g.size() && g[i] > 1) { g[i] /= 2; if (attempt(g)) { any = true; continue; } }
      g = f.gen; if (i < g.size() && g[i] > 0) { g[i]--; if (attempt(g)) any = true; }
    }
  }
}
std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8) c < 32) o += ' '; else o += c; } return o; }
std::string self_exe;
std::string symb(const std::vector<void*>& bt) {
  std::string o;
  // addresses relative to the (non-PIE or PIE) executable
  std::string cmd = "timeout 20 llvm-symbolizer-18 -e '" + self_exe + "' --pretty-print --inlines ";
  bool any = false;
  Dl_info di0; dladdr((void*) &symb, &di0);
  for (void* p : bt) { Dl_info di; if (p && dladdr(p, &di) && di.dli_fbase == di0.dli_fbase) { char b[64]; snprintf(b, sizeof b, "0x%lx ", (unsigned long) ((char*) p - (char*) (di.dli_fbase == (void*) 0x400000 ? nullptr : di.dli_fbase) - 1)); cmd += b; any = true; } }
  if (!any) return o;
  cmd += " 2>/dev/null | grep -v vsched.cpp | grep -v '^ *$' | sed 's/^ (inlined by)/ /' | sed -E 's#^(.{160}).*( at [^ ]+)$#\\1...\\2#' | head -24";
  FILE* f = popen(cmd.c_str(), "r"); if (!f) return o; char b[512]; while (fgets(b, sizeof b, f)) o += b; pclose(f); return o;
}
} // namespace

#include <regex>
#include <fstream>
#include <sstream>
namespace vs {
int run_main(int argc, char** argv, const std::vector<Scenario>& sc) {
  { // no ASLR: addresses (and so the waiter-pool hashing) are the same in every run
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long) p | ADDR_NO_RANDOMIZE) >= 0 && !getenv("VS_REEXEC")) { setenv("VS_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) { b[n] = 0; self_exe = b; } }
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--seed") opt.seed = std::stoull(nx()); else if (a == "--seconds") opt.secs = std::stod(nx());
    else if (a == "--cases") opt.cases = std::stoull(nx()); else if (a == "--per") opt.per = (u32) std::stoul(nx());
    else if (a == "--workers") opt.workers = std::stoi(nx()); else if (a == "--out") opt.out = nx();
    else if (a == "--replaydir") opt.replaydir = nx(); else if (a == "--replay") opt.replay = nx(); else if (a == "--prop") opt.prop = nx();
    else if (a == "--only") opt.only.push_back(nx()); else if (a == "--known") opt.known.push_back(nx());
    else if (a == "--maxfail") opt.maxfail = (u32) std::stoul(nx()); else if (a == "--noshrink") opt.shrink = false;
  }
  g_sc_list = &sc;
  for (u32 i = 0; i < sc.size(); i++) {
    if (!opt.only.empty() && std::find(opt.only.begin(), opt.only.end(), sc[i].name) == opt.only.end()) continue;
    for (int k = 0; k < sc[i].weight; k++) g_scen_tab.push_back(i);
  }
  if (g_scen_tab.empty()) { fprintf(stderr, "no scenario\n"); return 9; }
  init_rt();
  if (!opt.replay.empty()) {
    // replay file: text: scenario / gen / devs
    std::ifstream in(opt.replay); std::string line, scn; std::vector<u32> gen; std::vector<Dev> devs;
    while (std::getline(in, line)) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "scenario") is >> scn; else if (k == "gen") { u32 v; while (is >> v) gen.push_back(v); }
      else if (k == "choices") { std::string t; while (is >> t) { Dev d; if (sscanf(t.c_str(), "%u:%u", &d.idx, &d.val) == 2) devs.push_back(d); } }
    }
    int s = -1; for (u32 i = 0; i < sc.size(); i++) if (scn == sc[i].name) s = (int) i;
    if (s < 0) { fprintf(stderr, "unknown scenario in replay file\n"); return 9; }
    Shared* sh = map_shared(); bool all = true;
    for (int k = 0; k < 3; k++) all = try_run(sh, s, gen, &devs, 0, 0) && all;
    if (all) { Failure f = grab(sh); printf("replay fails: [%s] %s\n%s", f.kind.c_str(), f.msg.c_str(), symb(f.bt).c_str()); return 1; }
    printf("replay passes\n"); return 0;
  }
  double t0 = wall(), tend = t0 + opt.secs;
  std::vector<Shared*> sh((size_t) opt.workers); std::vector<pid_t> pid((size_t) opt.workers);
  std::vector<Failure> fails; std::map<std::string, u64> knownhits; u64 inconc = 0;
  auto spawn = [&](int w, u64 start) { pid_t p = fork(); if (!p) worker(sh[(size_t) w], w, start, tend); pid[(size_t) w] = p; };
  for (int w = 0; w < opt.workers; w++) { sh[(size_t) w] = map_shared(); spawn(w, (u64) w); }
  int alive = opt.workers; int herr = 0, respawns = 0;
  Shared* tsh = map_shared();
  std::set<std::string> sigs;
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (int i = 0; i < opt.workers; i++) if (pid[(size_t) i] == p) w = i;
    if (w < 0) continue;
    Shared* s = sh[(size_t) w];
    if (s->state == 1) {
      Failure f = grab(s);
      if (f.kind == "inconclusive") { inconc++; s->state = 0; s->ndev = 0; if (inconc < 2000) { spawn(w, f.caseno + (u64) opt.workers); continue; } alive--; continue; }
      // replay 3x
      bool ok = true; for (int k = 0; k < 3; k++) ok = try_run(tsh, f.scen, f.gen, &f.devs, 0, 0) && ok;
      std::string name = sc[(size_t) f.scen].name;
      std::string text = name + " [" + f.kind + "] " + f.msg;
      if (!ok) { fprintf(stderr, "warning: failure did not replay: %s\n", text.c_str()); inconc++; }
      std::string known;
      std::string st_ = ok ? symb({f.bt}) : "", full = text + "\n" + st_;
      if (f.pc2) full += "other: " + symb({f.pc2});
      for (auto& k : opt.known) { auto c = k.find("::"); if (std::regex_search(full, std::regex(k.substr(c + 2)))) known = k.substr(0, c); }
      if (ok && known.empty()) { f.caseno = s->caseno; fails.push_back(f); }
      if (!known.empty()) knownhits[known]++;
      s->state = 0; s->ndev = 0;
      if (fails.size() < opt.maxfail && wall() < tend) { spawn(w, f.caseno + (u64) opt.workers); continue; }
      if (fails.size() >= opt.maxfail) { for (int i = 0; i < opt.workers; i++) if (i != w) kill(pid[(size_t) i], SIGKILL); alive--; while (alive > 0) { int q = waitpid(-1, &st, 0); if (q < 0 && errno != EINTR) break; alive--; } break; }
      alive--; continue;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && respawns < 50 && wall() < tend) { respawns++; inconc++; spawn(w, s->caseno + (u64) opt.workers); continue; } // ended from outside (memory)
    if (WIFSIGNALED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker %d ended abnormally (%x) in case %lu\n", w, (unsigned) st, (unsigned long) s->caseno); herr++; }
    alive--;
  }
  u64 ex = 0, nt = 0, di = 0, cs = 0, stl = 0, sw = 0, spr = 0, tj = 0, steps = 0; std::map<std::string, u64> labs; std::vector<std::string> samples;
  for (auto* s : sh) { ex += s->execs; nt += s->nontriv; di += s->distinct; cs += s->cases; stl += s->stales; sw += s->switches; spr += s->spur; tj += s->timejumps; steps += s->steps;
    for (u32 i = 0; i < s->nlab; i++) labs[s->lab[i].l] += s->lab[i].n; for (u32 i = 0; i < s->nsamp && samples.size() < 8; i++) samples.push_back(s->samp[i]); }
  std::string rp;
  std::string viol;
  for (auto& f : fails) {
    if (opt.shrink) { double te = wall() + 25; shrink_gen(tsh, f, te); shrink_devs(tsh, f, wall() + 15); }
    vs::Gen g; vs::Case c; u32 s_; make_case(0, &f.gen, g, c, s_, f.scen);
    rp = opt.replaydir + "/" + opt.prop + "-" + sc[(size_t) f.scen].name + "-" + std::to_string(opt.seed) + "-" + std::to_string(f.caseno) + ".replay";
    std::ofstream o(rp);
    o << "# vsched replay; binary " << self_exe << "\nscenario " << sc[(size_t) f.scen].name << "\ngen"; for (u32 v : f.gen) o << ' ' << v;
    o << "\nchoices"; for (auto d : f.devs) o << ' ' << d.idx << ':' << d.val;
    o << "\n# case: " << c.desc << "\n# [" << f.kind << "] " << f.msg << "\n# stack:\n"; { std::istringstream is(symb(f.bt)); std::string l; while (std::getline(is, l)) o << "#   " << l << "\n"; }
    if (f.pc2) { o << "# other access / allocation:\n"; std::istringstream is(symb({f.pc2})); std::string l; while (std::getline(is, l)) o << "#   " << l << "\n"; }
    o.close();
    printf("FAIL scenario=%s kind=%s msg=%s\n  case: %s\n  replay=%s (%zu scenario choices, %zu scheduling choices)\n", sc[(size_t) f.scen].name, f.kind.c_str(), f.msg.c_str(), c.desc.c_str(), rp.c_str(), f.gen.size(), f.devs.size());
    std::ifstream in(rp); std::string l; while (std::getline(in, l)) if (l.size() && l[0] == '#') printf("  %s\n", l.c_str());
  }
  if (!opt.out.empty()) {
    std::ofstream o(opt.out);
    o << "{\"engine\":\"vsched\",\"cases\":" << cs << ",\"evaluations\":" << ex << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << di << ",\"steps\":" << steps << ",\"thread_switches\":" << sw << ",\"stale_loads\":" << stl << ",\"spurious_failures\":" << spr << ",\"time_jumps\":" << tj << ",\"inconclusive\":" << inconc << ",\"worker_errors\":" << herr << ",\"labels\":{";
    bool first = true; for (auto& [k, v] : labs) { o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
    o << "},\"known\":{"; first = true; for (auto& [k, v] : knownhits) { o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
    o << "},\"samples\":["; first = true; for (auto& x : samples) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
    o << "],\"failures\":["; first = true; for (auto& f : fails) { o << (first ? "" : ",") << "{\"scenario\":\"" << sc[(size_t) f.scen].name << "\",\"kind\":\"" << f.kind << "\",\"msg\":\"" << jesc(f.msg) << "\",\"replay\":\"" << jesc(rp) << "\"}"; first = false; }
    o << "],\"wall_s\":" << wall() - t0 << "}\n";
  }
  printf("vsched: %lu cases, %lu executions (%lu non-trivial, %lu distinct), %lu stale loads, %lu switches, %.1fs\n", (unsigned long) cs, (unsigned long) ex, (unsigned long) nt, (unsigned long) di, (unsigned long) stl, (unsigned long) sw, wall() - t0);
  if (!fails.empty()) return 1;
  if (herr) return 9;
  return 0;
}
}
extern "C" {
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void* a, unsigned) { if (managed()) ann_destroy(a); }
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* a, unsigned f, int) { if (managed() && !(f & (1 << 5))) ann_acquire(a); }
int __tsan_mutex_pre_unlock(void* a, unsigned) { if (managed()) ann_release(a); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
}

// Deterministic simulator core.  Compiled WITHOUT instrumentation and without
// standard-library templates, so that nothing here is itself a yield point.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>

extern "C" char __executable_start, _end;

namespace sim {

const char *fault_name[NFAULT] = {"spurious_wakeup", "stall", "wall_clock_jump", "alloc_failure",
  "short_read", "read_eintr", "read_eio", "open_failure", "short_write", "write_error", "close_failure", "sink_failure", "bad_input", "long_pause"};

Shm *shm;

enum St { RUN = 0, B_MUTEX, B_COND, B_SLEEP, B_JOIN, DONE };
const int64_t NEVER = INT64_MAX;

struct T {
  int id, st;
  void (*fn)(void *); void *arg; void *(*pfn)(void *); void *pret;
  int go; int exit_go; pthread_t th; bool started;
  int in_sut, quiet, nofault, noalloc;
  uint64_t prio; uint64_t consec, mysteps, nfired;
  void *obj; int64_t deadline; int clk; int64_t spur; int reason;
  bool joined_by_user, detached;
  uint32_t vc[MAXT];
  char *lo, *hi;
};

static T th[MAXT];
static int nth;
static __thread T *cur;
static int main_go;
static Cfg cfg;
static uint64_t steps, switches, nops;
static int64_t vnow, roff, stall_total, vstart, idle_total;
static uint32_t base_clk;
static uint64_t acc_count;
static int64_t next_dl;
static uint64_t rs, rf, rh;         // schedule, fault, harness streams
static uint64_t ilv, evh;           // interleaving hash, event hash
static uint64_t opp[NFAULT], firedn[NFAULT];
static uint64_t nchoice;
static uint64_t streak, streak_at; static int64_t streak_ns;   // idle periods since the last thing that happened
static uint64_t change_pt[16]; static int nchange, ichange; static uint64_t low_prio;
static bool recheck, race_off, active, tracing;
static bool (*stuck)();
static uint64_t rp_s, rp_f[NFAULT], rp_c;   // replay cursors
static uint64_t gen = 1, sgen = 1;
static int64_t live_blocks; static uint64_t nopens;

static uint64_t mix(uint64_t &s) {           // splitmix64
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t fold(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
static void futex_wait(int *w, int v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int *w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void attach(Shm *s) { shm = s; }

static void finish_hash() {
  shm->hash = fold(fold(evh, ilv), steps);
}
static void account() {
  shm->runs++; shm->steps += steps; shm->switches += switches; shm->ops += nops;
  shm->sim_ns += vnow - vstart;
  for (int k = 0; k < NFAULT; k++) { shm->fired[k] += firedn[k]; shm->opps[k] += opp[k]; }
  if (cfg.strategy >= 0 && cfg.strategy < NSTRAT) shm->strat_runs[cfg.strategy]++;
}

void fail(const char *cls, const char *fmt, ...) {
  if (shm) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(shm->detail, sizeof shm->detail, fmt, ap);
    va_end(ap);
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    shm->code = strncmp(cls, "harness", 7) == 0 ? 3 : 1;
    finish_hash(); account();
    shm->phase = 0;
  }
  _exit(77);
}

static void rec(uint32_t type, uint32_t kind, uint64_t idx, int64_t val) {
  if (shm->ndec < DEC_CAP) { Dec &d = shm->dec[shm->ndec]; d.type = type; d.kind = kind; d.idx = idx; d.val = val; }
  shm->ndec++;
}

// ---------------------------------------------------------------- faults, choices
bool fault(Fault k, int64_t *param, int64_t max_param) {
  uint64_t o = opp[k]++;
  if (cfg.has_replay) {
    uint64_t &i = rp_f[k];
    while (i < cfg.nreplay && !(cfg.replay[i].type == 1 && cfg.replay[i].kind == (uint32_t)k && cfg.replay[i].idx >= o)) i++;
    if (i < cfg.nreplay && cfg.replay[i].idx == o) {
      int64_t v = cfg.replay[i].val;
      if (param) *param = v;
      i++; firedn[k]++; if (cur && k > F_CLOCKJUMP) cur->nfired++; rec(1, k, o, v); evh = fold(evh, 0xF000 + k);
      if (tracing) note("!! fault %s (%lld)", fault_name[k], (long long)v);
      return true;
    }
    return false;
  }
  if (!cfg.rate[k] || firedn[k] >= cfg.maxf[k]) return false;
  if ((mix(rf) & 0xffff) >= cfg.rate[k]) return false;
  int64_t v = max_param > 0 ? (int64_t)(mix(rf) % (uint64_t)max_param) : 0;
  // prefer small and extreme parameters now and then
  if (max_param > 1) switch (mix(rf) & 7) { case 0: v = 0; break; case 1: v = 1 % max_param; break; case 2: v = max_param - 1; break; case 3: v = v % (1 + v / 1000000 + 1); break; default: break; }
  if (param) *param = v;
  firedn[k]++; if (cur && k > F_CLOCKJUMP) cur->nfired++; rec(1, k, o, v); evh = fold(evh, 0xF000 + k);
  if (tracing) note("!! fault %s (%lld)", fault_name[k], (long long)v);
  return true;
}
uint64_t my_fired() { return cur ? cur->nfired : 0; }
void injected(Fault k) { opp[k]++; firedn[k]++; evh = fold(evh, 0xF000 + k); }
static int choice(int n) {
  if (n <= 1) return 0;
  uint64_t i = nchoice++;
  int v = 0;
  if (cfg.has_replay) {
    while (rp_c < cfg.nreplay && !(cfg.replay[rp_c].type == 2 && cfg.replay[rp_c].idx >= i)) rp_c++;
    if (rp_c < cfg.nreplay && cfg.replay[rp_c].idx == i) { v = (int)(cfg.replay[rp_c].val % n); rp_c++; }
  } else v = (int)(mix(rs) % n);
  if (v) rec(2, 0, i, v);
  return v;
}
int64_t stalled() { return stall_total; }
uint64_t fired(Fault k) { return firedn[k]; }
uint64_t rnd() { return mix(rh); }

// ---------------------------------------------------------------- scheduler
static void wake(T *t, int reason) {
  t->st = RUN; t->reason = reason; t->obj = nullptr; t->deadline = NEVER; t->spur = NEVER; recheck = true;
}
static void recompute_dl() {
  next_dl = NEVER;
  for (int i = 0; i < nth; i++) {
    T &t = th[i];
    if (t.st == RUN || t.st == DONE) continue;
    int64_t d = t.deadline;
    if (d != NEVER && t.clk == CLOCK_REALTIME) { d = (roff > 0 && d < INT64_MIN + roff) ? INT64_MIN : d - roff; }
    if (t.spur < d) d = t.spur;
    if (d < next_dl) next_dl = d;
  }
}
static void expire() {
  if (vnow < next_dl) return;
  for (int i = 0; i < nth; i++) {
    T &t = th[i];
    if (t.st == RUN || t.st == DONE) continue;
    int64_t d = t.deadline;
    if (d != NEVER && t.clk == CLOCK_REALTIME) d -= roff;
    if (d <= vnow) wake(&t, ETIMEDOUT);
    else if (t.spur <= vnow) wake(&t, 0);
  }
  recompute_dl();
}

static void switch_to(T *n) {
  T *me = cur;
  switches++;
  ilv = fold(ilv, (uint64_t)n->id * 131 + steps);
  n->consec = 0;
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
  futex_wake(&n->go);
  if (me->st == DONE) return;
  while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) futex_wait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
}

// pick a runnable thread; me may or may not be runnable.  null: none
static T *pick(T *me, bool forced) {
  int r[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == RUN && &th[i] != me) r[n++] = i;
  bool me_ok = me && me->st == RUN;
  if (n == 0) return me_ok ? me : nullptr;
  if (cfg.has_replay) {
    // recorded switch at this very step?
    while (rp_s < cfg.nreplay && !(cfg.replay[rp_s].type == 0 && cfg.replay[rp_s].idx >= steps)) rp_s++;
    if (rp_s < cfg.nreplay && cfg.replay[rp_s].idx == steps) {
      int v = (int)cfg.replay[rp_s].val;
      if (v >= 0 && v < nth && th[v].st == RUN) { rp_s++; return &th[v]; }
      rp_s++;
    }
    if (!forced && me_ok) {
      if (me->consec > 20000) return &th[r[0]];
      return me;
    }
    int start = me ? me->id : -1;
    for (int i = 0; i < n; i++) if (r[i] > start) return &th[r[i]];
    return &th[r[0]];
  }
  if (cfg.strategy == S_PCT) {
    T *best = me_ok ? me : nullptr;
    for (int i = 0; i < n; i++) if (!best || th[r[i]].prio > best->prio) best = &th[r[i]];
    return best;
  }
  if (forced || !me_ok) return &th[r[mix(rs) % n]];
  return &th[r[mix(rs) % n]];
}

static bool want_switch(T *me, int kind) {
  if (cfg.has_replay) return true;             // pick() decides
  if (me->consec > 4000) {                     // fairness
    if (cfg.strategy == S_PCT) { me->prio = low_prio--; recheck = true; me->consec = 0; }
    return true;
  }
  switch (cfg.strategy) {
  case S_PCT:
    if (ichange < nchange && steps >= change_pt[ichange]) { me->prio = low_prio--; ichange++; recheck = true; }
    if (recheck) { recheck = false; return true; }
    return false;
  case S_FEW:
    if (ichange < nchange && steps >= change_pt[ichange]) { ichange++; return true; }
    return false;
  default:
    return (mix(rs) & 0xffff) < cfg.p[kind];
  }
}

static void point_slow(T *me, int kind) {
  steps++; me->consec++; me->mysteps++;
  vnow += cfg.tick;
  if (steps > cfg.max_steps) fail("hang:no-progress", "no completion after %llu steps", (unsigned long long)steps);
  int64_t v;
  if ((cfg.rate[F_STALL] || cfg.has_replay) && !me->nofault && fault(F_STALL, &v, cfg.stall_max)) { vnow += v; stall_total += v; }
  if ((cfg.rate[F_CLOCKJUMP] || cfg.has_replay) && !me->nofault && fault(F_CLOCKJUMP, &v, 2000000000000000ll)) {
    roff += v - 1000000000000000ll; recompute_dl();
  }
  if (vnow >= next_dl) expire();
  if (nth > 1 && want_switch(me, kind)) {
    T *n = pick(me, false);
    if (n && n != me) { rec(0, 0, steps, n->id); if (tracing) note("-> preempted, t%d runs", n->id); switch_to(n); }
  }
}
static inline void point(int kind) {
  T *me = cur;
  if (!me || me->in_sut <= 0 || me->quiet) return;
  if (kind == Y_MEM && !cfg.mem_yield) return;
  point_slow(me, kind);
}

static void describe_stuck(char *b, size_t n) {
  size_t o = 0; b[0] = 0;
  static const char *nm[] = {"runnable", "waiting for a mutex", "waiting on a condition", "sleeping", "joining", "done"};
  for (int i = 0; i < nth && o + 80 < n; i++) if (th[i].st != DONE) o += snprintf(b + o, n - o, "t%d %s; ", i, nm[th[i].st]);
}

// me is blocked (or done): run somebody else until me is runnable again
static void block(T *me) {
  recompute_dl();
  for (;;) {
    steps++;
    if (steps > cfg.max_steps) fail("hang:no-progress", "no completion after %llu steps", (unsigned long long)steps);
    vnow += cfg.tick;
    if (vnow >= next_dl) expire();
    T *n = pick(me, true);
    if (!n) {
      recompute_dl();
      if (next_dl != NEVER) {
        if (next_dl > vnow) { idle_total += next_dl - vnow; streak_ns += next_dl - vnow; vnow = next_dl; }
        // nothing but timers for a long while (somebody polls): the whole process loses the CPU for four times as long each time
        if (++streak > 300 || (streak > 20 && steps - streak_at > 20000)) {
          int64_t most = NEVER;
          for (int i = 0; i < nth; i++) if (th[i].st == B_SLEEP && !th[i].in_sut && th[i].deadline < most) most = th[i].deadline;
          int64_t d = streak_ns > INT64_MAX / 8 ? streak_ns : streak_ns * 3; if (most != NEVER && d > most - vnow) d = most > vnow ? most - vnow : 0;
          vnow += d; stall_total += d; streak_ns += d; streak = 200; streak_at = steps - 15000;
        }
        expire(); continue;
      }
      bool all_done = true;
      for (int i = 0; i < nth; i++) if (th[i].st != DONE) all_done = false;
      if (all_done) {
        __atomic_store_n(&main_go, 1, __ATOMIC_RELEASE); futex_wake(&main_go);
        return;                               // me->st == DONE
      }
      if (stuck && stuck()) {
        finish_hash(); account(); shm->code = 2; shm->phase = 0; _exit(0);
      }
      char b[1500]; describe_stuck(b, sizeof b);
      fail("hang:stuck", "nobody can make progress: %s", b);
    }
    if (n == me) return;
    rec(0, 0, steps, n->id);
    switch_to(n);
    if (me->st == DONE || me->st == RUN) return;
  }
}

static void *tmain(void *p) {
  T *t = (T *)p;
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait(&t->go, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  cur = t;
  if (t->pfn) { t->in_sut = 1; t->pret = t->pfn(t->arg); t->in_sut = 0; } else t->fn(t->arg);
  if (t->in_sut) fail("harness:unbalanced", "thread %d left in_sut=%d", t->id, t->in_sut);
  t->st = DONE;
  t->vc[t->id]++;
  for (int i = 0; i < nth; i++) if (th[i].st == B_JOIN && th[i].obj == t) wake(&th[i], 0);
  block(t);
  cur = nullptr;
  // real exit (thread_local destructors) happens one thread at a time, after the run
  while (!__atomic_load_n(&t->exit_go, __ATOMIC_ACQUIRE)) futex_wait(&t->exit_go, 0);
  return nullptr;
}

static char *stacks[MAXT];
const size_t STK = 256 * 1024;
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
static create_t real_create; static join_t real_join;

static T *new_thread() {
  if (nth >= MAXT) fail("harness:threads", "too many threads");
  T *t = &th[nth]; memset(t, 0, sizeof *t);
  t->id = nth; t->deadline = t->spur = NEVER;
  t->prio = (mix(rs) >> 2) | (1ull << 62);
  for (int i = 0; i < MAXT; i++) t->vc[i] = base_clk;
  t->vc[nth] = base_clk + 1;
  nth++;
  return t;
}
static void start(T *t) {
  if (!real_create) { real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create"); real_join = (join_t)dlsym(RTLD_NEXT, "pthread_join"); }
  if (!stacks[t->id]) stacks[t->id] = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t->lo = stacks[t->id]; t->hi = t->lo + STK;
  pthread_attr_t a; pthread_attr_init(&a);
  pthread_attr_setstack(&a, stacks[t->id], STK);
  if (real_create(&t->th, &a, tmain, t) != 0) fail("harness:thread", "cannot create a thread");
  pthread_attr_destroy(&a);
  t->started = true;
}

int spawn(void (*fn)(void *), void *arg) {
  T *t = new_thread(); t->fn = fn; t->arg = arg;
  return t->id;
}
void go() {
  if (nth == 0) return;
  for (int i = 0; i < nth; i++) start(&th[i]);
  main_go = 0; next_dl = NEVER; recheck = false;
  T *n = pick(nullptr, true);
  rec(0, 0, steps, n->id);
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE); futex_wake(&n->go);
  while (!__atomic_load_n(&main_go, __ATOMIC_ACQUIRE)) futex_wait(&main_go, 0);
  for (int i = 0; i < nth; i++) {
    __atomic_store_n(&th[i].exit_go, 1, __ATOMIC_RELEASE); futex_wake(&th[i].exit_go);
    real_join(th[i].th, nullptr);
    if (th[i].vc[i] >= base_clk) base_clk = th[i].vc[i] + 1;
  }
  nth = 0; steps++;
}

void set_stuck_handler(bool (*h)()) { stuck = h; }
int self() { return cur ? cur->id : -1; }
void op_point() {
  T *me = cur; if (!me || me->quiet) return;
  nops++;
  point_slow(me, Y_OP);
}
void sleep_ns(int64_t ns) {
  T *me = cur; if (!me) return;
  if (ns <= 0) { op_point(); return; }
  me->st = B_SLEEP; me->clk = CLOCK_MONOTONIC; me->deadline = vnow > INT64_MAX - ns ? NEVER - 1 : vnow + ns;
  block(me);
}
int64_t now() { return vnow; }
uint64_t step() { return steps; }
uint64_t my_steps() { return cur ? cur->mysteps : 0; }
int64_t idle_ns() { return idle_total; }
int64_t tick_ns() { return cfg.tick; }
bool tracing_on() { return tracing; }
void note(const char *fmt, ...) {
  if (!tracing) return;
  fprintf(stderr, "  step %-6llu t=%+.6fms t%d ", (unsigned long long)steps, (vnow - vstart) / 1e6, self());
  va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fputc('\n', stderr);
}
void enter_sut() { if (cur) cur->in_sut++; }
void leave_sut() { if (cur) cur->in_sut--; }
bool in_sut() { return cur && cur->in_sut > 0 && !cur->quiet; }
Quiet::Quiet() { saved = 0; if (cur) { cur->quiet++; saved = 1; } }
Quiet::~Quiet() { if (saved && cur) cur->quiet--; }
void hold_faults(bool on) { if (cur) cur->nofault += on ? 1 : -1; }
static bool leaks_ok;
void forgive_leaks() { leaks_ok = true; }
bool leaks_forgiven() { return leaks_ok; }
void hold_memory(bool on) { if (cur) cur->noalloc += on ? 1 : -1; }
void log(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  streak = 0; streak_ns = 0; streak_at = steps;
  evh = fold(fold(fold(fold(evh, a), b), c), d);
}
void log_str(const char *s, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = h * 1099511628211ull + (unsigned char)s[i]; evh = fold(evh, h); }
void probe(int i) { if (shm && i >= 0 && i < 64) shm->probes[i]++; }
void trace(bool on) { tracing = on; }

// ---------------------------------------------------------------- vector clocks
struct Sync {
  const void *a; uint64_t g; int owner; int depth; int readers; int state;
  uint32_t vc[MAXT];
};
const size_t NSYNC = 1 << 16;
static Sync *sy; static size_t nsync;
static Sync *sync_of(const void *a) {
  if (!sy) sy = (Sync *)mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 48;
  for (;; h = (h + 1) & (NSYNC - 1)) {
    Sync &s = sy[h];
    if (s.g == gen && s.a == a) return &s;
    if (s.g != gen) {
      if (nsync > NSYNC * 3 / 4) fail("harness:sync-table", "too many synchronisation objects");
      nsync++;
      s.g = gen; s.a = a; s.owner = -1; s.depth = 0; s.readers = 0; s.state = 0; memset(s.vc, 0, sizeof s.vc);
      return &s;
    }
  }
}
static Sync *atomic_sync(const void *a) {      // degrade instead of failing
  if (nsync > NSYNC / 2) { race_off = true; return nullptr; }
  return sync_of(a);
}
static inline void acq(T *t, Sync *s) { if (!s) return; for (int i = 0; i < nth; i++) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i]; }
static inline void rel(T *t, Sync *s, bool join) {
  if (!s) return;
  if (join) { for (int i = 0; i < nth; i++) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i]; }
  else memcpy(s->vc, t->vc, sizeof(uint32_t) * nth);
  t->vc[t->id]++;
}

// ---------------------------------------------------------------- shadow memory
struct Slot { uint32_t clk; uint16_t tid; uint8_t mask, w; const void *pc; };
struct Cell { uintptr_t a; uint64_t g; uint8_t freed; uint8_t ns; uint8_t next; Slot s[4]; };
const size_t NCELL = 1 << 18;
static Cell *cells; static size_t ncell;
static Cell *cell_of(uintptr_t g8, bool create) {
  if (!cells) cells = (Cell *)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t h = (g8 * 0x9E3779B97F4A7C15ull) >> 46;
  for (;; h = (h + 1) & (NCELL - 1)) {
    Cell &c = cells[h];
    if (c.g == sgen && c.a == g8) return &c;
    if (c.g != sgen) {
      if (!create || ncell > NCELL / 2) return nullptr;
      ncell++;
      c.g = sgen; c.a = g8; c.freed = 0; c.ns = 0; c.next = 0;
      return &c;
    }
  }
}
static struct { uintptr_t lo, hi; } so_rw[256]; static int nso = -1;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  bool main_exe = !i->dlpi_name || !i->dlpi_name[0];
  if (main_exe) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && nso < 256) {
      so_rw[nso].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; so_rw[nso].hi = so_rw[nso].lo + i->dlpi_phdr[k].p_memsz; nso++;
    }
  return 0;
}
static bool in_shared_object(uintptr_t a) {
  if (nso < 0) { nso = 0; dl_iterate_phdr(phdr_cb, nullptr); }
  for (int i = 0; i < nso; i++) if (a >= so_rw[i].lo && a < so_rw[i].hi) return true;
  return false;
}
static struct { uintptr_t lo, hi; } ignored[32]; static int nignored;
void race_ignore(const void *p, size_t n) { if (nignored < 32) { ignored[nignored].lo = (uintptr_t)p; ignored[nignored++].hi = (uintptr_t)p + n; } }
static void race_report(T *t, uintptr_t a, const Slot &o, bool w, const void *pc) {
  if (in_shared_object(a)) return;
  for (int i = 0; i < nignored; i++) if (a + 8 > ignored[i].lo && a < ignored[i].hi) return;
  fail("race", "t%d %s and t%d %s the same data with no ordering between them; code offsets +0x%llx and +0x%llx",
       t->id, w ? "writes" : "reads", o.tid, o.w ? "writes" : "reads",
       (unsigned long long)((const char *)pc - &__executable_start), (unsigned long long)((const char *)o.pc - &__executable_start));
}
static void access_slow(T *t, uintptr_t a, size_t n, bool w, const void *pc) {
  if ((char *)a >= t->lo && (char *)a < t->hi) return;
  if (n > 2048) n = 2048;
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    uint8_t m = 0xff;
    if (g < a) m &= 0xff << (a - g);
    if (g + 8 > e) m &= 0xff >> (g + 8 - e);
    bool det = cfg.race && !race_off;
    Cell *c = cell_of(g >> 3, det);
    if (!c) continue;
    if (c->freed & m) fail("memory:use-after-free", "t%d %s freed memory; code offset +0x%llx", t->id, w ? "writes" : "reads",
                       (unsigned long long)((const char *)pc - &__executable_start));
    if (!det) continue;
    int put = -1;
    for (int i = 0; i < c->ns; i++) {
      Slot &s = c->s[i];
      if (s.tid == t->id) { if (s.w == (uint8_t)w && s.mask == m) put = i; continue; }
      if ((s.mask & m) && (w || s.w) && s.clk > t->vc[s.tid]) race_report(t, g, s, w, pc);
    }
    if (put < 0) { if (c->ns < 4) put = c->ns++; else put = c->next++ & 3; }
    Slot &s = c->s[put];
    s.clk = t->vc[t->id]; s.tid = t->id; s.mask = m; s.w = w; s.pc = pc;
  }
}
static inline void access(const void *p, size_t n, bool w, const void *pc) {
  T *t = cur;
  if (!t || t->in_sut <= 0 || t->quiet) return;
  uintptr_t a = (uintptr_t)p;
  if ((char *)a >= t->lo && (char *)a < t->hi) return;
  if (cfg.mem_yield) point_slow(t, Y_MEM);
  else if (++acc_count > 2000000000ull) fail("hang:no-progress", "no completion after %llu memory accesses", (unsigned long long)acc_count);
  access_slow(t, a, n, w, pc);
}
void mem_read(const void *p, size_t n) { if (cur) access_slow(cur, (uintptr_t)p, n, false, __builtin_return_address(0)); }
void mem_write(const void *p, size_t n) { if (cur) access_slow(cur, (uintptr_t)p, n, true, __builtin_return_address(0)); }
bool heap_ok(const void *p) { Cell *c = cells ? cell_of((uintptr_t)p >> 3, false) : nullptr; return !c || !c->freed; }

// ---------------------------------------------------------------- heap
struct Hdr { uint64_t magic; uint64_t size; uint64_t g; uint64_t flags; };
const uint64_t LIVE = 0xA11CEA11CEA11CE1ull, DEAD = 0xDEADDEADDEADDEA1ull;
struct QN { QN *next; };
static Hdr **quar; static size_t nquar, cquar, quar_bytes;

static void *sim_alloc(size_t n, bool &failed) {
  T *t = cur; failed = false;
  bool sut = t && t->in_sut > 0 && !t->quiet;
  if (sut && !t->nofault && !t->noalloc && (cfg.rate[F_ALLOC] || cfg.has_replay) && fault(F_ALLOC, nullptr, 0)) { failed = true; return nullptr; }
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
  if (!h) { failed = true; return nullptr; }
  h->magic = LIVE; h->size = n; h->g = gen; h->flags = sut ? 1 : 0;
  if (active && sut) live_blocks++;
  void *p = h + 1;
  if (active) memset(p, 0xCD, n);
  return p;
}
static void sim_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic == DEAD) fail("memory:double-free", "a block of %llu bytes is freed twice", (unsigned long long)h->size);
  if (h->magic != LIVE) fail("memory:bad-free", "freeing something that was not allocated");
  h->magic = DEAD;
  if (h->g == gen && active && (h->flags & 1)) live_blocks--;
  if (!active) { free(h); return; }
  memset(p, 0xDD, h->size);
  if (quar_bytes > (700u << 20)) { race_off = true; free(h); return; }
  size_t lim = h->size > 8192 ? 8192 : h->size;   // shadow marks for the first part only
  for (size_t o = 0; o < lim; o += 8) {
    Cell *c = cell_of(((uintptr_t)p + o) >> 3, true);
    if (c) c->freed = (h->size - o >= 8) ? 0xff : (0xff >> (8 - (h->size - o)));
  }
  if (nquar == cquar) { cquar = cquar ? cquar * 2 : 4096; quar = (Hdr **)realloc(quar, cquar * sizeof *quar); }
  quar[nquar++] = h; quar_bytes += h->size + sizeof(Hdr);
}
int64_t sut_live_blocks() { return live_blocks; }

// ---------------------------------------------------------------- runs
void begin_run(const Cfg &c) { leaks_ok = false;
  cfg = c; gen++; sgen++; nsync = ncell = 0; race_off = false;
  nth = 0; steps = switches = nops = 0; vnow = vstart = 1000000000000000ll; roff = 700000000000000000ll; stall_total = idle_total = 0; base_clk = 0; acc_count = 0;
  uint64_t s = c.seed;
  rs = mix(s); rf = mix(s); rh = mix(s);
  ilv = evh = 0xcbf29ce484222325ull;
  memset(opp, 0, sizeof opp); memset(firedn, 0, sizeof firedn); memset(rp_f, 0, sizeof rp_f);
  rp_s = rp_c = nchoice = 0; ichange = 0; nchange = 0; low_prio = 1ull << 40; recheck = false;
  if (c.strategy == S_PCT || c.strategy == S_FEW) {
    nchange = c.pct_d > 16 ? 16 : c.pct_d;
    for (int i = 0; i < nchange; i++) change_pt[i] = mix(rs) % (c.pct_len ? c.pct_len : 1);
    for (int i = 0; i < nchange; i++) for (int j = i + 1; j < nchange; j++) if (change_pt[j] < change_pt[i]) { uint64_t x = change_pt[i]; change_pt[i] = change_pt[j]; change_pt[j] = x; }
  }
  stuck = nullptr; streak = 0; streak_ns = 0; streak_at = 0; live_blocks = 0; nopens = 0; main_go = 0; next_dl = NEVER;
  shm->ndec = 0; shm->code = 0; shm->cls[0] = 0; shm->detail[0] = 0; shm->phase = 1;
  active = true;
}
void end_run() {
  active = false;
  for (size_t i = 0; i < nquar; i++) free(quar[i]);
  nquar = 0; quar_bytes = 0;
  finish_hash(); account();
  bool nontriv = switches > 0;
  for (int k = 0; k < NFAULT; k++) if (firedn[k]) nontriv = true;
  if (nontriv) shm->nontrivial++;
  if (shm->nhash < 8192) { shm->hashes[shm->nhash] = shm->hash; shm->triv[shm->nhash++] = !nontriv; }
  shm->phase = 0;
}

// ---------------------------------------------------------------- mutexes and friends
static void mutex_acquire(T *t, void *m, Sync *s, int64_t dl, int clk, bool *timed_out) {
  if (timed_out) *timed_out = false;
  while (s->owner >= 0 || s->readers > 0) {
    t->st = B_MUTEX; t->obj = m; t->deadline = dl; t->clk = clk; t->spur = NEVER;
    block(t);
    if (dl != NEVER && t->reason == ETIMEDOUT && (s->owner >= 0 || s->readers > 0)) { if (timed_out) *timed_out = true; return; }
  }
  s->owner = t->id; s->depth = 1;
  acq(t, s);
}
static void mutex_release(T *t, void *m, Sync *s) {
  rel(t, s, true);
  s->owner = -1; s->depth = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == B_MUTEX && th[i].obj == m) wake(&th[i], 0);
}
static int64_t ts_ns(const struct timespec *ts) {
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (v > NEVER - 1) return NEVER - 1;
  if (v < INT64_MIN / 2) return INT64_MIN / 2;
  return (int64_t)v;
}
static int cond_wait(void *c, pthread_mutex_t *m, int clk, int64_t dl) {
  T *t = cur;
  point(Y_SYNC);
  Sync *s = sync_of(m);
  if (s->owner != t->id) fail("memory:cond-wait-unlocked", "condition wait without holding the mutex");
  int64_t v = 0; bool sp = !t->nofault && (cfg.rate[F_SPURIOUS] || cfg.has_replay) && fault(F_SPURIOUS, &v, 100000000);
  if (sp) {                                  // soon, or some way into the rest of the time limit
    int64_t left = dl >= NEVER - 1 ? 0 : dl - (clk == CLOCK_REALTIME ? vnow + roff : vnow);
    if ((v & 1) && left > 0) v = (int64_t)((__int128)left * v / 100000000); else v /= 2;
  }
  int depth = s->depth;
  mutex_release(t, m, s);
  t->st = B_COND; t->obj = c; t->deadline = dl; t->clk = clk; t->spur = sp ? vnow + v : NEVER;
  block(t);
  int r = t->reason;
  mutex_acquire(t, m, s, NEVER, 0, nullptr);
  s->depth = depth;
  point(Y_SYNC);
  return r;
}
}  // namespace sim
using namespace sim;

extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  static const pthread_mutex_t init = PTHREAD_MUTEX_INITIALIZER; *m = init;
  int ty = 0; if (a) { pthread_mutexattr_gettype(a, &ty); m->__data.__kind = ty; }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (cur && cur->in_sut > 0) { Sync *s = sync_of(m); if (s->owner >= 0) fail("memory:mutex-destroyed-locked", "a locked mutex is destroyed"); }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  T *t = cur; if (!t) return 0;
  point(Y_SYNC);
  Sync *s = sync_of(m);
  if (s->owner == t->id) {
    int k = m->__data.__kind & 3;
    if (k == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
    if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  mutex_acquire(t, m, s, NEVER, 0, nullptr);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  T *t = cur; if (!t) return 0;
  point(Y_SYNC);
  Sync *s = sync_of(m);
  if (s->owner == t->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
  if (s->owner >= 0) return EBUSY;
  s->owner = t->id; s->depth = 1; acq(t, s);
  return 0;
}
static int mutex_timed(pthread_mutex_t *m, int clk, const struct timespec *ts) {
  T *t = cur; if (!t) return 0;
  point(Y_SYNC);
  Sync *s = sync_of(m);
  if (s->owner == t->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
  bool to; mutex_acquire(t, m, s, ts_ns(ts), clk, &to);
  return to ? ETIMEDOUT : 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return mutex_timed(m, CLOCK_REALTIME, ts); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { return mutex_timed(m, c, ts); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
  T *t = cur; if (!t) return 0;
  Sync *s = sync_of(m);
  if (s->owner != t->id) fail("memory:bad-unlock", "t%d unlocks a mutex it does not hold", t->id);
  if (--s->depth > 0) return 0;
  mutex_release(t, m, s);
  point(Y_SYNC);
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
  if (cur) for (int i = 0; i < nth; i++) if (th[i].st == B_COND && th[i].obj == c) fail("memory:cond-destroyed", "a condition variable with waiters is destroyed");
  return 0;
}
// outside a run (warm-up) there is one thread and time passes by skipping it
static int64_t skew;
static int64_t outside_now(int clk) { struct timespec ts; syscall(SYS_clock_gettime, clk, &ts); return (int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec + skew; }
static int outside_wait(int clk, const struct timespec *ts) { int64_t d = ts_ns(ts) - outside_now(clk); if (d > 0) skew += d; return ETIMEDOUT; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!cur) return 0; cond_wait(c, m, CLOCK_MONOTONIC, NEVER); return 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!cur) return outside_wait(CLOCK_REALTIME, ts); return cond_wait(c, m, CLOCK_REALTIME, ts_ns(ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { if (!cur) return outside_wait(k, ts); return cond_wait(c, m, k, ts_ns(ts)); }
int pthread_cond_signal(pthread_cond_t *c) {
  T *t = cur; if (!t) return 0;
  point(Y_SYNC);
  int w[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == B_COND && th[i].obj == c) w[n++] = i;
  if (n) wake(&th[w[choice(n)]], 0);
  point(Y_SYNC);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  T *t = cur; if (!t) return 0;
  point(Y_SYNC);
  for (int i = 0; i < nth; i++) if (th[i].st == B_COND && th[i].obj == c) wake(&th[i], 0);
  point(Y_SYNC);
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { T *t = cur; if (!t) return 0; point(Y_SYNC); mutex_acquire(t, l, sync_of(l), NEVER, 0, nullptr); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { T *t = cur; if (!t) return 0; point(Y_SYNC); Sync *s = sync_of(l); if (s->owner >= 0 || s->readers) return EBUSY; s->owner = t->id; s->depth = 1; acq(t, s); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  T *t = cur; if (!t) return 0; point(Y_SYNC);
  Sync *s = sync_of(l);
  while (s->owner >= 0) { t->st = B_MUTEX; t->obj = l; t->deadline = t->spur = NEVER; block(t); }
  s->readers++; acq(t, s); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { T *t = cur; if (!t) return 0; point(Y_SYNC); Sync *s = sync_of(l); if (s->owner >= 0) return EBUSY; s->readers++; acq(t, s); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  T *t = cur; if (!t) return 0;
  Sync *s = sync_of(l);
  if (s->owner == t->id) mutex_release(t, l, s);
  else if (s->readers > 0) {
    s->readers--; rel(t, s, true);
    for (int i = 0; i < nth; i++) if (th[i].st == B_MUTEX && th[i].obj == l) wake(&th[i], 0);
  } else fail("memory:bad-unlock", "t%d unlocks a lock it does not hold", t->id);
  point(Y_SYNC);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  T *t = cur;
  if (!t) { if (*o != 2) { *o = 1; f(); *o = 2; } return 0; }
  Sync *s = sync_of(o);
  while (*o == 1) { t->st = B_MUTEX; t->obj = o; t->deadline = t->spur = NEVER; block(t); }
  if (*o == 2) { acq(t, s); return 0; }
  *o = 1;
  auto free_all = [&] { for (int i = 0; i < nth; i++) if (th[i].st == B_MUTEX && th[i].obj == o) wake(&th[i], 0); };
  try { f(); } catch (...) { *o = 0; free_all(); throw; }
  *o = 2; rel(t, s, true); free_all();
  return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
  volatile char *b = (char *)g;
  T *t = cur;
  if (!t) { return b[0] ? 0 : 1; }
  point(Y_SYNC);
  Sync *s = sync_of(g);
  while (b[1]) { t->st = B_MUTEX; t->obj = g; t->deadline = t->spur = NEVER; block(t); }
  if (b[0]) { acq(t, s); return 0; }
  b[1] = 1;
  return 1;
}
static void guard_done(uint64_t *g, bool ok) {
  volatile char *b = (char *)g;
  b[1] = 0; if (ok) b[0] = 1;
  T *t = cur; if (!t) return;
  Sync *s = sync_of(g); rel(t, s, true);
  for (int i = 0; i < nth; i++) if (th[i].st == B_MUTEX && th[i].obj == g) wake(&th[i], 0);
  point(Y_SYNC);
}
void __cxa_guard_release(uint64_t *g) { guard_done(g, true); }
void __cxa_guard_abort(uint64_t *g) { guard_done(g, false); }

// threads made by the library itself become simulated threads
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  T *me = cur;
  if (!me) { create_t rc = (create_t)dlsym(RTLD_NEXT, "pthread_create"); return rc(out, a, f, arg); }
  T *t = new_thread(); t->pfn = f; t->arg = arg;
  for (int i = 0; i < nth; i++) if (i != t->id) t->vc[i] = me->vc[i];
  me->vc[me->id]++;
  start(t); recheck = true;
  *out = t->th;
  point(Y_SYNC);
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  T *me = cur;
  if (!me) { join_t rj = (join_t)dlsym(RTLD_NEXT, "pthread_join"); return rj(p, ret); }
  for (int i = 0; i < nth; i++) if (th[i].started && pthread_equal(th[i].th, p)) {
    while (th[i].st != DONE) { me->st = B_JOIN; me->obj = &th[i]; me->deadline = me->spur = NEVER; block(me); }
    for (int k = 0; k < nth; k++) if (th[i].vc[k] > me->vc[k]) me->vc[k] = th[i].vc[k];
    if (ret) *ret = th[i].pret;
    return 0;
  }
  return ESRCH;
}
int pthread_detach(pthread_t p) { if (cur) return 0; typedef int (*d_t)(pthread_t); return ((d_t)dlsym(RTLD_NEXT, "pthread_detach"))(p); }

// ---------------------------------------------------------------- clocks
int clock_gettime(clockid_t c, struct timespec *ts) {
  T *t = cur;
  if (!t) { int64_t v = outside_now(c); ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0; }
  point(Y_SYNC);
  int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? vnow + roff : vnow;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec *ts, struct timespec *rem) { if (!cur) return (int)syscall(SYS_nanosleep, ts, rem); sim::sleep_ns(ts_ns(ts)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
  if (!cur) return (int)-syscall(SYS_clock_nanosleep, c, fl, ts, rem);
  int64_t n = ts_ns(ts); if (fl & TIMER_ABSTIME) n -= (c == CLOCK_REALTIME) ? vnow + roff : vnow;
  sim::sleep_ns(n); return 0;
}
int usleep(useconds_t u) { if (!cur) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; syscall(SYS_nanosleep, &ts, nullptr); return 0; } sim::sleep_ns((int64_t)u * 1000); return 0; }
int sched_yield() { T *t = cur; if (!t) return (int)syscall(SYS_sched_yield); point(Y_SYNC); return 0; }
}

// ---------------------------------------------------------------- operator new/delete
static void *op_new(size_t n) { bool f; void *p = sim_alloc(n, f); if (f) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return op_new(n); }
void *operator new[](size_t n) { return op_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { bool f; return sim_alloc(n, f); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { bool f; return sim_alloc(n, f); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p); }

// ---------------------------------------------------------------- the other allocator a library call may use
// the C++ runtime hands out demangled names from malloc: the caller owns them and gives them back with free
static void *raw_blocks[4096]; static size_t nraw; static uint64_t raw_gen;
extern "C" void __libc_free(void *);
extern "C" void free(void *p) noexcept {
  if (nraw && p) for (size_t i = nraw; i-- > 0;) if (raw_blocks[i] == p) { raw_blocks[i] = raw_blocks[--nraw]; if (active && raw_gen == gen) live_blocks--; break; }
  __libc_free(p);
}
namespace __cxxabiv1 {
extern "C" char *__cxa_demangle(const char *n, char *buf, size_t *len, int *st) {
  typedef char *(*dem_t)(const char *, char *, size_t *, int *); static dem_t real;
  if (!real) real = (dem_t)dlsym(RTLD_NEXT, "__cxa_demangle");
  T *t = cur; bool sut = t && t->in_sut > 0 && !t->quiet;
  if (!sut || !active) return real(n, buf, len, st);
  if (!t->nofault && !t->noalloc && (cfg.rate[F_ALLOC] || cfg.has_replay) && fault(F_ALLOC, nullptr, 0)) { if (st) *st = -1; return nullptr; }
  if (raw_gen != gen) { raw_gen = gen; nraw = 0; }
  char *r = real(n, buf, len, st);
  if (r && r != buf && nraw < sizeof raw_blocks / sizeof *raw_blocks) { raw_blocks[nraw++] = r; live_blocks++; }
  return r;
}
}

// ---------------------------------------------------------------- virtual files
namespace sim {
struct VF { char path[64]; char *data; size_t n; bool used; };
static VF vf[64]; static bool offline;
void vfs_offline(bool on) { offline = on; }
uint64_t vfs_opens() { return nopens; }
struct FD { int fd; int file; FILE *f; bool used, wr; };
static FD fds[32];
static bool is_virtual(const char *p) { return (cur || offline) && p && strncmp(p, "/simfs/", 7) == 0; }
static int vf_find(const char *p) { for (int i = 0; i < 64; i++) if (vf[i].used && strcmp(vf[i].path, p) == 0) return i; return -1; }
void vfs_put(const char *p, const void *d, size_t n) {
  int i = vf_find(p);
  if (i < 0) { for (i = 0; i < 64 && vf[i].used; i++); if (i == 64) fail("harness:vfs", "too many files"); }
  if (vf[i].used) free(vf[i].data);
  vf[i].used = true; snprintf(vf[i].path, sizeof vf[i].path, "%s", p);
  vf[i].data = (char *)malloc(n + 1); memcpy(vf[i].data, d, n); vf[i].n = n;
}
void vfs_del(const char *p) { int i = vf_find(p); if (i >= 0) { free(vf[i].data); vf[i].used = false; } }
const char *vfs_get(const char *p, size_t *n) { int i = vf_find(p); if (i < 0) return nullptr; *n = vf[i].n; return vf[i].data; }
int vfs_open_fds() { int n = 0; for (int i = 0; i < 32; i++) n += fds[i].used; return n; }
void vfs_clear() {
  for (int i = 0; i < 64; i++) if (vf[i].used) { free(vf[i].data); vf[i].used = false; }
  for (int i = 0; i < 32; i++) if (fds[i].used) { syscall(SYS_close, fds[i].fd); fds[i].used = false; }
}
static FD *fd_of(int fd) { for (int i = 0; i < 32; i++) if (fds[i].used && fds[i].fd == fd) return &fds[i]; return nullptr; }
static FD *fd_of(FILE *f) { for (int i = 0; i < 32; i++) if (fds[i].used && fds[i].f == f) return &fds[i]; return nullptr; }
static bool faults_on() { return cur && cur->in_sut > 0 && !cur->quiet && !cur->nofault; }
static int v_open(const char *p, int flags) {
  nopens++;
  point(Y_IO);
  int64_t e;
  if (faults_on() && fault(F_OPEN, &e, 5)) { static const int es[] = {ENOENT, EACCES, EMFILE, EIO, ENFILE}; errno = es[e % 5]; return -1; }
  int i = vf_find(p);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (i < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } vfs_put(p, "", 0); i = vf_find(p); }
  if (flags & O_TRUNC) { vf[i].n = 0; }
  int fd = memfd_create("simfs", 0);
  if (fd < 0) fail("harness:memfd", "memfd_create failed");
  size_t o = 0; while (o < vf[i].n) { ssize_t w = syscall(SYS_write, fd, vf[i].data + o, vf[i].n - o); if (w <= 0) fail("harness:memfd", "write failed"); o += w; }
  if (!(flags & O_APPEND)) lseek(fd, 0, SEEK_SET);
  for (int k = 0; k < 32; k++) if (!fds[k].used) { fds[k].used = true; fds[k].fd = fd; fds[k].file = i; fds[k].f = nullptr; fds[k].wr = wr; return fd; }
  fail("harness:vfs", "too many open files");
}
static void v_capture(FD *d) {
  if (!d->wr) return;
  struct stat st; if (fstat(d->fd, &st) != 0) return;
  size_t sz = st.st_size > 0 ? (size_t)st.st_size : 0; if (sz > (64u << 20)) sz = 64u << 20;
  char *b = (char *)malloc(sz + 1); ssize_t n = pread(d->fd, b, sz, 0); if (n < 0) n = 0;
  if (vf[d->file].used) { free(vf[d->file].data); vf[d->file].data = b; vf[d->file].n = n; } else free(b);
}
typedef FILE *(*fopen_t)(const char *, const char *); typedef int (*fclose_t)(FILE *);
// stdio on a virtual file goes through read() and write() below, faults included
static ssize_t ck_read(void *c, char *b, size_t n) { return ::read(((FD *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t o = 0; while (o < n) { ssize_t w = ::write(((FD *)c)->fd, b + o, n - o); if (w < 0) break; o += (size_t)w; } return (ssize_t)o; }
static int ck_seek(void *c, off64_t *o, int wh) { off64_t r = lseek64(((FD *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { FD *d = (FD *)c; d->f = nullptr; return ::close(d->fd); }
static FILE *v_stdio(FD *d, const char *m) { cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; return d->f = fopencookie(d, m, io); }
static FILE *do_fopen(const char *p, const char *m, const char *sym) {
  if (!is_virtual(p)) return ((fopen_t)dlsym(RTLD_NEXT, sym))(p, m);
  int fl = strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
  if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
  int fd = v_open(p, fl); if (fd < 0) return nullptr;
  return v_stdio(fd_of(fd), m);
}
}
extern "C" {
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }
FILE *fdopen(int fd, const char *m) noexcept { FD *d = cur || offline ? fd_of(fd) : nullptr; if (d) return v_stdio(d, m); typedef FILE *(*fd_t)(int, const char *); return ((fd_t)dlsym(RTLD_NEXT, "fdopen"))(fd, m); }
int fileno(FILE *f) noexcept { FD *d = cur || offline ? fd_of(f) : nullptr; if (d) return d->fd; typedef int (*fn_t)(FILE *); return ((fn_t)dlsym(RTLD_NEXT, "fileno"))(f); }
int rename(const char *a, const char *b) noexcept {
  if (!is_virtual(a) || !is_virtual(b)) return (int)syscall(SYS_rename, a, b);
  int i = vf_find(a); if (i < 0) { errno = ENOENT; return -1; }
  if (strcmp(a, b) != 0) { vfs_del(b); snprintf(vf[i].path, sizeof vf[i].path, "%s", b); }
  return 0;
}
int unlink(const char *p) noexcept { if (!is_virtual(p)) return (int)syscall(SYS_unlink, p); if (vf_find(p) < 0) { errno = ENOENT; return -1; } vfs_del(p); return 0; }
int remove(const char *p) noexcept { if (is_virtual(p)) return unlink(p); int r = (int)syscall(SYS_unlink, p); return r && errno == EISDIR ? (int)syscall(SYS_rmdir, p) : r; }
static int real_open(const char *p, int fl, mode_t m) { return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return is_virtual(p) ? v_open(p, fl) : real_open(p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return is_virtual(p) ? v_open(p, fl) : real_open(p, fl, m); }
int access(const char *p, int m) { if (is_virtual(p)) { if (vf_find(p) >= 0) return 0; errno = ENOENT; return -1; } return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
int lstat(const char *p, struct stat *st) noexcept { return is_virtual(p) ? stat(p, st) : (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int stat(const char *p, struct stat *st) {
  if (is_virtual(p)) { int i = vf_find(p); if (i < 0) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = vf[i].n; return 0; }
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
ssize_t read(int fd, void *b, size_t n) {
  FD *d = cur || offline ? fd_of(fd) : nullptr;
  if (d) {
    point(Y_IO);
    int64_t v;
    if (faults_on()) {
      if (fault(F_RD_EINTR, nullptr, 0)) { errno = EINTR; return -1; }
      if (fault(F_RD_EIO, nullptr, 0)) { errno = EIO; return -1; }
      if (n > 1 && fault(F_RD_SHORT, &v, n)) { if (v == 0) v = 1; if ((size_t)v < n) n = v; }
    }
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  FD *d = cur || offline ? fd_of(fd) : nullptr;
  if (d) {
    point(Y_IO);
    int64_t v;
    if (faults_on()) {
      if (fault(F_WR_ERR, &v, 2)) { errno = v ? EIO : ENOSPC; return -1; }
      if (n > 1 && fault(F_WR_SHORT, &v, n)) { if (v == 0) v = 1; if ((size_t)v < n) n = v; }
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  FD *d = cur || offline ? fd_of(fd) : nullptr;
  if (!d) return syscall(SYS_writev, fd, v, n);
  ssize_t done = 0;                       // one decision per piece; a piece that fails after others were written makes the write a short one
  for (int i = 0; i < n; i++) if (v[i].iov_len) {
    ssize_t w = write(fd, v[i].iov_base, v[i].iov_len);
    if (w < 0) return done ? done : -1;
    done += w; if ((size_t)w < v[i].iov_len) break;
  }
  return done;
}
int close(int fd) {
  FD *d = cur || offline ? fd_of(fd) : nullptr;
  if (d && !d->f) { v_capture(d); d->used = false; bool bad = d->wr && faults_on() && fault(F_CLOSE, nullptr, 0); syscall(SYS_close, fd); if (bad) { errno = EIO; return -1; } return 0; }
  return (int)syscall(SYS_close, fd);
}
}

// ---------------------------------------------------------------- instrumentation entry points
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { point(Y_FUNC); }
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { access(a, n, false, PC); } \
  void __tsan_write##n(void *a) { access(a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); } \
  void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); } \
  void __tsan_read##n##_pc(void *a, void *p) { access(a, n, false, p); } \
  void __tsan_write##n##_pc(void *a, void *p) { access(a, n, true, p); } \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access(a, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *a) { access(a, n, true, PC); } \
  void __tsan_read_write##n(void *a) { access(a, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void *a) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, PC); }
void __tsan_vptr_read(void **) {}
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access(a, sizeof(void *), true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }
int __sim_memcmp(const void *a, const void *b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return memcmp(a, b, n); }

#define ACQ(mo) ((mo) == __ATOMIC_ACQUIRE || (mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
#define REL(mo) ((mo) == __ATOMIC_RELEASE || (mo) == __ATOMIC_ACQ_REL || (mo) == __ATOMIC_SEQ_CST)
static inline Sync *at(const volatile void *a) {
  T *t = cur; if (!t || t->in_sut <= 0 || t->quiet) return nullptr;
  if ((char *)a >= t->lo && (char *)a < t->hi) return nullptr;
  point_slow(t, Y_ATOM);
  if (!heap_ok((const void *)a)) fail("memory:use-after-free", "t%d uses a freed atomic", t->id);
  return cfg.race ? atomic_sync((const void *)a) : nullptr;
}
#define AT(w, ty) \
  ty __tsan_atomic##w##_load(const volatile ty *a, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##w##_store(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && REL(mo)) rel(cur, s, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##w##_exchange(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##w##_fetch_add(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##w##_fetch_sub(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##w##_fetch_and(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##w##_fetch_or(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##w##_fetch_xor(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##w##_fetch_nand(volatile ty *a, ty v, int mo) { Sync *s = at(a); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##w##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int fmo) { Sync *s = at(a); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (s) { int m = ok ? mo : fmo; if (ACQ(m)) acq(cur, s); if (ok && REL(m)) rel(cur, s, true); } return ok; } \
  int __tsan_atomic##w##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int fmo) { return __tsan_atomic##w##_compare_exchange_strong(a, e, v, mo, fmo); } \
  ty __tsan_atomic##w##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int fmo) { __tsan_atomic##w##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo) { Sync *s = at(&fence_obj); if (s && ACQ(mo)) acq(cur, s); if (s && REL(mo)) rel(cur, s, true); }
void __tsan_atomic_signal_fence(int) {}
}

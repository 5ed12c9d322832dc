// Deterministic simulator core: public interface.
// One process, one running thread at a time, every decision from one PRNG.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace sim {

const int MAXT = 300;         // simulated threads per run

enum Kind { Y_MEM = 0, Y_FUNC, Y_SYNC, Y_ATOM, Y_OP, Y_IO, NKIND };

enum Fault {
  F_SPURIOUS = 0,  // condition-variable wait returns with no signal
  F_STALL,         // the whole process loses the CPU: steady time jumps while threads are runnable
  F_CLOCKJUMP,     // wall clock stepped forwards or backwards
  F_ALLOC,         // operator new fails
  F_RD_SHORT, F_RD_EINTR, F_RD_EIO, F_OPEN,
  F_WR_SHORT, F_WR_ERR, F_CLOSE,
  F_SINK,          // output stream sink refuses / throws / accepts only part
  F_INPUT,         // damaged input that the plan asks for: bad or missing file, bad command line, misused handle
  F_PAUSE,         // a user of the library that stops using it for long, as the plan asks
  NFAULT
};
extern const char *fault_name[NFAULT];

enum Strategy { S_RANDOM = 0, S_PCT, S_SYNC, S_FEW, S_REPLAY, NSTRAT };

struct Dec { uint32_t type; uint32_t kind; uint64_t idx; int64_t val; };
// type 0: at step idx run thread val; 1: fault kind at its opportunity idx with parameter val; 2: choice idx = val

struct Cfg {
  uint64_t seed;           // schedule and fault streams derive from it
  int strategy;
  uint32_t p[NKIND];       // switch probability per yield point kind, /65536
  int mem_yield;           // are memory accesses yield points
  int pct_d; uint32_t pct_len;
  int race;                // happens-before detector on
  uint32_t rate[NFAULT];   // probability per opportunity, /65536
  uint32_t maxf[NFAULT];   // at most this many per run
  int64_t stall_max;       // ns
  int64_t tick;            // virtual ns per yield point
  uint64_t max_steps;
  const Dec *replay; size_t nreplay; int has_replay;
};

// Results of a run, kept in memory shared with the driver.
struct Shm {
  volatile int phase;        // 0 idle 1 in a run
  volatile uint64_t run_index;
  int code;                  // 0 ok, 1 violation, 2 stuck-but-legitimate, 3 harness error
  char cls[96];
  char detail[4096];
  uint64_t hash;             // event-log hash of the last finished (or failed) run
  // accumulated over the chunk
  uint64_t runs, steps, switches, nontrivial, ops;
  int64_t sim_ns;
  uint64_t fired[NFAULT], opps[NFAULT];
  uint64_t strat_runs[NSTRAT];
  uint64_t probes[64];
  uint64_t nhash; uint64_t hashes[8192]; uint8_t triv[8192];
  // decision record of the last run
  uint64_t ndec, dec_cap; Dec dec[1];
};
extern Shm *shm;
const uint64_t DEC_CAP = 400000;

void attach(Shm *s);
void begin_run(const Cfg &c);
void end_run();              // accounting, frees quarantine
int  spawn(void (*fn)(void *), void *arg);   // before go()
void go();                   // run all spawned threads to completion
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void set_stuck_handler(bool (*h)());   // true: being stuck is legitimate here

// called by harness code on a simulated thread
int  self();                 // -1 outside
void op_point();             // yield point between library calls
void sleep_ns(int64_t ns);
int64_t now();               // steady virtual ns
uint64_t step();
uint64_t my_steps();         // yield points passed by this thread so far
int64_t idle_ns();           // total time skipped because nobody was runnable
int64_t tick_ns();
bool tracing_on();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace output only
void enter_sut(); void leave_sut(); bool in_sut();
struct Quiet { Quiet(); ~Quiet(); int saved; };   // harness code called back from the library
void log(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0);
void log_str(const char *s, size_t n);
void probe(int i);
bool fault(Fault k, int64_t *param, int64_t max_param);
int64_t stalled();           // total steady time lost to F_STALL so far
uint64_t fired(Fault k);     // in this run
uint64_t my_fired();         // faults injected into this thread's calls so far, stalls and clock jumps excluded
void injected(Fault k);      // the plan itself injects this (F_INPUT, F_PAUSE): counted and hashed, not a decision
void mem_read(const void *p, size_t n);    // user data, seen by the race detector
void mem_write(const void *p, size_t n);
void hold_faults(bool on);   // suspend fault injection on this thread
void forgive_leaks();         // this run gave something up in a way that leaves storage behind
bool leaks_forgiven();
void hold_memory(bool on);   // the same for allocation failures only
int64_t sut_live_blocks();   // blocks allocated inside library calls of this run and not freed
bool heap_ok(const void *p); // false if p lies in memory freed during this run
uint64_t rnd();              // harness stream (only for choices that replay re-creates from the seed)
void trace(bool on);
void race_ignore(const void *p, size_t n);   // never report races on this range (process-wide stream objects)

// virtual files: any path under /simfs/
void vfs_put(const char *path, const void *data, size_t n);
void vfs_del(const char *path);
const char *vfs_get(const char *path, size_t *n);   // null when absent
void vfs_clear();
int  vfs_open_fds();
uint64_t vfs_opens();        // opens of virtual files in this run, successful or not
void vfs_offline(bool on);   // virtual files also outside runs (warm-up)
}

// Shared by the driver and the scenarios (all compiled with instrumentation).
#pragma once
#include "sim.h"
#include <stdint.h>
#include <string>
#include <vector>

struct Op { int code; long a, b, c; };
struct Plan {
  std::vector<long> cfg;                 // scenario parameters
  std::vector<std::vector<Op>> thr;      // one program per simulated thread
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return below(100) < (uint64_t)pct; }
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};

struct Scenario {
  const char *prop;
  void (*gen)(Rng &, Plan &, sim::Cfg &, uint64_t index, int tier);
  void (*run)(const Plan &);
  bool leak_check;                       // memory allocated by library calls must be gone at the end
  const char *const *probe_names;        // null-terminated
};
extern const Scenario scenarios[];
extern const int nscenarios;
bool is_known(const char *cls);          // listed finding: the scenario ends the run instead of reporting it
extern bool cold_run;                    // this process has not run any library code yet
void setup();                            // what the harness itself needs, before anything else
void warmup();                           // touch every lazily initialised thing once, outside the simulator

// One random swarm configuration.  ops: rough number of library calls in the plan.
inline void swarm(Rng &r, sim::Cfg &c, long ops, bool allow_mem = true) {
  static const int64_t ticks[] = {1, 10, 100, 1000};
  c.tick = r.pick(ticks);
  c.max_steps = 6000000;
  c.race = 0;
  c.mem_yield = allow_mem && ops < 3000 && r.chance(35);
  uint64_t k = r.below(100);
  if (k < 40) {
    c.strategy = sim::S_RANDOM;
    static const uint32_t ps[] = {65536 / 2, 65536 / 4, 65536 / 10, 65536 / 30, 65536 / 100};
    uint32_t b = r.pick(ps);
    c.p[sim::Y_SYNC] = b; c.p[sim::Y_ATOM] = b; c.p[sim::Y_OP] = r.chance(50) ? b : 65536 / 2; c.p[sim::Y_IO] = b;
    c.p[sim::Y_FUNC] = r.chance(50) ? b / 8 : b / 40;
    static const uint32_t pm[] = {65536 / 5, 65536 / 20, 65536 / 100, 65536 / 400};
    c.p[sim::Y_MEM] = c.mem_yield ? r.pick(pm) : 0;
  } else if (k < 60) {
    c.strategy = sim::S_SYNC;
    static const uint32_t ps[] = {65535, 65536 * 3 / 4, 65536 / 2, 65536 / 5};
    uint32_t b = r.pick(ps);
    c.p[sim::Y_SYNC] = c.p[sim::Y_ATOM] = c.p[sim::Y_OP] = c.p[sim::Y_IO] = b;
    c.p[sim::Y_FUNC] = 0; c.p[sim::Y_MEM] = 0; c.mem_yield = 0;
  } else {
    c.strategy = k < 85 ? sim::S_PCT : sim::S_FEW;
    c.pct_d = (int)r.range(1, c.strategy == sim::S_PCT ? 7 : 10);
    static const long mul[] = {8, 25, 80, 300};
    long len = ops * r.pick(mul);
    c.pct_len = (uint32_t)(len < 50 ? 50 : len > 5000000 ? 5000000 : len);
  }
  c.stall_max = 5000000000ll;
}
inline void enable(sim::Cfg &c, sim::Fault f, uint32_t rate, uint32_t maxf) { c.rate[f] = rate > 65535 ? 65535 : rate; c.maxf[f] = maxf; }

// scope of a library call
struct In { In() { sim::enter_sut(); } ~In() { sim::leave_sut(); } };

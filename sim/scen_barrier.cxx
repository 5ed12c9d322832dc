// Barrier scenarios: C01..C05 and the barrier half of C06.
#include "scen.h"
#include "scen_conc.h"
#include "Barrier.hxx"
#include <chrono>
#include <memory>
#include <new>
#include <string.h>

namespace {
enum { W_UL = 1, W_DUR, SLEEP, AUDIT, NOISE };
enum { R_PENDING = 0, R_OK, R_TIMEOUT, R_CORRUPT, R_ALLOC, R_OTHER };
const char *rname[] = {"pending", "normal return", "Timeout", "Corrupt", "bad_alloc", "other exception"};
const int64_t MS = 1000000ll, SEC = 1000 * MS, HOUR = 3600 * SEC, DAY = 24 * HOUR;
const int64_t PROMPT = 10 * SEC;
enum { CK_EARLY = 1, CK_RELEASE = 2, CK_TIME = 4, CK_CORRUPT = 8, CK_MEM = 16 };

struct Stamp { uint64_t ev, st; int64_t t, stall, idle; };
struct Call { int thr, bar, form, res; long limit; Stamp in, out; uint64_t ok_before; int round; };
struct Bar { SoDa::BarrierPtr b; long n; uint64_t entered, ok, last_in_idle; };
struct ThreadCtx;
struct G {
  const Plan *pl; unsigned ck; uint64_t ev; bool ended; int64_t start;
  std::vector<Bar> bars; std::vector<Call> calls; std::vector<ThreadCtx> th;
  bool exact;                       // at most N threads use the (single) barrier
  long slot[2][sim::MAXT];
};
struct ThreadCtx { G *g; int id; std::vector<SoDa::BarrierPtr> b; int oks; };

Stamp stamp(G &g) { Stamp s; s.ev = ++g.ev; s.st = sim::step(); s.t = sim::now(); s.stall = sim::stalled(); s.idle = sim::idle_ns(); return s; }
// how much steady time between two stamps is explained by stalls and by the cost of steps
int64_t excuse(const Stamp &a, const Stamp &b) { return (b.stall - a.stall) + (int64_t)(b.st - a.st) * sim::tick_ns(); }
// limits no clock can count up to: nobody waits that long here, they just must not run out
const int64_t AGES = 90 * 365 * DAY;
bool huge(long limit) { return limit < 0 || limit > AGES / MS; }
int64_t eff_ns(long limit) { return limit == 0 ? 1000 * DAY : huge(limit) ? AGES : limit * MS; }

void audit(G &g, const char *when) {
  for (size_t i = 0; i < g.bars.size(); i++) {
    Bar &b = g.bars[i];
    uint64_t full = (uint64_t)b.n * (b.entered / (uint64_t)b.n);
    if (b.ok != full)
      sim::fail(b.ok < full ? "stuck" : "early", "barrier of %ld: with everybody blocked (%s), %llu waits have been called and %llu have returned normally instead of %llu",
                b.n, when, (unsigned long long)b.entered, (unsigned long long)b.ok, (unsigned long long)full);
  }
}

void do_wait(ThreadCtx &c, const Op &o) {
  G &g = *c.g; size_t bi = (size_t)o.b % g.bars.size(); Bar &b = g.bars[bi];
  sim::op_point();
  if (g.ended) return;
  if ((g.ck & CK_MEM) && g.exact && bi == 0) { long *p = &g.slot[c.oks & 1][c.id]; sim::mem_write(p, sizeof *p); *p = c.oks; }
  size_t ci = g.calls.size(); g.calls.push_back(Call());
  { Call &k = g.calls[ci]; k.thr = c.id; k.bar = (int)bi; k.form = o.code; k.res = R_PENDING; k.limit = o.a; k.in = stamp(g); k.ok_before = b.ok; k.round = c.oks; }
  b.entered++;
  sim::log(1, c.id, bi, o.a);
  sim::note("t%d calls wait(%s%ld ms) on barrier %zu; %llu waits called, %llu returned normally", c.id, o.code == W_DUR ? "duration " : "", o.a, bi, (unsigned long long)b.entered, (unsigned long long)b.ok);
  int res = R_OTHER;
  try {
    In in;
    if (o.code == W_UL) c.b[bi]->wait((unsigned long)o.a);
    else c.b[bi]->wait(std::chrono::duration<long, std::milli>(o.a));
    res = R_OK;
  } catch (SoDa::Barrier::Timeout &) { res = R_TIMEOUT; }
  catch (SoDa::Barrier::Corrupt &) { res = R_CORRUPT; }
  catch (std::bad_alloc &) { res = R_ALLOC; }
  catch (...) { res = R_OTHER; }
  Call &k = g.calls[ci];
  k.res = res; k.out = stamp(g);
  sim::log(2, c.id, bi, res);
  sim::note("t%d leaves wait on barrier %zu with %s after %.3f ms", c.id, bi, rname[res], (k.out.t - k.in.t) / 1e6);
  if (res == R_OK) {
    b.ok++; c.oks++;
    if (!g.ended && !((g.ck & CK_RELEASE) && sim::now() - g.start > 480 * DAY)) {
      if (g.ck & CK_EARLY) {
        uint64_t need = (uint64_t)b.n * ((k.ok_before + b.n - 1) / b.n + 1);
        if (b.entered < need || b.ok > (uint64_t)b.n * (b.entered / b.n))
          sim::fail("early", "barrier of %ld: a wait returned normally although only %llu waits had been called and %llu earlier ones had already returned normally (%llu before this one was called)",
                    b.n, (unsigned long long)b.entered, (unsigned long long)b.ok - 1, (unsigned long long)k.ok_before);
      }
      if ((g.ck & CK_MEM) && g.exact && bi == 0) {
        int r = k.round & 1; long np = std::min<long>(b.n, (long)g.th.size());
        for (long i = 0; i < np; i++) { sim::mem_read(&g.slot[r][i], sizeof(long)); if (g.slot[r][i] < k.round) sim::fail("stale", "t%d was released by round %d but does not see what t%ld wrote before it", c.id, k.round, i); }
      }
    }
  } else if (res == R_OTHER) sim::fail("exception", "wait left with an exception that is neither Timeout, Corrupt nor an allocation failure");
  if (!g.ended && (g.ck & CK_RELEASE) && sim::now() - g.start < 480 * DAY) {
    if (res != R_OK) sim::fail("exception", "barrier of %ld: a wait with no limit that could run out ended with %s", b.n, rname[res]);
  }
}

void body(void *p) {
  ThreadCtx &c = *(ThreadCtx *)p; G &g = *c.g;
  for (const Op &o : g.pl->thr[c.id]) {
    if (g.ended) break;
    switch (o.code) {
    case W_UL: case W_DUR: do_wait(c, o); break;
    case SLEEP: sim::sleep_ns(o.a); break;
    case NOISE: for (long i = 0; i < o.b && !g.ended; i++) { sim::sleep_ns(o.a); sim::op_point(); } break;
    case AUDIT: {
      int64_t target = g.start + o.a * DAY;
      if (sim::now() >= target) break;
      sim::sleep_ns(target - sim::now());
      if (g.ended) break;
      sim::note("everybody else is blocked: audit");
      audit(g, "some time after the last call"); sim::probe(0);
      if (o.b) g.ended = true;
      break;
    }
    }
  }
  { In in; c.b.clear(); }
}

void post_time(G &g) {
  for (auto &k : g.calls) {
    int64_t d = k.out.t - k.in.t, e = eff_ns(k.limit);
    if (k.res == R_TIMEOUT) {
      sim::probe(2);
      int64_t least = k.limit == 0 ? 999 * DAY : e;
      if (d < least) sim::fail("time:early", "a wait limited to %ld ms reported a timeout after %.6f ms", k.limit, d / 1e6);
      if (g.exact) for (auto &o : g.calls)
        if (o.bar == k.bar && o.res == R_OK && o.round == k.round && o.thr != k.thr && o.out.t < k.in.t + e)
          sim::fail("time:completed", "a wait limited to %ld ms reported a timeout for a round that had been completed %.3f ms before the limit", k.limit, (k.in.t + e - o.out.t) / 1e6);
    }
    int64_t most = e + (k.limit == 0 ? DAY : PROMPT) + excuse(k.in, k.out);
    if (d > most) sim::fail("time:late", "a wait limited to %ld ms ended only after %.3f ms (%s)", k.limit, d / 1e6, rname[k.res]);
    if (k.res == R_TIMEOUT || k.res == R_CORRUPT) {
      bool ran_out = false;
      for (auto &o : g.calls) if (o.bar == k.bar && o.in.t + (o.limit == 0 ? 999 * DAY : eff_ns(o.limit)) <= k.out.t) ran_out = true;
      if (!ran_out) sim::fail("time:spurious", "a wait limited to %ld ms ended with %s after %.3f ms although nobody's limit had run out", k.limit, rname[k.res], d / 1e6);
    }
    if (k.res == R_OK) sim::probe(1);
    if (k.res == R_CORRUPT) sim::probe(3);
    if (k.res == R_TIMEOUT && k.limit == 0) sim::probe(4);
  }
}

void post_corrupt(G &g) {
  for (size_t bi = 0; bi < g.bars.size(); bi++) {
    Bar &b = g.bars[bi];
    const Call *to = nullptr; int nto = 0, nalloc = 0; const Call *first_alloc = nullptr;
    for (auto &k : g.calls) if (k.bar == (int)bi) {
      if (k.res == R_TIMEOUT) { nto++; if (!to) to = &k; }
      if (k.res == R_ALLOC) { nalloc++; if (!first_alloc || k.out.ev < first_alloc->out.ev) first_alloc = &k; }
    }
    if (nto > 1) sim::fail("two-timeouts", "%d callers of one barrier got the Timeout exception", nto);
    // memory that ran out before anybody's limit did: nothing says what has become of that call
    bool odd = false;
    for (auto &k : g.calls) if (k.bar == (int)bi && k.res == R_ALLOC) {
      bool due = false; for (auto &o : g.calls) due |= o.bar == k.bar && o.res != R_OK && o.in.t + (o.limit == 0 ? 999 * DAY : eff_ns(o.limit)) + excuse(o.in, k.out) <= k.out.t;
      odd |= !due;
    }
    if (odd) continue;
    if (b.ok % b.n) sim::fail("half-released", "barrier of %ld: %llu waits returned normally, so some round released only part of its callers", b.n, (unsigned long long)b.ok);
    const Call *brk = to;                                   // the call that broke the barrier
    if (!brk && nalloc) brk = first_alloc;
    for (auto &k : g.calls) if (k.bar == (int)bi) {
      if (k.res == R_OK) sim::probe(1);
      if (k.res == R_CORRUPT) sim::probe(3);
      if (k.res == R_TIMEOUT) sim::probe(2);
      if (k.res == R_ALLOC) sim::probe(5);
      if (k.res == R_CORRUPT && !brk) sim::fail("corrupt-alone", "a caller got Corrupt although nobody timed out");
      int64_t most = eff_ns(k.limit) + (k.limit == 0 ? DAY : PROMPT) + excuse(k.in, k.out);
      if (k.out.t - k.in.t > most) sim::fail("blocked", "a wait limited to %ld ms ended only after %.3f ms", k.limit, (k.out.t - k.in.t) / 1e6);
      if (!brk || &k == brk) continue;
      if (k.in.ev > brk->out.ev) {
        sim::probe(6);
        if (k.res != R_CORRUPT && k.res != R_ALLOC) sim::fail("late-arrival", "a caller that arrived after the timeout got %s instead of Corrupt", rname[k.res]);
        if (k.out.t - k.in.t > PROMPT + excuse(k.in, k.out)) sim::fail("late-arrival-blocked", "a caller that arrived after the timeout was held for %.3f ms", (k.out.t - k.in.t) / 1e6);
      } else if (k.out.ev > brk->out.ev) {
        sim::probe(7);
        if (k.out.t - brk->out.t > PROMPT + excuse(brk->out, k.out)) sim::fail("not-told", "a caller blocked in the broken round learned of it only %.3f ms after the timeout", (k.out.t - brk->out.t) / 1e6);
      }
    }
  }
}

void run_common(const Plan &pl, unsigned ck) {
  G *g = new G(); g->pl = &pl; g->ck = ck; g->ended = false; g->ev = 0; g->start = sim::now();
  memset(g->slot, 0, sizeof g->slot);
  size_t nb = pl.cfg.size() > 1 && pl.cfg[1] > 0 ? 2 : 1; size_t total = 0;
  for (auto &t : pl.thr) total += t.size();
  g->calls.reserve(total + 1);
  for (size_t i = 0; i < nb; i++) { Bar b; b.n = pl.cfg[i]; b.entered = b.ok = b.last_in_idle = 0; b.b = SoDa::makeBarrier("b" + std::to_string(i), (unsigned)b.n); g->bars.push_back(b); }
  size_t users = 0; for (auto &t : pl.thr) { bool u = false; for (auto &o : t) u |= o.code == W_UL || o.code == W_DUR; users += u; }
  g->exact = nb == 1 && (long)users <= pl.cfg[0];
  // threads that wait come first so that their ids index the slots
  g->th.resize(pl.thr.size());
  for (size_t i = 0; i < pl.thr.size(); i++) { g->th[i].g = g; g->th[i].id = (int)i; g->th[i].oks = 0; for (auto &b : g->bars) g->th[i].b.push_back(b.b); }
  for (auto &b : g->bars) b.b.reset();
  for (size_t i = 0; i < pl.thr.size(); i++) sim::spawn(body, &g->th[i]);
  sim::go();
  if (ck & CK_TIME) post_time(*g);
  if (ck & CK_CORRUPT) post_corrupt(*g);
  delete g;
}

// ------------------------------------------------------------------ plan generators
long pick_n(Rng &r) { static const long ns[] = {1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8, 12, 20}; return r.pick(ns); }
void noise_faults(Rng &r, Cfg_ &c) {
  if (r.chance(50)) enable(c, sim::F_SPURIOUS, 65536 / (r.chance(50) ? 2 : 8), (uint32_t)r.range(1, 40));
  if (r.chance(25)) enable(c, sim::F_STALL, 65536 / 60, (uint32_t)r.range(1, 4));
  if (r.chance(35)) enable(c, sim::F_CLOCKJUMP, 65536 / 40, (uint32_t)r.range(1, 10));
}
long ages(Rng &r) { static const long v[] = {9223372036854775807l, 9223372036855l, 9223372036854l, 9223371036854l, 18446744073710l, 18446744073709l, 1000000000000000l, 4294967296000000l}; return r.pick(v); }
long nolimit(Rng &r) { return r.chance(70) ? 0 : r.range(600, 1000) * 86400000l; }
Op w(Rng &r, long lim, long bar = 0) { Op o = {r.chance(50) ? W_UL : W_DUR, lim, bar, 0}; return o; }
// a limit beyond reckoning, in a round that somebody else is sure to complete or to break
Op wx(Rng &r, long bar = 0) { Op o = {W_DUR, ages(r), bar, 0}; if (r.chance(50)) { o.code = W_UL; if (r.chance(40)) o.a = r.chance(50) ? -1 : -(long)r.below(1ul << 62) - 2; } return o; }
Op sl(int64_t ns) { Op o = {SLEEP, (long)ns, 0, 0}; return o; }
void maybe_sleep(Rng &r, std::vector<Op> &t, int pct, int64_t max) { if (r.chance(pct)) t.push_back(sl((int64_t)r.below((uint64_t)max))); }
void auditor(Plan &p, long day = 470) { Op o = {AUDIT, day, 1, 0}; p.thr.push_back({o}); }

void gen_exact(Rng &r, Plan &p, long n, long rounds) {
  p.cfg = {n, 0};
  int slp = r.chance(40) ? 20 : 0;
  for (long t = 0; t < n; t++) { std::vector<Op> v; for (long k = 0; k < rounds; k++) { maybe_sleep(r, v, slp, 1000000); v.push_back(r.chance(4) ? wx(r) : w(r, nolimit(r))); } p.thr.push_back(v); }
  auditor(p);
}
// M threads on a barrier of N, callers that come days later free those left over
void gen_over(Rng &r, Plan &p, long n, long m, long waits) {
  p.cfg = {n, 0};
  bool two = r.chance(15); if (two) p.cfg[1] = r.range(1, 4);
  long total[2] = {0, 0};
  for (long t = 0; t < m; t++) { std::vector<Op> v; long k = r.range(1, waits); for (long i = 0; i < k; i++) { long b = two ? (long)r.below(2) : 0; maybe_sleep(r, v, 10, 1000000); v.push_back(w(r, nolimit(r), b)); total[b]++; } p.thr.push_back(v); }
  long late = r.range(0, n + 1);
  for (long i = 0; i < late; i++) { std::vector<Op> v; Op a = {AUDIT, 1 + i, 0, 0}; v.push_back(a); long k = r.range(1, 2); for (long j = 0; j < k; j++) v.push_back(w(r, nolimit(r), two ? (long)r.below(2) : 0)); p.thr.push_back(v); }
  auditor(p);
}
// a slow caller while the others go round very often
void gen_wrap(Rng &r, Plan &p, sim::Cfg &c, long rounds) {
  long n = 2; p.cfg = {n, 0};
  // a round counter that wraps shows if the slow caller sleeps through a whole number of its periods
  if (rounds == 0) rounds = (1l << r.range(2, 9)) + (r.chance(60) ? 0 : r.range(-2, 2));
  std::vector<Op> slow; for (int i = 0; i < 3; i++) slow.push_back(w(r, 0)); p.thr.push_back(slow);
  for (int t = 0; t < 2; t++) { std::vector<Op> v; for (long i = 0; i < rounds; i++) v.push_back(w(r, 0)); p.thr.push_back(v); }
  auditor(p);
  c.mem_yield = 0; c.strategy = sim::S_PCT; c.pct_d = (int)r.range(1, 4); c.pct_len = 400; c.max_steps = 40000000;
}
void gen_timeouts(Rng &r, Plan &p, long n, long m, bool long_limits) {
  p.cfg = {n, 0};
  int64_t span = r.chance(50) ? 60 * MS : 5 * MS;
  long good = m == n && n < 9 && r.chance(10) ? r.range(4, 40) : 0;    // rounds that go well before
  for (long t = 0; t < m; t++) {
    std::vector<Op> v; long k = r.range(1, 4);
    for (long i = 0; i < good; i++) v.push_back(w(r, 0));
    for (long i = 0; i < k; i++) {
      maybe_sleep(r, v, 60, span);
      long lim = r.chance(60) ? r.range(1, 60) : (r.chance(50) || !long_limits) ? 0 : 3600000l * r.range(1, 48);
      v.push_back(w(r, lim));
    }
    p.thr.push_back(v);
  }
}
// sizes around the widths an implementation could count or mark its callers in
long big_n(Rng &r) { static const long ns[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200}; return r.pick(ns); }
long plan_ops(const Plan &p) { long n = 0; for (auto &t : p.thr) n += (long)t.size(); return n; }
}  // namespace

void gen_C01(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  long n = pick_n(r); int k = (int)r.below(10);
  if (idx % 400 == 31) { n = r.range(255, 262); gen_exact(r, p, n, 1); swarm(r, c, plan_ops(p), false); c.max_steps = 20000000; return; }
  if (idx % 150 == 61) { n = big_n(r); if (r.chance(50)) gen_exact(r, p, n, r.range(1, 2)); else { n = std::min(n, 129l); gen_over(r, p, n, n + r.range(-2, 3), 2); } swarm(r, c, plan_ops(p), n < 34); c.max_steps = 20000000; noise_faults(r, c); return; }
  if (idx % 97 == 5) { gen_exact(r, p, r.range(2, 3), tier ? 1500 : 300); swarm(r, c, plan_ops(p), false); c.max_steps = 20000000; return; }
  if (idx % 97 == 50) { swarm(r, c, 600, false); gen_wrap(r, p, c, r.chance(30) ? 300 : 0); return; }
  if (k < 4) gen_exact(r, p, n, r.range(1, n > 8 ? 3 : 7));
  else if (k < 7) { if (n > 8) n = 5; gen_over(r, p, n, std::max(1l, n + r.range(-1, 3)), 5); }
  else { if (n > 8) n = 4; gen_timeouts(r, p, n, std::max(1l, n + r.range(-1, 2)), true); }
  if (idx % 50 == 7) { p = Plan(); gen_exact(r, p, 40, 2); }
  swarm(r, c, plan_ops(p)); noise_faults(r, c);
}
void run_C01(const Plan &p) { run_common(p, CK_EARLY); }

void gen_C02(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  long n = pick_n(r);
  if (idx % 400 == 31) { n = r.range(255, 262); gen_exact(r, p, n, 2); swarm(r, c, plan_ops(p), false); c.max_steps = 20000000; return; }
  if (idx % 150 == 61) { n = big_n(r); gen_exact(r, p, n, r.range(1, 3)); swarm(r, c, plan_ops(p), n < 34); c.max_steps = 20000000; noise_faults(r, c); return; }
  if (idx % 97 == 5) { gen_exact(r, p, r.range(1, 3), 300); swarm(r, c, plan_ops(p), false); c.max_steps = 20000000; noise_faults(r, c); return; }
  if (idx == 77 || (tier && idx % 5000 == 77)) { gen_exact(r, p, 2, 67000); swarm(r, c, plan_ops(p), false); c.strategy = sim::S_RANDOM; c.p[sim::Y_SYNC] = 65536 / 20; c.max_steps = 200000000; return; }
  if (idx % 50 == 7) gen_exact(r, p, 40, 2);
  else gen_exact(r, p, n, r.range(1, n > 8 ? 3 : 8));
  swarm(r, c, plan_ops(p)); noise_faults(r, c);
}
void run_C02(const Plan &p) { run_common(p, CK_RELEASE); }

void gen_C03(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  if (idx % 31 == 9) { swarm(r, c, 600, false); gen_wrap(r, p, c, r.chance(20) ? 300 : 0); return; }
  if (idx == 77 || idx == 178 || idx == 279 || (tier && idx % 5000 == 77)) { swarm(r, c, 1000, false); gen_wrap(r, p, c, idx == 77 ? 66000 : 65536); c.max_steps = 200000000; return; }
  if (idx % 150 == 61) { long n = std::min(129l, big_n(r)); gen_over(r, p, n, n + r.range(1, 30), 2); swarm(r, c, plan_ops(p), n < 34); c.max_steps = 20000000; noise_faults(r, c); return; }
  static const long ns[] = {1, 2, 2, 2, 3, 3, 4, 5, 7}; long n = r.pick(ns);
  long m = r.chance(75) ? n + r.range(1, 4) : r.range(1, n);
  if (idx % 60 == 11) { n = r.range(6, 12); m = r.range(20, 40); }
  gen_over(r, p, n, m, m > 12 ? 2 : 5);
  swarm(r, c, plan_ops(p)); noise_faults(r, c);
}
void run_C03(const Plan &p) { run_common(p, CK_RELEASE | CK_EARLY); }

void gen_C04(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  static const long lims[] = {1, 2, 3, 5, 10, 60, 99, 100, 250, 999, 1000, 1001, 4294, 4295, 65535, 65536, 3600000, 2147483, 4294967, 4294968, 2147483647l, 2147483648l, 4294967295l, 4294967296l, 4294967297l, 86400000l, 999l * 86400000l, 86400000000l};
  auto lim = [&]() { return r.chance(40) ? r.pick(lims) : r.chance(60) ? r.range(1, 2000) : r.range(1, 86400000000l); };
  long n = idx % 60 == 17 ? r.range(6, 40) : r.range(2, 5); p.cfg = {n, 0}; int k = (int)r.below(10);
  long base = lim();
  if (k < 3) {                     // never complete
    long m = r.range(1, n - 1);
    for (long t = 0; t < m; t++) { std::vector<Op> v; maybe_sleep(r, v, 40, base * MS > 3600 * SEC ? 3600 * SEC : base * MS); long z = r.chance(15) ? 0 : r.chance(50) ? base : lim(); v.push_back(t && r.chance(12) ? wx(r) : w(r, z)); p.thr.push_back(v); }
  } else if (k < 4) {              // zero in either form, nobody comes
    for (long t = 0; t < r.range(1, n - 1); t++) p.thr.push_back({w(r, 0)});
  } else if (k < 8) {              // the last caller comes close to the limit
    long b = base > 3600000l * 24 * 100 ? 1000 : base;
    static const int64_t off[] = {-2 * MS, -MS, -100000, -1000, -1, 0, 1, 1000, 100000, MS, 2 * MS};
    for (long t = 0; t < n - 1; t++) { std::vector<Op> v; maybe_sleep(r, v, 30, 1000); v.push_back(w(r, b)); p.thr.push_back(v); }
    int64_t at = b * MS + r.pick(off); if (at < 0) at = 0;
    p.thr.push_back({sl(at), r.chance(12) ? wx(r) : w(r, r.chance(50) ? 0 : lim())});
  } else {                         // several rounds, each within its limit, each wait a fresh limit
    long rounds = r.range(2, 4); long b = r.range(20, 3000);
    for (long t = 0; t < n; t++) { std::vector<Op> v; for (long i = 0; i < rounds; i++) { if (t == n - 1 || r.chance(30)) v.push_back(sl((int64_t)r.below((uint64_t)b * MS))); v.push_back(t && r.chance(8) ? wx(r) : w(r, b)); } p.thr.push_back(v); }
  }
  int64_t step = base * MS / 6; if (step > 400 * DAY) step = 150 * DAY;
  if (r.chance(60)) { Op o = {NOISE, (long)(step + 1), 8, 0}; p.thr.push_back({o}); }
  swarm(r, c, plan_ops(p) + 8); 
  if (r.chance(60)) enable(c, sim::F_SPURIOUS, 65536 * 3 / 4, (uint32_t)r.range(1, 60));
  if (r.chance(60)) enable(c, sim::F_CLOCKJUMP, 65536 / (r.chance(50) ? 4 : 25), (uint32_t)r.range(1, 12));
  if (r.chance(25)) enable(c, sim::F_STALL, 65536 / 40, (uint32_t)r.range(1, 3));
}
void run_C04(const Plan &p) { run_common(p, CK_TIME); }

void gen_C05(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  long n = r.range(1, 5); long m = r.range(1, n + 2);
  if (idx % 40 == 3) { n = r.range(8, 16); m = n + r.range(-2, 2); }
  if (idx % 150 == 61) { n = big_n(r); m = std::min(280l, n + r.range(-3, 3)); gen_timeouts(r, p, n, m, true); swarm(r, c, plan_ops(p), n < 34); c.max_steps = 20000000; noise_faults(r, c); return; }
  gen_timeouts(r, p, n, m, true);
  swarm(r, c, plan_ops(p)); noise_faults(r, c);
  if (r.chance(40)) enable(c, sim::F_ALLOC, 65536 / (r.chance(50) ? 1 : 4), (uint32_t)r.range(1, 3));
}
void run_C05(const Plan &p) { run_common(p, CK_CORRUPT); }

void gen_C06b(Rng &r, Plan &p, sim::Cfg &c) {
  long n = r.range(1, 6); int k = (int)r.below(3);
  if (k == 0) gen_exact(r, p, n, r.range(1, 6));
  else if (k == 1) gen_over(r, p, n, n + r.range(0, 3), 4);
  else gen_timeouts(r, p, n, r.range(1, n + 2), true);
  swarm(r, c, plan_ops(p)); noise_faults(r, c); c.race = 1;
}
void run_C06b(const Plan &p) { run_common(p, CK_MEM); }

const char *const probes_barrier[] = {"audits with everybody blocked", "waits returned normally", "waits timed out", "waits ended Corrupt", "timeouts of a zero limit", "waits ended by allocation failure", "late arrivals at a broken barrier", "waits pending when the barrier broke", nullptr};

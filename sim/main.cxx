// Driver: batches of runs in child processes, minimisation, replay files.
#include "scen.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sched.h>
#include <sstream>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

using sim::Cfg; using sim::Dec; using sim::Shm;

static const Scenario *find(const std::string &p) { for (int i = 0; i < nscenarios; i++) if (p == scenarios[i].prop) return &scenarios[i]; return nullptr; }
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::vector<int> cpus;
static std::set<std::string> known;
bool cold_run = false;
bool is_known(const char *cls) { return known.count(cls) != 0; }

static uint64_t run_key(const std::string &prop, uint64_t seed, uint64_t index) {
  uint64_t h = 1469598103934665603ull;
  for (char ch : prop) h = (h ^ (unsigned char)ch) * 1099511628211ull;
  Rng a(h ^ (seed * 0x9E3779B97F4A7C15ull)); uint64_t k = a.next() ^ (index * 0xD1B54A32D192ED03ull);
  Rng b(k); b.next();
  return b.next();
}
static void make_run(const Scenario &sc, uint64_t seed, uint64_t index, int tier, Plan &pl, Cfg &c) {
  uint64_t k = run_key(sc.prop, seed, index);
  Rng r(k);
  memset(&c, 0, sizeof c);
  c.seed = r.next();
  sc.gen(r, pl, c, index, tier);
}

static Shm *new_shm() {
  size_t n = sizeof(Shm) + sim::DEC_CAP * sizeof(Dec);
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  Shm *s = (Shm *)p; s->dec_cap = sim::DEC_CAP;
  return s;
}
static void clear_shm(Shm *s) { memset((void *)s, 0, offsetof(Shm, dec_cap)); }

static void on_terminate() {
  const char *n = "no exception";
  char buf[300] = "";
  if (std::type_info *t = abi::__cxa_current_exception_type()) {
    n = t->name();
    try { throw; } catch (std::exception &e) { snprintf(buf, sizeof buf, "%s", e.what()); } catch (...) {}
  }
  sim::fail("crash:terminate", "std::terminate called; exception in flight: %s %s", n, buf);
}
static void on_cpu(int) { sim::fail("hang:spin", "a library call used 40 s of CPU time without finishing"); }

static void one_run(const Scenario &sc, const Plan &pl, const Cfg &c) {
  sim::begin_run(c);
  sc.run(pl);
  if (sc.leak_check && sim::sut_live_blocks() > 0 && !sim::leaks_forgiven()) {
    // storage kept on purpose (caches, lazy statics) does not grow when the same run is repeated
    sim::end_run();
    sim::begin_run(c);
    sc.run(pl);
    if (sim::sut_live_blocks() > 0) sim::fail("leak", "%lld blocks allocated by library calls are never freed", (long long)sim::sut_live_blocks());
  }
  sim::end_run();
}

static void child_setup(Shm *s, int slot) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (!cpus.empty()) { cpu_set_t m; CPU_ZERO(&m); CPU_SET(cpus[slot % cpus.size()], &m); sched_setaffinity(0, sizeof m, &m); }
  sim::attach(s);
  std::set_terminate(on_terminate);
  signal(SIGPROF, on_cpu);
  struct itimerval it = {{0, 0}, {40, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
}
static void arm() { struct itimerval it = {{0, 0}, {40, 0}}; setitimer(ITIMER_PROF, &it, nullptr); }

struct Outcome { int code = 0; std::string cls, detail; uint64_t hash = 0; uint64_t run = 0; };
static Outcome outcome(Shm *s, int st) {
  Outcome o;
  o.run = s->run_index; o.hash = s->hash;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.code = s->code; o.cls = s->cls; o.detail = s->detail; return o; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.code = s->code == 2 ? 2 : 0; return o; }
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGKILL) { o.code = 4; o.cls = "harness:killed"; o.detail = "child killed"; return o; }
    o.code = 1; o.cls = std::string("crash:") + (sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGBUS ? "SIGBUS" : sg == SIGFPE ? "SIGFPE" : "signal");
    o.detail = "the process died of signal " + std::to_string(sg); o.hash = 0;
    return o;
  }
  o.code = 3; o.cls = "harness:exit"; o.detail = "child exit status " + std::to_string(st);
  return o;
}

// ------------------------------------------------------------------ one specified run in a child
struct Spec {
  std::string prop; uint64_t seed = 0, index = 0; int tier = 0;
  Plan plan; Cfg cfg; std::vector<Dec> dec; bool use_dec = false;
  bool cold = false;                           // in a process that has not run library code before
  bool prefix = false; uint64_t first = 0;     // run [first,index] from the seed instead of the plan
  std::string cls, detail; uint64_t hash = 0;
};
static Outcome exec_spec(const Spec &sp, Shm *s, bool trace, int slot, double limit) {
  clear_shm(s);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(s, slot);
    const Scenario *sc = find(sp.prop);
    if (sp.prefix) {
      for (uint64_t i = sp.first; i <= sp.index; i++) {
        Plan pl; Cfg c; make_run(*sc, sp.seed, i, sp.tier, pl, c);
        s->run_index = i; if (trace && i == sp.index) sim::trace(true);
        one_run(*sc, pl, c);
      }
    } else {
      Cfg c = sp.cfg; c.has_replay = sp.use_dec; c.replay = sp.dec.data(); c.nreplay = sp.dec.size();
      s->run_index = sp.index; if (trace) sim::trace(true);
      one_run(*sc, sp.plan, c);
    }
    _exit(0);
  }
  int st = 0; double t0 = wall();
  for (;;) {
    pid_t r = waitpid(pid, &st, limit > 0 ? WNOHANG : 0);
    if (r == pid) break;
    if (limit > 0 && wall() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(200);
  }
  return outcome(s, st);
}
static std::vector<Dec> decisions(Shm *s) {
  size_t n = std::min<uint64_t>(s->ndec, sim::DEC_CAP);
  return std::vector<Dec>(s->dec, s->dec + n);
}

// ------------------------------------------------------------------ replay file
static void write_spec(const Spec &sp, const std::string &path) {
  std::ofstream o(path);
  o << "SIMREPLAY 1\nproperty " << sp.prop << "\nseed " << sp.seed << "\nindex " << sp.index << "\ntier " << sp.tier << "\nclass " << sp.cls << "\nhash " << sp.hash << "\n";
  std::string d = sp.detail; for (char &c : d) if (c == '\n') c = ' ';
  o << "detail " << d << "\n";
  if (sp.cold) o << "cold 1\n";
  if (sp.prefix) { o << "prefix " << sp.first << "\nend\n"; return; }
  const Cfg &c = sp.cfg;
  o << "cfg " << c.seed << " " << c.strategy << " " << c.mem_yield << " " << c.pct_d << " " << c.pct_len << " " << c.race << " " << c.stall_max << " " << c.tick << " " << c.max_steps;
  for (int i = 0; i < sim::NKIND; i++) o << " " << c.p[i];
  for (int i = 0; i < sim::NFAULT; i++) o << " " << c.rate[i] << " " << c.maxf[i];
  o << "\nplan"; for (long v : sp.plan.cfg) o << " " << v;
  o << "\n";
  for (auto &t : sp.plan.thr) { o << "thread\n"; for (auto &p : t) o << "op " << p.code << " " << p.a << " " << p.b << " " << p.c << "\n"; }
  if (sp.use_dec) {
    o << "decisions " << sp.dec.size() << "\n";
    static const char *nm[] = {"switch", "fault", "choice"};
    for (auto &x : sp.dec) o << nm[x.type % 3] << " " << (x.type == 1 ? sim::fault_name[x.kind] : "-") << " " << x.kind << " " << x.idx << " " << x.val << "\n";
  }
  o << "end\n";
}
static bool read_spec(Spec &sp, const std::string &path) {
  std::ifstream in(path); std::string line;
  if (!std::getline(in, line) || line != "SIMREPLAY 1") return false;
  memset(&sp.cfg, 0, sizeof sp.cfg);
  bool ended = false;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "property") is >> sp.prop; else if (k == "seed") is >> sp.seed; else if (k == "index") is >> sp.index; else if (k == "tier") is >> sp.tier;
    else if (k == "class") is >> sp.cls; else if (k == "hash") is >> sp.hash;
    else if (k == "detail") { std::getline(is, sp.detail); if (!sp.detail.empty()) sp.detail.erase(0, 1); }
    else if (k == "cold") is >> sp.cold;
    else if (k == "prefix") { sp.prefix = true; is >> sp.first; }
    else if (k == "cfg") {
      Cfg &c = sp.cfg;
      is >> c.seed >> c.strategy >> c.mem_yield >> c.pct_d >> c.pct_len >> c.race >> c.stall_max >> c.tick >> c.max_steps;
      for (int i = 0; i < sim::NKIND; i++) is >> c.p[i];
      if (!is) return false;
      for (int i = 0; i < sim::NFAULT; i++) is >> c.rate[i] >> c.maxf[i];   // files written before a fault kind was added are shorter
    } else if (k == "plan") { long v; while (is >> v) sp.plan.cfg.push_back(v); }
    else if (k == "thread") sp.plan.thr.emplace_back();
    else if (k == "op") { Op o; if (!(is >> o.code >> o.a >> o.b >> o.c) || sp.plan.thr.empty()) return false; sp.plan.thr.back().push_back(o); }
    else if (k == "decisions") sp.use_dec = true;
    else if (k == "switch" || k == "fault" || k == "choice") { Dec d; std::string nm; d.type = k == "switch" ? 0 : k == "fault" ? 1 : 2; if (!(is >> nm >> d.kind >> d.idx >> d.val)) return false; sp.dec.push_back(d); }
    else if (k == "end") { ended = true; break; }
  }
  return ended;
}

// ------------------------------------------------------------------ minimisation
struct Shrinker {
  Spec best; Shm *s; double deadline; int tries = 0;
  bool expired() { return wall() > deadline; }
  bool same(const Outcome &o) { return o.code == 1 && o.cls == best.cls; }
  // try a changed plan: first the recorded decisions, then fresh schedules
  bool try_plan(const Plan &p, int nseeds) {
    Spec c = best; c.plan = p;
    for (int i = 0; i <= nseeds && !expired(); i++) {
      if (i == 0) { if (!best.use_dec) continue; c.use_dec = true; }
      else { c.use_dec = false; c.dec.clear(); if (i > 1) { Rng r(best.cfg.seed + i * 7919 + p.thr.size()); c.cfg.seed = r.next(); } }
      tries++;
      Outcome o = exec_spec(c, s, false, 0, 20);
      if (same(o)) {
        if (s->ndec > sim::DEC_CAP) return false;
        best.plan = p; best.dec = decisions(s); best.use_dec = true; best.detail = o.detail; best.hash = o.hash;
        best.cfg = c.cfg;
        return true;
      }
    }
    return false;
  }
  bool try_dec(const std::vector<Dec> &d) {
    Spec c = best; c.dec = d; c.use_dec = true; tries++;
    Outcome o = exec_spec(c, s, false, 0, 20);
    if (!same(o)) return false;
    best.dec = d; best.detail = o.detail; best.hash = o.hash;
    return true;
  }
  void drop_threads(int seeds) {
    for (size_t i = 0; i < best.plan.thr.size() && !expired();) {
      Plan p = best.plan; p.thr.erase(p.thr.begin() + i);
      if (p.thr.empty() || !try_plan(p, seeds)) i++;
    }
  }
  void drop_ops(int seeds) {
    for (size_t t = 0; t < best.plan.thr.size() && !expired(); t++)
      for (size_t n = std::max<size_t>(1, best.plan.thr[t].size() / 2); n >= 1 && !expired(); n /= 2) {
        for (size_t i = 0; i + n <= best.plan.thr[t].size() && !expired();) {
          Plan p = best.plan; auto &v = p.thr[t]; v.erase(v.begin() + i, v.begin() + i + n);
          if (!try_plan(p, seeds)) i += n;
        }
        if (n == 1) break;
      }
  }
  template <class F> void ddmin(F sel) {
    // remove decisions satisfying sel, in shrinking blocks
    std::vector<size_t> idx;
    auto collect = [&] { idx.clear(); for (size_t i = 0; i < best.dec.size(); i++) if (sel(best.dec[i])) idx.push_back(i); };
    collect();
    for (size_t n = idx.size(); n >= 1 && !expired(); n = n / 2) {
      for (size_t i = 0; i < idx.size() && !expired();) {
        std::vector<Dec> d; size_t e = std::min(idx.size(), i + n);
        std::set<size_t> rm(idx.begin() + i, idx.begin() + e);
        for (size_t k = 0; k < best.dec.size(); k++) if (!rm.count(k)) d.push_back(best.dec[k]);
        if (try_dec(d)) collect(); else i += n;
      }
      if (n == 1) break;
    }
  }
};

// ------------------------------------------------------------------ batch
struct Total {
  uint64_t runs = 0, steps = 0, switches = 0, nontrivial = 0, ops = 0, legit_stuck = 0; double sim_s = 0;
  uint64_t fired[sim::NFAULT] = {}, opps[sim::NFAULT] = {}, strat[sim::NSTRAT] = {}, probes[64] = {};
  std::vector<uint64_t> distinct; std::vector<std::string> samples;
};
static void absorb(Total &t, Shm *s) {
  t.runs += s->runs; t.steps += s->steps; t.switches += s->switches; t.nontrivial += s->nontrivial; t.ops += s->ops; t.sim_s += s->sim_ns * 1e-9;
  for (int i = 0; i < sim::NFAULT; i++) { t.fired[i] += s->fired[i]; t.opps[i] += s->opps[i]; }
  for (int i = 0; i < sim::NSTRAT; i++) t.strat[i] += s->strat_runs[i];
  for (int i = 0; i < 64; i++) t.probes[i] += s->probes[i];
  for (uint64_t i = 0; i < s->nhash && i < 8192; i++) if (!s->triv[i]) t.distinct.push_back(s->hashes[i]);
}
static std::string jesc(const std::string &s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o;
}
static std::string describe(uint64_t idx, const Plan &p, const Cfg &c) {
  std::ostringstream o; static const char *sn[] = {"random", "pct", "sync-only", "few-switches", "replay"};
  o << "run " << idx << ": strategy " << sn[c.strategy] << ", memory yields " << c.mem_yield << ", race detector " << c.race << ", parameters [";
  for (size_t i = 0; i < p.cfg.size() && i < 12; i++) o << (i ? " " : "") << p.cfg[i];
  o << "], threads:";
  for (size_t t = 0; t < p.thr.size() && t < 6; t++) { o << " {"; for (size_t i = 0; i < p.thr[t].size() && i < 8; i++) o << (i ? "; " : "") << p.thr[t][i].code << "(" << p.thr[t][i].a << "," << p.thr[t][i].b << "," << p.thr[t][i].c << ")"; if (p.thr[t].size() > 8) o << "; ... " << p.thr[t].size() << " ops"; o << "}"; }
  if (p.thr.size() > 6) o << " ... " << p.thr.size() << " threads";
  o << ", faults allowed:"; for (int k = 0; k < sim::NFAULT; k++) if (c.rate[k]) o << " " << sim::fault_name[k] << "<=" << c.maxf[k];
  return o.str();
}

struct Job { pid_t pid = 0; Shm *s = nullptr; uint64_t first = 0, end = 0; double t0 = 0; };

static int batch(const std::string &prop, uint64_t seed, int tier, uint64_t first, uint64_t count, int jobs, double maxwall, uint64_t chunk,
                 const std::string &outjson, const std::string &replay_path, bool hashes_only) {
  const Scenario *sc = find(prop);
  if (!sc) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  double t0 = wall();
  std::vector<Job> js(jobs); for (auto &j : js) j.s = new_shm();
  Total tot; uint64_t next = first; std::vector<std::pair<uint64_t, uint64_t>> redo;   // remaining pieces after a legit stuck run
  std::map<uint64_t, Outcome> found; bool stop = false, herr = false; std::string herr_msg; uint64_t lowest = UINT64_MAX;
  std::map<uint64_t, uint64_t> hash_of;
  auto launch = [&](Job &j, int slot, uint64_t a, uint64_t b) {
    clear_shm(j.s); j.first = a; j.end = b; j.t0 = wall(); fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      child_setup(j.s, slot);
      for (uint64_t i = a; i < b; i++) {
        Plan pl; Cfg c; make_run(*sc, seed, i, tier, pl, c);
        j.s->run_index = i; arm();
        one_run(*sc, pl, c);
      }
      _exit(0);
    }
    j.pid = pid;
  };
  for (;;) {
    int running = 0; bool progressed = false;
    for (size_t k = 0; k < js.size(); k++) {
      Job &j = js[k];
      if (j.pid) {
        int st; pid_t r = waitpid(j.pid, &st, WNOHANG);
        if (r == 0) {
          if (wall() - j.t0 > 400) { kill(j.pid, SIGKILL); waitpid(j.pid, &st, 0); herr = true; herr_msg = "a chunk took more than 400 s of real time (run " + std::to_string(j.s->run_index) + ")"; j.pid = 0; stop = true; continue; }
          running++; continue;
        }
        progressed = true; j.pid = 0;
        Outcome o = outcome(j.s, st);
        absorb(tot, j.s);
        if (hashes_only) for (uint64_t i = 0; i < j.s->nhash; i++) hash_of[j.first + i] = j.s->hashes[i];
        if (o.code == 2) { tot.legit_stuck++; if (o.run + 1 < j.end) redo.push_back({o.run + 1, j.end}); }
        else if (o.code == 1) { o.run = j.s->run_index; found[o.run] = o; lowest = std::min(lowest, o.run); stop = true; }
        else if (o.code >= 3) { herr = true; herr_msg = o.cls + ": " + o.detail + " (run " + std::to_string(j.s->run_index) + ")"; stop = true; }
      }
      if (!j.pid) {
        if (maxwall > 0 && wall() - t0 > maxwall) { next = first + count; redo.clear(); }
        if (!redo.empty() && (!stop || redo.back().first < lowest)) { auto p = redo.back(); redo.pop_back(); launch(j, k, p.first, p.second); running++; progressed = true; }
        else if (!stop && next < first + count) { uint64_t b = std::min(first + count, next + chunk); launch(j, k, next, b); next = b; running++; progressed = true; }
      }
    }
    if (!running) break;
    if (!progressed) usleep(500);
  }
  std::sort(tot.distinct.begin(), tot.distinct.end());
  tot.distinct.erase(std::unique(tot.distinct.begin(), tot.distinct.end()), tot.distinct.end());
  double t_batch = wall() - t0;
  for (uint64_t i = first; i < first + 3 && i < first + count; i++) { Plan p; Cfg c; make_run(*sc, seed, i, tier, p, c); tot.samples.push_back(describe(i, p, c)); }

  int rc = 0; Spec best; std::string gate = "none"; int shrink_tries = 0; size_t dec0 = 0;
  if (hashes_only) { for (auto &h : hash_of) printf("%llu %016llx\n", (unsigned long long)h.first, (unsigned long long)h.second); }
  if (herr && found.empty()) { fprintf(stderr, "ERROR: %s\n", herr_msg.c_str()); rc = 2; }
  else if (!found.empty()) {
    rc = 1;
    Outcome o = found.begin()->second; Shm *s = js[0].s;
    Spec sp; sp.prop = prop; sp.cold = cold_run; sp.seed = seed; sp.index = o.run; sp.tier = tier; sp.cls = o.cls; sp.detail = o.detail; sp.hash = o.hash;
    make_run(*sc, seed, o.run, tier, sp.plan, sp.cfg);
    // gate 1: the same seed twice, in fresh processes
    Outcome a = exec_spec(sp, s, false, 0, 300); std::vector<Dec> d = decisions(s); bool dec_ok = s->ndec <= sim::DEC_CAP;
    Outcome b = exec_spec(sp, s, false, 1, 300);
    if (a.code == 1 && b.code == 1 && a.cls == o.cls && b.cls == o.cls && a.hash == b.hash) {
      gate = "seed";
      dec0 = d.size();
      sp.detail = a.detail; sp.hash = a.hash;
      Spec r = sp; r.use_dec = true; r.dec = d;
      Outcome x = dec_ok ? exec_spec(r, s, false, 0, 300) : Outcome();
      if (dec_ok && x.code == 1 && x.cls == o.cls) {
        Shrinker sh; sh.best = r; sh.s = s; sh.deadline = wall() + (tier ? 90 : 40);
        sh.drop_threads(12); sh.drop_ops(6); sh.drop_threads(25); sh.drop_ops(12);
        sh.ddmin([](const Dec &q) { return q.type == 1; });
        sh.ddmin([](const Dec &q) { return q.type != 1; });
        sh.ddmin([](const Dec &) { return true; });
        shrink_tries = sh.tries;
        best = sh.best;
      } else best = sp;
    } else {
      // depends on earlier runs in the same process
      uint64_t lo = first + (o.run - first) / chunk * chunk;
      Spec pf = sp; pf.prefix = true; pf.first = lo;
      Outcome x = exec_spec(pf, s, false, 0, 600);
      if (x.code == 1 && x.cls == o.cls && x.run == o.run) {
        gate = "prefix";
        while (pf.first < pf.index) {
          Spec q = pf; q.first = pf.first + (pf.index - pf.first + 1) / 2; if (q.first == pf.first) break;
          Outcome y = exec_spec(q, s, false, 0, 600);
          if (y.code == 1 && y.cls == o.cls && y.run == o.run) pf = q; else break;
        }
        Outcome y = exec_spec(pf, s, false, 0, 600); pf.hash = y.hash; pf.detail = y.detail;
        best = pf;
      } else { fprintf(stderr, "ERROR: run %llu failed with %s (%s) but does not reproduce from its seed (%d %s, %d %s)\n", (unsigned long long)o.run, o.cls.c_str(), o.detail.c_str(), a.code, a.cls.c_str(), b.code, b.cls.c_str()); rc = 2; }
    }
    if (rc == 1) write_spec(best, replay_path);
  }
  if (!outjson.empty()) {
    std::ofstream o(outjson);
    o << "{\"property\":\"" << prop << "\",\"seed\":" << seed << ",\"tier\":" << tier << ",\"requested\":" << count << ",\"runs\":" << tot.runs << ",\"nontrivial\":" << tot.nontrivial << ",\"distinct_nontrivial\":" << tot.distinct.size()
      << ",\"legit_stuck\":" << tot.legit_stuck << ",\"steps\":" << tot.steps << ",\"switches\":" << tot.switches << ",\"harness_ops\":" << tot.ops << ",\"sim_seconds\":" << (long long)tot.sim_s << ",\"batch_wall_s\":" << t_batch << ",\"total_wall_s\":" << wall() - t0 << ",\"jobs\":" << jobs;
    o << ",\"fired\":{"; for (int k = 0; k < sim::NFAULT; k++) o << (k ? "," : "") << "\"" << sim::fault_name[k] << "\":" << tot.fired[k];
    o << "},\"opportunities\":{"; for (int k = 0; k < sim::NFAULT; k++) o << (k ? "," : "") << "\"" << sim::fault_name[k] << "\":" << tot.opps[k];
    static const char *sn[] = {"random", "pct", "sync_only", "few_switches", "replay"};
    o << "},\"strategies\":{"; for (int k = 0; k < sim::NSTRAT; k++) o << (k ? "," : "") << "\"" << sn[k] << "\":" << tot.strat[k];
    o << "},\"probes\":{"; bool f = true; for (int k = 0; sc->probe_names && sc->probe_names[k]; k++) { o << (f ? "" : ",") << "\"" << jesc(sc->probe_names[k]) << "\":" << tot.probes[k]; f = false; }
    o << "},\"samples\":["; for (size_t i = 0; i < tot.samples.size(); i++) o << (i ? "," : "") << "\"" << jesc(tot.samples[i]) << "\"";
    o << "]";
    if (rc == 1) {
      size_t ops = 0; for (auto &t : best.plan.thr) ops += t.size();
      o << ",\"violation\":{\"class\":\"" << jesc(best.cls) << "\",\"detail\":\"" << jesc(best.detail) << "\",\"run\":" << best.index << ",\"gate\":\"" << gate << "\",\"threads\":" << best.plan.thr.size() << ",\"ops\":" << ops
        << ",\"decisions_before\":" << dec0 << ",\"decisions\":" << best.dec.size() << ",\"shrink_tries\":" << shrink_tries << ",\"replay\":\"" << jesc(replay_path) << "\"}";
    }
    o << ",\"error\":\"" << jesc(herr_msg) << "\"}\n";
  }
  return rc;
}

static int replay(const Spec &sp, bool trace) {
  if (!find(sp.prop)) { fprintf(stderr, "property %s is not in this binary\n", sp.prop.c_str()); return 2; }
  Shm *s = new_shm();
  Outcome o = exec_spec(sp, s, trace, 0, 600);
  printf("class %s\nhash %llu\nexpected_class %s\nexpected_hash %llu\ndetail %s\n", o.code == 1 ? o.cls.c_str() : "none", (unsigned long long)o.hash, sp.cls.c_str(), (unsigned long long)sp.hash, o.detail.c_str());
  if (o.code == 1 && o.cls == sp.cls && o.hash == sp.hash) return 1;
  return o.code == 0 || o.code == 2 ? 0 : 3;
}

int main(int argc, char **argv) {
  cpu_set_t m; CPU_ZERO(&m); if (sched_getaffinity(0, sizeof m, &m) == 0) for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &m)) cpus.push_back(i);
  if (getenv("SIM_NOPIN")) cpus.clear();
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "list") { for (int i = 0; i < nscenarios; i++) puts(scenarios[i].prop); return 0; }
  auto arg = [&](const char *n, const char *d) -> std::string { for (int i = 2; i + 1 < argc; i++) if (std::string(argv[i]) == n) return argv[i + 1]; return d; };
  { std::istringstream ks(arg("-k", "")); std::string k; while (std::getline(ks, k, ',')) if (!k.empty()) known.insert(k); }
  std::string out = arg("-o", "");
  auto run_batch = [&](uint64_t first, uint64_t n, uint64_t chunk, const std::string &o) {
    return batch(arg("-p", ""), strtoull(arg("-s", "1").c_str(), 0, 10), atoi(arg("-t", "0").c_str()), first, n,
                 atoi(arg("-j", std::to_string(std::max<size_t>(1, cpus.size())).c_str()).c_str()), atof(arg("-w", "0").c_str()), chunk, o, arg("-r", "replay.txt"), mode == "hashes");
  };
  setup();
  Spec sp;
  if (mode == "replay" || mode == "trace") {
    if (argc < 3 || !read_spec(sp, argv[2])) { fprintf(stderr, "cannot read the replay file\n"); return 2; }
    cold_run = sp.cold;
    if (cold_run) return replay(sp, mode == "trace");
  }
  // runs that start in a process in which nothing has been initialised yet
  uint64_t ncold = strtoull(arg("-C", "0").c_str(), 0, 10);
  if (ncold && (mode == "batch" || mode == "hashes")) {
    cold_run = true;
    int rc = run_batch(1000000000000ull, ncold, 1, out.empty() ? out : out + ".cold");
    if (rc) return rc;
    cold_run = false;
  }
  // the warm-up runs library code outside the simulator: only if it is seen to end
  { fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(60); signal(SIGPROF, SIG_DFL); struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_PROF, &it, nullptr); close(1); close(2); warmup(); _exit(0); }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) warmup(); }
  if (mode == "batch" || mode == "hashes") return run_batch(strtoull(arg("-f", "0").c_str(), 0, 10), strtoull(arg("-n", "1000").c_str(), 0, 10), strtoull(arg("-c", "100").c_str(), 0, 10), out);
  if (mode == "replay" || mode == "trace") return replay(sp, mode == "trace");
  fprintf(stderr, "usage: sim list | batch -p PROP -s SEED -t TIER -n RUNS -j JOBS -o JSON -r REPLAY | hashes ... | replay FILE | trace FILE\n");
  return 2;
}

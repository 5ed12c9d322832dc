// Formats, option parsers, streams, isolation and shared reading: C15..C19.
#include "scen_util.h"
#include "Barrier.hxx"
#include "MailBox.hxx"
#include <optional>
using namespace u;
namespace u {
const char *const res_name[] = {"normal return", "bad_alloc", "BadFormat", "PropertyNotFound", "BadPropertyType", "FileNotFound", "a SoDa exception", "a standard exception", "an unknown exception"};
ErrBuf *errbuf;
}

namespace {
const int64_t MS = 1000000;

Op mk(int code, long a = 0, long b = 0, long c = 0) { Op o = {code, a, b, c}; return o; }
long seed_of(Rng &r) { return (long)(r.next() >> 2); }
template <class F> struct OnThread { F f; static void go(void *p) { ((OnThread *)p)->f(); } };
template <class F> void on_thread(F f) { OnThread<F> o{f}; sim::spawn(OnThread<F>::go, &o); sim::go(); }   // run f alone on one simulated thread

// a sink the harness controls
class SinkBuf : public std::streambuf {
public:
  Str got; bool faulty = true; int throws = 0; bool refused = false; char area[64];
  explicit SinkBuf(int buffered) { if (buffered) setp(area, area + (buffered < 64 ? buffered : 64)); }
  std::streamsize take(const char *p, std::streamsize n) {
    sim::Quiet q; int64_t v;
    if (faulty && n > 0 && sim::fault(sim::F_SINK, &v, n + 1)) { refused = true; if (v > n - 1) v = n - 1; if (v < 0) v = 0; got.append(p, (size_t)v); if (throws) throw std::runtime_error("sink"); return v; }
    got.append(p, (size_t)n); return n;
  }
protected:
  bool drain() { std::streamsize n = pptr() - pbase(); if (n <= 0) return true; char *b = pbase(), *e = epptr(); setp(b, e); return take(b, n) == n; }
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    if (!pbase()) return take(p, n);
    if (epptr() - pptr() >= n) { memcpy(pptr(), p, (size_t)n); pbump((int)n); return n; }
    if (!drain()) return 0;
    return take(p, n);
  }
  int overflow(int c) override { if (pbase() && !drain()) return EOF; if (c == EOF) return 0; char ch = (char)c; return take(&ch, 1) == 1 ? (unsigned char)c : EOF; }
  int sync() override { if (!pbase()) return 0; return drain() ? 0 : -1; }
};

// ================================================================== C15: private objects on separate threads
enum { FMT_NEW = 1, FMT_ADD, FMT_STR, FMT_RESET, FMT_OUT, OPT_NEW, OPT_PARSE, OPT_SHOW, OPT_HELP, SPLIT, TREE_NEW, TREE_LOAD, TREE_GET, TREE_DUMP, BAR_NEW, BAR_WAIT, BOX_NEW, BOX_SUB, BOX_PUT, BOX_GET, BOX_COUNT, BOX_DROP, VERSION, FMT_COPY, BOX_FAIL };
typedef SoDa::MailBox<Str> SBox;
struct Private {
  int id; bool faulty = false; std::vector<Op> prog; Str tr;
  std::optional<SoDa::Format> f[2]; std::optional<SoDa::Options> o[2]; Vars v[2]; ParserSpec ps[2]; std::optional<Tree> t[2]; std::vector<Str> paths[2];
  std::shared_ptr<SoDa::Barrier> b[2]; std::shared_ptr<SBox> m[2]; SBox::Subscription s[2][2];
  void put(const Str &x) { tr += x; tr += '\n'; }
};
void step15(Private &p, const Op &op) {
  int k = (int)(op.a & 1); Rng r((uint64_t)op.b); Str out, what; int res = OK;
  sim::op_point();
  switch (op.code) {
  case FMT_NEW: { Str fs = format_string((uint64_t)op.b); res = guarded([&] { p.f[k].emplace(fs); }, &what); break; }
  case FMT_ADD: if (!p.f[k]) return; res = guarded([&] { apply_add(*p.f[k], (uint64_t)op.b); }, &what); break;
  case FMT_STR: if (!p.f[k]) return; res = guarded([&] { out = p.f[k]->str(op.b & 1); }, &what); break;
  case FMT_RESET: if (!p.f[k]) return; res = guarded([&] { p.f[k]->reset(); }, &what); break;
  case FMT_OUT: { if (!p.f[k]) return; std::ostringstream os; res = guarded([&] { os << *p.f[k]; }, &what); out = os.str(); break; }
  case FMT_COPY: if (!p.f[k]) return; res = guarded([&] { p.f[1 - k] = p.f[k]; }, &what); break;
  case OPT_NEW: p.ps[k] = parser_spec((uint64_t)op.b); p.v[k] = Vars(); res = guarded([&] { p.o[k].emplace(p.ps[k].kvp); build_parser(*p.o[k], p.ps[k], p.v[k]); }, &what); break;
  case OPT_PARSE: {
    if (!p.o[k]) return;
    std::list<Str> tok = token_list(p.ps[k], (uint64_t)op.b, (int)op.c % 6); bool ok = false;
    size_t e0 = errbuf->mine().size();
    res = guarded([&] { ok = do_parse(*p.o[k], p.ps[k], tok, (int)(op.c / 6)); }, &what);
    out = Str(ok ? "true " : "false ") + errbuf->mine().substr(e0); break;
  }
  case OPT_SHOW: {
    if (!p.o[k]) return;
    for (auto &s : p.ps[k].opt) { bool l = false, a = false; res = guarded([&] { l = p.o[k]->isPresent(s.name); a = p.o[k]->isPresent(s.ab); }, &what); out += s.name + "=" + p.v[k].text(s.type) + (l ? "L" : "-") + (a ? "A " : "- "); }
    std::vector<Str> pa; int n = 0; Str one; res = guarded([&] { pa = p.o[k]->getPosArgs(); n = p.o[k]->numPosArgs(); if (n > 0) one = p.o[k]->getPosArg((int)r.below(n)); }, &what);
    out += num(n); for (auto &x : pa) out += " " + x; out += "|" + one; break;
  }
  case OPT_HELP: { if (!p.o[k]) return; std::ostringstream os; res = guarded([&] { p.o[k]->printHelp(os); }, &what); out = os.str(); break; }
  case SPLIT: {
    Str s; int n = (int)r.range(1, 12); for (int i = 0; i < n; i++) { s += word(r, 0, 8); s += " ,;= "[r.below(5)]; }
    s = "x" + s; bool ne = r.chance(50); Str del = ",;="; int w = (int)r.below(3);
    res = guarded([&] { if (w == 0) for (auto &x : SoDa::split(s, del, ne)) out += "[" + x + "]"; else if (w == 1) for (auto &x : SoDa::splitVec(s, del, ne)) out += "[" + x + "]"; else out = SoDa::squashSpaces(s); }, &what); break;
  }
  case TREE_NEW: res = guarded([&] { p.t[k].emplace(); }, &what); break;
  case TREE_LOAD: {
    if (!p.t[k]) return;
    Str path = "/simfs/t" + num(p.id) + "_" + num(k) + ".yaml"; Doc d = make_doc((uint64_t)op.b, op.c & 1 ? "a" : "b", 3 + (int)(op.c % 9));
    sim::vfs_put(path.c_str(), d.yaml.data(), d.yaml.size()); p.paths[k].clear(); for (auto &l : d.leaf) p.paths[k].push_back(l.path);
    res = guarded([&] { p.t[k]->readFile(op.c % 7 == 3 ? path + "x" : path); }, &what); break;
  }
  case TREE_GET: {
    if (!p.t[k] || p.paths[k].empty()) return;
    Str path = p.paths[k][r.below(p.paths[k].size())]; if (r.chance(15)) path += "zz"; bool th = r.chance(50); bool ok = false; Str sv; long lv = 0; double dv = 0; int w = (int)r.below(3);
    res = guarded([&] { ok = w == 0 ? p.t[k]->get(sv, path, th) : w == 1 ? p.t[k]->get(lv, path, th) : p.t[k]->get(dv, path, th); }, &what);
    out = path + (ok ? " found " : " not ") + sv + " " + num(lv) + " " + std::to_string(dv); break;
  }
  case TREE_DUMP: { if (!p.t[k]) return; std::ostringstream os; res = guarded([&] { p.t[k]->dump(os); }, &what); out = os.str(); break; }
  case BAR_NEW: res = guarded([&] { p.b[k] = SoDa::makeBarrier("private" + num(p.id), op.b % 3 ? 1 : 2); }, &what); break;
  case BAR_WAIT: if (!p.b[k]) return; res = guarded([&] { p.b[k]->wait((unsigned long)(1 + op.b % 50)); }, &what); break;
  case BOX_NEW: { In in; for (auto &x : p.s[k]) x.reset(); } res = guarded([&] { p.m[k] = SoDa::makeMailBox<Str>("box" + num(p.id)); }, &what); break;
  case BOX_SUB: if (!p.m[k]) return; res = guarded([&] { p.s[k][op.b & 1] = p.m[k]->subscribe(); }, &what); break;
  case BOX_PUT: if (!p.m[k]) return; { Str text = word(r, 1, 30); res = guarded([&] { if (op.c & 1) p.m[k]->put(std::make_shared<Str>(text)); else p.m[k]->put(std::make_shared<Str>(text), p.s[k][op.b & 1]); }, &what); } break;
  case BOX_GET: { if (!p.m[k] || !p.s[k][op.b & 1]) return; std::shared_ptr<Str> g; res = guarded([&] { g = p.m[k]->get(p.s[k][op.b & 1]); }, &what); out = g ? *g : Str("<nothing>"); In in; g.reset(); break; }
  case BOX_COUNT: { if (!p.m[k]) return; unsigned a = 0, b = 0, c = 0; res = guarded([&] { a = p.m[k]->subscriberCount(); b = p.m[k]->minReadyCount(); if (p.s[k][op.b & 1]) c = p.m[k]->readyCount(p.s[k][op.b & 1]); }, &what); out = num(a) + " " + num(b) + " " + num(c); break; }
  case BOX_DROP: if (!p.m[k]) return; res = guarded([&] { p.s[k][op.b & 1].reset(); }, &what); break;
  case BOX_FAIL: { if (!p.m[k] || !p.m[1 - k] || p.m[0] == p.m[1] || !p.s[k][0]) return; res = guarded([&] { p.m[1 - k]->get(p.s[k][0]); }, &what); break; }
  case VERSION: if (!p.f[k]) return; res = guarded([&] { out = p.f[k]->getVersion() + " " + p.f[k]->getGitID(); }, &what); break;
  }
  p.put(num(op.code) + "." + num(k) + " " + res_name[res] + " [" + out + "] " + what);
}
void body15(void *v) {
  Private &p = *(Private *)v;
  errbuf->mine().clear();
  if (!p.faulty) sim::hold_faults(true);
  for (auto &o : p.prog) { step15(p, o); if (p.faulty && !std::cerr.good()) std::cerr.clear(); }
  if (!p.faulty) sim::hold_faults(false);
  In in;
  for (int k = 0; k < 2; k++) { for (auto &x : p.s[k]) x.reset(); p.m[k].reset(); p.b[k].reset(); p.t[k].reset(); p.o[k].reset(); p.f[k].reset(); }
}
}  // namespace
void gen_C15(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  long nt = r.range(2, idx % 20 == 7 ? 6 : 4); int focus = (int)r.below(9);
  for (long t = 0; t < nt; t++) {
    std::vector<Op> v; int n = (int)r.range(4, 14);
    for (int i = 0; i < n; i++) {
      int what = r.chance(70) ? focus : (int)r.below(9); long k = (long)r.below(2);
      auto some = [&](int lo, int hi, auto f) { int m = (int)r.range(lo, hi); for (int j = 0; j < m; j++) f(); };
      switch (what) {
      case 0: case 1: case 2: case 3: v.push_back(mk(FMT_NEW, k, seed_of(r))); some(1, 6, [&] { v.push_back(mk(FMT_ADD, r.chance(80) ? k : 1 - k, seed_of(r))); if (r.chance(30)) v.push_back(mk(FMT_STR, k, seed_of(r))); }); v.push_back(mk(r.chance(50) ? FMT_STR : FMT_OUT, k, seed_of(r))); if (r.chance(30)) { v.push_back(mk(FMT_RESET, k)); v.push_back(mk(FMT_ADD, k, seed_of(r))); v.push_back(mk(FMT_STR, k)); } if (r.chance(10)) v.push_back(mk(FMT_COPY, k)); if (r.chance(30)) v.push_back(mk(VERSION, k)); break;
      case 4: case 5: v.push_back(mk(OPT_NEW, k, seed_of(r))); some(1, 3, [&] { v.push_back(mk(OPT_PARSE, k, seed_of(r), (long)r.below(18))); if (r.chance(60)) v.push_back(mk(OPT_SHOW, k, seed_of(r))); }); if (r.chance(40)) v.push_back(mk(OPT_HELP, k)); break;
      case 6: some(1, 4, [&] { v.push_back(mk(SPLIT, 0, seed_of(r))); }); break;
      case 7: v.push_back(mk(TREE_NEW, k)); some(1, 2, [&] { v.push_back(mk(TREE_LOAD, k, seed_of(r), (long)r.below(60))); some(1, 4, [&] { v.push_back(mk(TREE_GET, k, seed_of(r))); }); }); if (r.chance(50)) v.push_back(mk(TREE_DUMP, k)); i += 2; break;
      default:
        if (r.chance(40)) { v.push_back(mk(BAR_NEW, k, (long)r.below(9))); some(1, 3, [&] { v.push_back(mk(BAR_WAIT, k, (long)r.below(99))); }); }
        else { v.push_back(mk(BOX_NEW, k)); v.push_back(mk(BOX_SUB, k, 0)); some(2, 9, [&] { static const int ops[] = {BOX_PUT, BOX_PUT, BOX_PUT, BOX_GET, BOX_GET, BOX_COUNT, BOX_SUB, BOX_DROP, BOX_FAIL}; v.push_back(mk(r.pick(ops), k, (long)(r.next() >> 8), (long)r.below(9))); }); }
      }
    }
    p.thr.push_back(v);
  }
  swarm(r, c, plan_ops(p) * 4); c.race = 1; c.max_steps = 40000000;
  if (r.chance(30)) enable(c, sim::F_SPURIOUS, 65536 / 8, 10);
  if (r.chance(15)) enable(c, sim::F_CLOCKJUMP, 65536 / 40, 4);
  // in part of the runs the first thread keeps running out of memory: the others must not notice
  bool faulty = r.chance(20); p.cfg = {faulty};
  if (faulty) { static const uint32_t ra[] = {65536 / 3, 65536 / 10, 65536 / 40, 65536 / 150}; enable(c, sim::F_ALLOC, r.pick(ra), (uint32_t)r.range(1, 12)); }
}
void run_C15(const Plan &pl) {
  sim::vfs_clear();
  size_t n = pl.thr.size();
  std::vector<Str> alone(n);
  std::vector<std::unique_ptr<Private>> p(n);
  // each thread's program on its own, before or, when nothing may be initialised yet, afterwards
  auto each_alone = [&] {
    for (size_t i = 0; i < n; i++) {
      Private q; q.id = (int)i; q.prog = pl.thr[i];
      on_thread([&] { Held h; body15(&q); });
      alone[i] = q.tr;
    }
  };
  if (!cold_run) each_alone();
  for (size_t i = 0; i < n; i++) { p[i].reset(new Private); p[i]->id = (int)i; p[i]->prog = pl.thr[i]; p[i]->faulty = i == 0 && !pl.cfg.empty() && pl.cfg[0]; sim::spawn(body15, p[i].get()); }
  sim::go();
  if (cold_run) { sim::vfs_clear(); each_alone(); }
  for (size_t i = 0; i < n; i++) {
    if (p[i]->faulty) continue;
    if (p[i]->tr != alone[i]) {
      size_t d = 0; while (d < p[i]->tr.size() && d < alone[i].size() && p[i]->tr[d] == alone[i][d]) d++;
      size_t ls = alone[i].rfind('\n', d ? d - 1 : 0); ls = ls == Str::npos ? 0 : ls + 1;
      sim::fail("differs", "thread %zu, alone: %.300s -- together with others: %.300s", i, alone[i].substr(ls, 300).c_str(), p[i]->tr.substr(ls < p[i]->tr.size() ? ls : 0, 300).c_str());
    }
    sim::log_str(alone[i].data(), alone[i].size());
    sim::probe(0);
  }
  sim::vfs_clear();
}

// ================================================================== C16: finished objects, many readers
namespace {
enum { RD_FMT = 1, RD_OPT, RD_TREE, RD_SPLIT };
struct Shared {
  std::optional<SoDa::Format> f; std::optional<SoDa::Options> o; Vars v; ParserSpec ps; std::optional<Tree> t; Doc d;
};
struct G16 { const Plan *pl; Shared sh; std::map<Str, Str> want; std::vector<std::pair<Str, Str>> later; };
bool no_text;                                      // C23: no output to streams (a stream may swallow the failure)
struct How { int res = OK; };
Str reading(Shared &s, const Op &op, How *how = nullptr) {
  Str out, what; int res = OK; Rng r((uint64_t)op.b);
  switch (op.code) {
  case RD_FMT: if (!s.f) return ""; { int w = (int)r.below(no_text ? 2 : 3);
    if (w == 2) { std::ostringstream os; res = guarded([&] { os << *s.f; }, &what); out = os.str(); } else res = guarded([&] { out = s.f->str(w); }, &what); } break;
  case RD_OPT: if (!s.o) return ""; switch (no_text ? 1 + r.below(5) : r.below(6)) {
    case 0: { std::ostringstream os; res = guarded([&] { s.o->printHelp(os); }, &what); out = os.str(); break; }
    case 1: { std::vector<Str> v; res = guarded([&] { v = s.o->getPosArgs(); }, &what); for (auto &x : v) out += x + ";"; break; }
    case 2: { int n = 0; res = guarded([&] { n = s.o->numPosArgs(); if (n) out = s.o->getPosArg((int)r.below(n)); }, &what); out += num(n); break; }
    case 3: { bool b = false; Str n = "nosuch"; res = guarded([&] { b = s.o->isPresent(n) || s.o->isPresent('Z'); }, &what); out = b ? "T" : "F"; break; }
    default: { const Spec &q = s.ps.opt[r.below(s.ps.opt.size())]; bool b = false; bool l = r.chance(50); res = guarded([&] { b = l ? s.o->isPresent(q.name) : s.o->isPresent(q.ab); }, &what); out = b ? "T" : "F"; break; }
    } break;
  case RD_SPLIT: {
    Str t, del = ",;="; int n = (int)r.range(1, 12); for (int i = 0; i < n; i++) { t += word(r, 0, r.chance(20) ? 60 : 8); t += " ,;= "[r.below(5)]; } t = "x" + t; bool ne = r.chance(50); int w = (int)r.below(3); std::list<Str> l; std::vector<Str> v; Str q;
    res = guarded([&] { if (w == 0) l = SoDa::split(t, del, ne); else if (w == 1) v = SoDa::splitVec(t, del, ne); else q = SoDa::squashSpaces(t); }, &what);
    for (auto &x : l) out += "[" + x + "]"; for (auto &x : v) out += "[" + x + "]"; out += q; break;
  }
  default: if (!s.t || s.d.leaf.empty()) return ""; {
    const Leaf &l = s.d.leaf[r.below(s.d.leaf.size())]; Str path = l.path; bool th = r.chance(40); bool ok = false;
    SoDa::PropertyTree::PropNode *top = top_of(*s.t);
    switch (no_text ? 1 + r.below(7) : r.below(8)) {
    case 0: { std::ostringstream os; res = guarded([&] { s.t->dump(os); }, &what); out = os.str(); break; }
    case 1: { Str v; path += "zz"; res = guarded([&] { ok = s.t->get(v, path, th); }, &what); out = (ok ? "T" : "F") + v; break; }
    case 2: { double v = 0; res = guarded([&] { ok = s.t->get(v, path, th); }, &what); out = (ok ? "T" : "F") + std::to_string(v); break; }
    case 3: if (top) { std::list<Str> k; Str parent = path.find(':') == Str::npos ? Str() : path.substr(0, path.rfind(':')); res = guarded([&] { auto *n = top->getProp(parent, true); if (n) k = n->getKeys(); }, &what); for (auto &x : k) out += x + ","; } break;
    case 4: if (top) { Str pn; res = guarded([&] { auto *n = top->getProp(path, th); if (n) pn = n->getPathName(); }, &what); out = pn; } break;
    case 5: if (top && !s.d.lists.empty()) { auto it = s.d.lists.begin(); std::advance(it, r.below(s.d.lists.size())); Str lp = it->first; res = guarded([&] { auto *n = top->getProp(lp, true); if (n) for (auto *e : n->getList()) { Str v; e->get(v, true); out += v + ","; } }, &what); } break;
    default: { Str v; res = guarded([&] { ok = s.t->get(v, path, th); }, &what); out = (ok ? "T" : "F") + v; break; }
    } }
  }
  if (how) how->res = res;
  return Str(res_name[res]) + " [" + out + "] " + what;
}
Str key16(const Op &o) { return num(o.code) + ":" + num(o.b); }
struct Rd { G16 *g; int id; };
void body16(void *v) {
  Rd &rd = *(Rd *)v; G16 &g = *rd.g;
  for (auto &o : g.pl->thr[rd.id]) {
    sim::op_point();
    uint64_t f0 = sim::my_fired();
    Str got = reading(g.sh, o);
    if (sim::my_fired() != f0) { sim::probe(2); continue; }      // this very reading ran out of memory
    if (cold_run) { g.later.push_back({key16(o), got}); continue; }
    if (got != g.want[key16(o)]) sim::fail("reader-differs", "a single reader gets %.400s -- a reader among %zu gets %.400s", g.want[key16(o)].c_str(), g.pl->thr.size(), got.c_str());
    sim::probe(1);
  }
}
void make_shared16(Shared &s, const Plan &pl) {
  Rng r((uint64_t)pl.cfg[1]); long kind = pl.cfg[0];
  bool big = pl.cfg.size() > 2 && pl.cfg[2];
  if (kind & 1) { uint64_t fseed = r.next() >> 1; if (big) fseed -= fseed % 23; Str fs = format_string(fseed); int n = (int)r.range(0, big ? 80 : 14); In in; s.f.emplace(fs); for (int i = 0; i < n; i++) apply_add(*s.f, r.next()); }
  if (kind & 2) { uint64_t pseed = r.next() >> 1; if (big) pseed -= pseed % 29; s.ps = parser_spec(pseed); { In in; s.o.emplace(s.ps.kvp); build_parser(*s.o, s.ps, s.v); } int n = (int)r.range(0, 2); for (int i = 0; i < n; i++) { auto tok = token_list(s.ps, r.next(), r.chance(70) ? 0 : (int)r.below(6)); int form = (int)r.below(6); guarded([&] { do_parse(*s.o, s.ps, tok, form); }); } }
  if (kind & 4) { s.d = make_doc(r.next(), "a", big ? (int)r.range(100, 400) : (int)r.range(3, 15)); sim::vfs_put("/simfs/shared.yaml", s.d.yaml.data(), s.d.yaml.size()); In in; s.t.emplace("/simfs/shared.yaml"); }
}
}  // namespace
void gen_C16(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  long kind = idx % 4 == 3 ? 7 : 1l << (idx % 4); p.cfg = {kind, seed_of(r)};
  long nt = r.range(2, idx % 20 == 9 ? 8 : 4);
  for (long t = 0; t < nt; t++) { std::vector<Op> v; int n = (int)r.range(1, 8); for (int i = 0; i < n; i++) { int code; do code = (int)r.range(1, 3); while (!(kind >> (code - 1) & 1)); v.push_back(mk(code, 0, (long)r.below(64))); } p.thr.push_back(v); }
  swarm(r, c, plan_ops(p) * 8); c.race = 1; c.max_steps = 40000000;
  if (r.chance(25)) { static const uint32_t ra[] = {65536 / 2, 65536 / 8, 65536 / 30, 65536 / 120}; enable(c, sim::F_ALLOC, r.pick(ra), (uint32_t)r.range(1, 8)); }
}
void run_C16(const Plan &pl) {
  no_text = false;
  sim::vfs_clear();
  std::unique_ptr<G16> g(new G16); g->pl = &pl;
  Shared twin;
  on_thread([&] { Held h; make_shared16(g->sh, pl); if (cold_run) return; make_shared16(twin, pl); for (auto &t : pl.thr) for (auto &o : t) if (!g->want.count(key16(o))) g->want[key16(o)] = reading(twin, o); });
  std::vector<Rd> rd(pl.thr.size());
  for (size_t i = 0; i < rd.size(); i++) { rd[i].g = g.get(); rd[i].id = (int)i; sim::spawn(body16, &rd[i]); }
  sim::go();
  if (cold_run) {
    on_thread([&] { Held h; make_shared16(twin, pl); for (auto &t : pl.thr) for (auto &o : t) if (!g->want.count(key16(o))) g->want[key16(o)] = reading(twin, o); });
    for (auto &k : g->later) if (k.second != g->want[k.first]) sim::fail("reader-differs", "a single reader gets %.400s -- a reader among %zu gets %.400s", g->want[k.first].c_str(), pl.thr.size(), k.second.c_str());
  }
  on_thread([&] { Held h; for (auto &t : pl.thr) for (auto &o : t) { Str got = reading(g->sh, o); if (got != g->want[key16(o)]) sim::fail("object-changed", "after concurrent reading the object gives %.300s instead of %.300s", got.c_str(), g->want[key16(o)].c_str()); sim::log_str(got.data(), got.size()); } });
  sim::vfs_clear();
}

// ================================================================== C23: questions asked while memory runs out
namespace {
struct Answer { Op o; Str got; How how; bool hit; };
struct G23 { const Plan *pl; Shared sh; std::map<Str, Str> want; std::vector<Answer> later; };
struct Rd23 { G23 *g; int id; };
void judge23(G23 &g, const Answer &a) {
  const Str &want = g.want[key16(a.o)];
  if (a.got == want) { sim::probe(a.hit ? 4 : 1); return; }
  if (!a.hit) sim::fail("wrong-later", "after earlier allocation failures the answer is %.400s instead of %.400s", a.got.c_str(), want.c_str());
  if (a.how.res == ALLOC) { sim::probe(2); return; }
  sim::fail("wrong-answer", "when memory ran out the answer is %.400s instead of %.400s or an exception", a.got.c_str(), want.c_str());
}
void body23(void *v) {
  Rd23 &rd = *(Rd23 *)v; G23 &g = *rd.g;
  for (auto &o : g.pl->thr[rd.id]) {
    sim::op_point();
    uint64_t f0 = sim::my_fired(); Answer a; a.o = o;
    a.got = reading(g.sh, o, &a.how); a.hit = sim::my_fired() != f0;
    sim::log(31, a.how.res, a.hit); sim::note("question %s%s: %.300s", key16(o).c_str(), a.hit ? ", memory ran out" : "", a.got.c_str());
    if (cold_run) g.later.push_back(a); else judge23(g, a);
  }
}
}  // namespace
void gen_C23(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  long kind = idx % 5 == 3 ? 15 : 1l << (idx % 5 % 4); if (idx % 5 == 4) kind = 4;
  p.cfg = {kind, seed_of(r), idx % 40 == 11};
  long nt = r.chance(70) ? 1 : 2;
  for (long t = 0; t < nt; t++) { std::vector<Op> v; int n = (int)r.range(1, 10); for (int i = 0; i < n; i++) { int code; do code = (int)r.range(1, 4); while (!(kind >> (code - 1) & 1)); v.push_back(mk(code, 0, (long)r.below(64))); if (r.chance(40)) v.push_back(v.back()); } p.thr.push_back(v); }
  swarm(r, c, plan_ops(p) * 8, false); c.max_steps = 40000000;
  static const uint32_t ra[] = {65535, 65536 / 2, 65536 / 4, 65536 / 12, 65536 / 40, 65536 / 150}; enable(c, sim::F_ALLOC, r.pick(ra), (uint32_t)r.range(1, 8));
}
void run_C23(const Plan &pl) {
  sim::vfs_clear();
  no_text = true;
  std::unique_ptr<G23> g(new G23); g->pl = &pl; Shared twin;
  auto wants = [&] { make_shared16(twin, pl); for (auto &t : pl.thr) for (auto &o : t) if (!g->want.count(key16(o))) g->want[key16(o)] = reading(twin, o); };
  on_thread([&] { Held h; make_shared16(g->sh, pl); if (!cold_run) wants(); });
  std::vector<Rd23> rd(pl.thr.size());
  for (size_t i = 0; i < rd.size(); i++) { rd[i].g = g.get(); rd[i].id = (int)i; sim::spawn(body23, &rd[i]); }
  sim::go();
  if (cold_run) { on_thread([&] { Held h; wants(); }); for (auto &a : g->later) judge23(*g, a); }
  on_thread([&] { Held h; for (auto &t : pl.thr) for (auto &o : t) { Str got = reading(g->sh, o); if (got != g->want[key16(o)]) sim::fail("object-changed", "once memory is back the answer is %.300s instead of %.300s", got.c_str(), g->want[key16(o)].c_str()); sim::log_str(got.data(), got.size()); } });
  sim::vfs_clear();
}

// ================================================================== C17: formatting when memory runs out
namespace {
typedef SoDa::Format_ext<int> FormatX;             // the same through the wrapper that classes derive from
struct S17 { std::optional<SoDa::Format> f, twin; std::optional<FormatX> x; int n = 0; };
Str clean(const SoDa::Format &f) { Held h; Str s; In in; s = f.str(); return s; }
void same17(S17 &s, const char *what) {
  Str a = s.x ? clean(*s.x) : clean(*s.f), b = clean(*s.twin);
  if (a != b) sim::fail("wrong-text", "%s: the text is \"%.300s\" instead of \"%.300s\"", what, a.c_str(), b.c_str());
}
// the faulted call, repeated while it throws, the last time with memory again
template <class F> void stubborn(const char *what, F f) {
  for (int i = 0;; i++) {
    uint64_t f0 = sim::fired(sim::F_ALLOC);
    int res;
    if (i == 3) { Held h; res = guarded(f); } else res = guarded(f);
    sim::log(17, res, i);
    if (res == OK) { if (i) sim::probe(3); return; }
    sim::probe(2);
    if (sim::fired(sim::F_ALLOC) == f0) sim::fail("exception", "%s throws (%s) although memory never ran out during the call", what, res_name[res]);
  }
}
void body17(void *v) {
  const Plan &pl = *(const Plan *)v; S17 s; Str fs;
  for (auto &o : pl.thr[0]) {
    sim::op_point();
    if (o.code == FMT_NEW) {
      fs = format_string((uint64_t)o.b); s.f.reset(); s.twin.reset(); s.x.reset(); bool ext = o.b % 5 == 0;
      { Held h; In in; s.twin.emplace(fs); }
      stubborn("constructing a format", [&] { if (ext) s.x.emplace(fs, &s.n); else s.f.emplace(fs); });
      same17(s, "after construction"); continue;
    }
    if (!s.f && !s.x) continue;
    SoDa::Format &f = s.x ? (SoDa::Format &)*s.x : *s.f;
    switch (o.code) {
    case FMT_ADD:
      if (s.x) { FormatX twin("%0", &s.n); { Held h; In in; ((SoDa::Format &)twin) = *s.twin; apply_add(twin, (uint64_t)o.b); *s.twin = (SoDa::Format &)twin; } }
      else { Held h; In in; apply_add(*s.twin, (uint64_t)o.b); }
      stubborn("adding a value", [&] { if (s.x) apply_add(*s.x, (uint64_t)o.b); else apply_add(*s.f, (uint64_t)o.b); });
      same17(s, "after adding a value"); break;
    case FMT_RESET:
      { Held h; In in; s.twin.emplace(fs); }
      stubborn("resetting", [&] { f.reset(); });
      same17(s, "after a reset"); break;
    case FMT_STR: {
      Str want, got; int wres; bool chk = o.b & 1;
      { Held h; wres = guarded([&] { want = s.twin->str(chk); }); }
      uint64_t f0 = sim::fired(sim::F_ALLOC);
      int res = guarded([&] { got = f.str(chk); });
      bool ran_out = sim::fired(sim::F_ALLOC) != f0;
      if (res == OK && wres == OK && got != want) sim::fail("wrong-text", "str returns \"%.300s\" instead of \"%.300s\"", got.c_str(), want.c_str());
      if (res != wres && !(res != OK && ran_out)) sim::fail("exception", "str ends with %s instead of %s", res_name[res], res_name[wres]);
      same17(s, "after str"); break;
    }
    case FMT_OUT: {
      SinkBuf sb(0); sb.faulty = false; std::ostream os(&sb);
      uint64_t f0 = sim::fired(sim::F_ALLOC);
      int res = guarded([&] { os << f; });
      if (res == OK && os.good() && sb.got != clean(*s.twin)) sim::fail("wrong-text", "the stream got \"%.300s\" instead of \"%.300s\"", sb.got.c_str(), clean(*s.twin).c_str());
      if (res != OK && sim::fired(sim::F_ALLOC) == f0) sim::fail("exception", "streaming throws (%s) although memory never ran out", res_name[res]);
      same17(s, "after streaming"); break;
    }
    }
  }
}
}
void gen_C17(Rng &r, Plan &p, sim::Cfg &c, uint64_t, int) {
  std::vector<Op> v; int rounds = (int)r.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    long fs = seed_of(r); bool big = r.chance(6); if (big) fs -= fs % 23;
    v.push_back(mk(FMT_NEW, 0, fs)); int n = (int)r.range(1, big ? 80 : 14);
    for (int i = 0; i < n; i++) { static const int ops[] = {FMT_ADD, FMT_ADD, FMT_ADD, FMT_ADD, FMT_ADD, FMT_ADD, FMT_STR, FMT_OUT, FMT_RESET}; v.push_back(mk(r.pick(ops), 0, seed_of(r))); }
  }
  p.thr.push_back(v);
  swarm(r, c, plan_ops(p), false); c.strategy = sim::S_SYNC;
  static const uint32_t rates[] = {65535, 65536 / 2, 65536 / 4, 65536 / 10, 65536 / 30, 65536 / 100};
  enable(c, sim::F_ALLOC, r.pick(rates), r.chance(40) ? 1 : (uint32_t)r.range(2, 30));
}
void run_C17(const Plan &p) { sim::spawn(body17, (void *)&p); sim::go(); }

// ================================================================== C18: failed parses leave no trace
namespace {
enum { BADPARSE = 1, CLEANPARSE };
struct Fresh { bool ok; Vars v; std::map<int, bool> present; std::vector<Str> pos; };
Fresh fresh_parse(const ParserSpec &ps, const std::list<Str> &tok, int form, int sentinel) {
  Held h; Fresh f; Vars v; std::optional<SoDa::Options> o;
  { In in; o.emplace(ps.kvp); build_parser(*o, ps, v); }
  v.sentinel(sentinel);
  f.ok = false;
  int res = guarded([&] { f.ok = do_parse(*o, ps, tok, form); });
  if (res != OK) sim::fail("exception", "a parse by a fresh parser throws (%s)", res_name[res]);
  for (auto &s : ps.opt) { bool b = false; { In in; b = o->isPresent(s.name); } f.present[s.type] = b; }
  { In in; f.pos = o->getPosArgs(); }
  f.v = v;
  In in; o.reset();
  return f;
}
Str show(const std::list<Str> &t) { Str s; for (auto &x : t) s += (s.empty() ? "" : " ") + x; return s; }
struct Before { size_t pos, n[NTYPE]; };
void compare18(SoDa::Options &o, const ParserSpec &ps, Vars &v, const Before &b, const std::list<Str> &tok, int form, bool ok, const char *when) {
  Fresh f0 = fresh_parse(ps, tok, form, 0), f1 = fresh_parse(ps, tok, form, 1);
  Held h;
  if (ok != f0.ok) sim::fail("result", "%s the parse of \"%.300s\" returns %s, a fresh parser returns %s", when, show(tok).c_str(), ok ? "true" : "false", f0.ok ? "true" : "false");
  for (auto &s : ps.opt) {
    int t = s.type;
    if (is_list(t)) { if (v.tail(t, b.n[t]) != f0.v.tail(t, 0)) sim::fail("list", "%s the parse of \"%.300s\" adds %.100s to list option %s, a fresh parser adds %.100s", when, show(tok).c_str(), v.tail(t, b.n[t]).c_str(), s.name.c_str(), f0.v.tail(t, 0).c_str()); }
    else if (f0.v.text(t) == f1.v.text(t) && v.text(t) != f0.v.text(t)) sim::fail("value", "%s the parse of \"%.300s\" sets option %s to %s, a fresh parser to %s", when, show(tok).c_str(), s.name.c_str(), v.text(t).c_str(), f0.v.text(t).c_str());
    bool pr = false, pa = false; { In in; pr = o.isPresent(s.name); pa = o.isPresent(s.ab); }
    if (f0.present[t] && !(pr && pa)) sim::fail("presence", "%s after the parse of \"%.300s\" option %s is not reported present", when, show(tok).c_str(), s.name.c_str());
  }
  std::vector<Str> pos; { In in; pos = o.getPosArgs(); }
  if (pos.size() < b.pos || std::vector<Str>(pos.begin() + (long)b.pos, pos.end()) != f0.pos) {
    std::list<Str> a(pos.begin() + (long)std::min(b.pos, pos.size()), pos.end()), w(f0.pos.begin(), f0.pos.end());
    sim::fail("positional", "%s the parse of \"%.300s\" adds positional arguments (%.200s), a fresh parser adds (%.200s)", when, show(tok).c_str(), show(a).c_str(), show(w).c_str());
  }
}
void body18(void *vp) {
  const Plan &pl = *(const Plan *)vp; ParserSpec ps = parser_spec((uint64_t)pl.cfg[0]); Vars v; std::optional<SoDa::Options> o;
  { Held h; In in; o.emplace(ps.kvp); build_parser(*o, ps, v); }
  auto before = [&] { Before b; In in; b.pos = (size_t)o->numPosArgs(); for (int t = 0; t < NTYPE; t++) b.n[t] = v.list_size(t); return b; };
  bool dirty = false; std::list<Str> last_bad, last_clean;
  for (auto &op : pl.thr[0]) {
    sim::op_point();
    int what = (int)op.b, form = (int)(op.c % 6), mode = (int)(op.c / 6);
    std::list<Str> tok = token_list(ps, (uint64_t)op.a, what);
    // people repeat themselves: the failed line again, or a part of it, or the line before, or what has been left behind
    if (op.code == CLEANPARSE && mode) {
      std::list<Str> t;
      switch (mode) {
      case 1: t = last_bad; break;
      case 2: { Held h; std::vector<Str> pa; { In in; pa = o->getPosArgs(); } for (auto &x : pa) t.push_back(x); break; }
      case 3: t = last_clean; break;
      case 4: t = last_bad; while (t.size() > 1 && (t.back().size() == 0 || t.back()[0] != '-')) t.pop_back(); if (!t.empty()) t.pop_back(); break;
      default: t = last_bad; t.insert(t.end(), tok.begin(), tok.end());
      }
      if (!t.empty()) { tok = t; sim::probe(10); }
    }
    (op.code == BADPARSE ? last_bad : last_clean) = tok;
    Before b = before(); bool ok = false; errbuf->text[0].clear();
    if (op.code == BADPARSE) {
      dirty = true; if (what) sim::injected(sim::F_INPUT);
      // mode 0: no faults, 1: memory runs out, 2: broken error stream, 3: error stream that throws, 4: error stream that breaks on the way
      if (mode == 2) std::cerr.setstate(std::ios::badbit);
      if (mode == 3) std::cerr.exceptions(std::ios::badbit);
      if (mode >= 3) errbuf->mode = 1;
      uint64_t f0 = sim::fired(sim::F_ALLOC);
      int res;
      { bool hold = mode != 1; if (hold) sim::hold_faults(true); res = guarded([&] { ok = do_parse(*o, ps, tok, form); }); if (hold) sim::hold_faults(false); }
      errbuf->mode = 0; std::cerr.exceptions(std::ios::goodbit); std::cerr.clear();
      bool ran_out = sim::fired(sim::F_ALLOC) != f0;
      sim::log(18, res, ok, ran_out);
      sim::note("disturbed parse (%s, mode %d): %s, %s%s", show(tok).c_str(), mode, res_name[res], ok ? "true" : "false", ran_out ? ", memory ran out" : "");
      if (res == OK && ok && ran_out) compare18(*o, ps, v, b, tok, form, ok, "although memory ran out,");
      if (res != OK) sim::probe(5); else if (!ok) sim::probe(4);
      if (ran_out) sim::probe(6);
    } else {
      Held h;
      int res = guarded([&] { ok = do_parse(*o, ps, tok, form); });
      sim::note("clean parse (%s): %s, %s", show(tok).c_str(), res_name[res], ok ? "true" : "false");
      if (res != OK) sim::fail("exception", "a parse of \"%.300s\" throws (%s) after failed ones", show(tok).c_str(), res_name[res]);
      compare18(*o, ps, v, b, tok, form, ok, dirty ? "after a disturbed parse" : "on a repeated use");
      sim::probe(7);
    }
  }
  In in; o.reset();
}
}
void gen_C18(Rng &r, Plan &p, sim::Cfg &c, uint64_t, int) {
  p.cfg = {seed_of(r)}; std::vector<Op> v; int rounds = (int)r.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    int n = (int)r.range(r.chance(10) ? 0 : 1, 4);
    for (int i = 0; i < n; i++) { int mode = r.chance(45) ? 0 : (int)r.range(1, 3); int what = mode >= 2 ? (r.chance(50) ? 1 : (r.chance(50) ? 2 : 4)) : (int)r.range(1, 5); if (mode == 1 && r.chance(60)) what = 0; v.push_back(mk(BADPARSE, seed_of(r), what, (long)r.below(6) + 6 * mode)); }
    v.push_back(mk(CLEANPARSE, seed_of(r), r.chance(75) ? 0 : (int)r.range(1, 5), (long)r.below(6) + (r.chance(40) ? 6 * r.range(1, 5) : 0)));
    if (r.chance(15)) v.push_back(mk(CLEANPARSE, seed_of(r), 0, (long)r.below(6) + 6 * r.range(1, 5)));
  }
  p.thr.push_back(v);
  swarm(r, c, plan_ops(p), false); c.strategy = sim::S_SYNC;
  static const uint32_t rates[] = {65536 / 2, 65536 / 5, 65536 / 15, 65536 / 40, 65536 / 100};
  enable(c, sim::F_ALLOC, r.pick(rates), (uint32_t)r.range(1, 6));
  enable(c, sim::F_SINK, r.chance(50) ? 65535 : 65536 / 6, (uint32_t)r.range(1, 4));
}
void run_C18(const Plan &p) { errbuf->mode = 0; std::cerr.clear(); sim::spawn(body18, (void *)&p); sim::go(); }

// ================================================================== C19: failing output streams
namespace {
enum { WRITE = 1 };
void body19(void *vp) {
  const Plan &pl = *(const Plan *)vp; Shared s; { Held h; make_shared16(s, pl); }
  auto write = [&](std::ostream &os, int what) { switch (what) { case 1: os << *s.f; break; case 2: s.o->printHelp(os); break; default: s.t->dump(os); } };
  int what = pl.cfg[0] == 4 ? 3 : (int)pl.cfg[0];
  Str full; { Held h; std::ostringstream o; { In in; write(o, what); } full = o.str(); }
  auto all = [&] { if (what == 1) { Held h; Str x; { In in; x = s.f->str(); } return x; } Held h; std::ostringstream o; { In in; write(o, what); } return o.str(); };
  for (auto &op : pl.thr[0]) {
    sim::op_point();
    SinkBuf sb((int)op.a); bool unit = (op.b & 4) != 0;   // an exception during the flush of a unitbuf stream terminates in libstdc++ itself
    sb.throws = (op.b & 1) && !unit; std::ostream os(&sb);
    if ((op.b & 2) && !unit && !(op.b & 8)) os.exceptions(std::ios::badbit);
    if (unit) os << std::unitbuf;
    if (op.b & 8) { sb.faulty = true; os.setstate(op.b & 16 ? std::ios::failbit : std::ios::badbit); }
    uint64_t f0 = sim::fired(sim::F_SINK);
    int res = guarded([&] { write(os, what); });
    bool tail_ok = true;
    if (res == OK) { res = guarded([&] { os.flush(); }); }
    (void)tail_ok;
    bool hit = sim::fired(sim::F_SINK) != f0; bool good = os.good();
    sim::log(19, res, good, sb.got.size()); sim::log_str(sb.got.data(), sb.got.size());
    if (full.compare(0, sb.got.size(), sb.got) != 0) { size_t d = 0; while (d < full.size() && d < sb.got.size() && full[d] == sb.got[d]) d++; sim::fail("not-a-prefix", "the sink holds \"%.200s\" which is not a prefix of the text (it differs at byte %zu)", sb.got.substr(d < 30 ? 0 : d - 30, 200).c_str(), d); }
    if (good && sb.got.size() != full.size()) sim::fail("false-success", "the stream is good but only %zu of %zu bytes were accepted", sb.got.size(), full.size());
    if (res != OK && !os.exceptions()) sim::fail("exception", "writing to a stream that does not throw ends with %s", res_name[res]);
    if (hit) sim::probe(8); else sim::probe(9);
    if (all() != full) sim::fail("object-changed", "after a write to a failing stream the object's text is different");
    if (op.b & 32) { os.clear(); sb.faulty = false; sb.throws = 0; SinkBuf s2(0); s2.faulty = false; os.rdbuf(&s2); if (os.exceptions()) os.exceptions(std::ios::goodbit); { Held h; In in; write(os, what); os.flush(); } if (s2.got != full) sim::fail("rewrite", "writing again to the repaired stream gives %zu bytes instead of the %zu of the full text", s2.got.size(), full.size()); }
  }
}
}
void gen_C19(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  p.cfg = {1l << (idx % 3), seed_of(r), r.chance(10)}; std::vector<Op> v; int n = (int)r.range(1, 6);
  for (int i = 0; i < n; i++) v.push_back(mk(WRITE, r.chance(40) ? 0 : r.range(1, 64), (long)((r.chance(25) ? 1 : 0) | (r.chance(25) ? 2 : 0) | (r.chance(15) ? 4 : 0) | (r.chance(6) ? 8 : 0) | (r.chance(50) ? 16 : 0) | (r.chance(50) ? 32 : 0))));
  p.thr.push_back(v);
  swarm(r, c, plan_ops(p), false); c.strategy = sim::S_SYNC;
  static const uint32_t rates[] = {65535, 65536 / 3, 65536 / 8, 65536 / 25};
  enable(c, sim::F_SINK, r.pick(rates), (uint32_t)r.range(1, 6));
}
void run_C19(const Plan &p) { sim::vfs_clear(); sim::spawn(body19, (void *)&p); sim::go(); sim::vfs_clear(); }

// ================================================================== tables
static const char *const probes_util[] = {"threads compared with their solo run", "concurrent readings compared", "calls that threw for lack of memory", "failed calls repeated successfully", "parses that returned failure", "parses ended by an exception", "parses during which memory ran out", "clean parses compared with a fresh parser", "writes that met a failing sink", "writes that met no fault", "lines that repeat earlier ones", nullptr};
static const char *const probes_ask[] = {"", "questions answered without a failure", "questions that threw for lack of memory", "", "questions answered rightly although memory ran out", nullptr};
void setup() {
  errbuf = new ErrBuf; std::cerr.rdbuf(errbuf); std::cerr.tie(nullptr);
  sim::race_ignore(&std::cerr, sizeof std::cerr); sim::race_ignore(&std::cout, sizeof std::cout); sim::race_ignore(errbuf, sizeof *errbuf);
}
void warmup() {
  for (uint64_t k = 0; k < 200; k++) { try { SoDa::Format f(format_string(k)); for (uint64_t j = 0; j < 14; j++) apply_add(f, k * 100 + j); f.str(true); } catch (SoDa::Exception &) {} }
  for (uint64_t k = 0; k < 100; k++) { ParserSpec p = parser_spec(k); Vars v; SoDa::Options o(p.kvp); build_parser(o, p, v); for (int w = 0; w < 6; w++) do_parse(o, p, token_list(p, k * 10 + w, w), (int)k + w); std::ostringstream s; o.printHelp(s); }
  { auto b = SoDa::makeMailBox<Str>("warm"); auto s = b->subscribe(); b->put(std::make_shared<Str>("x")); b->get(s); }
  warmup_props();
}
#define S(p, leak, pr) {#p, gen_##p, run_##p, leak, pr}
const Scenario scenarios[] = {S(C15, false, probes_util), S(C16, false, probes_util), S(C17, false, probes_util), S(C18, false, probes_util), S(C19, false, probes_util), S(C23, false, probes_ask), S(C20, false, probes_props), S(C21, false, probes_props), S(C22, false, probes_props)};
const int nscenarios = sizeof scenarios / sizeof scenarios[0];

// Property files on an unreliable disk: C20 (load), C21 (failed loads), C22 (write).
#include "scen_util.h"
#include <optional>
using namespace u;

namespace {
Op mk(int code, long a = 0, long b = 0, long c = 0) { Op o = {code, a, b, c}; return o; }
long seed_of(Rng &r) { return (long)(r.next() >> 2); }
const char *FILE_A = "/simfs/conf.yaml";
void put(const char *path, const Str &t) { sim::note("the file is now:\n%.3000s", t.c_str()); sim::vfs_put(path, t.data(), t.size()); }
template <class N> auto raw_text(N *n, int) -> decltype(Str(n->val_string)) { return n->val_string; }
template <class N> Str raw_text(N *, long) { return Str("\001"); }

// everything of d is in t, under its path
void check_doc(Tree &t, const Doc &d, const char *when, bool root_list_exact) {
  Held h;
  for (auto &l : d.leaf) {
    Str v, what; bool ok = false;
    int res = guarded([&] { ok = t.get(v, l.path, false); }, &what);
    if (res != OK) sim::fail("lost", "%s: asking for %s ends with %s (%.100s)", when, l.path.c_str(), res_name[res], what.c_str());
    if (!ok) sim::fail("lost", "%s: property %s is missing", when, l.path.c_str());
    if (v != first_word(l.text)) sim::fail("wrong-value", "%s: property %s is \"%.100s\" instead of \"%.100s\"", when, l.path.c_str(), v.c_str(), first_word(l.text).c_str());
    if (l.type == 1) { long n = 0; res = guarded([&] { ok = t.get(n, l.path, true); }); if (res != OK || !ok || num(n) != l.text) sim::fail("wrong-value", "%s: property %s reads as integer %ld instead of %s", when, l.path.c_str(), n, l.text.c_str()); }
    if (l.type == 2) { double n = 0; res = guarded([&] { ok = t.get(n, l.path, true); }); if (res != OK || !ok || n != strtod(l.text.c_str(), nullptr)) sim::fail("wrong-value", "%s: property %s reads as %.17g instead of %s", when, l.path.c_str(), n, l.text.c_str()); }
    if (auto *top = top_of(t)) {
      Str raw; res = guarded([&] { auto *n = top->getProp(l.path, true); raw = n ? raw_text(n, 0) : Str("no node"); });
      if (res != OK || (raw != "\001" && raw != l.text)) sim::fail("wrong-value", "%s: the node of %s holds \"%.100s\" instead of \"%.100s\"", when, l.path.c_str(), raw.c_str(), l.text.c_str());
    }
  }
  if (auto *top = top_of(t)) for (auto &kv : d.lists) {
    std::vector<Str> got; bool found = true;
    int res = guarded([&] { auto *n = kv.first.empty() ? top : top->getProp(kv.first, true); if (!n) { found = false; return; } for (auto *e : n->getList()) { Str v; e->get(v, true); got.push_back(v); } });
    if (res != OK || !found) sim::fail("lost", "%s: the list under %s cannot be read (%s)", when, kv.first.c_str(), res_name[res]);
    if (kv.first.empty() && !root_list_exact) {
      for (auto &w : kv.second) { bool in = false; for (auto &g : got) in |= g == w; if (!in) sim::fail("lost", "%s: list item %s is missing", when, w.c_str()); }
    } else if (got != kv.second) sim::fail("wrong-list", "%s: the list under %s has %zu items instead of %zu, or other ones", when, kv.first.c_str(), got.size(), kv.second.size());
  }
}
void check_absent(Tree &t, const std::vector<Leaf> &leaf, const char *when) {
  Held h;
  for (auto &l : leaf) {
    Str v("untouched"); bool ok = false;
    int res = guarded([&] { ok = t.get(v, l.path, false); });
    if (res == OK && ok) sim::fail("half-loaded", "%s: property %s of the failed file shows (\"%.60s\")", when, l.path.c_str(), v.c_str());
    if (res != OK && res != NOTFOUND) sim::fail("half-loaded", "%s: asking for absent %s ends with %s", when, l.path.c_str(), res_name[res]);
  }
}
void check_missing(Tree &t, const Doc &d, uint64_t seed) {
  Rng r(seed); Held h;
  for (int i = 0; i < 3; i++) {
    Str path = d.leaf.empty() ? "A" + word(r, 1, 9) : d.leaf[r.below(d.leaf.size())].path;
    switch (r.below(4)) { case 0: path += "zz"; break; case 1: path = "Z" + path; break; case 2: path += ":deeper"; break; default: path = path.substr(0, path.rfind(':') == Str::npos ? 0 : path.rfind(':') + 1) + "Zabsent"; }
    if (r.chance(30)) path += ":deeper";
    Str v("untouched"), what; long n = 77; bool ok = false;
    int res = guarded([&] { ok = r.chance(50) ? t.get(v, path, false) : t.get(n, path, false); }, &what);
    if (res != OK) sim::fail("absent", "asking for %s, which the file does not define, ends with %s although no exception was asked for", path.c_str(), res_name[res]);
    if (ok) sim::fail("absent", "property %s is found although the file does not define it", path.c_str());
    if (v != "untouched" || n != 77) sim::fail("absent", "asking for absent %s changes the caller's variable", path.c_str());
    res = guarded([&] { ok = t.get(v, path, true); }, &what);
    if (res != NOTFOUND) sim::fail("absent", "asking for absent %s, with exceptions, ends with %s", path.c_str(), res_name[res]);
  }
}
struct Cnt { uint64_t n[sim::NFAULT]; Cnt() { for (int k = 0; k < sim::NFAULT; k++) n[k] = sim::fired((sim::Fault)k); } uint64_t since(sim::Fault k) const { return sim::fired(k) - n[k]; } uint64_t disk() const { return since(sim::F_OPEN) + since(sim::F_RD_SHORT) + since(sim::F_RD_EINTR) + since(sim::F_RD_EIO) + since(sim::F_WR_SHORT) + since(sim::F_WR_ERR) + since(sim::F_CLOSE); } };
int doc_size(Rng &r) { return r.chance(3) ? 0 : r.chance(55) ? (int)r.range(1, 12) : r.chance(75) ? (int)r.range(10, 80) : (int)r.range(150, 900); }

// ================================================================== C20
enum { LOAD = 1, GOOD, BAD, WRITE };
void body20(void *vp) {
  const Plan &pl = *(const Plan *)vp; int round = 0; std::optional<Tree> t; bool filled = false; Str pre;
  for (auto &o : pl.thr[0]) {
    sim::op_point();
    // every round has its own top-level names, or those of the file before, which it then replaces
    bool keep = filled && (o.c & 4), again = keep && (o.c & 8);
    if (!again) pre = Str(1, (char)('a' + round++ % 26));
    Doc d = make_doc((uint64_t)o.a, pre, (int)o.b);
    bool ctor = !keep && (o.c & 1), missing = o.c & 2;
    sim::vfs_clear(); if (!missing) put(FILE_A, d.yaml); else sim::injected(sim::F_INPUT);
    Str what; Cnt c;
    if (!keep) { Held h; In in; t.reset(); filled = false; if (!ctor) t.emplace(); }
    if (keep && !again && (o.c & 32)) check_absent(*t, d.leaf, "before the file that defines it is loaded");
    int res = guarded([&] { if (ctor) t.emplace(FILE_A); else t->readFile(FILE_A); }, &what);
    sim::log(20, res, d.yaml.size()); sim::log_str(what.data(), what.size());
    sim::note("load of %zu bytes (%zu leaves)%s: %s %.200s", d.yaml.size(), d.leaf.size(), missing ? ", absent" : "", res_name[res], what.c_str());
    bool only_open = !c.since(sim::F_ALLOC) && !c.since(sim::F_RD_EIO);
    if (missing) {
      if (res == OK) sim::fail("missing-file", "loading a file that does not exist returns normally");
      if (res != NOFILE && !c.since(sim::F_ALLOC)) sim::fail("missing-file", "loading a file that does not exist ends with %s (%.100s) instead of FileNotFound", res_name[res], what.c_str());
      sim::probe(3);
    } else if (res == OK) {
      check_doc(*t, d, keep ? "after a second load that returned normally" : "after a load that returned normally", !keep);
      if (!keep) check_missing(*t, d, (uint64_t)o.a);
      filled = true; if (keep) sim::probe(5); if (again) sim::probe(10);
      sim::probe(c.disk() || c.since(sim::F_ALLOC) ? 0 : 1);
      if (d.yaml.size() > 8191) sim::probe(4);
    } else {
      if (!all_fired()) sim::fail("refused", "loading an intact file from a healthy disk ends with %s (%.200s)", res_name[res], what.c_str());
      if (!c.disk() && !c.since(sim::F_ALLOC)) sim::fail("refused", "loading an intact file from a healthy disk ends with %s (%.200s) after an earlier failure", res_name[res], what.c_str());
      if (c.since(sim::F_OPEN) && only_open && !c.since(sim::F_RD_SHORT) && !c.since(sim::F_RD_EINTR) && res != NOFILE) sim::fail("missing-file", "a file that cannot be opened ends with %s (%.100s) instead of FileNotFound", res_name[res], what.c_str());
      sim::probe(2);
      // the disk is healthy again
      std::optional<Tree> t2; Held h;
      if (t && (o.c & 16)) {
        int r2 = guarded([&] { t->readFile(FILE_A); }, &what);
        if (r2 != OK) sim::fail("refused", "loading again, into the same tree, from a healthy disk ends with %s (%.200s)", res_name[r2], what.c_str());
        check_doc(*t, d, "after loading again into the same tree", !keep);
        filled = true; continue;
      }
      int r2 = guarded([&] { t2.emplace(FILE_A); }, &what);
      if (r2 != OK) sim::fail("refused", "loading again from a healthy disk ends with %s (%.200s)", res_name[r2], what.c_str());
      check_doc(*t2, d, "after loading again", true);
      In in; t2.reset(); t.reset(); filled = false;
    }
  }
  In in; t.reset();
}
}  // namespace
void gen_C20(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  std::vector<Op> v; int n = (int)r.range(1, 4); int big = idx % 12 == 5;
  for (int i = 0; i < n; i++) v.push_back(mk(LOAD, seed_of(r), idx % 48 == 29 ? (i ? r.range(1, 12) : idx % 384 == 29 ? 6000 : r.range(1001, 2600)) : big ? r.range(150, 900) : r.chance(4) ? 0 : r.chance(75) ? r.range(1, 12) : r.range(10, 80), (long)((r.chance(50) ? 1 : 0) | (r.chance(6) ? 2 : 0) | (r.chance(35) ? 4 : 0) | (r.chance(50) ? 8 : 0) | (r.chance(50) ? 16 : 0) | (r.chance(30) ? 32 : 0))));
  p.thr.push_back(v);
  swarm(r, c, plan_ops(p), false); c.strategy = sim::S_SYNC; c.max_steps = 60000000;
  static const uint32_t rates[] = {65535, 65536 / 2, 65536 / 4, 65536 / 10};
  for (int k = 0; k < 2; k++) switch (r.below(6)) {
    case 0: enable(c, sim::F_OPEN, 65536 / 3, 2); break;
    case 1: enable(c, sim::F_RD_SHORT, r.pick(rates), (uint32_t)r.range(1, 200)); break;
    case 2: enable(c, sim::F_RD_EINTR, r.pick(rates) / 2, (uint32_t)r.range(1, 20)); break;
    case 3: case 4: enable(c, sim::F_RD_EIO, r.pick(rates), (uint32_t)r.range(1, 3)); break;
    default: { static const uint32_t ra[] = {65536 / 20, 65536 / 200, 65536 / 2000}; enable(c, sim::F_ALLOC, r.pick(ra), (uint32_t)r.range(1, 3)); }
  }
}
void run_C20(const Plan &p) { sim::vfs_clear(); sim::spawn(body20, (void *)&p); sim::go(); sim::vfs_clear(); }

// ================================================================== C21
namespace {
enum { B_MISSING = 0, B_SYNTAX, B_UNSUPPORTED, B_FAULT, NBAD };
Str open_ended(Str s) { if (s.size() > 5 && s.compare(s.size() - 4, 4, "...\n") == 0) s.erase(s.size() - 4); if (!s.empty() && s.back() != '\n') s += '\n'; return s; }
Str break_syntax(const Str &yaml, Rng &r) {
  Str s = open_ended(yaml);
  static const char *tail[] = {"zz: [1, 2\n", "zz: \"never closed\nyy: 1\n", "zz: {a: 1, b\nyy: ]\n", "zz: 1\n  bad indent: : :\n\t- x\n", "zz: *nowhere\n", "zz: a\n - b\n- c\n", "%%%\nzz: @x\n", "zz: `x`\n"};
  s += tail[r.below(8)];
  return s;
}
Str unsupported(const Str &yaml_, Rng &r) {
  Str yaml = open_ended(yaml_);
  switch (r.below(5)) {
  case 0: return yaml + "? [a, b]\n: c\n";
  case 1: return "- a\n- b\n";
  case 2: return yaml + "zz:\n  - [1, 2]\n  - [3]\n";
  case 3: return yaml + "? {q: r}\n: {s: t}\n";
  default: return yaml + "zz:\n  y1: deep\n  ? [a, b]\n  : c\n";
  }
}
void body21(void *vp) {
  const Plan &pl = *(const Plan *)vp; std::optional<Tree> t; { Held h; In in; t.emplace(); }
  std::vector<Doc> in_tree; std::vector<Str> prefix; int serial = 0, nbad = 0, loads = 0;
  for (auto &o : pl.thr[0]) {
    sim::op_point(); Rng r((uint64_t)o.a); char when[80];
    sim::vfs_clear();
    if (o.code == GOOD) {
      // sometimes its top-level names are those of an earlier file, which it then may replace
      bool again = o.c > 0 && !in_tree.empty(); Str pre = again ? prefix[(size_t)o.c % prefix.size()] : Str(1, (char)('a' + serial++ % 26));
      Doc d = make_doc((uint64_t)o.a, pre, (int)o.b); put(FILE_A, d.yaml); Str what;
      Held h; int res = guarded([&] { t->readFile(FILE_A); }, &what);
      sim::note("good load: %s", res_name[res]);
      if (res != OK) sim::fail("refused", "loading an intact file ends with %s (%.200s)", res_name[res], what.c_str());
      for (size_t i = in_tree.size(); i-- > 0;) if (prefix[i] == pre) { in_tree.erase(in_tree.begin() + (long)i); prefix.erase(prefix.begin() + (long)i); }
      in_tree.push_back(d); prefix.push_back(pre); loads++; snprintf(when, sizeof when, "after loading file %d", loads);
      sim::log(21, in_tree.size());
      for (auto &x : in_tree) check_doc(*t, x, when, loads == 1);
      if (loads > 1) sim::probe(5);
      if (again) sim::probe(10);
      continue;
    }
    // a load that fails; half of the time it uses names the tree already has
    bool reuse = !in_tree.empty() && r.chance(50);
    Str bpre = reuse ? prefix[r.below(prefix.size())] : "X" + num(nbad++) + "_";
    Doc b = make_doc(reuse && r.chance(40) ? (uint64_t)pl.thr[0][0].a : r.next(), bpre, (int)o.b);
    Str before, what; { Held h; before = dump_of(*t); }
    int kind = (int)o.c % NBAD;
    if (kind != B_FAULT) sim::injected(sim::F_INPUT);
    if (kind != B_MISSING) put(FILE_A, kind == B_SYNTAX ? break_syntax(b.yaml, r) : kind == B_UNSUPPORTED ? unsupported(b.yaml, r) : b.yaml);
    int res; Cnt c;
    if (kind == B_FAULT) res = guarded([&] { t->readFile(FILE_A); }, &what);
    else { Held h; res = guarded([&] { t->readFile(FILE_A); }, &what); }
    sim::log(22, kind, res);
    sim::note("disturbed load (kind %d): %s %.200s", kind, res_name[res], what.c_str());
    if (res == OK) {
      if (kind == B_MISSING) sim::fail("missing-file", "loading a file that does not exist returns normally");
      sim::probe(7);
      if (kind == B_FAULT && !reuse) { in_tree.push_back(b); prefix.push_back(bpre); loads++; for (auto &x : in_tree) check_doc(*t, x, "after a load that met faults but returned normally", loads == 1); continue; }
      return;                                  // what an accepted file of this kind leaves behind is not specified
    }
    sim::probe(6);
    Held h; static const char *kn[] = {"missing file", "syntax error", "unsupported structure", "disk or memory failure"};
    snprintf(when, sizeof when, "after a failed load (%s)", kn[kind]);
    for (auto &x : in_tree) check_doc(*t, x, when, loads == 1);
    if (!reuse && kind != B_MISSING) check_absent(*t, b.leaf, when);
    Str after = dump_of(*t);
    if (after == before && !reuse && r.chance(40)) {           // the same file, intact now
      put(FILE_A, b.yaml); res = guarded([&] { t->readFile(FILE_A); }, &what);
      if (res != OK) sim::fail("refused", "loading the file again, now intact, ends with %s (%.200s)", res_name[res], what.c_str());
      in_tree.push_back(b); prefix.push_back(bpre); loads++; sim::probe(11);
      for (auto &x : in_tree) check_doc(*t, x, "after loading again what had failed", loads == 1);
      continue;
    }
    if (after != before) { size_t d = 0; while (d < after.size() && d < before.size() && after[d] == before[d]) d++; sim::fail("changed", "%s the dump of the tree is different: \"...%.100s\" was \"...%.100s\"", when, after.substr(d < 20 ? 0 : d - 20, 100).c_str(), before.substr(d < 20 ? 0 : d - 20, 100).c_str()); }
  }
  In in; t.reset();
}
}
void gen_C21(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  std::vector<Op> v; int n = (int)r.range(1, 7); int focus = (int)r.below(NBAD + 2);
  for (int i = 0; i < n; i++) {
    if (r.chance(i == 0 ? 75 : 30)) v.push_back(mk(GOOD, seed_of(r), doc_size(r), r.chance(20) ? r.range(1, 9) : 0));
    else v.push_back(mk(BAD, seed_of(r), r.chance(90) ? r.range(1, 15) : r.range(20, 120), focus < NBAD && r.chance(70) ? focus : (long)r.below(NBAD)));
  }
  if (r.chance(60)) v.push_back(mk(GOOD, seed_of(r), r.range(1, 12), r.chance(20) ? r.range(1, 9) : 0));
  for (auto &o : v) if (o.b > 150) o.b = idx % 100 == 37 ? 1500 : 150;
  p.thr.push_back(v);
  swarm(r, c, plan_ops(p), false); c.strategy = sim::S_SYNC; c.max_steps = 60000000;
  switch (r.below(5)) {
  case 0: enable(c, sim::F_RD_EIO, 65536 / (uint32_t)r.range(1, 4), 3); break;
  case 1: enable(c, sim::F_OPEN, 65535, 3); break;
  default: { static const uint32_t ra[] = {65536 / 10, 65536 / 100, 65536 / 400, 65536 / 1500}; enable(c, sim::F_ALLOC, r.pick(ra), (uint32_t)r.range(1, 4)); if (r.chance(30)) enable(c, sim::F_RD_SHORT, 65536 / 2, 30); }
  }
}
void run_C21(const Plan &p) { sim::vfs_clear(); sim::spawn(body21, (void *)&p); sim::go(); sim::vfs_clear(); }

// ================================================================== C22
namespace {
void body22(void *vp) {
  const Plan &pl = *(const Plan *)vp;
  for (auto &o : pl.thr[0]) {
    sim::op_point(); sim::vfs_clear();
    Doc d = make_doc((uint64_t)o.a, "a", (int)o.b); put(FILE_A, d.yaml);
    std::optional<Tree> t; { Held h; In in; t.emplace(FILE_A); }
    if (o.c & 1) put("/simfs/out.yaml", "old: content\n");
    Str before, what; { Held h; before = dump_of(*t); }
    Cnt c; uint64_t opens = sim::vfs_opens();
    int res = guarded([&] { t->writeFile("/simfs/out.yaml"); }, &what);
    sim::log(23, res); sim::note("writeFile: %s %.200s", res_name[res], what.c_str());
    { Held h; if (dump_of(*t) != before) sim::fail("changed", "writing the tree to a file changes the tree"); }
    if (res == OK) {
      size_t n = 0; const char *f = sim::vfs_get("/simfs/out.yaml", &n);
      if (sim::vfs_opens() == opens) {
        if (is_known("stub:no-file")) { sim::probe(9); In in; t.reset(); continue; }
        sim::fail("stub:no-file", "writeFile returns normally without having opened any file");
      }
      if (!f) sim::fail("no-file", "writeFile returns normally but there is no file");
      if (c.since(sim::F_CLOSE)) sim::fail("close-ignored", "writeFile returns normally although closing the file failed");
      std::optional<Tree> u; Held h; int r2 = guarded([&] { u.emplace("/simfs/out.yaml"); }, &what);
      if (r2 != OK) sim::fail("unreadable", "the written file cannot be loaded: %s (%.200s)", res_name[r2], what.c_str());
      check_doc(*u, d, "in the file that was written", true);
      if (dump_of(*u) != before) sim::fail("different", "the written file holds a different tree");
      sim::probe(8); In in; u.reset();
    } else if (!c.disk() && !c.since(sim::F_ALLOC)) sim::fail("refused", "writing to a healthy disk ends with %s (%.200s)", res_name[res], what.c_str());
    In in; t.reset();
  }
}
}
void gen_C22(Rng &r, Plan &p, sim::Cfg &c, uint64_t, int) {
  std::vector<Op> v; int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) v.push_back(mk(WRITE, seed_of(r), r.chance(5) ? 0 : r.chance(80) ? r.range(1, 20) : r.range(20, 300), (long)r.below(2)));
  p.thr.push_back(v);
  swarm(r, c, plan_ops(p), false); c.strategy = sim::S_SYNC; c.max_steps = 60000000;
  switch (r.below(6)) {
  case 0: enable(c, sim::F_OPEN, 65535, 2); break;
  case 1: enable(c, sim::F_WR_ERR, 65536 / (uint32_t)r.range(1, 3), 3); break;
  case 2: enable(c, sim::F_WR_SHORT, 65536 / 2, 50); break;
  case 3: enable(c, sim::F_CLOSE, 65535, 3); break;
  case 4: enable(c, sim::F_ALLOC, 65536 / 60, 2); break;
  }
}
void run_C22(const Plan &p) { sim::vfs_clear(); sim::spawn(body22, (void *)&p); sim::go(); sim::vfs_clear(); }

const char *const probes_props[] = {"loads that met faults and were complete", "loads without faults", "loads that threw", "loads of a missing file", "loads of more than one stream buffer", "further files loaded into a filled tree", "failed loads compared with the tree before", "disturbed loads that succeeded", "written files read back", "writes not performed at all", "files loaded over an earlier one", "failed files loaded again", nullptr};
void warmup_props() {
  sim::vfs_offline(true);
  auto load = [&](Tree &t) { try { t.readFile(FILE_A); } catch (std::exception &) {} };
  for (uint64_t k = 0; k < 60; k++) {
    Rng r(k); Doc d = make_doc(k, "a", k % 10 == 0 ? 400 : 20);
    { put(FILE_A, d.yaml); Tree t; load(t); std::ostringstream o; t.dump(o); for (auto &l : d.leaf) { Str s; long n; double x; for (int th = 0; th < 2; th++) { try { t.get(s, l.path, th); t.get(n, l.path, th); t.get(x, l.path, th); } catch (std::exception &) {} try { t.get(s, l.path + "zz", th); } catch (std::exception &) {} } } try { t.writeFile("/simfs/w.yaml"); } catch (std::exception &) {} }
    { put(FILE_A, break_syntax(d.yaml, r)); Tree t; load(t); }
    { put(FILE_A, unsupported(d.yaml, r)); Tree t; load(t); }
    sim::vfs_clear(); { Tree t; load(t); }
  }
  sim::vfs_offline(false);
}

// Helpers shared by scen_util.cxx and scen_props.cxx: generators of formats, option parsers and property files.
#pragma once
#include "scen.h"
#include "Exception.hxx"
#include "Format.hxx"
#include "Options.hxx"
#include "PropertyTree.hxx"
#include "PropertyTreeYAML.hxx"
#include "Utils.hxx"
#include <list>
#include <map>
#include <set>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <string.h>
#include <type_traits>
#include <vector>

#define DECLU(p) void gen_##p(Rng &, Plan &, sim::Cfg &, uint64_t, int); void run_##p(const Plan &);
DECLU(C15) DECLU(C16) DECLU(C17) DECLU(C18) DECLU(C19) DECLU(C20) DECLU(C21) DECLU(C22) DECLU(C23)
extern const char *const probes_props[];
void warmup_props();

namespace u {
typedef std::string Str;

// ------------------------------------------------------------------ calls
enum { OK = 0, ALLOC, BADFORMAT, NOTFOUND, BADTYPE, NOFILE, SODA, STD, OTHER };
extern const char *const res_name[];
template <class F> int guarded(F f, Str *what = nullptr) {
  try { In in; f(); return OK; }
  catch (std::bad_alloc &) { return ALLOC; }
  catch (SoDa::Format::BadFormat &e) { if (what) *what = e.what(); return BADFORMAT; }
  catch (SoDa::PropertyTree::PropNode::PropertyNotFound &e) { if (what) *what = e.what(); return NOTFOUND; }
  catch (SoDa::PropertyTree::PropNode::BadPropertyType &e) { if (what) *what = e.what(); return BADTYPE; }
  catch (SoDa::PropertyTree::FileNotFound &e) { if (what) *what = e.what(); return NOFILE; }
  catch (SoDa::Exception &e) { if (what) *what = e.what(); return SODA; }
  catch (std::exception &e) { if (what) *what = e.what(); return STD; }
  catch (...) { return OTHER; }
}
inline long plan_ops(const Plan &p) { long n = 0; for (auto &t : p.thr) n += (long)t.size(); return n; }
struct Held { Held() { sim::hold_faults(true); } ~Held() { sim::hold_faults(false); } };
inline uint64_t all_fired() { uint64_t n = 0; for (int k = sim::F_ALLOC; k <= sim::F_SINK; k++) n += sim::fired((sim::Fault)k); return n; }

// ------------------------------------------------------------------ text
inline Str word(Rng &r, int lo = 1, int hi = 12) { int n = (int)r.range(lo, hi); Str s; for (int i = 0; i < n; i++) s.push_back((char)('a' + r.below(26))); return s; }
inline Str num(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); return b; }
inline Str format_string(uint64_t seed, int max_field = 12) {
  Rng r(seed); Str s; bool big = seed % 23 == 0; int n = (int)r.range(big ? 20 : 0, big ? 120 : 14); int nf = (int)r.range(1, big ? 40 : max_field);
  for (int i = 0; i < n; i++) switch (r.below(10)) {
    case 0: s += "%%"; break;
    case 1: s += "%"; s += "xyz -"[r.below(5)]; break;
    case 2: case 3: case 4: s += word(r, 1, r.chance(20) ? 60 : 10); if (r.chance(50)) s += ' '; break;
    default: s += "%" + num((long)r.below(nf)); if (r.chance(60)) s += ' '; break;
  }
  if (r.chance(8)) s += '%';
  if (seed % 17 == 3) { size_t at = r.below(s.size() + 1); while (at > 0 && at < s.size() && (s[at - 1] == '%' || isdigit((unsigned char)s[at - 1]))) at--; s.insert(at, 1, r.chance(60) ? '\000' : (char)(128 + r.below(128))); }
  return s;
}
template <class F> auto add_filled(F &f, int v, unsigned w, char sep, char fill, int) -> decltype((void)f.addI(v, w, sep, fill)) { f.addI(v, w, sep, fill); }
template <class F> void add_filled(F &f, int v, unsigned w, char sep, char, long) { f.addI(v, w, sep); }
inline void odd_bytes(Str &s, uint64_t seed) { if (seed % 11 == 4 && !s.empty()) { Rng q(seed ^ 77); int n = (int)q.range(1, 3); while (n--) s[q.below(s.size())] = q.chance(50) ? '\000' : (char)q.below(256); } }
template <class F> void apply_add(F &f, uint64_t seed) {
  Rng r(seed);
  switch (r.below(9)) {
  case 0: { int v = (int)(uint32_t)r.next(); if (r.chance(50)) v %= 1000; f.addI(v); break; }
  case 1: { int v = (int)(uint32_t)r.next(); unsigned w = (unsigned)r.range(0, 40); char sep = r.chance(50) ? ',' : '\000'; char fill = r.chance(40) ? "0*# "[r.below(4)] : '\000'; add_filled(f, v, w, sep, fill, 0); break; }
  case 2: { static const char fm[] = "dxXhHoOD"; unsigned long v = r.next() >> r.below(64); unsigned w = (unsigned)r.range(0, 40); char sep = r.chance(50) ? '_' : '\000'; unsigned g = (unsigned)r.range(1, 6); f.addU(v, fm[r.below(8)], w, sep, g); break; }
  case 3: case 4: {
    static const char fm[] = "fsge"; char c = fm[r.below(4)]; double v = (double)(int64_t)r.next(); static const double sc[] = {1e-18, 1e-16, 1e-12, 1e-20, 1e-25, 1e-19, 1, 1e6};
    v *= r.pick(sc); if (r.chance(6)) v = 0; if (r.chance(5)) v = 0.0 / (r.chance(50) ? 1.0 : 1e300); if (r.chance(3)) v = __builtin_inf(); if (r.chance(3)) v = __builtin_nan("");
    f.addF(v, c, (unsigned)r.range(0, 36), (unsigned)r.range(1, 8)); break;
  }
  case 5: { Str s = word(r, 0, r.chance(8) ? 3000 : 40); odd_bytes(s, seed); f.addS(s); break; }
  case 6: { Str s = word(r, 0, 20); if (r.chance(30)) s += "%0 %1"; odd_bytes(s, seed); f.addS(s, r.chance(6) ? (int)r.range(-600, 600) : (int)r.range(-40, 40)); break; }
  case 7: f.addC(seed % 11 == 4 ? (char)r.below(256) : (char)('!' + r.below(90))); break;
  default: f.addB(r.chance(50)); break;
  }
}

// ------------------------------------------------------------------ option parsers
enum { T_INT = 0, T_UNS, T_DBL, T_STR, T_BOOL, T_LONG, T_PRES, T_VINT, T_VSTR, T_VDBL, NTYPE };
struct Spec { int type; Str name; char ab; int dflt; int test; Str doc; };
struct Vars {
  int i = 0; unsigned un = 0; double d = 0; Str s; bool b = false; long l = 0; bool p = false; std::vector<int> vi; std::vector<Str> vs; std::vector<double> vd;
  void sentinel(int k) { i = 11111 + k; un = 22222u + k; d = 3.25 + k; s = k ? "sentinel one" : "sentinel zero"; l = 44444 + k; b = k & 1; p = k & 1; }
  Str text(int t) const {
    std::ostringstream o; o.precision(17);
    switch (t) {
    case T_INT: o << i; break; case T_UNS: o << un; break; case T_DBL: o << d; break; case T_STR: o << s; break; case T_BOOL: o << b; break; case T_LONG: o << l; break; case T_PRES: o << p; break;
    case T_VINT: for (auto v : vi) o << v << ";"; break; case T_VSTR: for (auto &v : vs) o << v << ";"; break; case T_VDBL: for (auto v : vd) o << v << ";"; break;
    }
    return o.str();
  }
  size_t list_size(int t) const { return t == T_VINT ? vi.size() : t == T_VSTR ? vs.size() : t == T_VDBL ? vd.size() : 0; }
  Str tail(int t, size_t from) const { Vars c; for (size_t k = from; k < list_size(t); k++) { if (t == T_VINT) c.vi.push_back(vi[k]); if (t == T_VSTR) c.vs.push_back(vs[k]); if (t == T_VDBL) c.vd.push_back(vd[k]); } return c.text(t); }
};
inline bool is_list(int t) { return t >= T_VINT; }
struct ParserSpec { bool kvp; std::vector<Spec> opt; std::vector<Str> info; };
inline ParserSpec parser_spec(uint64_t seed) {
  Rng r(seed); ParserSpec p; p.kvp = r.chance(20);
  for (int t = 0; t < NTYPE; t++) if (r.chance(60)) {
    static const char *nm[] = {"int", "uns", "dbl", "str", "bool", "long", "pres", "vint", "vstr", "vdbl"};
    Spec s; s.type = t; s.name = nm[t]; if (r.chance(30)) s.name += word(r, 1, 25); s.ab = "iudsblpnvw"[t]; s.dflt = r.chance(50); s.test = r.chance(35); s.doc = word(r, 0, 50);
    p.opt.push_back(s);
  }
  if (p.opt.empty()) p.opt.push_back(Spec{T_INT, "int", 'i', 0, 0, "an integer"});
  bool big = seed % 29 == 0; int ni = (int)r.range(0, big ? 40 : 3); for (int i = 0; i < ni; i++) p.info.push_back(word(r, 1, big && r.chance(20) ? 2000 : 70));
  return p;
}
inline void build_parser(SoDa::Options &o, const ParserSpec &p, Vars &v) {
  for (auto &i : p.info) o.addInfo(i);
  for (auto &s : p.opt) switch (s.type) {
#define ADDOPT(T, field, dv, cond) { std::function<bool(T)> f = [](T x) { return cond; }; std::function<bool(T)> g = [](T) { return true; }; \
    if (s.dflt) o.add<T>(&v.field, s.name, s.ab, dv, s.doc, s.test ? f : g, "is not acceptable"); else o.add<T>(&v.field, s.name, s.ab, s.doc, s.test ? f : g, "is not acceptable"); break; }
#define ADDVEC(T, field, cond) { std::function<bool(T)> f = [](T x) { return cond; }; std::function<bool(T)> g = [](T) { return true; }; o.addV<T>(&v.field, s.name, s.ab, s.doc, s.test ? f : g, "is not acceptable"); break; }
  case T_INT: ADDOPT(int, i, 7, x > -1000 && x < 1000)
  case T_UNS: ADDOPT(unsigned, un, 8u, x < 1000)
  case T_DBL: ADDOPT(double, d, 0.5, x < 1000)
  case T_STR: ADDOPT(Str, s, Str("the default"), x.size() < 12)
  case T_BOOL: ADDOPT(bool, b, true, x || !x)
  case T_LONG: ADDOPT(long, l, -9l, x < 1000 && x > -1000)
  case T_PRES: o.addP(&v.p, s.name, s.ab, s.doc); break;
  case T_VINT: ADDVEC(int, vi, x > -1000 && x < 1000)
  case T_VSTR: ADDVEC(Str, vs, x.size() < 12)
  case T_VDBL: ADDVEC(double, vd, x < 1000)
#undef ADDOPT
#undef ADDVEC
  }
}
// what: 0 valid, 1 unknown option, 2 bad value, 3 value missing at the end, 4 help, 5 anything goes
inline std::list<Str> token_list(const ParserSpec &p, uint64_t seed, int what) {
  Rng r(seed); std::list<Str> out; int n = (int)r.range(what ? 1 : 0, 7); if (seed % 31 == 0) n = (int)r.range(8, 70); int bad_at = (int)r.below(n ? n : 1);
  auto value = [&](int t, bool bad) -> Str {
    if (bad) switch (t) { case T_STR: case T_VSTR: return "far too long a value"; case T_BOOL: return "quux"; default: return r.chance(50) ? "quux" : "99999"; }
    switch (t) {
    case T_INT: case T_LONG: case T_VINT: return num(r.range(-999, 999));
    case T_UNS: return num(r.range(0, 999));
    case T_DBL: case T_VDBL: { Str s = num(r.range(-999, 998)); if (r.chance(60)) s += "." + num(r.range(0, 99)); return s; }
    case T_BOOL: { static const char *b[] = {"true", "false", "T", "f", "1", "0"}; return b[r.below(6)]; }
    default: return r.chance(15) ? "-" + word(r, 1, 8) : word(r, 1, 11);
    }
  };
  for (int i = 0; i < n; i++) {
    const Spec &s = p.opt[r.below(p.opt.size())];
    Str name = r.chance(50) ? "--" + s.name : Str("-") + s.ab;
    if (i == bad_at && what == 1) { out.push_back(r.chance(50) ? "--nosuch" + word(r) : "-Z"); continue; }
    if (i == bad_at && what == 4) { out.push_back(r.chance(50) ? "-h" : "--help"); continue; }
    if (!p.kvp && r.chance(25)) { out.push_back(word(r)); continue; }
    if (s.type == T_PRES) { out.push_back(name); if (p.kvp) out.push_back("1"); continue; }
    out.push_back(name);
    bool bad = i == bad_at && what == 2; bool lax = what == 5 && r.chance(25);
    if (i == n - 1 && what == 3) break;
    if (lax && r.chance(50)) continue;                          // a missing value in the middle
    if (!bad && s.dflt && !is_list(s.type) && !p.kvp && r.chance(12) && what != 0) continue;
    Str v = value(s.type, bad || lax);
    if (!v.empty() && v[0] == '-' && s.dflt && (s.type == T_STR) ) v.erase(0, 1);
    out.push_back(v.empty() ? "x" : v);
  }
  return out;
}
inline Str kv_string(const std::list<Str> &tok, const ParserSpec &p) {
  Str o;
  for (auto i = tok.begin(); i != tok.end(); ++i) {
    Str key = *i; Str name;
    if (key.size() > 2 && key[0] == '-' && key[1] == '-') name = key.substr(2);
    else if (key.size() == 2 && key[0] == '-') { for (auto &s : p.opt) if (s.ab == key[1]) name = s.name; if (name.empty()) name = "nosuch"; }
    else continue;
    auto j = i; ++j; Str v = (j != tok.end() && ((*j)[0] != '-' || isdigit((*j)[1]))) ? *j : Str();
    if (!o.empty()) o += ",";
    o += name; if (!v.empty()) o += "=" + v;
  }
  return o;
}
// one of the forms of the call; the command line is the same
inline bool do_parse(SoDa::Options &o, const ParserSpec &p, const std::list<Str> &tok, int form) {
  if (p.kvp) { Str kv = kv_string(tok, p); if (kv.empty()) kv = p.opt[0].name + "=1"; return form & 1 ? o.parse(kv) : o.parseKeyValue(kv); }
  if (form % 3 == 0) { bool r = o.parse(tok); return r; }
  if (form % 3 == 1) { Str s; for (auto &t : tok) { if (!s.empty()) s += ' '; if (t.find(' ') != Str::npos) s += "\"" + t + "\""; else s += t; } return o.parse(s); }
  std::vector<Str> a; a.push_back("prog"); for (auto &t : tok) a.push_back(t);
  std::vector<char *> av; for (auto &s : a) av.push_back(&s[0]);
  av.push_back(nullptr);
  return o.parse((int)a.size(), av.data());
}

// ------------------------------------------------------------------ std::cerr, one transcript per simulated thread
class ErrBuf : public std::streambuf {
public:
  Str text[sim::MAXT]; int mode = 0;        // 1: every write may fail (F_SINK)
  Str &mine() { int i = sim::self(); static Str none; if (i < 0) { none.clear(); return none; } return text[i]; }
protected:
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    sim::Quiet q;
    if (mode) { int64_t v; sim::Fault k = sim::F_SINK; if (sim::fault(k, &v, n + 1)) { mine().append(p, (size_t)(v < n ? v : 0)); return v < n ? v : 0; } }
    mine().append(p, (size_t)n); return n;
  }
  int overflow(int c) override { if (c == EOF) return 0; char ch = (char)c; return xsputn(&ch, 1) == 1 ? c : EOF; }
};
extern ErrBuf *errbuf;

// ------------------------------------------------------------------ property files
struct Leaf { Str path, text; int type; };                 // type 0 word, 1 integer, 2 floating, 3 text with spaces
struct Doc { Str yaml; std::vector<Leaf> leaf; std::map<Str, std::vector<Str>> lists; std::vector<Str> top; };
inline Doc make_doc(uint64_t seed, const Str &prefix, int size) {
  Rng r(seed); Doc d; int budget = size;
  if (size == 0) { static const char *none[] = {"", "\n\n", "# nothing here\n", "---\n", "{}\n", "---\n...\n", "   \n", "~\n", "--- {}\n# end"}; d.yaml = none[r.below(9)]; return d; }
  struct Alias { Str name; Leaf leaf; std::vector<Leaf> leaves; std::map<Str, std::vector<Str>> lists; bool map; };
  struct B {
    Rng &r; Doc &d; int &budget; const Str &prefix; bool nul; int shape, rich; std::vector<Alias> al; int anchors; bool block_last;
    // a scalar as it stands in the file; the leaf gets the text it means
    Str scalar(Leaf &l, const Str &ind, bool flow) {
      if (shape == 8) { l.type = 3; l.text = word(r, 1, 9); long n = r.range(100000, 1300000); Str w = word(r, 200, 700); while ((long)l.text.size() < n) { l.text += r.chance(20) ? " " : ""; l.text.append(w, 0, (size_t)r.range(1, (long)w.size())); } return "'" + l.text + "'"; }
      if (shape == 7 && r.chance(50)) { l.type = 3; l.text = word(r, 1, 9); long n = r.range(4000, 75000); while ((long)l.text.size() < n) l.text += (r.chance(20) ? " " : "") + word(r, 1, 60); return "'" + l.text + "'"; }
      switch (r.below(rich ? 10 : 4)) {
      case 0: l.type = 1; l.text = num(r.range(-100000, 100000)); return l.text;
      case 1: l.type = 2; l.text = num(r.range(0, 9999)) + "." + num(r.range(1, 9)) + num(r.range(1, 9)); return l.text;
      case 2: { l.type = 3; l.text = word(r, 2, 10) + " " + word(r, 2, r.chance(20) ? 300 : 30); if (r.chance(20)) switch (r.below(4)) { case 0: l.text = " " + l.text; break; case 1: l.text += "  "; break; case 2: l.text += "  " + word(r, 1, 5); break; default: l.text = "a : - #" + l.text; } return r.chance(60) ? "\"" + l.text + "\"" : "'" + l.text + "'"; }
      case 4: {                                   // escapes
        l.type = 3; l.text = word(r, 1, 6); Str t = l.text; int n = (int)r.range(1, 5);
        if (nul) { l.text += '\000'; t += "\\0"; }
        for (int i = 0; i < n; i++) {
          switch (r.below(8)) { case 0: l.text += '\t'; t += "\\t"; break; case 1: l.text += '\n'; t += "\\n"; break; case 2: l.text += '"'; t += "\\\""; break; case 3: l.text += '\\'; t += "\\\\"; break;
            case 4: l.text += "\xc3\xa9"; t += r.chance(50) ? "\\u00e9" : "\xc3\xa9"; break; case 5: l.text += 'A'; t += "\\x41"; break; case 6: l.text += "# : - [x] {y}, %z"; t += "# : - [x] {y}, %z"; break; default: l.text += "''"; t += "''"; }
          Str w = word(r, 1, 5); l.text += w; t += w;
        }
        return "\"" + t + "\"";
      }
      case 5: if (flow) { l.type = 0; l.text = word(r, 1, 5); return "'" + l.text + "'"; } {   // a block of lines
        l.type = 3; l.text.clear(); bool fold = r.chance(40); int chomp = (int)r.below(2); Str t = fold ? ">" : "|"; if (chomp) t += "-"; t += "\n"; int n = (int)r.range(1, 4);
        for (int i = 0; i < n; i++) { Str w = word(r, 1, 12) + " " + word(r, 1, 40); t += ind + "  " + w + (i + 1 < n ? "\n" : ""); l.text += w; if (i + 1 < n) l.text += fold ? ' ' : '\n'; else if (!chomp) l.text += '\n'; }
        return t;
      }
      case 6: l.type = 0; { static const char *odd[] = {"true", "no", "0x1F", "1e-3", "2026-11-19", "a-b_c.d/e", "x'y", "http://h:80/p?q=1", "\xe2\x82\xac" "5", "+7", "10.0.0.1", "C:\\dir"}; l.text = odd[r.below(12)]; } return flow ? "'" + l.text.substr(0, l.text.find('\'')) + "'" : l.text;
      case 7: { l.type = 3; int n = (int)r.range(20, r.chance(20) ? 900 : 120); l.text = word(r, 1, 9); for (int i = 0; i < n; i++) l.text += " " + word(r, 1, 9); return "'" + l.text + "'"; }
      case 8: { l.type = 3; Str a = word(r, 1, 30), b = word(r, 1, 30); l.text = a + " " + b; char q = r.chance(50) ? '"' : '\''; return q + a + "\n" + ind + "  " + b + q; }   // quoted text over two lines
      case 9: l.type = 0; if (r.chance(50)) { l.text = num(r.range(0, 999)); l.type = 1; return "!!str " + l.text; } l.text = word(r, 1, 9); return "!mine " + l.text;
      default: l.type = 0; l.text = "w" + word(r, 1, r.chance(10) ? 200 : 14); return l.text;
      }
    }
    Str value(Leaf &l, const Str &ind, bool flow) {
      if (rich && !al.empty() && r.chance(12)) { const Alias &a = al[r.below(al.size())]; if (!a.map) { l.type = a.leaf.type; l.text = a.leaf.text; return "*" + a.name + (flow ? " " : ""); } }
      Str t = scalar(l, ind, flow);
      if (flow && l.type == 0 && t.size() && t[0] == '\'') l.text = t.substr(1, t.size() - 2);
      if (rich && r.chance(8)) { Alias a; a.name = "n" + num(anchors++); a.leaf = l; a.map = false; al.push_back(a); t = "&" + a.name + " " + t; }
      return t;
    }
    Str keyname(int i, int depth) {
      Str k = (depth == 0 ? prefix : Str("k")) + num(i) + word(r, 0, 4);
      if (rich && depth > 0) switch (r.below(16)) { case 0: k += "-x.y_Z"; break; case 1: k += " and more"; break; case 2: k += word(r, 40, r.chance(20) ? 700 : 120); break; case 3: k += "\xc3\xbc"; break; case 4: k = Str("W") + k; break; case 5: k = num(i); break; case 6: k = num(i) + "." + num(r.range(1, 9)); break; case 7: k = "k#" + num(i) + "/'x"; break; default: break; }
      return k;
    }
    // a name that somebody could take for its neighbour
    Str nearname(const Str &k, int depth) {
      Str n = k;
      switch (r.below(4)) {
      case 0: case 1: { std::vector<size_t> at; for (size_t i = depth == 0; i < n.size(); i++) if (isalpha((unsigned char)n[i])) at.push_back(i); if (at.empty()) return n + "X"; char &c = n[at[r.below(at.size())]]; c = (char)(c ^ 32); return n; }
      case 2: return n + (char)('a' + r.below(26));
      default: return n.size() > 2 && isalpha((unsigned char)n.back()) ? n.substr(0, n.size() - 1) : n + "0";
      }
    }
    void map(const Str &path, int depth) {
      std::set<Str> used; Str before;
      int n = (int)r.range(1, depth == 0 ? 6 : 5); int maxdepth = shape == 1 ? 16 : shape == 5 ? 60 : shape == 3 ? 0 : 4;
      if (shape == 1 && depth > 0) n = (int)r.range(1, 2);
      if (shape == 2 && depth == 1) n = (int)r.range(5, 700);
      if (shape == 4 && depth == 1) n = budget;
      if (shape == 5 && depth > 0) n = (int)r.range(1, 2);
      for (int i = 0; (i < n || depth == 0) && budget > 0; i++) {
        Str key = keyname(i, depth);
        if (!before.empty() && r.chance(7)) { Str k = nearname(before, depth); if (!used.count(k)) key = k; }
        while (!used.insert(key).second) key += "u";
        before = key; Str full = path.empty() ? key : path + ":" + key;
        Str ind(2 * depth, ' '); if (depth == 0) d.top.push_back(key);
        Str shown = rich && r.chance(8) ? "\"" + key + "\"" : key; if (rich && r.chance(5)) shown += " ";
        if (r.chance(8)) d.yaml += ind + "# " + word(r, 1, 40) + "\n";
        if (rich && r.chance(4)) d.yaml += r.chance(50) ? "\n" : ind + "  \n";
        budget--;
        if (depth < maxdepth && r.chance(shape == 1 ? 75 : shape == 5 ? 96 : shape == 4 ? (depth == 0 ? 100 : 3) : shape == 2 && depth == 0 ? 60 : 35) && budget > 0) {
          size_t l0 = d.leaf.size(); Str an;
          if (rich && r.chance(15)) { an = "m" + num(anchors++); d.yaml += ind + shown + ": &" + an + "\n"; } else d.yaml += ind + shown + ":\n";
          map(full, depth + 1);
          if (!an.empty()) {
            Alias a; a.name = an; a.map = true; for (size_t k = l0; k < d.leaf.size(); k++) { Leaf l = d.leaf[k]; l.path.erase(0, full.size()); a.leaves.push_back(l); }
            for (auto &x : d.lists) if (x.first == full || x.first.compare(0, full.size() + 1, full + ":") == 0) a.lists[x.first.substr(full.size())] = x.second;
            al.push_back(a);
          }
          continue;
        } else if (r.chance(14)) {
          std::vector<Str> &l = d.lists[path]; int m = (int)r.range(1, shape == 6 ? 2500 : rich && r.chance(5) ? 300 : 5); bool flow = r.chance(50);
          d.yaml += ind + shown + ":" + (flow ? " [" : "\n");
          for (int k = 0; k < m; k++) { Str v = "e" + word(r, 1, 9); l.push_back(v); if (flow) d.yaml += (k ? ", " : "") + v; else d.yaml += ind + "  - " + v + "\n"; }
          if (flow) d.yaml += "]\n";
        } else if (rich && r.chance(4)) {          // nothing to retrieve
          d.yaml += ind + shown + (r.chance(50) ? ": {}\n" : ": []\n");
        } else if (rich && depth > 0 && r.chance(6)) {          // a list of maps: their keys belong to the map the list is in
          int m = (int)r.range(1, 4), q = 0; d.yaml += ind + shown + ":\n";
          for (int k = 0; k < m; k++) for (int e = (int)r.range(1, 3), f = 1; e > 0; e--, f = 0) {
            Leaf l; Str sk = key + "_q" + num(q++); Str t = value(l, ind + "  ", true); l.path = path + ":" + sk; d.leaf.push_back(l); d.yaml += ind + (f ? "  - " : "    ") + sk + ": " + t + "\n";
          }
        } else if (depth > 0 && r.chance(10)) {
          Leaf a, b; Str ta = value(a, ind, true), tb = value(b, ind, true); a.path = full + ":fa"; b.path = full + ":fb"; d.leaf.push_back(a); d.leaf.push_back(b);
          d.yaml += ind + shown + ": {fa: " + ta + ", fb: " + tb + "}\n";
        } else if (rich && depth > 0 && !al.empty() && r.chance(12) && al.back().map) {
          const Alias &a = al.back(); d.yaml += ind + shown + ": *" + a.name + "\n";
          for (auto &l : a.leaves) { Leaf x = l; x.path = full + l.path; d.leaf.push_back(x); }
          for (auto &x : a.lists) d.lists[full + x.first] = x.second;
        } else {
          Leaf l; l.path = full; Str t = value(l, ind, false); d.leaf.push_back(l); d.yaml += ind + shown + ": " + t;
          if (rich && r.chance(6) && t.find('\n') == Str::npos) d.yaml += " # " + word(r, 1, 20);
          d.yaml += "\n"; block_last = t.find('\n') != Str::npos; continue;
        }
        block_last = false;
      }
    }
  } b{r, d, budget, prefix, seed % 5 == 2, 0, 0, {}, 0, false};
  b.rich = r.chance(35); b.shape = r.chance(75) ? 0 : (int)r.range(1, 2);
  if (size > 1000) { b.shape = (int)r.range(3, 7); if (b.shape == 5) budget = (int)r.range(60, 200); if (b.shape == 6) budget = (int)r.range(5, 30); if (b.shape == 7) budget = (int)r.range(2, 6); if (size > 5000) { b.shape = 8; b.rich = false; budget = (int)r.range(1, 2); } }   // very wide, deep, long
  b.map("", 0);
  if (b.rich) {
    if (r.chance(15)) d.yaml = "---\n" + d.yaml;
    if (r.chance(5)) d.yaml = "\xef\xbb\xbf" + d.yaml;
    if (r.chance(20) && !b.block_last) d.yaml.pop_back();
    else if (r.chance(10)) d.yaml += "...\n";
    if (r.chance(8)) { Str x; for (char c : d.yaml) { if (c == '\n') x += '\r'; x += c; } d.yaml = x; }
  }
  return d;
}
// nodes are reachable only for a class derived from the tree; absent after a refactoring, such checks are skipped
struct Tree : SoDa::PropertyTreeYAML {
  Tree() {}
  explicit Tree(const Str &f) : SoDa::PropertyTreeYAML(f) {}
  template <class X> static auto top(X &t, int) -> decltype(t.root) { return t.root; }
  template <class X> static SoDa::PropertyTree::PropNode *top(X &, long) { return nullptr; }
};
inline SoDa::PropertyTree::PropNode *top_of(Tree &t) { return Tree::top(t, 0); }
inline Str first_word(const Str &s) { size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++; return s.substr(i, j - i); }
inline Str dump_of(Tree &t) { std::ostringstream o; { In in; t.dump(o); } return o.str(); }
}  // namespace u

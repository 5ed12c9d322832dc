// Mailbox scenarios: C07..C14 and the mailbox half of C06.
#include "scen.h"
#include "scen_conc.h"
#include "MailBox.hxx"
#include "Barrier.hxx"
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string.h>
#include <unordered_set>

namespace {
enum { PUT = 1, GET, COUNT, MINC, CLEAR, SUB, DROP, SUBCNT, RELEASE, DRAIN, SLEEP, WRONG, CANCEL, DEAD, CONVERT, PUTMANY, GETMANY, PHASE, SINK };
enum { OK = 0, ALLOC, MISMATCH, MISSING, BADCONV, OTHER };
const char *rname[] = {"normal return", "bad_alloc", "SubscriptionMismatch", "MissingSubscriber", "BadConversion", "another exception"};
const long NOSUB = -1, NULLMSG = -1;
const int64_t SEC = 1000000000ll, DAY = 86400ll * SEC;
enum { K_WIN = 1, K_SEQ = 2, K_ORDER = 4, K_LIN = 8, K_LIFE = 16, K_MISUSE = 32, K_ALLOC = 64, K_STALL = 128, K_COUNT = 256 };

struct G;
G *gg;
struct Msg {
  long id; uint64_t magic; long data[2];
  explicit Msg(long i) : id(i), magic(0x600D600D600D600Dull) { data[0] = i * 3 + 1; data[1] = ~i; }
  ~Msg();
  Msg(const Msg &) = delete;
};
typedef std::shared_ptr<Msg> MsgP;
typedef SoDa::MailBox<Msg> Box;
typedef Box::Subscription Subscription;

struct Ev { int thr, op; long mb, sub, excl, msg, val; int res; uint64_t in, out; };
struct SubRec { long mb; int owner; uint64_t sin, sout, din, dout; bool cancelled; };
struct Slot { Subscription h; long uid = NOSUB; long mb = 0; bool cancelled = false; int index = 0; bool has_index = false; };
struct Th { G *g; int id; Slot slot[8]; MsgP hold[8]; std::vector<Op> prog; size_t pc; };
struct G {
  unsigned ck; std::vector<std::shared_ptr<Box>> box; std::vector<Slot> gsub; std::vector<SubRec> subs;
  std::vector<Ev> h; std::vector<Th> th; uint64_t ev; long nmsg; std::vector<int> alive, held; std::vector<char> sent;
  uint64_t max_cost; bool teardown; std::shared_ptr<SoDa::MailBoxBase> base;
};

Msg::~Msg() {
  sim::Quiet q;
  G *g = gg;
  sim::mem_write(data, sizeof data);
  if (magic != 0x600D600D600D600Dull) sim::fail("lifetime:destroyed-twice", "a message is destroyed twice");
  magic = 0xDEADDEADDEADDEADull;
  if (!g) return;
  if (g->held[id] > 0) sim::fail("lifetime:early", "message %ld is destroyed while a thread still holds it", id);
  g->alive[id]--;
}
long new_id(G &g) { long id = g.nmsg++; if ((size_t)id >= g.alive.size()) { size_t n = g.alive.size() * 2 + 64; g.alive.resize(n); g.held.resize(n); g.sent.resize(n); } return id; }
MsgP make_msg(G &g) { long id = new_id(g); g.alive[id] = 1; MsgP m = std::make_shared<Msg>(id); sim::mem_write(m->data, sizeof m->data); return m; }
long look(G &g, const MsgP &m) {
  if (!m) return NULLMSG;
  if (!sim::heap_ok(m.get()) || m->magic != 0x600D600D600D600Dull) sim::fail("lifetime:dead-message", "get returned a message that has already been destroyed");
  sim::mem_read(m->data, sizeof m->data);
  if (m->id < 0 || m->id >= g.nmsg || m->data[0] != m->id * 3 + 1 || m->data[1] != ~m->id) sim::fail("invented", "get returned a message nobody sent");
  return m->id;
}

// the only place that relies on a public member of the handle; absent after a refactoring, the cancel operations are skipped
template <class H> auto index_of(H &h, Box *b, int) -> decltype(h->subscriber_index) { (void)b; return h->subscriber_index; }
template <class H> auto index_of(H &h, Box *b, long) -> decltype(h->getIndex(b)) { return h->getIndex(b); }
template <class H> int index_of(H &, Box *, ...) { return -1; }
// a handle that outlives its mailbox must not run its destructor: its storage is given back as it is. A handle that is more than
// a number and a pointer may own something, which then stays behind
template <class H> auto give_up(H &h, int) -> decltype((void)h.release()) { if (sizeof(*h) > 16) sim::forgive_leaks(); ::operator delete((void *)h.release()); }
template <class H> void give_up(H &h, long) { sim::forgive_leaks(); new H(std::move(h)); }

Slot *slot_of(Th &t, long k) {
  if (k >= 100) { k -= 100; return (size_t)k < t.g->gsub.size() ? &t.g->gsub[k] : nullptr; }
  return k >= 0 && k < 8 ? &t.slot[k] : nullptr;
}
template <class F> int guarded(F f) {
  try { In in; f(); return OK; }
  catch (std::bad_alloc &) { return ALLOC; }
  catch (SoDa::MailBoxBase::SubscriptionMismatch &) { return MISMATCH; }
  catch (SoDa::MailBoxBase::MissingSubscriber &) { return MISSING; }
  catch (SoDa::MailBoxBase::BadConversion &) { return BADCONV; }
  catch (...) { return OTHER; }
}
struct Rec {      // records one call
  G &g; Th &t; Ev e; uint64_t c0; int64_t idle0;
  Rec(Th &t_, int op, long mb, long sub) : g(*t_.g), t(t_) {
    e.thr = t.id; e.op = op; e.mb = mb; e.sub = sub; e.excl = NOSUB; e.msg = NULLMSG; e.val = 0; e.res = OK; e.out = ~0ull;
    e.in = ++g.ev; sim::log(0x10 + op, t.id, mb, sub); c0 = sim::my_steps(); idle0 = sim::idle_ns();
    static const char *nm[] = {"", "put", "get", "readyCount", "minReadyCount", "clear", "subscribe", "drop", "subscriberCount", "release", "drain", "sleep", "wrong-box", "unsubscribe", "use-cancelled", "convert", "put", "get"};
    if (sim::tracing_on()) sim::note("t%d calls %s mailbox %ld subscription %ld", t.id, nm[op], mb, sub);
  }
  Ev &done(int res) {
    e.res = res; e.out = ++g.ev; sim::log(0x40, res, e.msg, e.val);
    if (sim::tracing_on()) sim::note("t%d: %s, message %ld, value %ld", t.id, rname[res], e.msg, e.val);
    uint64_t cost = sim::my_steps() - c0; int64_t idle = sim::idle_ns() - idle0;
    if (g.ck & K_STALL) {
      if (idle > 10 * SEC) sim::fail("blocked", "a mailbox call was held for %.0f s while other users were idle", idle / 1e9);
      if (e.op == PUT || e.op == GET || e.op == COUNT || e.op == MINC || e.op == SUB || e.op == SUBCNT) { if (cost > g.max_cost) g.max_cost = cost; if (cost > 6000 + 1500 * g.subs.size()) sim::fail("slow", "one call (%d) cost %llu steps with %ld messages around", e.op, (unsigned long long)cost, g.nmsg); }
    }
    g.h.push_back(e);
    return g.h.back();
  }
};
void need(const Rec &r, int res, int want, const char *what) {
  if (res == want) return;
  if (res == ALLOC && (r.g.ck & K_ALLOC)) return;
  sim::fail(want == OK ? "exception" : "not-rejected", "%s ended with %s instead of %s", what, rname[res], rname[want]);
}

void do_put(Th &t, long mb, long ex, long hold) {
  G &g = *t.g; mb %= (long)g.box.size();
  Slot *s = ex >= 0 ? slot_of(t, ex) : nullptr;
  if (s && (!s->h || s->mb != mb || s->cancelled)) s = nullptr;
  MsgP m = make_msg(g);
  long id = m->id;
  if (hold >= 0 && hold < 8) { if (t.hold[hold]) { g.held[t.hold[hold]->id]--; In in; t.hold[hold].reset(); } t.hold[hold] = m; g.held[id]++; }
  sim::op_point();
  Rec r(t, PUT, mb, NOSUB); r.e.msg = id; r.e.excl = s ? s->uid : NOSUB;
  g.sent[id] = 1;
  int res;
  if (s) res = guarded([&] { g.box[mb]->put(std::move(m), s->h); });
  else res = guarded([&] { g.box[mb]->put(std::move(m)); });
  { In in; m.reset(); }
  r.done(res); need(r, res, OK, "put");
}
long do_get(Th &t, Slot *s, long hold, int opcode = GET) {
  G &g = *t.g; (void)opcode;
  if (!s || !s->h || s->cancelled) return NULLMSG;
  sim::op_point();
  Rec r(t, GET, s->mb, s->uid); MsgP m;
  int res = guarded([&] { m = g.box[s->mb]->get(s->h); });
  r.e.msg = look(g, m);
  r.done(res); need(r, res, OK, "get");
  long id = r.e.msg;
  if (m) g.held[id]++;
  if (m && hold >= 0 && hold < 8) {
    MsgP old = std::move(t.hold[hold]); t.hold[hold] = m; g.held[id]++;
    if (old) { g.held[old->id]--; In in; old.reset(); }
  }
  if (m) { g.held[id]--; In in; m.reset(); }
  return res == OK ? id : NULLMSG;
}

void exec(Th &t, const Op &o) {
  G &g = *t.g; long nb = (long)g.box.size();
  switch (o.code) {
  case PUT: do_put(t, o.a, o.b, o.c); break;
  case PUTMANY: for (long i = 0; i < o.c; i++) do_put(t, o.a, o.b, -1); break;
  case GET: do_get(t, slot_of(t, o.a), o.b); break;
  case GETMANY: for (long i = 0; i < o.c; i++) do_get(t, slot_of(t, o.a), -1); break;
  case DRAIN: { long left = 2 + g.nmsg; while (left-- > 0 && do_get(t, slot_of(t, o.a), -1) != NULLMSG) {} break; }
  case COUNT: { Slot *s = slot_of(t, o.a); if (!s || !s->h || s->cancelled) break; sim::op_point(); Rec r(t, COUNT, s->mb, s->uid); long v = 0; int res = guarded([&] { v = g.box[s->mb]->readyCount(s->h); }); r.e.val = v; r.done(res); need(r, res, OK, "readyCount"); break; }
  case MINC: { long mb = o.a % nb; sim::op_point(); Rec r(t, MINC, mb, NOSUB); long v = 0; int res = guarded([&] { v = g.box[mb]->minReadyCount(); }); r.e.val = v; r.done(res); need(r, res, OK, "minReadyCount"); break; }
  case SUBCNT: { long mb = o.a % nb; sim::op_point(); Rec r(t, SUBCNT, mb, NOSUB); long v = 0; int res = guarded([&] { v = g.box[mb]->subscriberCount(); }); r.e.val = v; r.done(res); need(r, res, OK, "subscriberCount"); break; }
  case CLEAR: { Slot *s = slot_of(t, o.a); if (!s || !s->h || s->cancelled) break; sim::op_point(); Rec r(t, CLEAR, s->mb, s->uid); int res = guarded([&] { g.box[s->mb]->clear(s->h); }); r.done(res); need(r, res, OK, "clear"); break; }
  case SUB: {
    if (o.a < 0 || o.a >= 8) break;
    Slot *s = &t.slot[o.a]; if (s->h) break;
    long mb = o.b % nb; sim::op_point();
    Rec r(t, SUB, mb, NOSUB); Subscription h;
    int res = guarded([&] { h = g.box[mb]->subscribe(); });
    if (res == OK) { SubRec q; q.mb = mb; q.owner = t.id; q.sin = r.e.in; q.sout = ~0ull; q.din = q.dout = ~0ull; q.cancelled = false; r.e.sub = (long)g.subs.size(); g.subs.push_back(q); s->uid = r.e.sub; s->mb = mb; s->cancelled = false; }
    r.done(res); need(r, res, OK, "subscribe");
    if (res == OK) {
      if (!h) sim::fail("exception", "subscribe returned an empty handle");
      g.subs[s->uid].sout = r.e.out; s->h = std::move(h);
    }
    break;
  }
  case DROP: {
    if (o.a < 0 || o.a >= 8) break;
    Slot *s = &t.slot[o.a]; if (!s->h) break;
    sim::op_point();
    Rec r(t, DROP, s->mb, s->uid); if (!s->cancelled) g.subs[s->uid].din = r.e.in;
    sim::hold_memory(true);      // a destructor has no way to report a failure: giving a handle back is not required to cope with one
    int res = guarded([&] { s->h.reset(); });
    sim::hold_memory(false);
    if (s->cancelled) r.e.sub = NOSUB;
    r.done(res); need(r, res, OK, "dropping a subscription");
    if (!s->cancelled) g.subs[s->uid].dout = r.e.out;
    s->uid = NOSUB; s->cancelled = false;
    break;
  }
  case CANCEL: {
    if (o.a < 0 || o.a >= 8) break;
    Slot *s = &t.slot[o.a]; if (!s->h || s->cancelled) break;
    int ix = index_of(s->h, g.box[s->mb].get(), 0); if (ix < 0) break;
    sim::op_point();
    Rec r(t, DROP, s->mb, s->uid); g.subs[s->uid].din = r.e.in;
    sim::hold_memory(true); int res = guarded([&] { g.box[s->mb]->unsubscribe(ix); }); sim::hold_memory(false);
    r.done(res); need(r, res, OK, "unsubscribe");
    g.subs[s->uid].dout = r.e.out; s->cancelled = true; s->index = ix;
    break;
  }
  case DEAD: {
    if (o.a < 0 || o.a >= 8) break;
    Slot *s = &t.slot[o.a]; if (!s->h || !s->cancelled) break;
    sim::op_point();
    sim::injected(sim::F_INPUT); Box &b = *g.box[s->mb]; MsgP m; Rec r(t, DEAD, s->mb, NOSUB); int res;
    switch (o.b % 4) {
    case 0: res = guarded([&] { m = b.get(s->h); }); break;
    case 1: res = guarded([&] { b.readyCount(s->h); }); break;
    case 2: res = guarded([&] { b.clear(s->h); }); break;
    default: res = guarded([&] { b.unsubscribe(s->index); }); break;
    }
    r.done(res); need(r, res, MISSING, "a call with a cancelled subscription"); sim::probe(6);
    break;
  }
  case WRONG: {
    Slot *s = slot_of(t, o.a); if (!s || !s->h || nb < 2) break;
    long mb = (s->mb + 1 + (o.c < 0 ? -o.c : o.c) % (nb - 1)) % nb; if (mb == s->mb) break;
    sim::op_point();
    sim::injected(sim::F_INPUT); Box &b = *g.box[mb]; MsgP m; Rec r(t, WRONG, mb, NOSUB); int res;
    switch (o.b % 4) {
    case 0: res = guarded([&] { m = b.get(s->h); }); break;
    case 1: res = guarded([&] { b.readyCount(s->h); }); break;
    case 2: res = guarded([&] { b.clear(s->h); }); break;
    default: { m = make_msg(g); r.e.msg = m->id; res = guarded([&] { b.put(m, s->h); }); In in; m.reset(); break; }
    }
    r.done(res); need(r, res, MISMATCH, "a call with another mailbox's subscription"); sim::probe(5);
    break;
  }
  case CONVERT: {
    sim::op_point();
    long mb = o.b % nb; Rec r(t, CONVERT, mb, NOSUB); int res; bool same = false;
    std::shared_ptr<SoDa::MailBoxBase> base = g.box[mb];
    if (o.a % 2) { res = guarded([&] { SoDa::MailBoxBase::convert<SoDa::MailBox<int>>(base); }); r.done(res); need(r, res, BADCONV, "converting to the wrong type"); sim::probe(7); }
    else { res = guarded([&] { auto p = SoDa::MailBoxBase::convert<Box>(base); same = p == g.box[mb]; }); r.done(res); need(r, res, OK, "converting to the right type"); if (res == OK && !same) sim::fail("convert", "converting a mailbox handle gives another mailbox"); }
    In in; base.reset();
    break;
  }
  case RELEASE: if (o.a >= 0 && o.a < 8 && t.hold[o.a]) { sim::op_point(); g.held[t.hold[o.a]->id]--; In in; t.hold[o.a].reset(); } break;
  case SLEEP: if (o.a > DAY) sim::injected(sim::F_PAUSE); sim::sleep_ns(o.a); break;
  }
}
void body(void *p) {
  Th &t = *(Th *)p;
  while (t.pc < t.prog.size()) { Op o = t.prog[t.pc++]; if (o.code == PHASE) break; exec(t, o); }
}

// ------------------------------------------------------------------ oracles
struct PutRec { uint64_t in, out; long mb, excl; int res; bool known; };
typedef std::vector<PutRec> Puts;
Puts collect_puts(G &g) {
  Puts p(g.nmsg, PutRec{0, 0, 0, NOSUB, OK, false});
  for (auto &e : g.h) if (e.op == PUT) { p[e.msg].in = e.in; p[e.msg].out = e.out; p[e.msg].mb = e.mb; p[e.msg].excl = e.excl; p[e.msg].res = e.res; p[e.msg].known = true; }
  return p;
}
void check_windows(G &g, bool seq) {
  Puts P = collect_puts(g);
  size_t ns = g.subs.size();
  std::vector<std::vector<const Ev *>> gets(ns), clears(ns);
  for (auto &e : g.h) { if (e.op == GET && e.sub >= 0 && e.res == OK) gets[e.sub].push_back(&e); if (e.op == CLEAR && e.sub >= 0) clears[e.sub].push_back(&e); }
  for (size_t s = 0; s < ns; s++) {
    SubRec &q = g.subs[s];
    std::sort(gets[s].begin(), gets[s].end(), [](const Ev *a, const Ev *b) { return a->out < b->out; });
    std::vector<char> got(g.nmsg, 0);
    for (auto *e : gets[s]) if (e->msg != NULLMSG) {
      PutRec &p = P[e->msg];
      if (!p.known || p.mb != q.mb) sim::fail("invented", "subscription %zu got message %ld, which was never put into its mailbox", s, e->msg);
      if (p.excl == (long)s) sim::fail("self-delivery", "subscription %zu got message %ld, from which its sender had excluded it", s, e->msg);
      if (got[e->msg]) sim::fail("duplicate", "subscription %zu got message %ld twice", s, e->msg);
      if (p.in > e->out) sim::fail("invented", "subscription %zu got message %ld before it was put", s, e->msg);
      if (p.out < q.sin) sim::fail("old-message", "subscription %zu got message %ld, put before it was created", s, e->msg);
      for (auto *c : clears[s]) if (c->res == OK && p.out < c->in && e->in > c->out) sim::fail("not-cleared", "subscription %zu got message %ld, which it had cleared", s, e->msg);
      got[e->msg] = 1;
    }
    auto definite = [&](long m) {           // certainly delivered to s and never cleared
      PutRec &p = P[m];
      if (!p.known || p.res != OK || p.mb != q.mb || p.excl == (long)s || p.in < q.sout || p.out > q.din) return false;
      for (auto *c : clears[s]) if (c->out > p.in) return false;
      return true;
    };
    if (q.din == ~0ull)                      // still subscribed at the end: everything has been drained
      for (long m = 0; m < g.nmsg; m++) if (definite(m) && !got[m]) sim::fail("lost", "subscription %zu never gets message %ld", s, m);
    if (!seq) continue;
    // a get that finds nothing, or a later message, proves that earlier ones had been read
    if ((uint64_t)gets[s].size() * g.nmsg > 20000000ull) continue;
    std::vector<char> before(g.nmsg, 0);
    for (auto *e : gets[s]) {
      uint64_t lim = e->msg == NULLMSG ? e->in : P[e->msg].in;
      for (long m = 0; m < g.nmsg; m++) if (!before[m] && P[m].known && P[m].out < lim && m != e->msg && definite(m)) {
        if (e->msg == NULLMSG) sim::fail("missed", "subscription %zu finds its box empty although message %ld had been put and not read", s, m);
        sim::fail("skipped", "subscription %zu gets message %ld before the older message %ld", s, e->msg, m);
      }
      if (e->msg != NULLMSG) before[e->msg] = 1;
    }
  }
}
void check_order(G &g) {
  // nodes: messages, then one time node per put event; edges: reads in order, time
  Puts P = collect_puts(g);
  std::vector<std::pair<uint64_t, long>> ev;     // (event, msg*2 + isout)
  for (long m = 0; m < g.nmsg; m++) if (P[m].known) { ev.push_back({P[m].in, m * 2}); ev.push_back({P[m].out, m * 2 + 1}); }
  std::sort(ev.begin(), ev.end());
  for (size_t b = 0; b < g.box.size(); b++) {
    size_t n = g.nmsg + ev.size(); std::vector<std::vector<int>> adj(n); std::vector<int> deg(n, 0);
    auto edge = [&](long x, long y) { adj[x].push_back((int)y); deg[y]++; };
    for (size_t i = 0; i < ev.size(); i++) {
      long t = g.nmsg + (long)i, m = ev[i].second / 2;
      if (i) edge(t - 1, t);
      if (P[m].mb != (long)b) continue;
      if (ev[i].second & 1) edge(m, t); else edge(t, m);
    }
    std::map<long, std::vector<const Ev *>> gets; std::map<long, std::set<int>> who;
    for (auto &e : g.h) if (e.op == GET && e.res == OK && e.sub >= 0 && e.msg != NULLMSG && g.subs[e.sub].mb == (long)b && P[e.msg].known) { gets[e.sub].push_back(&e); if (e.thr >= 0) who[e.sub].insert(e.thr); }
    for (auto &q : gets) {
      if (who[q.first].size() > 1) continue;     // several readers: their return order says nothing
      std::sort(q.second.begin(), q.second.end(), [](const Ev *x, const Ev *y) { return x->out < y->out; });
      for (size_t i = 1; i < q.second.size(); i++) edge(q.second[i - 1]->msg, q.second[i]->msg);
    }
    std::vector<int> st; size_t seen = 0;
    for (size_t i = 0; i < n; i++) if (!deg[i]) st.push_back((int)i);
    while (!st.empty()) { int x = st.back(); st.pop_back(); seen++; for (int y : adj[x]) if (--deg[y] == 0) st.push_back(y); }
    if (seen != n) {
      std::string c; for (long m = 0; m < g.nmsg && c.size() < 200; m++) if (deg[m] > 0) c += " " + std::to_string(m);
      sim::fail("order", "mailbox %zu: no single order of the messages explains what its subscribers read; involved:%s", b, c.c_str());
    }
  }
}
void check_counts(G &g) {
  for (auto &e : g.h) if (e.op == SUBCNT && e.res == OK) {
    long lo = 0, hi = 0;
    for (auto &q : g.subs) if (q.mb == e.mb) { if (q.sout < e.in && q.din > e.out) lo++; if (q.sin < e.out && q.dout > e.in) hi++; }
    if (e.val < lo || e.val > hi) sim::fail("count", "subscriberCount says %ld when between %ld and %ld subscriptions existed", e.val, lo, hi);
  }
}

// linearizability against a sequential mailbox (Wing-Gong-Lowe with memoisation)
struct Lin {
  struct State { std::vector<std::vector<int>> q; std::vector<char> live; };
  std::vector<std::vector<const Ev *>> th; std::unordered_set<std::string> seen; size_t limit = 300000, bytes = 0; bool gave_up = false;
  const std::vector<SubRec> *subs; long mb;
  static std::string key(const std::vector<int> &pos, const State &s) {
    std::string k((const char *)pos.data(), pos.size() * sizeof(int));
    for (size_t i = 0; i < s.q.size(); i++) { k += s.live[i] ? 'L' : 'D'; k.append((const char *)s.q[i].data(), s.q[i].size() * sizeof(int)); k += '|'; }
    return k;
  }
  bool apply(State &s, const Ev &e) {
    switch (e.op) {
    case PUT: for (size_t i = 0; i < s.q.size(); i++) if (s.live[i] && (long)i != e.excl) s.q[i].push_back((int)e.msg); return true;
    case GET: if (!s.live[e.sub]) return false; if (s.q[e.sub].empty()) return e.msg == NULLMSG; if (s.q[e.sub][0] != e.msg) return false; s.q[e.sub].erase(s.q[e.sub].begin()); return true;
    case COUNT: return s.live[e.sub] && (long)s.q[e.sub].size() == e.val;
    case MINC: { long m = -1; for (size_t i = 0; i < s.q.size(); i++) if (s.live[i] && (m < 0 || (long)s.q[i].size() < m)) m = (long)s.q[i].size(); return m < 0 || m == e.val; }
    case CLEAR: if (!s.live[e.sub]) return false; s.q[e.sub].clear(); return true;
    case SUB: if (e.sub < 0) return true; s.live[e.sub] = 1; return true;
    case DROP: if (e.sub >= 0) { if (!s.live[e.sub]) return false; s.live[e.sub] = 0; s.q[e.sub].clear(); } return true;
    case SUBCNT: { long n = 0; for (char c : s.live) n += c; return n == e.val; }
    default: return true;
    }
  }
  bool dfs(std::vector<int> &pos, const State &s) {
    uint64_t minout = ~0ull; bool all = true;
    for (size_t i = 0; i < th.size(); i++) if (pos[i] < (int)th[i].size()) { all = false; minout = std::min(minout, th[i][pos[i]]->out); }
    if (all) return true;
    if (seen.size() > limit) { gave_up = true; return true; }
    std::string k = key(pos, s); bytes += k.size() + 64; if (bytes > 400000000ull) { gave_up = true; return true; }
    if (!seen.insert(k).second) return false;
    for (size_t i = 0; i < th.size(); i++) if (pos[i] < (int)th[i].size() && th[i][pos[i]]->in < minout) {
      State n = s;
      if (!apply(n, *th[i][pos[i]])) continue;
      pos[i]++;
      if (dfs(pos, n)) return true;
      pos[i]--;
    }
    return false;
  }
};
void check_lin(G &g) {
  for (size_t b = 0; b < g.box.size(); b++) {
    Lin l; l.mb = (long)b; l.subs = &g.subs;
    std::map<int, std::vector<const Ev *>> byt;
    for (auto &e : g.h) if (e.mb == (long)b && e.op != WRONG && e.op != DEAD && e.op != CONVERT && !(e.op == DROP && e.sub < 0)) { if (e.res != OK) return; byt[e.thr].push_back(&e); }
    Lin::State s; s.q.resize(g.subs.size()); s.live.assign(g.subs.size(), 0);
    for (size_t i = 0; i < g.subs.size(); i++) if (g.subs[i].mb == (long)b && g.subs[i].sout == 0) s.live[i] = 1;
    for (auto &t : byt) { std::sort(t.second.begin(), t.second.end(), [](const Ev *x, const Ev *y) { return x->in < y->in; }); l.th.push_back(t.second); }
    std::vector<int> pos(l.th.size(), 0);
    bool ok = true;
    for (;;) {                             // calls that ran alone can only be explained in their place
      size_t best = ~(size_t)0; uint64_t in = ~0ull, next = ~0ull;
      for (size_t i = 0; i < l.th.size(); i++) if (pos[i] < (int)l.th[i].size()) { uint64_t x = l.th[i][pos[i]]->in; if (x < in) { next = in; in = x; best = i; } else if (x < next) next = x; }
      if (best == ~(size_t)0 || l.th[best][pos[best]]->out > next) break;
      if (!l.apply(s, *l.th[best][pos[best]++])) { ok = false; break; }
    }
    ok = ok && l.dfs(pos, s);
    sim::probe(l.gave_up ? 4 : 3);
    if (!ok) {
      std::string d; for (auto &e : g.h) if (e.mb == (long)b && d.size() < 1500) {
        static const char *nm[] = {"", "put", "get", "readyCount", "minReadyCount", "clear", "subscribe", "drop", "subscriberCount"};
        char t[120]; snprintf(t, sizeof t, " [t%d %s s%ld m%ld =%ld @%llu-%llu]", e.thr, e.op < 9 ? nm[e.op] : "?", e.sub, e.msg, e.val, (unsigned long long)e.in, (unsigned long long)e.out); d += t; }
      sim::fail("not-linearizable", "mailbox %zu: no one-at-a-time execution explains this history:%s", b, d.c_str());
    }
  }
}
// at a moment when no call is running: which messages must and may exist
void check_alive(G &g, const char *when) {
  Puts P = collect_puts(g);
  std::vector<char> must(g.nmsg, 0), may(g.nmsg, 0);
  size_t ns = g.subs.size(); std::vector<std::vector<const Ev *>> clears(ns); std::vector<std::vector<char>> got(ns, std::vector<char>(g.nmsg, 0));
  for (auto &e : g.h) { if (e.op == GET && e.sub >= 0 && e.msg != NULLMSG) got[e.sub][e.msg] = 1; if (e.op == CLEAR) clears[e.sub].push_back(&e); }
  for (long m = 0; m < g.nmsg; m++) {
    if (g.held[m] > 0) must[m] = may[m] = 1;
    if (!P[m].known) continue;
    for (size_t s = 0; s < ns; s++) {
      SubRec &q = g.subs[s]; PutRec &p = P[m];
      if (p.mb != q.mb || p.excl == (long)s || got[s][m] || q.dout != ~0ull || p.out < q.sin) continue;
      bool sure = p.in > q.sout && p.res == OK, gone = false;
      for (auto *c : clears[s]) { if (c->in > p.out) gone = true; if (c->out > p.in) sure = false; }
      if (gone) continue;
      may[m] = 1; if (sure) must[m] = 1;
    }
  }
  for (long m = 0; m < g.nmsg; m++) {
    if (must[m] && g.alive[m] != 1) sim::fail("lifetime:early", "%s: message %ld is gone although somebody has yet to read it or holds it", when, m);
    if (!may[m] && g.alive[m] != 0) sim::fail("lifetime:late", "%s: message %ld still exists although nobody can read it any more", when, m);
  }
  sim::probe(2);
}

// ------------------------------------------------------------------ the run
// cfg: number of mailboxes, number of shared subscriptions, their mailboxes...
void run_common(const Plan &pl, unsigned ck) {
  G *g = new G(); gg = g; g->ck = ck; g->ev = 0; g->nmsg = 0; g->max_cost = 0; g->teardown = false;
  long nb = pl.cfg[0], ng = pl.cfg[1];
  long naming = (long)pl.cfg.size() > 2 + ng ? pl.cfg[2 + ng] : 0;     // names need not be distinct, short or present
  for (long i = 0; i < nb; i++) g->box.push_back(SoDa::makeMailBox<Msg>(naming == 1 ? std::string("box") : naming == 2 ? std::string() : naming == 3 ? std::string(300, 'n') + std::to_string(i) : "box" + std::to_string(i)));
  g->gsub.resize(ng); g->h.reserve(4096); g->subs.reserve(256);
  for (long i = 0; i < ng; i++) { Slot &s = g->gsub[i]; s.mb = pl.cfg[2 + i] % nb; s.h = g->box[s.mb]->subscribe(); s.uid = (long)g->subs.size(); g->subs.push_back(SubRec{s.mb, -1, 0, 0, ~0ull, ~0ull, false}); }
  g->th.resize(pl.thr.size());
  size_t phases = 1;
  for (size_t i = 0; i < pl.thr.size(); i++) { Th &t = g->th[i]; t.g = g; t.id = (int)i; t.prog = pl.thr[i]; t.pc = 0; size_t ph = 1; for (auto &o : t.prog) ph += o.code == PHASE; phases = std::max(phases, ph); }
  for (size_t ph = 0; ph < phases; ph++) {
    for (auto &t : g->th) sim::spawn(body, &t);
    sim::go();
    if (ck & K_LIFE) check_alive(*g, "between phases");
  }
  // what is left is read by the main thread, alone
  for (auto &b : g->box) for (int k = 0; k < 2; k++) {
    Ev e; e.thr = -1; e.op = SUBCNT; e.mb = &b - &g->box[0]; e.sub = e.excl = NOSUB; e.msg = NULLMSG; e.res = OK; e.in = ++g->ev; e.val = b->subscriberCount(); e.out = ++g->ev; if (k == 0) g->h.push_back(e);
  }
  if (!(ck & K_LIFE) || (sim::rnd() & 1)) {
    auto drain = [&](Slot &s) {
      if (!s.h || s.cancelled) return;
      long want = g->box[s.mb]->readyCount(s.h), n = 0;
      { Ev e; e.thr = -1; e.op = COUNT; e.mb = s.mb; e.sub = s.uid; e.excl = NOSUB; e.msg = NULLMSG; e.val = want; e.res = OK; e.in = ++g->ev; e.out = ++g->ev; g->h.push_back(e); }
      for (;;) {
        Ev e; e.thr = -1; e.op = GET; e.mb = s.mb; e.sub = s.uid; e.excl = NOSUB; e.val = 0; e.res = OK; e.in = ++g->ev;
        MsgP m = g->box[s.mb]->get(s.h); e.msg = look(*g, m); e.out = ++g->ev; g->h.push_back(e);
        if (!m) break;
        if (++n > g->nmsg + 5) sim::fail("duplicate", "a mailbox never runs empty");
      }
    };
    for (auto &s : g->gsub) drain(s);
    for (auto &t : g->th) for (auto &s : t.slot) drain(s);
    if (ck & K_LIFE) check_alive(*g, "after everything was read");
  }
  if (ck & K_WIN) check_windows(*g, ck & K_SEQ);
  if (ck & K_ORDER) check_order(*g);
  if (ck & K_COUNT) check_counts(*g);
  if (ck & K_LIN) check_lin(*g);
  // teardown in one of two orders, by a simulated thread
  struct Down { G *g; bool box_first; } d = {g, (sim::rnd() & 3) == 0};
  sim::spawn([](void *p) {
    Down &d = *(Down *)p; G &g = *d.g; sim::hold_faults(true);
    auto handles = [&](bool raw) {
      auto one = [&](Slot &s) { if (!s.h) return; if (raw) give_up(s.h, 0); else { In in; s.h.reset(); } };
      for (auto &t : g.th) for (auto &s : t.slot) one(s);
      for (auto &s : g.gsub) one(s);
    };
    if (d.box_first) { { In in; g.box.clear(); } handles(true); } else { handles(false); In in; g.box.clear(); }
    sim::hold_faults(false);
  }, &d);
  sim::go();
  if (ck & K_LIFE) {
    for (long m = 0; m < g->nmsg; m++) if (g->alive[m] != (g->held[m] > 0)) sim::fail(g->alive[m] > 0 ? "lifetime:late" : "lifetime:early", "message %ld %s after the mailbox was destroyed", m, g->alive[m] > 0 ? "still exists" : "is gone although held");
  }
  for (auto &t : g->th) for (auto &p : t.hold) if (p) { g->held[p->id]--; p.reset(); }
  if (ck & K_LIFE) for (long m = 0; m < g->nmsg; m++) if (g->alive[m] != 0) sim::fail("lifetime:late", "message %ld still exists at the end", m);
  gg = nullptr; delete g;
}

// ------------------------------------------------------------------ the same message object put again and again, or passed on to another mailbox
// every put is one message to receive, whatever object it carries
struct Again {
  const Plan *pl; std::vector<std::shared_ptr<Box>> box; std::vector<Subscription> sub; std::vector<long> sub_box;
  std::vector<std::vector<MsgP>> pool; bool forwards;
  std::vector<std::vector<long>> got;                          // per subscription: ids read, in order
  std::vector<std::vector<std::pair<long, long>>> sent;        // per thread: (mailbox, id), in order; excluded subscription in excl
  std::vector<std::vector<long>> excl;
};
struct AgainTh { Again *a; int id; };
void again_get(Again &a, long s, bool fwd, int thr) {
  MsgP m; int res = guarded([&] { m = a.box[a.sub_box[s]]->get(a.sub[s]); });
  if (res != OK) sim::fail("exception", "get ended with %s", rname[res]);
  if (!m) return;
  a.got[s].push_back(look(*gg, m)); sim::log(0x71, s, a.got[s].back());
  if (fwd && a.forwards && a.sub_box[s] == 0) {
    a.sent[thr].push_back({1, m->id}); a.excl[thr].push_back(NOSUB);
    res = guarded([&] { a.box[1]->put(m); }); if (res != OK) sim::fail("exception", "put ended with %s", rname[res]);
  }
  In in; m.reset();
}
void again_body(void *p) {
  AgainTh &t = *(AgainTh *)p; Again &a = *t.a;
  for (const Op &o : a.pl->thr[t.id]) {
    sim::op_point();
    if (o.code == PUT) {
      MsgP m = a.pool[t.id][(size_t)o.b % a.pool[t.id].size()]; long mb = o.a % (long)a.box.size(), ex = NOSUB;
      if (o.c >= 0 && (size_t)o.c < a.sub.size() && a.sub_box[o.c] == mb) ex = o.c;
      a.sent[t.id].push_back({mb, m->id}); a.excl[t.id].push_back(ex); sim::log(0x70, t.id, mb, m->id);
      sim::note("t%d puts message object %ld into mailbox %ld", t.id, m->id, mb);
      int res = guarded([&] { if (ex >= 0) a.box[mb]->put(m, a.sub[ex]); else a.box[mb]->put(m); });
      if (res != OK) sim::fail("exception", "put ended with %s", rname[res]);
      In in; m.reset();
    } else again_get(a, o.a % (long)a.sub.size(), o.b > 0, t.id);
  }
}
void run_again(const Plan &pl, bool order) {
  std::unique_ptr<Again> a(new Again); G *g = new G(); gg = g; g->ck = 0; g->ev = 0; g->nmsg = 0; g->max_cost = 0; a->pl = &pl;
  long nb = pl.cfg[1], ns = pl.cfg[2]; a->forwards = pl.cfg[3] && nb > 1;
  for (long i = 0; i < nb; i++) a->box.push_back(SoDa::makeMailBox<Msg>("again"));
  for (long i = 0; i < ns; i++) { a->sub_box.push_back(i % nb); a->sub.push_back(a->box[i % nb]->subscribe()); }
  a->got.resize(ns); a->sent.resize(pl.thr.size()); a->excl.resize(pl.thr.size()); a->pool.resize(pl.thr.size());
  std::vector<long> owner;
  for (size_t t = 0; t < pl.thr.size(); t++) for (long i = 0; i < pl.cfg[4]; i++) { a->pool[t].push_back(make_msg(*g)); owner.push_back((long)t); }
  std::vector<AgainTh> th(pl.thr.size());
  for (size_t i = 0; i < th.size(); i++) { th[i].a = a.get(); th[i].id = (int)i; sim::spawn(again_body, &th[i]); }
  sim::go();
  struct Rest { Again *a; } rest = {a.get()};
  sim::spawn([](void *p) { Again &a = *((Rest *)p)->a; for (size_t s = 0; s < a.sub.size(); s++) for (;;) { size_t n = a.got[s].size(); again_get(a, (long)s, false, 0); if (a.got[s].size() == n) break; if (n > 100000) sim::fail("duplicate", "a mailbox never runs empty"); } }, &rest);
  sim::go();
  for (long s = 0; s < ns; s++) {
    std::map<long, long> want, have;
    for (size_t t = 0; t < th.size(); t++) for (size_t i = 0; i < a->sent[t].size(); i++) if (a->sent[t][i].first == a->sub_box[s] && a->excl[t][i] != s) want[a->sent[t][i].second]++;
    for (long m : a->got[s]) have[m]++;
    for (auto &k : want) if (have[k.first] < k.second) sim::fail("lost", "message object %ld was put %ld times, but subscription %ld got it only %ld times", k.first, k.second, s, have[k.first]);
    for (auto &k : have) if (want[k.first] < k.second) sim::fail("duplicate", "message object %ld was put %ld times, but subscription %ld got it %ld times", k.first, want[k.first], s, k.second);
    if (!order || a->forwards) continue;
    for (size_t t = 0; t < th.size(); t++) {                   // what one sender put comes out in the order it was put
      std::vector<long> w, h;
      for (size_t i = 0; i < a->sent[t].size(); i++) if (a->sent[t][i].first == a->sub_box[s] && a->excl[t][i] != s) w.push_back(a->sent[t][i].second);
      for (long m : a->got[s]) if (owner[m] == (long)t) h.push_back(m);
      if (w != h) sim::fail("sender-order", "subscription %ld gets the messages of t%zu in another order than they were put", s, t);
    }
  }
  { sim::spawn([](void *p) { Again &a = *((Rest *)p)->a; In in; a.sub.clear(); a.box.clear(); a.pool.clear(); }, &rest); sim::go(); }
  gg = nullptr; delete g;
}

// ------------------------------------------------------------------ plan generators
const long AGAIN = -9;
long plan_ops(const Plan &p) { long n = 0; for (auto &t : p.thr) for (auto &o : t) n += (o.code == PUTMANY || o.code == GETMANY) ? o.c : 1; return n; }
Op mk(int c, long a = 0, long b = -1, long d = -1) { Op o = {c, a, b, d}; return o; }
void set_cfg(Rng &r, Plan &p, long nb, long ng) { p.cfg = {nb, ng}; for (long i = 0; i < ng; i++) p.cfg.push_back(nb > 1 ? (long)r.below(nb) : 0); p.cfg.push_back(r.chance(65) ? 0 : r.chance(60) ? 1 : r.range(2, 3)); }
void noise(Rng &r, sim::Cfg &c) {
  if (r.chance(15)) enable(c, sim::F_STALL, 65536 / 60, (uint32_t)r.range(1, 3));
}
void gen_again(Rng &r, Plan &p, bool own) {      // own: each subscription is read by one thread only, so that its reading order is known
  long nb = r.range(1, 2), nt = r.range(1, 4), ns = r.range(nb, 5), objs = r.range(1, 3);
  p.cfg = {AGAIN, nb, ns, r.chance(50), objs};
  for (long t = 0; t < nt; t++) {
    std::vector<Op> v; long n = r.range(1, r.chance(20) ? 30 : 9); int pp = (int)r.range(30, 90);
    for (long i = 0; i < n; i++) if (r.chance(pp)) v.push_back(mk(PUT, (long)r.below(nb), (long)r.below(objs), r.chance(25) ? (long)r.below(ns) : -1)); else { long s = (long)r.below(ns); if (own) { s = s - s % nt + t; if (s >= ns) continue; } v.push_back(mk(GET, s, (long)r.below(2))); }
    p.thr.push_back(v);
  }
}
// senders and readers on shared subscriptions; reader k owns subscription k
void gen_flow(Rng &r, Plan &p, bool excl, int maxops) {
  if (r.chance(2)) {                 // very many subscriptions, each read by one of a few threads
    long nt = r.range(2, 8), ng = r.range(41, 300); set_cfg(r, p, 1, ng);
    for (long t = 0; t < nt; t++) {
      std::vector<Op> v; long n = r.range(1, 6);
      for (long i = 0; i < n; i++) { long s = t + nt * (long)r.below((uint64_t)((ng - 1 - t) / nt + 1)); if (r.chance(60)) v.push_back(mk(PUT, 0, excl && r.chance(50) ? 100 + s : -1)); else v.push_back(mk(GET, 100 + s)); }
      p.thr.push_back(v);
    }
    return;
  }
  bool crowd = r.chance(6);
  long nb = r.chance(20) ? 2 : 1, ng = crowd ? r.range(5, 40) : r.range(1, 4); set_cfg(r, p, nb, ng);
  long nt = std::max(crowd ? std::min(ng, r.range(3, 8)) : ng, r.range(2, 5));
  if (crowd) { maxops = 4; if (r.chance(50)) nt = ng; }
  for (long t = 0; t < nt; t++) {
    std::vector<Op> v; long n = r.range(1, maxops); int pp = (int)r.range(20, 80);
    for (long i = 0; i < n; i++) {
      if (t >= ng || r.chance(pp)) v.push_back(mk(PUT, (long)r.below(nb), excl && t < ng && r.chance(35) ? 100 + t : -1));
      else v.push_back(r.chance(12) ? mk(COUNT, 100 + t) : mk(GET, 100 + t));
      if (r.chance(4)) v.push_back(mk(SLEEP, (long)r.below(100000)));
    }
    p.thr.push_back(v);
  }
}
void gen_big(Rng &r, Plan &p, sim::Cfg &c, long n) {
  set_cfg(r, p, 1, 2);
  p.thr.push_back({mk(PUTMANY, 0, -1, n), mk(GETMANY, 100, -1, n / 4), mk(PUTMANY, 0, -1, n / 8), mk(GETMANY, 100, -1, n / 2)});
  p.thr.push_back({mk(PUTMANY, 0, 101, n / 4), mk(GETMANY, 101, -1, n)});
  swarm(r, c, 100000, false); c.max_steps = 100000000;
  if (c.strategy == sim::S_RANDOM || c.strategy == sim::S_SYNC) { c.strategy = sim::S_RANDOM; for (auto &x : c.p) x = 0; c.p[sim::Y_SYNC] = c.p[sim::Y_OP] = 65536 / 25; }
}
void gen_join(Rng &r, Plan &p, int maxops, long nb, bool clears, bool misuse) {
  long ng = r.range(0, 2); set_cfg(r, p, nb, ng);
  long nt = r.range(2, 4), nsl = r.chance(75) ? 2 : r.range(3, 8);
  for (long t = 0; t < nt; t++) {
    std::vector<Op> v; long n = r.range(2, maxops); bool reader = t < ng;
    for (long i = 0; i < n; i++) {
      long sl = (long)r.below(nsl); long own = reader && r.chance(50) ? 100 + t : sl;
      int k = (int)r.below(100);
      if (k < 18) v.push_back(mk(SUB, sl, (long)r.below(nb)));
      else if (k < 30) v.push_back(mk(DROP, sl));
      else if (k < 58) v.push_back(mk(PUT, (long)r.below(nb), r.chance(30) ? own : -1, r.chance(20) ? (long)r.below(4) : -1));
      else if (k < 78) v.push_back(mk(GET, own, r.chance(30) ? (long)r.below(4) : -1));
      else if (k < 83) v.push_back(mk(DRAIN, own));
      else if (k < 89) v.push_back(mk(SUBCNT, (long)r.below(nb)));
      else if (k < 92) v.push_back(mk(COUNT, own));
      else if (k < 94) v.push_back(mk(MINC, (long)r.below(nb)));
      else if (k < 97) v.push_back(clears ? mk(CLEAR, own) : mk(GET, own));
      else v.push_back(mk(RELEASE, (long)r.below(4)));
      if (misuse && r.chance(45)) switch (r.below(4)) {
        case 0: v.push_back(mk(WRONG, own, (long)r.below(4), (long)r.below(4))); break;
        case 1: v.push_back(mk(CANCEL, sl)); break;
        case 2: v.push_back(mk(DEAD, sl, (long)r.below(4))); break;
        default: v.push_back(mk(CONVERT, (long)r.below(2), (long)r.below(nb))); break;
      }
    }
    p.thr.push_back(v);
  }
}
// a backlog somewhere in an otherwise small run
void backlog(Rng &r, Plan &p, int pct, long lo, long hi) { if (!r.chance(pct)) return; auto &t = p.thr[r.below(p.thr.size())]; t.insert(t.begin() + (long)r.below(t.size() + 1), mk(PUTMANY, (long)r.below(2), -1, r.range(lo, hi))); }
}  // namespace

void gen_C06(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int) {
  if (idx & 1) { gen_C06b(r, p, c); p.cfg.push_back(-7); return; }
  gen_join(r, p, 9, r.range(1, 2), true, r.chance(50)); backlog(r, p, 4, 70, 300); swarm(r, c, plan_ops(p)); noise(r, c); c.race = 1;
  if (r.chance(20)) enable(c, sim::F_ALLOC, 65536 / 20, 3);
}
void run_C06(const Plan &p) {
  if (p.cfg.back() == -7) { Plan q = p; q.cfg.pop_back(); run_C06b(q); } else run_common(p, K_ALLOC);
}

void gen_C07(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  if (idx == 60 || (tier && idx % 4000 == 60)) { gen_big(r, p, c, 140000); return; }
  if (idx % 300 == 61) { gen_big(r, p, c, r.range(500, 6000)); return; }
  if (idx % 9 == 4) { gen_again(r, p, false); swarm(r, c, plan_ops(p)); noise(r, c); return; }
  gen_flow(r, p, true, r.chance(30) ? 25 : 8);
  if (r.chance(30)) { // two readers of one subscription
    std::vector<Op> v; long n = r.range(1, 6); for (long i = 0; i < n; i++) v.push_back(mk(GET, 100)); p.thr.push_back(v);
  }
  swarm(r, c, plan_ops(p)); noise(r, c);
}
void run_C07(const Plan &p) { if (p.cfg[0] == AGAIN) run_again(p, false); else run_common(p, K_WIN); }
void gen_C08(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  if (idx == 60 || (tier && idx % 4000 == 60)) { gen_big(r, p, c, 140000); return; }
  if (idx % 400 == 61) { gen_big(r, p, c, r.chance(75) ? r.range(300, 3000) : r.range(3000, 9500)); return; }
  if (idx % 9 == 4) { gen_again(r, p, true); swarm(r, c, plan_ops(p)); noise(r, c); return; }
  gen_flow(r, p, true, r.chance(30) ? 20 : 7); swarm(r, c, plan_ops(p)); noise(r, c);
}
void run_C08(const Plan &p) { if (p.cfg[0] == AGAIN) run_again(p, true); else run_common(p, K_ORDER); }
void gen_C09(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  if (idx == 60 || idx % 3000 == 61 || (tier && idx % 20000 == 60)) {    // one user, counts that need more than a byte or two
    long n = idx % 3000 == 61 ? r.range(250, 3000) : r.range(65500, 66500); set_cfg(r, p, 1, 2); std::vector<Op> v = {mk(SUB, 0, 0)};
    for (int i = 0; i < 3; i++) {
      v.push_back(mk(PUTMANY, 0, i == 1 ? 101 : -1, i ? r.range(1, 300) : n));
      for (int k = 0; k < 4; k++) { v.push_back(mk(COUNT, k == 3 ? 0 : 100 + (long)r.below(2))); v.push_back(r.chance(50) ? mk(MINC, 0) : mk(SUBCNT, 0)); v.push_back(mk(GET, 100 + (long)r.below(2))); if (r.chance(30)) { v.push_back(mk(DROP, 0)); v.push_back(mk(SUB, 0, 0)); } }
    }
    for (long s : {100l, 101l, 0l}) { v.push_back(mk(CLEAR, s)); v.push_back(mk(MINC, 0)); v.push_back(mk(COUNT, s)); }
    p.thr = {v}; swarm(r, c, plan_ops(p), false); c.max_steps = 100000000; c.race = 0; return;
  }
  long ng = r.range(1, 2); set_cfg(r, p, 1, ng);
  long nt = r.range(2, 4), per = nt == 2 ? 8 : nt == 3 ? 6 : 5;
  int wp = (int)r.range(10, 50), wg = (int)r.range(10, 50);
  for (long t = 0; t < nt; t++) {
    std::vector<Op> v; long n = r.range(2, per);
    for (long i = 0; i < n; i++) {
      long s = r.chance(60) ? 100 + (long)r.below(ng) : 0; int k = (int)r.below(wp + wg + 60);
      if (k < wp) v.push_back(mk(PUT, 0, r.chance(20) ? s : -1)); else if (k < wp + wg) v.push_back(mk(GET, s));
      else { k -= wp + wg; if (k < 12) v.push_back(mk(COUNT, s)); else if (k < 22) v.push_back(mk(MINC, 0)); else if (k < 34) v.push_back(mk(CLEAR, s)); else if (k < 43) v.push_back(mk(SUB, 0, 0)); else if (k < 50) v.push_back(mk(DROP, 0)); else v.push_back(mk(SUBCNT, 0)); }
    }
    p.thr.push_back(v);
  }
  if (r.chance(8)) { for (auto &t : p.thr) t.insert(t.begin(), mk(PHASE)); p.thr[0].insert(p.thr[0].begin(), mk(PUTMANY, 0, -1, r.range(64, 300))); }
  swarm(r, c, plan_ops(p)); noise(r, c); c.race = 1;
}
void run_C09(const Plan &p) { run_common(p, K_LIN); }
void gen_C10(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  if (idx % 300 == 41 || (idx == 60 || (tier && idx % 4000 == 60))) {            // very many re-subscriptions
    set_cfg(r, p, 1, 1); std::vector<Op> v; long n = idx % 300 == 41 ? r.range(260, 400) : 66000;
    v.push_back(mk(SUB, 1, 0));
    for (long i = 0; i < n; i++) { v.push_back(mk(SUB, 0, 0)); if (i % 16 == 3 && n < 1000) { v.push_back(mk(PUT, 0)); v.push_back(mk(DRAIN, 0)); } v.push_back(mk(DROP, 0)); }
    v.push_back(mk(SUB, 0, 0)); v.push_back(mk(SUB, 2, 0)); v.push_back(mk(PUT, 0)); v.push_back(mk(DRAIN, 0)); v.push_back(mk(SUBCNT, 0)); v.push_back(mk(DRAIN, 1)); v.push_back(mk(PUT, 0));
    p.thr.push_back(v); p.thr.push_back({mk(PUT, 0), mk(GET, 100), mk(PUT, 0)});
    swarm(r, c, 5000, false); c.max_steps = 100000000; if (c.strategy == sim::S_RANDOM || c.strategy == sim::S_SYNC) { c.strategy = sim::S_RANDOM; c.p[sim::Y_FUNC] = 0; c.p[sim::Y_SYNC] = c.p[sim::Y_OP] = 3000; }
    return;
  }
  gen_join(r, p, r.chance(30) ? 25 : 9, r.chance(20) ? 2 : 1, false, false); backlog(r, p, 3, 70, 1500); swarm(r, c, plan_ops(p)); noise(r, c);
}
void run_C10(const Plan &p) { run_common(p, K_WIN | K_SEQ | K_ORDER | K_COUNT); }
void gen_C11(Rng &r, Plan &p, sim::Cfg &c, uint64_t, int) {
  gen_join(r, p, 14, r.chance(20) ? 2 : 1, true, r.chance(20));
  long ph = r.range(0, 2);
  for (long i = 0; i < ph; i++) for (auto &t : p.thr) t.insert(t.begin() + (long)r.below(t.size() + 1), mk(PHASE));
  backlog(r, p, 4, 70, 1500);
  swarm(r, c, plan_ops(p)); noise(r, c);
}
void run_C11(const Plan &p) { run_common(p, K_LIFE); }
void gen_C12(Rng &r, Plan &p, sim::Cfg &c, uint64_t, int) { gen_join(r, p, 9, r.range(2, 3), false, true); backlog(r, p, 3, 70, 1500); swarm(r, c, plan_ops(p)); noise(r, c); }
void run_C12(const Plan &p) { run_common(p, K_WIN | K_SEQ | K_ORDER | K_COUNT | K_MISUSE); }
void gen_C13(Rng &r, Plan &p, sim::Cfg &c, uint64_t, int) {
  if (r.chance(50)) gen_join(r, p, 10, r.range(1, 2), r.chance(40), r.chance(30)); else gen_flow(r, p, true, 10);
  if (r.chance(20)) { long n = r.range(100, 700); for (auto &t : p.thr) if (r.chance(50)) t.insert(t.begin() + (long)r.below(t.size() + 1), mk(PUTMANY, 0, -1, n)); }
  swarm(r, c, plan_ops(p));
  static const uint32_t rates[] = {65535, 65536 / 2, 65536 / 5, 65536 / 20, 65536 / 100, 65536 / 500}; enable(c, sim::F_ALLOC, r.pick(rates), r.chance(50) ? 1 : (uint32_t)r.range(2, 8));
}
void run_C13(const Plan &p) { run_common(p, K_WIN | K_SEQ | K_ORDER | K_COUNT | K_ALLOC); }
void gen_C14(Rng &r, Plan &p, sim::Cfg &c, uint64_t idx, int tier) {
  long ng = r.range(2, 4); set_cfg(r, p, 1, ng);
  long vol = idx % 40 == 3 ? r.range(2000, 9000) : idx == 60 || (tier && idx % 2000 == 60) ? 140000 : r.range(5, 120);
  long lag = r.range(1, ng - 1);                       // the first lag readers stall for good or for a month
  for (long t = 0; t < ng; t++) {
    std::vector<Op> v;
    if (t < lag) { long n = r.range(0, 3); for (long i = 0; i < n; i++) v.push_back(r.chance(50) ? mk(GET, 100 + t) : mk(PUT, 0)); if (r.chance(50)) { v.push_back(mk(SLEEP, (long)(r.range(20, 40) * DAY))); v.push_back(mk(COUNT, 100 + t)); v.push_back(mk(GETMANY, 100 + t, -1, r.range(1, vol))); } }
    else for (long left = vol; left > 0;) { long k = std::min(left, r.range(1, std::max(3l, vol / 5))); left -= k; v.push_back(mk(PUTMANY, 0, r.chance(30) ? 100 + t : -1, k)); v.push_back(mk(GETMANY, 100 + t, -1, k)); if (r.chance(20)) v.push_back(mk(COUNT, 100 + t)); if (r.chance(10)) { v.push_back(mk(SUB, 0, 0)); v.push_back(mk(GET, 0)); if (r.chance(60)) v.push_back(mk(DROP, 0)); } if (r.chance(15)) v.push_back(r.chance(40) ? mk(MINC, 0) : r.chance(50) ? mk(SUBCNT, 0) : mk(CLEAR, 100 + t)); }
    p.thr.push_back(v);
  }
  swarm(r, c, plan_ops(p), vol < 500); c.max_steps = 100000000;
  noise(r, c);
  if (vol > 500 && (c.strategy == sim::S_RANDOM || c.strategy == sim::S_SYNC)) { c.strategy = sim::S_RANDOM; for (auto &x : c.p) x = 0; c.p[sim::Y_SYNC] = c.p[sim::Y_OP] = 65536 / 25; }
}
void run_C14(const Plan &p) { run_common(p, K_WIN | K_STALL | K_SEQ | K_ORDER); }

const char *const probes_mailbox[] = {"", "", "quiescent lifetime checks", "histories checked for linearizability", "histories too big to decide", "calls with a foreign subscription", "calls with a cancelled subscription", "wrong conversions", nullptr};

void setup() { gg = nullptr; }
void warmup() {
  auto b = SoDa::makeMailBox<int>("warm"); auto s = b->subscribe(); b->put(std::make_shared<int>(1)); b->get(s);
  try { SoDa::MailBoxBase::convert<Box>(b); } catch (SoDa::MailBoxBase::BadConversion &) {}
  // the texts of all exceptions, so that nothing is initialised for the first time inside a run
  { auto b2 = SoDa::makeMailBox<int>("other"); try { b2->get(s); } catch (std::exception &e) { std::string t = e.what(); } }
  { Box bx("warm"); Subscription q = bx.subscribe(); int i = index_of(q, &bx, 0); if (i >= 0) for (int k = 0; k < 2; k++) try { if (!k) bx.unsubscribe(i); else bx.get(q); } catch (std::exception &e) { std::string t = e.what(); } }
  for (int k = 0; k < 2; k++) { auto br = SoDa::makeBarrier("warm", 3); for (int i = 0; i < 2; i++) try { if (k) br->wait(std::chrono::milliseconds(3)); else br->wait(3ul); } catch (std::exception &e) { std::string t = e.what(); } }
}
#define S(p, leak, pr) {#p, gen_##p, run_##p, leak, pr}
const Scenario scenarios[] = {S(C01, false, probes_barrier), S(C02, false, probes_barrier), S(C03, false, probes_barrier), S(C04, false, probes_barrier), S(C05, false, probes_barrier), S(C06, false, nullptr),
  S(C07, false, probes_mailbox), S(C08, false, probes_mailbox), S(C09, false, probes_mailbox), S(C10, false, probes_mailbox), S(C11, true, probes_mailbox), S(C12, false, probes_mailbox), S(C13, false, probes_mailbox), S(C14, false, probes_mailbox)};
const int nscenarios = sizeof scenarios / sizeof scenarios[0];

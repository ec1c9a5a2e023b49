// Concurrent queues: element types, one interface over all forms, recorded histories and their linearizability.
#ifndef CHECKS_QUEUE_H
#define CHECKS_QUEUE_H
#include "common.h"
#include <memory>
#include <deque>
#include <type_traits>
#include <unordered_set>
#include <boost/thread/thread.hpp>
#include <boost/thread/concurrent_queues/queue_op_status.hpp>

// ---- elements ----------------------------------------------------------------------
struct QCtl { int boom[64]; };
static QCtl qctl; // per thread: the n-th copy from now throws
inline void arm_copy(int n) { sim::Quiet q; qctl.boom[sim_self() & 63] = n; }
inline void disarm_copy() { arm_copy(0); }
inline void maybe_boom() { bool t = false; { sim::Quiet q; int& b = qctl.boom[sim_self() & 63]; if (b > 0 && --b == 0) { t = true; sim_count_fault(SF_USER); } } if (t) throw Boom(1); }
struct El { // copies may throw, moves do not; owns memory so that loss, double use and leaks show
  int* p; El() : p(0) {} explicit El(int id) : p(new int(id)) {}
  El(const El& o) : p(0) { maybe_boom(); if (o.p) p = new int(*o.p); }
  El(El&& o) noexcept : p(o.p) { o.p = 0; }
  El& operator=(const El& o) { if (this != &o) { maybe_boom(); int* n = o.p ? new int(*o.p) : 0; delete p; p = n; } return *this; }
  El& operator=(El&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = 0; } return *this; }
  ~El() { delete p; } int id() const { return p ? *p : -1; } bool operator<(const El& o) const { return id() / 100 < o.id() / 100; }
};
struct Mo { // move only
  std::unique_ptr<int> p; Mo() {} explicit Mo(int id) : p(new int(id)) {} Mo(Mo&&) = default; Mo& operator=(Mo&&) = default; Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete;
  int id() const { return p ? *p : -1; } bool operator<(const Mo& o) const { return id() / 100 < o.id() / 100; }
};
struct Co { // copies only, and copying throws
  int* p; Co() : p(0) {} explicit Co(int id) : p(new int(id)) {} Co(const Co& o) : p(0) { maybe_boom(); if (o.p) p = new int(*o.p); }
  Co& operator=(const Co& o) { if (this != &o) { maybe_boom(); int* n = o.p ? new int(*o.p) : 0; delete p; p = n; } return *this; }
  ~Co() { delete p; } int id() const { return p ? *p : -1; } bool operator<(const Co& o) const { return id() / 100 < o.id() / 100; }
};
// ---- history -----------------------------------------------------------------------
enum QK { PUSH, TPUSH, NPUSH, WPUSH, SPUSH, PULLV, PULLR, TPULL, NPULL, WPULL, SPULL, UPULL, FPULL, CLOSE, SIZE, EMPTYQ, FULLQ, CLOSEDQ, TAKE, CAP };
enum QR { OK, CLOSED, EMPTYR, FULLR, BUSY, THREW, INTR, TIMEOUT, NOTREADY, NOBLOCK };
static const char* qk_name(int k) { static const char* n[] = {"push", "try_push", "nonblocking_push", "wait_push", "<<", "pull()", "pull(x)", "try_pull", "nonblocking_pull", "wait_pull", ">>", "pull_until", "pull_for", "close", "size", "empty", "full", "closed", "underlying_queue", "capacity"}; return n[k]; }
static const char* qr_name(int r) { static const char* n[] = {"ok", "closed", "empty", "full", "busy", "threw", "interrupted", "timeout", "not_ready", "false"}; return n[r]; }
inline bool is_push(int k) { return k <= SPUSH; } inline bool is_pull(int k) { return k >= PULLV && k <= FPULL; } inline bool timed(int k) { return k == UPULL || k == FPULL; } inline bool blocks(int k) { return k == PUSH || k == WPUSH || k == SPUSH || k == PULLV || k == PULLR || k == WPULL || k == SPULL; }
struct Rec { int k, r; long v; u64 b, e; int tid; u64 t0, t1; std::vector<int> list; };
struct Hist {
  std::vector<Rec> h; u64 clk = 0; long cap = 0; bool prio = false; int sign = 1; int inop[64]; virtual ~Hist() {}
  Hist() { for (int& i : inop) i = -1; }
  size_t begin(int k, long v) { sim::Quiet q; Rec r = Rec(); r.k = k; r.v = v; r.r = -1; r.b = ++clk; r.tid = sim_self(); r.t0 = sim_now(); inop[r.tid & 63] = k; h.push_back(r); return h.size() - 1; }
  void end(size_t i, int r) { sim::Quiet q; h[i].r = r; h[i].e = ++clk; h[i].t1 = sim_now(); inop[h[i].tid & 63] = -1; if (sim_tracing()) sim_note("%s(%ld) -> %s", qk_name(h[i].k), h[i].v, qr_name(r)); }
  void endv(size_t i, int r, long v) { { sim::Quiet q; h[i].v = v; } end(i, r); }
  // ---- sequential specification: the next state, or false when the result is impossible in this state
  struct St { std::vector<int> q; bool closed = false; };
  virtual bool apply(St& s, const Rec& r) const {
    bool full = cap && (long)s.q.size() >= cap;
    if (r.r == THREW || r.r == INTR || r.r == BUSY) return true;
    if (is_push(r.k)) {
      if (r.r == CLOSED) return s.closed; if (s.closed) return false;
      if (r.r == FULLR) return full && !blocks(r.k);
      if (full) return false; s.q.push_back((int)r.v); return r.r == OK;
    }
    if (is_pull(r.k)) {
      if (r.r == CLOSED) return s.closed && s.q.empty(); if (r.r == EMPTYR) return s.q.empty() && !s.closed && !blocks(r.k) && !timed(r.k); if (r.r == TIMEOUT) return timed(r.k) && s.q.empty() && !s.closed;
      if (r.r != OK || s.q.empty()) return false;
      if (!prio) { if (s.q.front() != r.v) return false; s.q.erase(s.q.begin()); return true; }
      size_t at = s.q.size(); for (size_t i = 0; i < s.q.size(); i++) { if (sign * (s.q[i] / 100) > sign * (r.v / 100)) return false; if (s.q[i] == r.v) at = i; }
      if (at == s.q.size()) return false; s.q.erase(s.q.begin() + (long)at); return true;
    }
    switch (r.k) {
      case CLOSE: s.closed = true; return true;
      case SIZE: return r.v == (long)s.q.size(); case EMPTYQ: return (r.v != 0) == s.q.empty(); case FULLQ: return (r.v != 0) == full; case CLOSEDQ: return (r.v != 0) == s.closed; case CAP: return r.v == cap;
      case TAKE: { std::vector<int> a = r.list, b = s.q; if (prio) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); } if (a != b) return false; s.q.clear(); return true; }
    }
    return false;
  }
  struct Search { const Hist& H; std::unordered_set<std::string> seen; u64 nodes = 0; u64 full; };
  bool dfs(Search& S, u64 done, const St& s) const {
    if (done == S.full) return true; if (++S.nodes > 400000) return true; // never an alarm from an incomplete search
    std::string key((const char*)&done, sizeof done); key.push_back(s.closed ? 'c' : 'o'); key.append((const char*)s.q.data(), s.q.size() * sizeof(int)); if (!S.seen.insert(key).second) return false;
    u64 minend = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].e < minend) minend = h[i].e;
    for (size_t i = 0; i < h.size(); i++) { if ((done >> i & 1) || h[i].b > minend) continue; St n = s; if (apply(n, h[i]) && dfs(S, done | 1ull << i, n)) return true; }
    return false;
  }
  void check() {
    sim::Quiet quiet;
    if (h.size() > 63) sim_violation("harness", "history too long");
    // exactly once, first the plain facts (clearer reports)
    for (size_t i = 0; i < h.size(); i++) { const Rec& r = h[i]; if (!is_pull(r.k) || r.r != OK) continue;
      u32 pushed = 0, pulled = 0; for (const Rec& o : h) { if (is_push(o.k) && o.r == OK && o.v == r.v) pushed++; if (is_pull(o.k) && o.r == OK && o.v == r.v) pulled++; }
      SIM_CHECK(pushed == 1, "phantom", "%s delivered %ld, which was not accepted", qk_name(r.k), r.v); SIM_CHECK(pulled == 1, "duplicate", "element %ld delivered %u times", r.v, pulled); }
    for (size_t i = 0; i < h.size(); i++) if (h[i].r == BUSY) { bool other = false; for (size_t j = 0; j < h.size(); j++) if (j != i && h[j].tid != h[i].tid && h[j].b < h[i].e && h[j].e > h[i].b) other = true; SIM_CHECK(other, "busy", "%s reports busy although nobody else uses the queue", qk_name(h[i].k)); }
    for (size_t i = 0; i < h.size(); i++) if (h[i].r == NOBLOCK) { bool other = false; for (size_t j = 0; j < h.size(); j++) if (j != i && h[j].tid != h[i].tid && h[j].b < h[i].e && h[j].e > h[i].b) other = true; h[i].r = other ? BUSY : is_push(h[i].k) ? FULLR : EMPTYR; }
    Search S{*this, {}, 0, h.size() == 64 ? ~0ull : (1ull << h.size()) - 1}; St s;
    if (!dfs(S, 0, s)) { std::string d; for (const Rec& r : h) { char b[160]; snprintf(b, sizeof b, "[%llu-%llu] t%d %s %ld -> %s; ", (unsigned long long)r.b, (unsigned long long)r.e, r.tid, qk_name(r.k), r.v, qr_name(r.r)); d += b; } sim_violation("linearizability", "no order of the operations explains: %s", d.c_str()); }
  }
  // Everybody else is blocked: nobody may be waiting for something that is there.
  void stuck(long size, bool closed) const {
    sim::Quiet quiet;
    for (int k : inop) { if (k < 0) continue; SIM_CHECK(blocks(k) || timed(k), "blocks", "%s blocks", qk_name(k)); if (is_pull(k) && blocks(k)) SIM_CHECK(size == 0 && !closed, "stuck-pull", "%s stays blocked although the queue has %ld elements%s", qk_name(k), size, closed ? " and is closed" : ""); if (is_push(k) && blocks(k)) SIM_CHECK(cap && size >= cap && !closed, "stuck-push", "%s stays blocked although the queue has room", qk_name(k)); }
  }
};
// ---- one interface over all forms ----------------------------------------------------
inline int of_status(boost::queue_op_status s) { switch (s) { case boost::queue_op_status::success: return OK; case boost::queue_op_status::empty: return EMPTYR; case boost::queue_op_status::full: return FULLR; case boost::queue_op_status::closed: return CLOSED; case boost::queue_op_status::busy: return BUSY; case boost::queue_op_status::timeout: return TIMEOUT; default: return NOTREADY; } }
template<class E> struct IQ { virtual ~IQ() {} virtual bool empty() = 0; virtual bool full() = 0; virtual long size() = 0; virtual bool closed() = 0; virtual void close() = 0; virtual int push(int k, E& e, bool rv) = 0; virtual int pull(int k, E& e) = 0; virtual bool take(std::vector<int>&) { return false; } virtual bool streams() const { return false; } virtual int pull_timed(int, E&, const DL&, s64) { return EMPTYR; } };
#define QUEUE_FORM(NAME, P_, TP_, NP_, WP_, G_, TG_, NG_, WG_) \
template<class E, class B, class F> struct NAME : IQ<E> { B& b; F& f; NAME(B& b_, F& f_) : b(b_), f(f_) {} \
  bool empty() { return sim::flip() ? b.empty() : f.empty(); } bool full() { return b.full(); } long size() { return (long)(sim::flip() ? b.size() : f.size()); } bool closed() { return sim::flip() ? b.closed() : f.closed(); } void close() { sim::flip() ? b.close() : f.close(); } \
  int push(int k, E& e, bool rv) { if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { switch (k) { case TPUSH: return of_status(b.TP_((const E&)e)); case NPUSH: return of_status(b.NP_((const E&)e)); case WPUSH: return of_status(b.WP_((const E&)e)); default: b.P_((const E&)e); return OK; } } } \
    switch (k) { case TPUSH: return of_status(b.TP_(boost::move(e))); case NPUSH: return of_status(b.NP_(boost::move(e))); case WPUSH: return of_status(b.WP_(boost::move(e))); default: b.P_(boost::move(e)); return OK; } } \
  int pull(int k, E& e) { switch (k) { case TPULL: return of_status(f.TG_(e)); case NPULL: return of_status(f.NG_(e)); case WPULL: return of_status(f.WG_(e)); case PULLV: if constexpr (!std::is_same<E, Co>::value) { e = f.G_(); return OK; } /* fallthrough */ default: f.G_(e); return OK; } } };
QUEUE_FORM(FormQ, push, try_push, nonblocking_push, wait_push, pull, try_pull, nonblocking_pull, wait_pull)
QUEUE_FORM(FormD, push_back, try_push_back, nonblocking_push_back, wait_push_back, pull_front, try_pull_front, nonblocking_pull_front, wait_pull_front)
// ---- recorded operations ---------------------------------------------------------------
template<class E> struct QW {
  Hist H; IQ<E>* q; int next = 1; bool intr = false;
  int fresh() { int base = H.prio ? (int)sim::choose(4) * 100 : 0; sim::Quiet qq; return base + next++; }
  int push(int k, int id, bool rv = false, int boom = 0, int allocf = 0) {
    int r = THREW; bool live = true; E e(id); size_t i = H.begin(k, id);
    { Tag g(qk_name(k));
      try { if (boom) arm_copy(boom); if (allocf) sim_alloc_fail_nth(allocf); r = q->push(k, e, rv); }
      catch (boost::sync_queue_is_closed&) { r = CLOSED; SIM_CHECK(k != WPUSH && k != WPULL, "closed-throw", "%s throws instead of returning closed", qk_name(k)); } catch (Boom&) { r = THREW; } catch (std::bad_alloc&) { r = THREW; } catch (boost::thread_interrupted&) { r = INTR; } }
    if (allocf) sim_alloc_fail_nth(0); if (boom) disarm_copy(); H.end(i, r); (void)live;
    if (r == THREW) SIM_CHECK(boom || allocf, "threw", "%s threw for no reason", qk_name(k)); if (r == INTR) SIM_CHECK(intr && blocks(k), "threw", "%s was interrupted", qk_name(k));
    if (r == CLOSED || r == FULLR || r == BUSY || r == THREW) SIM_CHECK(e.id() == id, "consumed", "%s reports %s and yet took its argument", qk_name(k), qr_name(r));
    if (r == OK && !rv && std::is_copy_constructible<E>::value) SIM_CHECK(e.id() == id, "consumed", "%s damaged the object it copied", qk_name(k)); return r;
  }
  // a pull with a deadline
  int tpull(int k, bool nostall) {
    static const s64 ds[] = {-1000000, 0, 1000000, 5000000, 20000000}; s64 ns = ds[sim::choose(5)]; bool real = k == UPULL && sim::flip(); int r; E e; DL d = real ? DL::sys((s64)sim_now_real() + ns) : DL::mono((s64)sim_now() + ns); size_t i = H.begin(k, -1);
    { Tag g(qk_name(k)); r = q->pull_timed(k, e, d, ns); } H.endv(i, r, r == OK ? e.id() : -1); if (r == TIMEOUT) check_timeout(d, qk_name(k)); if (nostall) check_not_late(d, qk_name(k)); return r;
  }
  int pull(int k, int* got = 0, int boom = 0) {
    int r = THREW; E e; size_t i = H.begin(k, -1);
    { Tag g(qk_name(k));
      try { if (boom) arm_copy(boom); r = q->pull(k, e); }
      catch (boost::sync_queue_is_closed&) { r = CLOSED; SIM_CHECK(k != WPUSH && k != WPULL, "closed-throw", "%s throws instead of returning closed", qk_name(k)); } catch (Boom&) { r = THREW; } catch (std::bad_alloc&) { r = THREW; } catch (boost::thread_interrupted&) { r = INTR; } }
    if (boom) disarm_copy(); H.endv(i, r, r == OK ? e.id() : -1); if (r == OK && got) *got = e.id();
    if (r == THREW) SIM_CHECK(boom, "threw", "%s threw for no reason", qk_name(k)); if (r == INTR) SIM_CHECK(intr && blocks(k), "threw", "%s was interrupted", qk_name(k));
    return r;
  }
  long look(int k) { size_t i = H.begin(k, 0); long v = 0; switch (k) { case SIZE: v = q->size(); break; case EMPTYQ: v = q->empty(); break; case FULLQ: v = q->full(); break; default: v = q->closed(); } H.endv(i, OK, v); return v; }
  void close() { size_t i = H.begin(CLOSE, 0); { Tag g("close"); q->close(); } H.end(i, OK); }
  bool take() { std::vector<int> l; size_t i = H.begin(TAKE, 0); bool ok = q->take(l); if (!ok) { sim::Quiet qq; H.h[i].k = SIZE; H.h[i].r = BUSY; H.h[i].e = ++H.clk; H.h[i].tid = -1; H.h[i].b = 0; H.h[i].r = THREW; H.inop[sim_self() & 63] = -1; return false; } { sim::Quiet qq; H.h[i].list = l; } H.end(i, OK); return true; }
  void drain() { for (;;) { static const int ks[] = {TPULL, PULLR, NPULL, WPULL}; int r = pull(ks[sim::choose(4)]); if (r != OK && r != BUSY) break; } }
  void check_stuck() { if (sim_settle()) { u64 c0, c1; { sim::Quiet qq; c0 = H.clk; } long s = look(SIZE); bool c = look(CLOSEDQ) != 0; { sim::Quiet qq; c1 = H.clk; } if (c0 + 4 == c1) H.stuck(s, c); } }
};
inline int pick_push(bool streams) { static const int k[] = {PUSH, TPUSH, NPUSH, WPUSH, SPUSH}; return k[sim::choose(streams ? 5 : 4)]; }
inline int pick_pull(bool streams) { static const int k[] = {TPULL, PULLR, PULLV, WPULL, NPULL, SPULL}; return k[sim::choose(streams ? 6 : 5)]; }
inline int pick_bpull(bool streams) { static const int k[] = {PULLR, PULLV, WPULL, SPULL}; return k[sim::choose(streams ? 4 : 3)]; }
inline int pick_bpush(bool streams) { static const int k[] = {PUSH, WPUSH, SPUSH}; return k[sim::choose(streams ? 3 : 2)]; }

// ---- workloads over any form -------------------------------------------------------------
// Random operations by several threads; then close, drain, and explain the whole history.
template<class E> void q_mixed(QW<E>& w, u32 boomy, bool closer = true) {
  sim::Threads t; u32 n = sim::range(2, 4); bool st = w.q->streams(), cl = closer && sim::flip(); u32 left[4];
  for (u32 i = 0; i < n; i++) left[i] = sim::range(1, 5);
  for (u32 i = 0; i < n; i++) { u32 ops = left[i], role = sim::choose(3);
    t.go([&, ops, role, i] { for (u32 o = 0; o < ops; o++) { if (sim::choose(4) == 0) nap(); u32 c = sim::choose(12); int bm = boomy && sim::choose(3) == 0 ? (int)sim::range(1, 2) : 0;
      if (c == 0) { static const int lk[] = {SIZE, EMPTYQ, FULLQ, CLOSEDQ}; w.look(lk[sim::choose(4)]); }
      else if (c == 1 && cl && o + 1 == ops) w.close();
      else if (role == 0 || (role == 2 && c < 7)) w.push(pick_push(st), w.fresh(), sim::flip(), bm, !bm && boomy > 1 && sim::choose(4) == 0 ? (int)sim::range(1, 2) : 0);
      else w.pull(pick_pull(st), 0, bm); } }); }
  w.check_stuck(); w.close(); t.join(); w.drain(); SIM_CHECK(w.push(sim::choose(3) == 0 ? PUSH : TPUSH, w.fresh()) == CLOSED, "closed", "a closed queue accepts an element"); SIM_CHECK(w.pull(sim::flip() ? PULLR : WPULL) == CLOSED, "closed", "a closed and empty queue does not report closed"); w.H.check();
}
// As many blocking pulls as pushes: they all come to an end without a close.
template<class E> void q_balanced(QW<E>& w, u32 boomy) {
  sim::Threads t; bool st = w.q->streams(); u32 np = sim::range(1, 3), nc = sim::range(1, 3), total = 0, per[3]; for (u32 i = 0; i < np; i++) { per[i] = sim::range(1, 4); total += per[i]; } u32 share[3] = {0, 0, 0}; for (u32 i = 0; i < total; i++) share[sim::choose(nc)]++;
  auto cons = [&](u32 c) { t.go([&, c] { for (u32 k = 0; k < share[c]; k++) { int r; do { int bm = boomy && sim::choose(3) == 0 ? 1 : 0; r = w.pull(pick_bpull(st), 0, bm); } while (r == THREW); SIM_CHECK(r == OK, "closed", "a pull reports %s on an open queue", qr_name(r)); if (sim::choose(4) == 0) nap(); } }); };
  auto prod = [&](u32 p) { t.go([&, p] { for (u32 k = 0; k < per[p]; k++) { int r = OK, f = w.fresh(); u32 tries = 0; do { if (sim::choose(3) == 0) nap(); int bm = boomy && tries < 2 && sim::choose(3) == 0 ? 1 : 0; int kk = tries < 2 && sim::flip() ? pick_push(st) : pick_bpush(st); r = w.push(kk, f, sim::flip(), bm); tries++; } while (r != OK); } }); };
  bool first = sim::flip(); if (first) { for (u32 c = 0; c < nc; c++) cons(c); if (sim::flip()) sim_settle(); } for (u32 p = 0; p < np; p++) prod(p); if (!first) for (u32 c = 0; c < nc; c++) cons(c);
  w.check_stuck(); t.join(); SIM_CHECK(w.q->size() == 0, "count", "the queue is not empty in the end"); w.H.check();
}
// Waiting pulls (and pushes) are interrupted: they lose nothing and take no wake-up from others.
template<class E> void q_interrupted(QW<E>& w, bool pushers, bool boomy = false) {
  if (!CAN_INTR) return;
  w.intr = true; std::vector<std::unique_ptr<boost::thread> > v; u32 n = sim::range(2, 4), k = sim::range(1, n), wo = 0; bool st = w.q->streams();
  if (pushers) while (!w.q->full()) w.push(TPUSH, w.fresh());
  for (u32 i = 0; i < n; i++) { int kind = pushers ? pick_bpush(st) : pick_bpull(st), bm = boomy && sim::choose(3) == 0 ? 1 : 0; v.emplace_back(new boost::thread([&w, kind, pushers, bm] { if (pushers) w.push(kind, w.fresh(), sim::flip(), bm); else w.pull(kind, 0, bm); })); }
  if (sim::choose(4)) sim_settle(); sim::Threads t; bool together = sim::flip();
  auto feed = [&] { for (u32 i = 0; i < k; i++) { if (pushers) w.pull(TPULL); else w.push(TPUSH, w.fresh()); if (sim::flip()) sim_yield(); } };
  auto hit = [&] { for (auto& p : v) if (sim::choose(boomy ? 6 : 3) == 0) { intr_thread(*p); if (sim::flip()) sim_yield(); } };
  if (together) { t.go(feed); t.go(hit); } else if (sim::flip()) { feed(); hit(); } else { hit(); feed(); }
  t.join(); w.check_stuck(); w.close(); for (auto& p : v) p->join(); (void)wo; w.drain(); w.H.check();
}
#endif

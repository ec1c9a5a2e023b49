// C19 sync_priority_queue and sync_timed_queue: best or due element first, exactly once.
#include <algorithm>
#include "queue.h"
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>

// ---- priority queue ------------------------------------------------------------------
struct Rev { template<class E> bool operator()(const E& a, const E& b) const { return b < a; } };
template<class E, class Q> struct Prio : IQ<E> {
  Q& q; Prio(Q& x) : q(x) {} bool empty() { return q.empty(); } bool full() { return q.full(); } long size() { return (long)q.size(); } bool closed() { return q.closed(); } void close() { q.close(); }
  int push(int k, E& e, bool rv) { bool t = k == TPUSH || k == NPUSH || k == WPUSH; if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { if (t) return of_status(q.try_push((const E&)e)); q.push((const E&)e); return OK; } } if (t) return of_status(q.try_push(boost::move(e))); q.push(boost::move(e)); return OK; }
  int pull(int k, E& e) { switch (k) { case TPULL: return of_status(q.try_pull(e)); case NPULL: return of_status(q.nonblocking_pull(e)); case WPULL: return of_status(q.wait_pull(e)); case PULLV: e = q.pull(); return OK; default: q.pull(e); return OK; } }
  int pull_timed(int k, E& e, const DL& d, s64 ns) { if (k == FPULL) return of_status(q.pull_for(nsd(ns), e)); if (d.real) return of_status(q.pull_until(sy_at((u64)d.at), e)); return of_status(q.pull_until(st_at((u64)d.at), e)); }
  bool take(std::vector<int>& out) { typename Q::underlying_queue_type u = q.underlying_queue(); sim::Quiet qq; while (!u.empty()) out.push_back(u.pull().id()); return true; }
};
template<class E, class F> static void with_prio(F f) {
  QW<E> w; w.H.prio = true;
  if (sim::flip()) { typedef boost::sync_priority_queue<E> Q; Q q; Prio<E, Q> d(q); w.q = &d; f(w); } else { typedef boost::sync_priority_queue<E, std::vector<E>, Rev> Q; Q q; Prio<E, Q> d(q); w.q = &d; w.H.sign = -1; f(w); }
}
SCENARIO(prio_mixed, 3) { sim_faults(SIM_DEFAULT_FAULTS); if (sim::flip()) with_prio<El>([](QW<El>& w) { q_mixed(w, 0); }); else with_prio<Mo>([](QW<Mo>& w) { q_mixed(w, 0); }); }
SCENARIO(prio_balanced, 3) { sim_faults(SIM_DEFAULT_FAULTS); if (sim::flip()) with_prio<El>([](QW<El>& w) { q_balanced(w, 0); }); else with_prio<Mo>([](QW<Mo>& w) { q_balanced(w, 0); }); }
SCENARIO(prio_interrupted, 2) { if (!CAN_INTR) return; sim_faults(SIM_DEFAULT_FAULTS); if (sim::flip()) with_prio<El>([](QW<El>& w) { q_interrupted(w, false); }); else with_prio<Mo>([](QW<Mo>& w) { q_interrupted(w, false); }); }
SCENARIO(prio_timed, 3) {
  bool stall = sim::flip(), jump = sim::choose(3) == 0; sim_faults((stall ? SIM_DEFAULT_FAULTS : NOSTALL) | (jump ? 1u << SF_RJUMP : 0));
  with_prio<El>([=](QW<El>& w) { sim::Threads t; u32 nc = sim::range(1, 3), np = sim::range(1, 2); bool cl = sim::choose(3) == 0, tk = sim::choose(4) == 0;
    for (u32 c = 0; c < nc; c++) t.go([&] { u32 ops = sim::range(1, 4); for (u32 o = 0; o < ops; o++) { bool f = sim::flip(); w.tpull(f ? FPULL : UPULL, !stall && (f || !jump)); }; });
    for (u32 p = 0; p < np; p++) t.go([&, p] { u32 ops = sim::range(1, 4); for (u32 o = 0; o < ops; o++) { nap(); w.push(sim::flip() ? PUSH : TPUSH, w.fresh(), sim::flip()); } if (cl && p == 0) { nap(); w.close(); } });
    if (tk) { nap(); w.take(); } t.join(); w.close(); w.drain(); w.H.check(); });
}
// ---- timed queue -----------------------------------------------------------------------
struct THist : Hist {
  s64 due[100]; bool strict = true; // strict: steady clock, so "not due yet" can be judged
  virtual bool apply(St& s, const Rec& r) const {
    if (r.r == BUSY || r.r == THREW || r.r == INTR) return true;
    if (is_pull(r.k)) {
      s64 mind = 0; for (size_t i = 0; i < s.q.size(); i++) if (i == 0 || due[s.q[i]] < mind) mind = due[s.q[i]];
      switch (r.r) {
        case OK: { for (size_t i = 0; i < s.q.size(); i++) if (s.q[i] == r.v) { if (due[r.v] != mind) return false; s.q.erase(s.q.begin() + (long)i); return true; } return false; }
        case CLOSED: return s.closed && (s.q.empty() || !strict || mind > (s64)r.t0);
        case EMPTYR: return s.q.empty() && !s.closed && !timed(r.k) && !blocks(r.k);
        case NOTREADY: return !s.q.empty() && !s.closed && !blocks(r.k) && (!strict || mind > (s64)r.t0);
        case TIMEOUT: return s.q.empty() && !s.closed && timed(r.k);
      }
      return false;
    }
    return Hist::apply(s, r);
  }
};
template<class C> struct ClockOf; template<> struct ClockOf<StC> { static u64 now() { return sim_now(); } static StC::time_point at(s64 n) { return st_at((u64)n); } static const bool real = false; };
template<> struct ClockOf<SyC> { static u64 now() { return sim_now_real(); } static SyC::time_point at(s64 n) { return sy_at((u64)n); } static const bool real = true; };
template<class E, class C> struct TW {
  typedef boost::sync_timed_queue<E, C> Q; typedef ClockOf<C> K; THist H; Q q; int next = 1; bool nostall = false, jumps = false; u64 jumped = 0; u64 pushed[100]; bool intr = false;
  TW() { H.strict = !K::real; memset(pushed, 0, sizeof pushed); }
  int push(s64 at, u32 how) { // at: absolute time on the clock of the queue
    int id; { sim::Quiet qq; id = next++; at = K::real ? us_fl(at) : at; H.due[id] = at; } E e(id); size_t i = H.begin(how & 1 ? TPUSH : PUSH, id); int r = OK; typename C::time_point tp = K::at(at); boost::chrono::time_point<C, bc::nanoseconds> ntp = boost::chrono::time_point<C, bc::nanoseconds>(bc::nanoseconds(at)); (void)ntp;
    try { if (how & 1) { if constexpr (std::is_copy_constructible<E>::value) { if (how & 2) r = of_status(q.try_push((const E&)e, tp)); else r = of_status(q.try_push(boost::move(e), tp)); } else r = of_status(q.try_push(boost::move(e), tp)); }
      else if constexpr (std::is_copy_constructible<E>::value) { if (how & 2) q.push((const E&)e, tp); else q.push(boost::move(e), tp); } else q.push(boost::move(e), tp); }
    catch (boost::sync_queue_is_closed&) { r = CLOSED; SIM_CHECK(!(how & 1), "closed-throw", "try_push throws instead of returning closed"); }
    { sim::Quiet qq; pushed[id] = sim_now(); } H.end(i, r); return r;
  }
  int pull(int k, s64 ns = 0) {
    E e; int r = OK; DL d; bool t = timed(k); if (k == UPULL) d = K::real ? DL::sys((s64)K::now() + ns) : DL::mono((s64)sim_now() + ns); else d = DL::mono((s64)sim_now() + ns); sim_real_max_reset(); size_t i = H.begin(k, -1); u64 t0 = sim_now();
    { Tag g(qk_name(k)); try { switch (k) { case TPULL: r = of_status(q.try_pull(e)); break; case NPULL: r = of_status(q.nonblocking_pull(e)); break; case WPULL: r = of_status(q.wait_pull(e)); break; case PULLV: e = q.pull(); break; case PULLR: q.pull(e); break; case UPULL: r = of_status(q.pull_until(K::at(d.at), e)); break; case FPULL: r = of_status(q.pull_for(nsd(ns), e)); break; } }
      catch (boost::sync_queue_is_closed&) { r = CLOSED; SIM_CHECK(k == PULLV || k == PULLR, "closed-throw", "%s throws instead of returning closed", qk_name(k)); } catch (boost::thread_interrupted&) { r = INTR; SIM_CHECK(intr, "threw", "%s was interrupted", qk_name(k)); } }
    H.endv(i, r, r == OK ? e.id() : -1); u64 now = sim_now();
    if (r == OK) { s64 dd; u64 pa; { sim::Quiet qq; dd = H.due[e.id()]; pa = pushed[e.id()]; } s64 clk = K::real ? (s64)sim_real_max() : (s64)now; SIM_CHECK(clk >= dd, "early", "%s delivered element %d %lld ns before its time", qk_name(k), e.id(), (long long)(dd - clk));
      if (nostall && !jumps) { s64 from = K::real ? dd - (s64)(sim_now_real() - now) : dd; if ((s64)t0 > from) from = (s64)t0; if ((s64)pa > from) from = (s64)pa; SIM_CHECK((s64)now <= from + (s64)((K::real ? 300 : 5) * MS), "late", "%s delivered element %d %lld ns after it could", qk_name(k), e.id(), (long long)now - from); } }
    if (t && (r == TIMEOUT || r == NOTREADY)) check_timeout(d, qk_name(k)); if (t && nostall && !jumps) check_not_late(d, qk_name(k));
    return r;
  }
  void close() { size_t i = H.begin(CLOSE, 0); q.close(); H.end(i, OK); }
  void look() { u32 c = sim::choose(4); static const int lk[] = {SIZE, EMPTYQ, CLOSEDQ, FULLQ}; size_t i = H.begin(lk[c], 0); long v = c == 0 ? (long)q.size() : c == 1 ? q.empty() : c == 2 ? q.closed() : q.full(); H.endv(i, OK, v); }
};
static s64 a_time(s64 now) { static const s64 d[] = {-5000000, 0, 1000000, 2000000, 2000000, 7000000, 20000000, 250000000}; return now + d[sim::choose(8)]; }
static int pick_any_pull() { static const int k[] = {TPULL, PULLR, PULLV, WPULL, NPULL, UPULL, FPULL}; return k[sim::choose(7)]; }
template<class E, class C> static void timed_mixed(bool stall) {
  sim_faults(stall ? SIM_DEFAULT_FAULTS : NOSTALL); TW<E, C> w; w.nostall = !stall; sim::Threads t; u32 nc = sim::range(1, 3), np = sim::range(1, 2); bool cl = sim::flip();
  for (u32 c = 0; c < nc; c++) t.go([&] { u32 ops = sim::range(1, 4); for (u32 o = 0; o < ops; o++) { if (sim::choose(5) == 0) nap(); if (sim::choose(8) == 0) w.look(); int k = pick_any_pull(); w.pull(k, (s64)sim::choose(5) * 3000000 - 1000000); } });
  for (u32 p = 0; p < np; p++) t.go([&, p] { u32 ops = sim::range(1, 5); for (u32 o = 0; o < ops; o++) { if (sim::flip()) nap(); w.push(a_time((s64)ClockOf<C>::now()), sim::choose(4)); } if (cl && p == 0) { nap(); w.close(); } });
  sim_sleep_ns(sim::range(1, 4) * 100 * MS); w.close(); t.join(); for (int i = 0; i < 12; i++) if (w.pull(TPULL) != OK) break; SIM_CHECK(w.push((s64)ClockOf<C>::now(), sim::choose(4)) == CLOSED, "closed", "a closed queue accepts an element"); w.H.check();
}
SCENARIO(timed_mixed, 5) { bool stall = sim::flip(); switch (sim::choose(4)) { case 0: timed_mixed<El, StC>(stall); break; case 1: timed_mixed<El, StC>(stall); break; case 2: timed_mixed<El, SyC>(stall); break; default: timed_mixed<El, SyC>(stall); } }
// Blocking pulls without a close: all get their element, in order of time when one thread pulls.
template<class E, class C> static void timed_all(bool stall) {
  sim_faults(stall ? SIM_DEFAULT_FAULTS : NOSTALL); TW<E, C> w; w.nostall = !stall; sim::Threads t; u32 nc = sim::range(1, 3), total = sim::range(1, 8), np = sim::range(1, 2), share[3] = {0, 0, 0}; for (u32 i = 0; i < total; i++) share[sim::choose(nc)]++;
  for (u32 c = 0; c < nc; c++) t.go([&, c] { for (u32 o = 0; o < share[c]; o++) { static const int ks[] = {PULLR, PULLV, WPULL, FPULL, UPULL}; int k = ks[sim::choose(5)], r; do r = w.pull(k, (s64)(1000 * SEC)); while (r == TIMEOUT || r == NOTREADY); SIM_CHECK(r == OK, "closed", "%s reports %s on an open queue", qk_name(k), qr_name(r)); } });
  if (sim::flip()) sim_settle(); for (u32 p = 0; p < np; p++) t.go([&, p] { for (u32 o = p; o < total; o += np) { if (sim::flip()) nap(); w.push(a_time((s64)ClockOf<C>::now()), sim::choose(4)); } });
  t.join(); SIM_CHECK(w.q.empty(), "count", "elements are left"); w.H.check();
}
SCENARIO(timed_all, 5) { bool stall = sim::flip(); switch (sim::choose(3)) { case 0: timed_all<El, StC>(stall); break; case 1: timed_all<El, SyC>(stall); break; default: timed_all<El, SyC>(stall); } }
// The system clock jumps while pulls wait: nothing comes early, and nothing is missed for long.
SCENARIO(timed_jump, 3) {
  sim_faults(NOSTALL); TW<El, SyC> w; w.nostall = true; w.jumps = true; sim::Threads t; u32 n = sim::range(1, 3), m = n + sim::choose(2); s64 ahead = (s64)sim::range(1, 4) * 10 * (s64)SEC; bool tm = sim::flip(), fwd = sim::choose(3) != 0, both = sim::flip(); Flag got; u64 jt = 0;
  if (sim::flip()) { s64 now = (s64)sim_now_real(); for (u32 i = 0; i < m; i++) w.push(now + ahead + (s64)i * 1000, sim::choose(4)); }
  for (u32 c = 0; c < n; c++) t.go([&] { int k = tm ? (sim::flip() ? UPULL : FPULL) : sim::flip() ? PULLR : WPULL; int r = w.pull(k, (s64)(5000 * SEC)); if (r == OK) got.add(); else if (!timed(k) || r == CLOSED) SIM_CHECK(0, "closed", "%s reports %s", qk_name(k), qr_name(r)); });
  sim_settle(); { s64 now = (s64)sim_now_real(); if (w.q.empty()) for (u32 i = 0; i < m; i++) w.push(now + ahead + (s64)i * 1000, sim::choose(4)); }
  sim_sleep_ns(sim::choose(3) * 70 * MS); s64 back = (s64)sim::range(1, 60) * (s64)SEC; if (!fwd || both) { sim_clock_jump(-back); sim_sleep_ns(sim::choose(3) * 70 * MS); SIM_CHECK(got.get() == 0, "early", "delivered before its time"); }
  if (fwd) { sim_clock_jump((both ? back : 0) + ahead + (s64)sim::choose(3) * (s64)SEC); jt = sim_now(); sim_sleep_ns(1 * SEC); SIM_CHECK(got.get() == n, "late", "%llu of %u waiting pulls got their due element 1 s after the clock jumped past its time", (unsigned long long)got.get(), n); }
  (void)jt; t.join(); w.H.check();
}
// Pull operations with deadlines on the jumping clock fail only after their deadline, and survive the jump.
SCENARIO(timed_jump_race, 2) {
  sim_faults(NOSTALL | 1u << SF_RJUMP); TW<El, SyC> w; w.jumps = true; sim::Threads t; u32 n = sim::range(1, 2); for (u32 c = 0; c < n; c++) t.go([&] { u32 ops = sim::range(1, 3); for (u32 o = 0; o < ops; o++) w.pull(sim::choose(3) ? UPULL : FPULL, (s64)sim::range(1, 5) * 1000000); });
  t.go([&] { u32 j = sim::range(1, 4); for (u32 i = 0; i < j; i++) { sim_sleep_ns(sim::range(1, 10) * 500 * US); sim_clock_jump(((s64)sim::choose(9) - 4) * 3000000); } }); if (sim::flip()) t.go([&] { u32 ops = sim::range(1, 3); for (u32 o = 0; o < ops; o++) { nap(); w.push(a_time((s64)sim_now_real()), sim::choose(4)); } });
  t.join(); w.H.check();
}
// The forms with a duration.
SCENARIO(timed_rel, 1) {
  sim_faults(NOSTALL); boost::sync_timed_queue<El> q; El e; s64 d = (s64)sim::range(1, 50) * 1000000; u64 t0 = sim_now(); u32 how = sim::choose(4); El x(7); switch (how) { case 0: q.push(x, nsd(d)); break; case 1: q.push(El(7), nsd(d)); break; case 2: SIM_CHECK(q.try_push(x, nsd(d)) == boost::queue_op_status::success, "push", "x"); break; default: SIM_CHECK(q.try_push(El(7), nsd(d)) == boost::queue_op_status::success, "push", "x"); }
  SIM_CHECK(q.try_pull(e) == boost::queue_op_status::not_ready, "not-ready", "an element that is not due"); SIM_CHECK(q.size() == 1 && !q.empty(), "size", "x"); q.pull(e); SIM_CHECK(e.id() == 7 && (s64)(sim_now() - t0) >= d, "early", "delivered early"); SIM_CHECK((s64)(sim_now() - t0) <= d + 1000000, "late", "delivered late"); SIM_CHECK(q.try_pull(e) == boost::queue_op_status::empty, "empty", "x");
}
// Interrupted waiters lose nothing.
SCENARIO(timed_interrupted, 2) { if (!CAN_INTR) return;
  sim_faults(NOSTALL); TW<El, StC> w; w.intr = true; std::vector<std::unique_ptr<boost::thread> > v; u32 n = sim::range(2, 3), k = sim::range(1, 3); if (sim::flip()) for (u32 i = 0; i < k; i++) w.push(a_time((s64)sim_now()), 0);
  for (u32 i = 0; i < n; i++) { int kind = sim::flip() ? PULLR : WPULL; v.emplace_back(new boost::thread([&w, kind] { w.pull(kind); })); } if (sim::flip()) sim_settle();
  sim::Threads t; t.go([&] { for (u32 i = 0; i < k; i++) w.push(a_time((s64)sim_now()), 1); }); t.go([&] { for (auto& p : v) if (sim::choose(3) == 0) { intr_thread(*p); if (sim::flip()) sim_sleep_ns(sim::choose(3) * MS); } }); t.join();
  sim_sleep_ns(SEC); w.close(); for (auto& p : v) p->join(); for (int i = 0; i < 12; i++) if (w.pull(TPULL) != OK) break; w.H.check();
}
// A clock that only moves when told: elements come exactly when it reaches their time, in order, to waiting and polling consumers.
SCENARIO(timed_manual, 3) {
  sim_faults(NOSTALL); typedef boost::sync_timed_queue<El, MClk> Q; Q q; static const u32 M = 6; u32 n = sim::range(1, M); s64 due[M], unit = sim::flip() ? 50 * (s64)MS : (s64)sim::range(1, 5) * (s64)SEC, base = sim::flip() ? 0 : -1000 * (s64)SEC; MClk::set(base); Flag got; struct G { s64 at[M + 1]; u32 taken[M + 1]; } g; memset(&g, 0, sizeof g); bool waiting = sim::flip(), late_push = sim::flip(), jumps = sim::flip();
  for (u32 i = 0; i < n; i++) due[i] = base + unit * (s64)(2 * sim::range(1, 4));
  auto push_all = [&] { for (u32 i = 0; i < n; i++) { El e((int)i + 1); switch (sim::choose(4)) { case 0: q.push(e, MClk::at(due[i])); break; case 1: q.push(boost::move(e), MClk::at(due[i])); break; case 2: q.try_push(e, MClk::at(due[i])); break; default: q.push(e, bc::nanoseconds(due[i] - base)); } } }; 
  if (!late_push) push_all();
  sim::Threads t; if (waiting) for (u32 c = 0; c < n; c++) t.go([&] { El e; boost::queue_op_status r = boost::queue_op_status::success; u32 k = sim::choose(5); Tag tg(k == 0 ? "pull" : k == 1 ? "wait_pull" : k == 2 ? "pull_until" : k == 3 ? "pull_for" : "pull()"); if (late_push && k == 2) k = 1; switch (k) { case 0: q.pull(e); break; case 1: r = q.wait_pull(e); break; case 2: r = q.pull_until(MClk::at(base + unit * 100), e); break; case 3: r = q.pull_for(nsd(100000 * SEC), e); break; default: e = q.pull(); } SIM_CHECK(r == boost::queue_op_status::success, "status", "a waiting pull gave up"); { sim::Quiet qq; SIM_CHECK(MClk::t() >= due[e.id() - 1], "early", "delivered %lld ns before its time", (long long)(due[e.id() - 1] - MClk::t())); g.taken[e.id()]++; } got.add(); });
  if (late_push) { if (sim::flip()) sim_settle(); push_all(); }
  if (jumps) { MClk::set(base - unit * 50); sim_sleep_ns(sim::choose(3) * 70 * MS); SIM_CHECK(got.get() == 0, "early", "delivered before its time"); El e; SIM_CHECK(q.try_pull(e) == boost::queue_op_status::not_ready, "status", "an element is there long before its time"); }
  s64 last = base; for (s64 step = 1; step <= 9; step++) { s64 now = base + unit * step; MClk::set(now); u32 want = 0; for (u32 i = 0; i < n; i++) want += due[i] <= now;
    if (waiting) { sim_sleep_ns(400 * MS); SIM_CHECK(got.get() == want, got.get() > want ? "early" : "late", "%llu elements delivered when %u were due", (unsigned long long)got.get(), want); if (sim::choose(4) == 0) { MClk::set(now - unit * 30); sim_sleep_ns(sim::choose(3) * 70 * MS); SIM_CHECK(got.get() == want, "early", "delivered before its time"); } }
    else { for (;;) { El e; boost::queue_op_status r = boost::queue_op_status::success; u32 k = sim::choose(got.get() < want ? 6 : 3); switch (k) { case 0: r = q.try_pull(e); break; case 1: r = q.nonblocking_pull(e); break; case 2: r = q.pull_until(MClk::at(now), e); break; case 3: r = q.wait_pull(e); break; case 4: q.pull(e); break; default: r = q.pull_for(nsd(5 * MS), e); }
        if (got.get() < want) { SIM_CHECK(r == boost::queue_op_status::success, "late", "a due element is not delivered (way %u)", k); SIM_CHECK(due[e.id() - 1] <= now, "early", "delivered before its time"); SIM_CHECK(due[e.id() - 1] >= last, "order", "elements come out of order"); last = due[e.id() - 1]; g.taken[e.id()]++; got.add(); }
        else { SIM_CHECK(r != boost::queue_op_status::success, "early", "delivered before its time (way %u)", k); if (k != 2) SIM_CHECK(r == (want == n ? boost::queue_op_status::empty : boost::queue_op_status::not_ready), "status", "wrong status"); break; } } } }
  t.join(); for (u32 i = 1; i <= n; i++) SIM_CHECK(g.taken[i] == 1, "count", "element %u was delivered %u times", i, g.taken[i]); SIM_CHECK(q.empty(), "count", "elements are left");
}
// Larger numbers than elsewhere.
template<class Q, class PUSH, class PULL> static void crowd_run(Q& q, u32 n, PUSH push, PULL pull) { sim_step_limit(HUGE_STEPS); bool beside = sim::flip(); sim::Threads th; if (beside) th.go([&] { for (u32 i = 0; i < n; i++) push(q, i); }); else { for (u32 i = 0; i < n; i++) push(q, i); SIM_CHECK(q.size() == n, "size", "size %u after %u pushes", (u32)q.size(), n); } for (u32 i = 0; i < n; i++) pull(q, i); th.join(); SIM_CHECK(q.empty() && q.size() == 0, "size", "not empty at the end"); }
static void crowd_got(u32 got, u32 want) { SIM_CHECK(got == want, "order", "element %u instead of %u", got, want); }
SCENARIO(crowd, 1) { if (sim::choose(8)) return; sim_faults(NOSTALL); sim_step_limit(HUGE_STEPS); u32 n = many(false); if (sim::flip()) { boost::sync_priority_queue<u32> pq; u32 a = 0; for (u32 i = 0; i < n; i++) { a = (a * 7 + 3 + sim::choose(2)) % 1000; pq.push(a); } u32 last = 1000; for (u32 i = 0; i < n; i++) { u32 g = pq.pull(); SIM_CHECK(g <= last, "order", "element %u after %u", g, last); last = g; } SIM_CHECK(pq.empty(), "size", "not empty at the end"); }
  else { boost::sync_timed_queue<u32> tq; StC::time_point t0 = StC::now(); u32 a = 0; for (u32 i = 0; i < n; i++) { a = (a * 7 + 3 + sim::choose(2)) % 1000; tq.push(a, t0 + bc::milliseconds(a)); } u32 last = 0; for (u32 i = 0; i < n; i++) { u32 g; tq.pull(g); SIM_CHECK(g >= last, "order", "element due at %u ms after one due at %u ms", g, last); SIM_CHECK(StC::now() >= t0 + bc::milliseconds(g), "early", "an element before its time"); last = g; } SIM_CHECK(tq.empty(), "size", "not empty at the end"); } }

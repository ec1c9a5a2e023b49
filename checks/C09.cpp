// C09 interruption: one exception per request, at the next enabled interruption point, never elsewhere, never lost.
#define BOOST_THREAD_PROVIDES_FUTURE
#include "cv.h"
#include <boost/thread/future.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <functional>

static const u64 INF = ~0ull;
struct Req { u64 start, end; u64 end_t; };
// What is known about the requests of one target.
struct Model {
  std::vector<Req> rq; struct Del { u64 op, at; }; std::vector<Del> dl; u32 disabled = 0;
  size_t begin() { sim::Quiet q; rq.push_back(Req{sim_seq(), INF, 0}); return rq.size() - 1; }
  void end(size_t i) { sim::Quiet q; rq[i].end = sim_seq(); rq[i].end_t = sim_now(); }
  void request(boost::thread& t) { size_t i = begin(); t.interrupt(); end(i); }
  bool sure(const Req& r) const { if (r.end == INF) return false; for (size_t i = 0; i < dl.size(); i++) if (dl[i].at >= r.start) return false; return true; }
  bool possible(const Req& r) const { for (size_t i = 0; i < dl.size(); i++) if (r.end != INF && dl[i].op > r.end) return false; return true; }
  bool sure() { sim::Quiet q; for (auto& r : rq) if (sure(r)) return true; return false; }
  bool possible() { sim::Quiet q; if (dl.size() >= rq.size()) return false; for (auto& r : rq) if (possible(r)) return true; return false; }
  u64 since() { sim::Quiet q; u64 t = INF; for (auto& r : rq) if (sure(r) && r.end_t < t) t = r.end_t; return t; }
  void delivered(u64 op) { sim::Quiet q; dl.push_back(Del{op, sim_seq()}); }
};
enum Kind { NEVER, MAY, MUST };
static const u32 NOPS = 38;
// Things an operation of the target may block on. One per target; "pump" makes waits end.
struct Place {
  boost::mutex m; boost::condition_variable cv; boost::condition_variable_any cva; boost::mutex free_m; boost::timed_mutex tm; boost::recursive_timed_mutex rtm; boost::recursive_mutex rm; boost::shared_mutex sm; boost::promise<int> pr; boost::shared_future<int> fu; boost::latch la; boost::barrier ba; boost::sync_queue<int> q; boost::thread* other; Flag stop, helper_stop; boost::mutex om; boost::condition_variable ocv; bool orel = false; Flag own_fail;
  Place() : fu(pr.get_future()), la(1), ba(2), other(0) {}
  // pump=true: plain waits are ended by notifications from time to time
  Kind run(u32 k, u64 d) {
    DL x; Kind kd = MUST;
    switch (k) {
      case 0: case 1: boost::this_thread::interruption_point(); break;
      case 2: case 3: case 4: case 5: { boost::unique_lock<boost::mutex> l(m); try { u32 f = sim::choose(CV_NW); if (k < 4) cv_wait(cv, l, f, d, x); else cv_wait(cva, l, f, d, x); } catch (boost::thread_interrupted&) { if (!l.owns_lock()) own_fail.set(); throw; } break; }
      case 6: case 7: { boost::unique_lock<boost::mutex> l(m); u32 f = 1 + sim::choose(CV_NP - 1); auto p = [&] { return false; }; if (k == 6) cv_pred(cv, l, f, d, x, p); else cv_pred(cva, l, f, d, x, p); break; }
      case 8: boost::this_thread::sleep_for(nsd(d)); break;
      case 9: boost::this_thread::sleep_until(st_at(sim_now() + d)); break;
      case 10: boost::this_thread::sleep_until(sy_at(sim_now_real() + d)); break;
      case 11: boost::this_thread::sleep(pd_of(d)); break;
      case 12: boost::this_thread::sleep(pt_at(sim_now_real() + d)); break;
      case 13: other->try_join_for(nsd(d)); break;
      case 14: other->timed_join(pd_of(d)); break;
      case 15: other->try_join_until(sy_at(sim_now_real() + d)); break;
      case 16: fu.wait_for(nsd(d)); break;
      case 17: la.wait_for(nsd(d)); break;
      case 18: { int e; q.try_pull(e); kd = NEVER; break; }
      case 19: kd = NEVER; { boost::lock_guard<boost::mutex> l(free_m); sim_yield(); } break;
      case 20: kd = NEVER; { boost::unique_lock<boost::timed_mutex> l(tm, boost::chrono::nanoseconds(d)); } break;
      case 21: kd = NEVER; { boost::unique_lock<boost::timed_mutex> l(tm); sim_yield(); } break;
      case 22: kd = NEVER; { boost::unique_lock<boost::recursive_timed_mutex> l(rtm, boost::chrono::nanoseconds(d)); sim_yield(); } break;
      case 23: kd = NEVER; { boost::unique_lock<boost::recursive_mutex> l(rm); boost::unique_lock<boost::recursive_mutex> l2(rm); sim_yield(); } break;
      case 24: kd = NEVER; { boost::unique_lock<boost::shared_mutex> l(sm); sim_yield(); } break;
      case 25: kd = NEVER; { boost::shared_lock<boost::shared_mutex> l(sm); sim_yield(); } break;
      case 26: kd = NEVER; { boost::upgrade_lock<boost::shared_mutex> l(sm); sim_yield(); boost::upgrade_to_unique_lock<boost::shared_mutex> u(l); } break;
      case 27: kd = NEVER; { boost::shared_lock<boost::shared_mutex> l(sm, boost::chrono::nanoseconds(d)); } break;
      case 28: kd = NEVER; boost::this_thread::yield(); break;
      case 29: kd = NEVER; cv.notify_one(); cva.notify_all(); break;
      case 30: kd = NEVER; { boost::thread t([] {}); t.detach(); } break;
      case 31: kd = NEVER; boost::this_thread::no_interruption_point::sleep_for(nsd(d % (3 * MS))); break;
      case 32: kd = NEVER; q.push(1); { int e = 0; q.try_pull(e); } break;
      case 33: kd = MAY; { int e = 0; q.try_pull(e); q.push(1); q.pull(e); } break;
      case 34: kd = MAY; boost::this_thread::sleep_for(nsd(0)); break;
      case 35: kd = MAY; { boost::thread t([] { sim_yield(); }); boost::this_thread::disable_interruption di; t.join(); } break;
      case 36: kd = NEVER; fu.is_ready(); la.try_wait(); boost::this_thread::get_id(); break;
      default: kd = MAY; { boost::promise<int> p2; p2.set_value(3); boost::shared_future<int> f2(p2.get_future()); f2.get(); } break;
    }
    return kd;
  }
};
static Kind kind(u32 k) { return k < 18 ? MUST : k == 33 || k == 34 || k == 37 ? MAY : NEVER; }
struct Target {
  Place& w; Model& m; bool nostall; u32 budget = 0; bool nospur = false;
  void requested() { bool s = m.sure(); bool r = boost::this_thread::interruption_requested(); bool p = m.possible(); SIM_CHECK(!(s && !r), "request-lost", "interruption_requested() is false although a request is pending"); SIM_CHECK(!(r && !p), "request-invented", "interruption_requested() is true though nothing is pending"); }
  void enabled() { bool e = boost::this_thread::interruption_enabled(); SIM_CHECK(e == !m.disabled, "enabled", "interruption_enabled() is %d inside %u disabling scopes", (int)e, m.disabled); }
  void op(bool forever) {
    u32 k = forever ? sim::choose(18) : sim::choose(NOPS); static const u64 ds[] = {1, 1 * US, 100 * US, 1 * MS, 5 * MS, 20 * MS, 101 * MS}; u64 d = forever ? FOREVER : ds[sim::choose(7)]; bool sure = m.sure(); u64 st = sim_seq(), t0 = sim_now(); bool threw = false; Kind kd = kind(k); if (kd == MUST && k >= 6 && (d < MS || (!nostall && !forever))) kd = MAY; // an expired deadline need not block
    try { w.run(k, d < US && k != 8 && k != 9 ? US : d); } catch (boost::thread_interrupted&) { threw = true; }
    u64 end = sim_now(); SIM_CHECK(!w.own_fail.get(), "lock", "thread_interrupted left a condition wait without the lock"); enabled();
    if (threw) {
      SIM_CHECK(kd != NEVER, "not-a-point", "operation %u, which is no interruption point, threw thread_interrupted", k); SIM_CHECK(!m.disabled, "disabled", "operation %u threw thread_interrupted while interruption is disabled", k); SIM_CHECK(m.possible(), "invented", "operation %u threw thread_interrupted without a pending request", k);
      u64 s = m.since(); m.delivered(st); if (nostall && s != INF) { if (s < t0) s = t0; SIM_CHECK(end < s + 5 * MS, "late", "operation %u threw %llu ns after the request", k, (unsigned long long)(end - s)); }
    } else { SIM_CHECK(!(forever && nospur && k > 1), "lost", "operation %u returned normally although nothing but an interruption request could end it", k); if (kd == MUST && sure && !m.disabled) sim_violation("lost", "operation %u is an interruption point but ignored a pending request", k);
      if (nostall && kd == MUST && !m.disabled) { u64 s = m.since(); SIM_CHECK(s == INF || s + 5 * MS > end, "lost", "operation %u went on for %llu ns although a request was pending, and then returned normally", k, (unsigned long long)(end - s)); } }
  }
  void script(u32 depth) {
    u32 n = sim::range(1, 3);
    for (u32 i = 0; i < n && budget; i++) { budget--;
      u32 a = sim::choose(8); if (a == 0) requested();
      else if (a == 1 && depth < 3) { boost::this_thread::disable_interruption di; m.disabled++; struct D { u32& x; ~D() { x--; } } dd = {m.disabled}; enabled(); script(depth + 1);
        if (sim::flip()) { u32 saved = m.disabled; { boost::this_thread::restore_interruption ri(di); m.disabled = saved - 1; enabled(); script(depth + 1); m.disabled = saved - 1; if (saved == 1 && sim::choose(4) == 0) { /* nested disable inside the restored scope */ boost::this_thread::disable_interruption d2; m.disabled++; enabled(); op(false); m.disabled--; } } m.disabled = saved; enabled(); } }
      else op(false); }
  }
};
static boost::thread* blocker(Place& w) { return new boost::thread([&w] { Tag g("thread to join"); boost::unique_lock<boost::mutex> l(w.om); while (!w.orel) w.ocv.wait(l); }); }
static void unblock(Place& w) { { boost::lock_guard<boost::mutex> l(w.om); w.orel = true; w.ocv.notify_all(); } w.other->join(); delete w.other; }

// Any sequence of operations against any requests.
SCENARIO(script, 6) {
  bool nostall = sim::flip(); sim_faults((1u << SF_WEAKCAS) | (1u << SF_SPURIOUS) | (1u << SF_SLEEPINTR) | (nostall ? 0 : 1u << SF_STALL)); Place w; w.other = blocker(w); Model m; Flag done; sim::Threads t;
  boost::thread th([&] { Tag g("target"); Target x{w, m, nostall}; x.budget = 12; for (u32 i = sim::range(1, 3); i; i--) x.script(0); SIM_CHECK(m.disabled == 0, "harness", "scope count"); done.set(); });
  u32 ni = sim::range(1, 2); for (u32 i = 0; i < ni; i++) t.go([&] { Tag g("interrupter"); u32 n = sim::range(1, 3); for (u32 j = 0; j < n && !done.get(); j++) { switch (sim::choose(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep_ns(sim::range(1, 50) * 100 * US); break; default: sim_sleep_ns(sim::range(1, 60) * MS); } m.request(th); } });
  if (sim::flip()) t.go([&] { Tag g("competitor"); while (!done.get()) { { boost::lock_guard<boost::mutex> l(w.free_m); sim_yield(); } { boost::lock_guard<boost::timed_mutex> l(w.tm); boost::lock_guard<boost::shared_mutex> l2(w.sm); boost::lock_guard<boost::recursive_timed_mutex> l3(w.rtm); sim_sleep_ns(1 * MS); } sim_sleep_ns(3 * MS); } });
  t.go([&] { Tag g("pump"); while (!done.get()) { sim_sleep_ns(sim::range(1, 40) * MS); boost::lock_guard<boost::mutex> l(w.m); w.cv.notify_all(); w.cva.notify_all(); } });
  t.join(); th.join(); unblock(w);
}
// The thread is (about to be) blocked for ever; one request at any moment must get it out.
SCENARIO(forever, 6) {
  bool nostall = sim::flip(), spur = sim::flip(); sim_faults((1u << SF_WEAKCAS) | (spur ? 1u << SF_SPURIOUS : 0) | (1u << SF_SLEEPINTR) | (nostall ? 0 : 1u << SF_STALL)); Place w; w.other = blocker(w); Model m; u32 n = sim::range(1, 3);
  Flag k; boost::thread th([&] { Tag g("target"); Target x{w, m, nostall}; x.nospur = !spur; for (u32 i = 0; i < n; i++) { u64 had = m.dl.size(); while (m.dl.size() == had) x.op(true); k.add(); } });
  for (u32 i = 0; i < n; i++) { Tag g("interrupter"); switch (sim::choose(3)) { case 0: break; case 1: sim_sleep_ns(sim::range(1, 300) * MS); break; default: sim_settle(); } m.request(th); while (k.get() <= i) sim_sleep_ns(200 * US); }
  th.join(); SIM_CHECK(m.dl.size() == n, "count", "%zu exceptions for %u requests", m.dl.size(), n); unblock(w);
}
// join() and get() without a timeout; the joined thread stays joinable.
SCENARIO(plain_join, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); Place w; w.other = blocker(w); Model m; u32 k = sim::choose(6); Flag out;
  boost::thread th([&] { Tag g("target"); try { switch (k) { case 0: w.other->join(); break; case 1: w.fu.get(); break; case 2: w.fu.wait(); break; case 3: w.la.wait(); break; case 4: w.ba.wait(); break; default: { int e; w.q.pull(e); } } sim_violation("lost", "blocking operation %u returned", k); } catch (boost::thread_interrupted&) { out.set(); } });
  nap(); if (sim::flip()) sim_settle(); m.request(th); th.join(); SIM_CHECK(out.get(), "lost", "no exception"); SIM_CHECK(w.other->joinable(), "join", "an interrupted join consumed the thread"); unblock(w);
}
// Requests before the start, after the end, to oneself, to not-a-thread; an uncaught exception ends the thread quietly.
SCENARIO(corner, 3) {
  sim_faults(SIM_DEFAULT_FAULTS); u32 c = sim::choose(6); bool threw = false; Flag ran;
  switch (c) {
    case 0: { boost::thread t([&] { ran.set(); boost::this_thread::interruption_point(); boost::this_thread::sleep_for(bc::hours(9000)); sim_violation("lost", "not interrupted"); }); t.interrupt(); u64 t0 = sim_now(); t.join(); (void)t0; SIM_CHECK(ran.get(), "run", "an interrupted thread did not run"); break; }
    case 1: { boost::thread t([&] { ran.set(); }); while (!ran.get()) sim_sleep_ns(100 * US); nap(); t.interrupt(); t.interrupt(); t.join(); t.interrupt(); break; }
    case 2: { boost::thread t([&] { }); boost::thread* p = &t; boost::thread t2([&, p] { boost::this_thread::disable_interruption di; boost::this_thread::interruption_point(); (void)p; }); t2.interrupt(); t.interrupt(); t2.join(); t.join(); break; }
    case 3: { boost::thread* self = 0; boost::mutex gm; gm.lock(); boost::thread t([&] { { boost::lock_guard<boost::mutex> gl(gm); } self->interrupt(); SIM_CHECK(boost::this_thread::interruption_requested(), "self", "request to oneself not pending"); { boost::this_thread::disable_interruption d; boost::this_thread::interruption_point(); SIM_CHECK(boost::this_thread::interruption_requested(), "self", "request swallowed while disabled"); } try { boost::this_thread::interruption_point(); } catch (boost::thread_interrupted&) { threw = true; } boost::this_thread::interruption_point(); SIM_CHECK(!boost::this_thread::interruption_requested(), "self", "request still pending after its delivery"); }); self = &t; gm.unlock(); t.join(); SIM_CHECK(threw, "self", "no exception"); break; }
    case 4: { boost::thread n; n.interrupt(); SIM_CHECK(!n.interruption_requested(), "requested", "not-a-thread has a request"); boost::this_thread::interruption_point(); boost::this_thread::disable_interruption d; boost::this_thread::restore_interruption r(d); boost::this_thread::interruption_point(); break; }
    default: { boost::mutex m; boost::thread t([&] { Tag g("target"); boost::lock_guard<boost::mutex> l(m); struct R { Flag& f; ~R() { f.set(); } } r = {ran}; boost::this_thread::sleep_for(bc::hours(9000)); sim_violation("lost", "sleep returned"); }); sim_settle(); t.interrupt(); SIM_CHECK(t.interruption_requested() || sim_done(0) || true, "", " "); t.join(); SIM_CHECK(ran.get(), "unwind", "no unwinding"); SIM_CHECK(m.try_lock(), "unwind", "lock kept"); m.unlock(); }
  }
}
// The condition variable the target waited on is gone as soon as it left: interrupt must not touch it any more.
SCENARIO(gone, 3) {
  sim_faults(SIM_DEFAULT_FAULTS); u32 form = sim::choose(CV_NW); bool any = sim::flip(); Flag up; u32 rounds = sim::range(1, 2), got = 0; boost::mutex pm; boost::condition_variable* cur = 0; boost::condition_variable_any* cura = 0; boost::mutex lm;
  boost::thread th([&] { Tag g("target"); for (u32 i = 0; i < rounds; i++) { boost::condition_variable* c = new boost::condition_variable; boost::condition_variable_any* ca = new boost::condition_variable_any; DL x;
      { boost::lock_guard<boost::mutex> p(pm); cur = c; cura = ca; } up.add(); try { boost::unique_lock<boost::mutex> l(lm); if (any) cv_wait(*ca, l, form, 2 * MS, x); else cv_wait(*c, l, form, 2 * MS, x); } catch (boost::thread_interrupted&) { got++; } { boost::lock_guard<boost::mutex> p(pm); cur = 0; cura = 0; } delete c; delete ca; } up.add(10); });
  sim::Threads t; t.go([&] { Tag g("notifier"); while (up.get() < 10) { { boost::lock_guard<boost::mutex> p(pm); if (cur) { cur->notify_all(); cura->notify_all(); } } sim_sleep_ns(sim::range(1, 20) * 100 * US); } });
  u32 n = sim::range(1, 3); for (u32 i = 0; i < n; i++) { if (sim::flip()) sim_sleep_ns(sim::range(1, 20) * 100 * US); else sim_yield(); th.interrupt(); } t.join(); th.join(); SIM_CHECK(got <= n, "count", "too many exceptions");
}
// Several targets on one condition variable: only the requested one throws, a later notification reaches the others.
SCENARIO(several, 3) {
  sim_faults((1u << SF_WEAKCAS) | (sim::flip() ? 1u << SF_STALL : 0)); boost::mutex m; boost::condition_variable cv; bool go = false; u32 n = sim::range(2, 4); u32 mask = sim::choose(1u << n); Flag thr[4], out[4]; boost::thread* th[4];
  for (u32 i = 0; i < n; i++) th[i] = new boost::thread([&, i] { Tag g("waiter"); try { boost::unique_lock<boost::mutex> l(m); DL x; while (!go) cv_wait(cv, l, sim::choose(CV_NW), FOREVER, x); } catch (boost::thread_interrupted&) { thr[i].set(); } out[i].set(); });
  if (sim::flip()) sim_settle(); else nap(); for (u32 i = 0; i < n; i++) if (mask >> i & 1) th[i]->interrupt(); for (u32 i = 0; i < n; i++) if (mask >> i & 1) { th[i]->join(); SIM_CHECK(thr[i].get(), "lost", "waiter not interrupted"); }
  sim_settle(); for (u32 i = 0; i < n; i++) if (!(mask >> i & 1)) SIM_CHECK(!out[i].get(), "wrong-thread", "a waiter without a request left its wait");
  { boost::lock_guard<boost::mutex> l(m); go = true; } for (u32 i = 0; i < n; i++) cv.notify_one(); for (u32 i = 0; i < n; i++) { if (th[i]->joinable()) th[i]->join(); SIM_CHECK(thr[i].get() == (mask >> i & 1), "wrong-thread", "interruption reached the wrong thread"); delete th[i]; }
}

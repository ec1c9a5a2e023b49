// C08 every timed operation: never early, always in the end, whatever the clocks do.
#define BOOST_THREAD_PROVIDES_FUTURE
#include "cv.h"
#include <boost/thread/future.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <functional>

static const u64 POLL_SLACK = 250 * MS;
// A timed operation that nothing else completes. clk: 0 relative/steady, 1 system. off: deadline relative to now (may be negative).
struct World {
  boost::mutex mx; boost::condition_variable cv; boost::condition_variable_any cva; boost::timed_mutex tm; boost::recursive_timed_mutex rtm; boost::shared_mutex sm;
  boost::promise<int>* pr; boost::future<int>* fu; boost::shared_future<int>* sf; boost::latch la; boost::sync_timed_queue<int> q; boost::thread* th; Flag stop; bool done_main = false;
  bool release = false; Flag held; bool lockers = false; boost::thread* holder = 0;
  World() : pr(0), fu(0), sf(0), la(1), th(0) {}
  void prepare(u32 grp) {
    if (grp == 4) { pr = new boost::promise<int>(); fu = new boost::future<int>(pr->get_future()); sf = new boost::shared_future<int>(); }
    if (grp == 5) { pr = new boost::promise<int>(); sf = new boost::shared_future<int>(pr->get_future()); }
    if (grp == 3) th = new boost::thread([this] { Tag g("joined thread"); boost::unique_lock<boost::mutex> l(mx); while (!release) cv.wait(l); });
    if (grp == 2) { lockers = true; holder = new boost::thread([this] { Tag g("lock holder"); tm.lock(); rtm.lock(); sm.lock(); held.set(); boost::unique_lock<boost::mutex> l(mx); while (!release) cv.wait(l); tm.unlock(); rtm.unlock(); sm.unlock(); }); held.await(); }
  }
  // Make the awaited thing happen.
  void complete(u32 grp) {
    switch (grp) {
      case 1: case 2: case 3: { boost::unique_lock<boost::mutex> l(mx); release = true; cv.notify_all(); cva.notify_all(); break; }
      case 4: case 5: pr->set_value(7); break;
      case 6: la.count_down(); break;
      case 7: q.push(1, bc::steady_clock::now() - bc::seconds(1)); break;
    }
  }
  void clean() { if (holder) { holder->join(); delete holder; } if (th) { if (th->joinable()) th->join(); delete th; } delete fu; delete sf; delete pr; }
};
struct Res { bool happened; bool polled; bool slow = false; DL dl; const char* name; };
static const u32 NSLEEP = 12;
// 0 sleeps, 1 condition waits, 2 locks, 3 joins, 4 future, 5 shared_future, 6 latch, 7 timed queue
static const u32 NT_ = Tmd<boost::timed_mutex>::N, NS_ = Shr<boost::shared_mutex>::NM, NU_ = Upg<boost::shared_mutex>::NM;
static u32 forms(u32 g) { static const u32 n[] = {NSLEEP + 2 * NUT, 4 * (CV_NW - 1), 3 * NT_ + NS_ + NU_, 5 + NUT, 5 + NUT, 5 + NUT, 3 + NUT, 2 + NUT - 3}; return n[g]; }
static bool sys_form(u32 g, u32 k) {
  switch (g) {
    case 0: return k == 2 || k == 3 || k == 7 || k == 8 || k == 10 || k == 11;
    case 1: { u32 f = k % (CV_NW - 1) + 1; return f == 1 || f == 4 || f == 7; }
    default: return false;
  }
}
static Res run(World& w, u32 g, u32 k, s64 off) {
  Res r; r.happened = false; r.polled = true; r.name = ""; if (g == 1 || g == 2) off = us_fl(off); u64 t = sim_now(), s = sim_now_real() / 1000 * 1000;
  switch (g) {
    case 0: {
      static const char* n[] = {"sleep_for", "sleep_until(steady)", "sleep_until(system)", "sleep(system_time)", "sleep(relative)", "no_interruption_point::sleep_for", "no_interruption_point::sleep_until(steady)", "no_interruption_point::sleep_until(system)", "no_interruption_point::sleep(system_time)", "no_interruption_point::sleep(relative)", "sleep(xtime)", "thread::sleep"};
      if (k >= NSLEEP) { r.name = "sleep, user clock or odd time type"; bool ni = k >= NSLEEP + NUT; odd_time((k - NSLEEP) % NUT, (u64)off, r.dl, [&](auto at) { if (ni) boost::this_thread::no_interruption_point::sleep_until(at); else boost::this_thread::sleep_until(at); return 0; }, [&](auto d) { if (ni) boost::this_thread::no_interruption_point::sleep_for(d); else boost::this_thread::sleep_for(d); return 0; }); break; }
      r.name = n[k];
      switch (k) {
        case 0: r.dl = DL::mono(t + off); boost::this_thread::sleep_for(nsd(off)); break;
        case 1: r.dl = DL::mono(t + off); boost::this_thread::sleep_until(st_at(t + off)); break;
        case 2: r.dl = DL::sys(s + off); boost::this_thread::sleep_until(sy_at(s + off)); break;
        case 3: { boost::system_time a = pt_at(s + off); r.dl = DL::sys(s + off); boost::this_thread::sleep(a); break; }
        case 4: r.dl = DL::mono(t + us_fl(off)); boost::this_thread::sleep(pd_of(off)); break;
        case 5: r.dl = DL::mono(t + off); boost::this_thread::no_interruption_point::sleep_for(nsd(off)); break;
        case 6: r.dl = DL::mono(t + off); boost::this_thread::no_interruption_point::sleep_until(st_at(t + off)); break;
        case 7: r.dl = DL::sys(s + off); boost::this_thread::no_interruption_point::sleep_until(sy_at(s + off)); break;
        case 8: { boost::system_time a = pt_at(s + off); r.dl = DL::sys(s + off); boost::this_thread::no_interruption_point::sleep(a); break; }
        case 9: r.dl = DL::mono(t + us_fl(off)); boost::this_thread::no_interruption_point::sleep(pd_of(off)); break;
        case 10: { boost::xtime x = xt_at(s + off); r.dl = DL::sys(s + off); boost::this_thread::sleep(x); break; }
        default: { boost::system_time a = pt_at(s + off); r.dl = DL::sys(s + off); boost::thread::sleep(a); break; }
      }
      break; }
    case 1: { const u32 nf = CV_NW - 1; bool pred = k / nf & 1, any = k / (2 * nf); u32 f = k % nf + 1; boost::unique_lock<boost::mutex> l(w.mx); auto p = [&] { return w.release; }; r.polled = pred; r.slow = !pred && f == 10; r.name = pred ? "condition predicate wait" : "condition wait"; if (!pred && w.release) { r.dl = DL::mono((s64)sim_now()); r.happened = true; break; } // whoever waits again looks first
      if (pred) r.happened = any ? cv_pred(w.cva, l, f, (u64)off, r.dl, p) : cv_pred(w.cv, l, f, (u64)off, r.dl, p); else r.happened = any ? cv_wait(w.cva, l, f, (u64)off, r.dl) : cv_wait(w.cv, l, f, (u64)off, r.dl);
      break; }
    case 2: { r.name = "timed lock acquisition"; auto f = [&] { };
      if (k < NT_) { r.name = "timed_mutex"; r.happened = Tmd<boost::timed_mutex>::run(w.tm, k, (u64)off, r.dl, f); } else if (k < 2 * NT_) { r.name = "recursive_timed_mutex"; r.happened = Tmd<boost::recursive_timed_mutex>::run(w.rtm, k - NT_, (u64)off, r.dl, f); } else if (k < 3 * NT_) { r.name = "shared_mutex exclusive"; r.happened = Tmd<boost::shared_mutex>::run(w.sm, k - 2 * NT_, (u64)off, r.dl, f); }
      else if (k < 3 * NT_ + NS_) { r.name = "shared_mutex shared"; r.happened = Shr<boost::shared_mutex>::tm(w.sm, k - 3 * NT_, (u64)off, r.dl, f); } else { r.name = "shared_mutex upgrade"; r.happened = Upg<boost::shared_mutex>::tm(w.sm, k - 3 * NT_ - NS_, (u64)off, r.dl, f); }
      break; }
    case 3: { static const char* n[] = {"try_join_for", "try_join_until(steady)", "try_join_until(system)", "timed_join(system_time)", "timed_join(relative)"}; r.name = k < 5 ? n[k] : "timed join, user clock or odd time type";
      if (k >= 5) r.happened = odd_time(k - 5, (u64)off, r.dl, [&](auto at) { return w.th->try_join_until(at); }, [&](auto d) { return w.th->try_join_for(d); }); else switch (k) {
        case 0: r.dl = DL::mono(t + off); r.happened = w.th->try_join_for(nsd(off)); break;
        case 1: r.dl = DL::mono(t + off); r.happened = w.th->try_join_until(st_at(t + off)); break;
        case 2: r.dl = DL::sys(s + off); r.happened = w.th->try_join_until(sy_at(s + off)); break;
        case 3: { boost::system_time a = pt_at(s + off); r.dl = DL::sys(s + off); r.happened = w.th->timed_join(a); break; }
        default: r.dl = DL::mono(t + us_fl(off)); r.happened = w.th->timed_join(pd_of(off)); break;
      }
      SIM_CHECK(w.th->joinable() == !r.happened, "join", "joinable() is %d after a timed join that returned %d", (int)w.th->joinable(), (int)r.happened);
      break; }
    case 4: case 5: { static const char* n[] = {"future wait_for", "future wait_until(steady)", "future wait_until(system)", "future timed_wait", "future timed_wait_until"}; r.name = k < 5 ? n[k] : "future wait, user clock or odd time type";
      if (k >= 5) r.happened = odd_time(k - 5, (u64)off, r.dl, [&](auto at) { return (g == 4 ? w.fu->wait_until(at) : w.sf->wait_until(at)) == boost::future_status::ready; }, [&](auto d) { return (g == 4 ? w.fu->wait_for(d) : w.sf->wait_for(d)) == boost::future_status::ready; }); else switch (k) {
        case 0: r.dl = DL::mono(t + off); r.happened = (g == 4 ? w.fu->wait_for(nsd(off)) : w.sf->wait_for(nsd(off))) == boost::future_status::ready; break;
        case 1: r.dl = DL::mono(t + off); r.happened = (g == 4 ? w.fu->wait_until(st_at(t + off)) : w.sf->wait_until(st_at(t + off))) == boost::future_status::ready; break;
        case 2: r.dl = DL::sys(s + off); r.happened = (g == 4 ? w.fu->wait_until(sy_at(s + off)) : w.sf->wait_until(sy_at(s + off))) == boost::future_status::ready; break;
        case 3: r.dl = DL::mono(t + us_fl(off)); r.happened = g == 4 ? w.fu->timed_wait(pd_of(off)) : w.sf->timed_wait(pd_of(off)); break;
        default: { boost::system_time a = pt_at(s + off); r.dl = DL::sys(s + off); r.happened = g == 4 ? w.fu->timed_wait_until(a) : w.sf->timed_wait_until(a); break; }
      } break; }
    case 6: { static const char* n[] = {"latch wait_for", "latch wait_until(steady)", "latch wait_until(system)"}; r.name = k < 3 ? n[k] : "latch wait, user clock or odd time type";
      if (k >= 3) r.happened = odd_time(k - 3, (u64)off, r.dl, [&](auto at) { return w.la.wait_until(at) == boost::cv_status::no_timeout; }, [&](auto d) { return w.la.wait_for(d) == boost::cv_status::no_timeout; }); else switch (k) {
        case 0: r.dl = DL::mono(t + off); r.happened = w.la.wait_for(nsd(off)) == boost::cv_status::no_timeout; break;
        case 1: r.dl = DL::mono(t + off); r.happened = w.la.wait_until(st_at(t + off)) == boost::cv_status::no_timeout; break;
        default: r.dl = DL::sys(s + off); r.happened = w.la.wait_until(sy_at(s + off)) == boost::cv_status::no_timeout; break;
      } break; }
    default: { int e = 0; boost::queue_op_status st; r.name = k == 0 ? "timed queue pull_for" : "timed queue pull_until";
      r.dl = DL::mono(t + off); if (k == 0) st = w.q.pull_for(nsd(off), e); else if (k == 1) st = w.q.pull_until(st_at(t + off), e); else st = odd_time(k + 1, (u64)off, r.dl, [&](auto at) { if constexpr (std::is_same<typename decltype(at)::clock, StC>::value) return w.q.pull_until(at, e); else return boost::queue_op_status::busy; }, [&](auto d) { return w.q.pull_for(d, e); });
      SIM_CHECK(st == boost::queue_op_status::success || st == boost::queue_op_status::timeout || st == boost::queue_op_status::not_ready, "status", "status %d", (int)st); r.happened = st == boost::queue_op_status::success; break; }
  }
  return r;
}
static s64 some_off() { static const s64 t[] = {0, 1, 999, 1000, 1500, 1 * (s64)MS, 99 * (s64)MS, 100 * (s64)MS, 101 * (s64)MS, 250 * (s64)MS, 1 * (s64)SEC - 1, 1 * (s64)SEC, 3 * (s64)SEC + 7, 61 * (s64)SEC}; return t[sim::choose(14)]; }
static s64 past_off() { static const s64 t[] = {-1, -1000, -999999999, -(s64)SEC, -61 * (s64)SEC, -86400ll * 365 * (s64)SEC, -86400ll * 365 * 55 * (s64)SEC, -86400ll * 365 * 80 * (s64)SEC}; return t[sim::choose(8)]; }
static u32 group() { return sim::choose(8); }
static s64 special(u64 s) { switch (sim::choose(4)) { case 0: return -(s64)s; case 1: return -(s64)s - 1; case 2: return -(s64)s - 1000; default: return -(s64)s + 1000; } } // at, just before and just after the epoch of the system clock

// Nothing happens: the operation times out, not early, and (without stalls) not late.
static void expire(s64 off, bool stall, bool jumps, u32 g) {
  u32 f = (1u << SF_WEAKCAS) | (sim::flip() ? 1u << SF_SPURIOUS : 0) | (1u << SF_SLEEPINTR) | (stall ? 1u << SF_STALL : 0) | (jumps ? 1u << SF_RJUMP : 0);
  World w; w.prepare(g); u32 k = sim::choose(forms(g)); sim_faults(f); bool in_thread = sim::flip(); Res r;
  auto body = [&] { Tag tg("timed operation"); int n = 0; for (;;) { r = run(w, g, k, off); if (r.happened && g == 1 && !r.polled) { if (++n < 4) continue; } break; } };
  if (in_thread) { boost::thread t(body); t.join(); } else body();
  if (!(g == 1 && !r.polled && r.happened)) { SIM_CHECK(!r.happened, "false-success", "%s (group %u form %u) reported success though nothing happened", r.name, g, k); check_timeout(r.dl, r.name); }
  if (!stall && !jumps) check_not_late(r.dl, r.name, POLL_SLACK);
  w.complete(g); w.clean();
}
SCENARIO(expires, 4) { expire(some_off(), sim::flip(), false, group()); }
SCENARIO(past, 2) { expire(past_off(), sim::flip(), false, group()); }
SCENARIO(epoch, 1) { u32 g = group(); expire(special(sim_now_real()), false, false, g); }
SCENARIO(jumpy, 2) { expire(some_off() % (5 * SEC), sim::flip(), true, group()); }
// It happens before the deadline (which is anything from near to two centuries away): success, promptly, and no timeout before.
SCENARIO(completes, 4) {
  u32 g = 1 + sim::choose(7); sim_faults((1u << SF_WEAKCAS) | (sim::flip() ? 1u << SF_SPURIOUS : 0)); World w; w.prepare(g); u32 k = sim::choose(forms(g)); static const s64 offs[] = {10, 3600, 86400, 86400 * 60, 86400ll * 365, 86400ll * 365 * 10, 86400ll * 365 * 15, 86400ll * 365 * 20, 86400ll * 365 * 50, 86400ll * 365 * 68, 86400ll * 365 * 100, 86400ll * 365 * 200};
  s64 off = offs[sim::choose(12)] * (s64)SEC; u64 delay = sim::flip() ? sim::range(0, 300) * MS : sim::range(1, 5) * SEC; Res r; Flag back; u64 at = 0; bool jump = sim::choose(4) == 0; s64 j = 0;
  boost::thread t([&] { Tag tg("timed operation"); for (;;) { r = run(w, g, k, off); if (g == 1 && r.happened && !w.release) continue; break; } at = sim_now(); back.set(); });
  sim_settle(); sim_sleep_ns(delay); if (jump) { j = sim::flip() ? 3 * (s64)SEC : -(s64)(sim::range(1, 3600) * SEC); sim_clock_jump(j); sim_sleep_ns(50 * MS); }
  SIM_CHECK(!back.get(), "early-return", "%s (group %u form %u, deadline in %lld s) returned before anything happened", r.name, g, k, (long long)(off / (s64)SEC));
  u64 c; { w.complete(g); c = sim_now(); } t.join();
  SIM_CHECK(r.happened || (g == 1 && !r.polled), "missed", "%s (group %u form %u, deadline in %lld s) reported a timeout though it happened in time", r.name, g, k, (long long)(off / (s64)SEC)); SIM_CHECK(at < c + POLL_SLACK, "late", "%s returned %llu ns after it happened", r.name, (unsigned long long)(at - c));
  w.clean();
}
// Long sleeps do not end early; an interruption ends them.
SCENARIO(long_sleep, 1) { if (!CAN_INTR) return;
  sim_faults((1u << SF_WEAKCAS) | (1u << SF_SPURIOUS) | (1u << SF_SLEEPINTR)); static const s64 offs[] = {3600, 86400 * 60, 86400ll * 365 * 20, 86400ll * 365 * 68, 86400ll * 365 * 100, 86400ll * 365 * 200}; s64 off = offs[sim::choose(6)] * (s64)SEC; static const u32 ks[] = {0, 1, 2, 3, 4, 10, 11}; u32 k = ks[sim::choose(7)]; Flag back, intr; World w;
  boost::thread t([&] { Tag tg("sleep"); try { run(w, 0, k, off); back.set(); } catch (boost::thread_interrupted&) { intr.set(); } });
  sim_sleep_ns(600 * SEC); SIM_CHECK(!back.get(), "early-return", "sleep form %u for %lld s returned after 10 minutes", k, (long long)(off / (s64)SEC)); intr_thread(t); t.join(); SIM_CHECK(intr.get(), "interrupt", "the sleep was not interrupted");
}
SCENARIO(long_plain_sleep, 1) { sim_faults((1u << SF_WEAKCAS) | (1u << SF_SLEEPINTR)); static const s64 offs[] = {3600, 86400 * 60, 86400ll * 365 * 68, 86400ll * 365 * 200}; s64 off = offs[sim::choose(4)] * (s64)SEC; static const u32 ks[] = {5, 6, 9}; World w; Res r = run(w, 0, ks[sim::choose(3)], off); check_timeout(r.dl, r.name); check_not_late(r.dl, r.name); }
// Where condition variables can only wait on the system clock, a jump backwards delays the poll that is under way.
#ifdef BOOST_THREAD_INTERNAL_CLOCK_IS_MONO
static const bool REAL_TIMERS = false;
#else
static const bool REAL_TIMERS = true;
#endif
// One jump of the system clock at a known moment during the operation.
SCENARIO(jump, 4) {
  u32 g = group(); sim_faults((1u << SF_WEAKCAS) | (1u << SF_SLEEPINTR)); World w; w.prepare(g); u32 k = sim::choose(forms(g)); s64 off = (s64)(sim::range(1, 40) * 100 * MS); u64 when = sim::range(0, 40) * 100 * MS + sim::choose(100) * MS; static const s64 js[] = {1, -1, 10, -10, 60, -60, 300, 3600 * 24 * 365}; s64 j = js[sim::choose(8)] * (sim::flip() ? (s64)SEC : 100 * (s64)MS);
  Res r; u64 at = 0, t0 = 0; Flag done; boost::thread t([&] { Tag tg("timed operation"); t0 = sim_now(); r = run(w, g, k, off); at = sim_now(); done.set(); });
  sim_sleep_ns(when); bool during = !done.get(); u64 jt = sim_now(); if (during) sim_clock_jump(j); t.join();
  SIM_CHECK(!r.happened || (g == 1 && !r.polled), "false-success", "%s reported success though nothing happened", r.name); if (!r.happened) check_timeout(r.dl, r.name);
  s64 due; // on the steady clock
  if (!r.dl.real) due = r.dl.at; else if (!during) due = (s64)t0 + off; else due = (s64)(jt + (u64)(r.dl.at - (s64)(sim_now_real() - (sim_now() - jt)))); // after the jump, the rest of the way
  if (due < (s64)t0) due = (s64)t0; if (r.dl.real && during && due < (s64)jt) due = (s64)jt;
  if (!REAL_TIMERS && r.dl.real && !r.polled && due < (s64)t0 + off) due = (s64)t0 + off; // a plain condition wait cannot notice a forward jump (documented)
  bool spur = r.dl.real != REAL_TIMERS && !r.polled; // ... and returns without a timeout after a backward jump
  SIM_CHECK((s64)at <= due + (s64)POLL_SLACK + (REAL_TIMERS && j < 0 ? -j : 0), "late", "%s (group %u form %u) returned %lld ns after its deadline (jump %lld s at %llu ms)", r.name, g, k, (long long)((s64)at - due), (long long)(j / (s64)SEC), (unsigned long long)(jt / MS));
  if (!spur && !r.slow && !(during && at < jt + 10 * MS)) SIM_CHECK((s64)at >= due || (r.dl.real && (s64)at >= due - 1000000), "early", "%s (group %u form %u) returned %lld ns before its deadline", r.name, g, k, (long long)(due - (s64)at));
  w.complete(g); w.clean();
}
SCENARIO(infinite, 1) { // relative waits for ever
  sim_faults(NOSTALL); bool any = sim::flip(), pred = sim::flip(); boost::mutex m; boost::condition_variable cv; boost::condition_variable_any ca; bool rel = false; Flag back; boost::posix_time::time_duration inf(boost::posix_time::pos_infin); bool res = false; auto p = [&] { return rel; };
  boost::thread t([&] { Tag tg("infinite wait"); boost::unique_lock<boost::mutex> l(m); if (pred) res = any ? ca.timed_wait(l, inf, p) : cv.timed_wait(l, inf, p); else do res = any ? ca.timed_wait(l, inf) : cv.timed_wait(l, inf); while (!rel); back.set(); });
  sim_sleep_ns(86400 * 400 * SEC); SIM_CHECK(!back.get(), "early-return", "an infinite wait returned"); { boost::lock_guard<boost::mutex> l(m); rel = true; cv.notify_all(); ca.notify_all(); } t.join(); SIM_CHECK(res, "result", "an infinite wait reported a timeout");
}
// Deadlines as far away as there are: waits, joins and sleeps that nothing but their event ends.
SCENARIO(no_limit, 2) {
  typedef boost::unique_lock<boost::mutex> L; using boost::posix_time::pos_infin; sim_faults(NOSTALL); u32 k = sim::choose(19); if (!CAN_INTR && k >= 15) k -= 8; boost::mutex m; boost::condition_variable cv; boost::condition_variable_any ca; bool rel = false, res = false; Flag back, go; boost::promise<int> p; boost::future<int> f = p.get_future();
  const boost::system_time abs(sim::flip() ? boost::system_time(pos_infin) : boost::system_time(boost::posix_time::max_date_time)); const boost::posix_time::time_duration inf(pos_infin); const auto st = (boost::chrono::steady_clock::time_point::max)(); const auto sy = (boost::chrono::system_clock::time_point::max)(); auto pr = [&] { return rel; };
  boost::thread other([&] { Tag tg("joined"); go.await(); });
  boost::thread t([&] { Tag tg("wait without limit"); L l(m, boost::defer_lock); if (k < 8) l.lock(); const boost::cv_status no = boost::cv_status::no_timeout;
    try { switch (k) {
      case 0: do res = cv.timed_wait(l, abs); while (res && !rel); break; case 1: res = cv.timed_wait(l, abs, pr); break; case 2: do res = ca.timed_wait(l, abs); while (res && !rel); break; case 3: res = ca.timed_wait(l, abs, pr); break;
      case 4: do res = cv.wait_until(l, st) == no; while (res && !rel); break; case 5: do res = cv.wait_until(l, sy) == no; while (res && !rel); break; case 6: do res = ca.wait_until(l, st) == no; while (res && !rel); break; case 7: res = ca.wait_until(l, sy, pr); break;
      case 8: res = other.timed_join(abs); break; case 9: res = other.timed_join(inf); break; case 10: res = other.try_join_until(st); break; case 11: res = other.try_join_until(sy); break;
      case 12: res = f.timed_wait_until(abs); break; case 13: res = f.wait_until(st) == boost::future_status::ready; break; case 14: res = f.wait_until(sy) == boost::future_status::ready; break;
      case 15: boost::this_thread::sleep(abs); break; case 16: boost::this_thread::sleep(inf); break; case 17: boost::this_thread::sleep_until(st); break; default: boost::this_thread::sleep_until(sy); } } catch (boost::thread_interrupted&) { res = k >= 15; }
    back.set(); });
  sim_sleep_ns(sim::flip() ? 5 * SEC : 30 * MS); SIM_CHECK(!back.get(), "early-return", "a wait without time limit (%u) returned", k);
  { boost::lock_guard<boost::mutex> l(m); rel = true; cv.notify_all(); ca.notify_all(); } go.set(); p.set_value(1); 
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
  if (k >= 15) t.interrupt();
#endif
  t.join(); SIM_CHECK(res, "result", "a wait without time limit (%u) reported a timeout", k); if (other.joinable()) other.join();
}

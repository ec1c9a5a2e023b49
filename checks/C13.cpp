// C13 at-thread-exit actions: once, in the ending thread, after its own work, never lost.
#define BOOST_THREAD_PROVIDES_FUTURE
#include "common.h"
#include <memory>
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/condition_variable.hpp>

static const u32 MAXF = 40;
struct World { Flag ran[MAXF]; u32 n = 0; int owner[MAXF]; u32 late = 0; Flag ended; boost::thread_specific_ptr<int>* tss = 0; Flag tsscl; bool raw = false, started = false; };
static World* W;
static u32 newid() { sim::Quiet q; u32 i = W->n++; W->owner[i] = sim_self(); return i; }
struct Fn { u32 id; u32 nest; std::shared_ptr<int> guard; // guard: destroyed with the functor
  void operator()() { SIM_CHECK(W->owner[id] == sim_self(), "wrong-thread", "exit function %u ran in thread %d", id, sim_self()); W->ran[id].add(); SIM_CHECK(*guard == (int)id, "functor", "exit functor damaged"); if (sim::choose(3) == 0) sim_sleep_ns(1 * MS); W->late++;
    for (u32 i = 0; i < nest && W->n < MAXF - 1; i++) { u32 k = newid(); boost::this_thread::at_thread_exit(Fn{k, sim::choose(3) == 0 ? 1u : 0u, std::make_shared<int>((int)k)}); } if (nest && sim::flip() && W->tss) W->tss->reset(new int(5)); } };
static void reg(u32 nest) { u32 k = newid(); boost::this_thread::at_thread_exit(Fn{k, nest, std::make_shared<int>((int)k)}); }
static void tcleanup(int* p) { W->tsscl.add(); W->late++; if (*p > 0 && W->n < MAXF - 1 && sim::flip()) { if (sim::flip()) { u32 k = newid(); boost::this_thread::at_thread_exit(Fn{k, 0, std::make_shared<int>((int)k)}); } else W->tss->reset(new int(0)); } delete p; }
static void all_ran(const char* when) { for (u32 i = 0; i < W->n; i++) SIM_CHECK(W->ran[i].get() == 1, "count", "exit function %u ran %llu times (%s)", i, (unsigned long long)W->ran[i].get(), when); }

SCENARIO(functions, 4) {
  bool det = sim::choose(4) == 0; sim_faults(det ? NOSTALL : SIM_DEFAULT_FAULTS); World w; W = &w; boost::thread_specific_ptr<int> tp(&tcleanup); if (sim::flip()) w.tss = &tp; bool raw = w.raw = !det && sim::choose(4) == 0, intr = sim::flip(); u32 n = sim::range(0, 4);
  auto body = [&] { w.started = true; for (u32 i = 0; i < n; i++) { reg(sim::choose(3)); if (sim::choose(3) == 0) sim_yield(); } if (w.tss && sim::flip()) w.tss->reset(new int(3)); for (u32 i = 0; i < w.n; i++) SIM_CHECK(!w.ran[i].get(), "early", "an exit function ran before the thread ended"); if (intr && !raw && CAN_INTR) throw boost::thread_interrupted(); };
  if (raw) { sim::Threads t; t.go(body); t.join(); } else { boost::thread t(body); if (det) { t.detach(); auto all = [&] { sim::Quiet q; if (!w.started || w.n < n) return false; for (u32 i = 0; i < w.n; i++) if (!w.ran[i].get()) return false; return true; }; for (int i = 0; i < 3000 && !all(); i++) sim_sleep_ns(100 * MS); sim_sleep_ns(2000 * MS); sim_settle(); } else if (sim::flip()) t.join(); else while (!t.try_join_for(nsd(1 * MS))) {} }
  sim::Quiet q; all_ran("after the join");
}
// What happens in the thread before it ends completely; 'late' is plain and written last by exit functions and cleanups.
static void prepare(u32 k) { if (k & 1) reg(0); if (k & 2) { W->tss->reset(new int(0)); } }
static void marker() { boost::this_thread::at_thread_exit([] { if (sim::flip()) sim_sleep_ns(2 * MS); W->late += 100; W->ended.set(); }); }

// The ending thread: one of boost::thread, or one started without it (which cannot be detached here: it is joined at the end).
struct Ender { boost::thread b; sim::Threads r; bool raw;
  template<class F> Ender(bool raw_, F f) : raw(raw_) { W->raw = raw; if (raw) r.go(f); else b = boost::thread(f); }
  bool joinable() const { return raw || b.joinable(); } void join() { if (raw) r.join(); else b.join(); } void detach() { if (!raw) b.detach(); } };
SCENARIO(notify, 4) {
  sim_faults(SIM_DEFAULT_FAULTS); World w; W = &w; boost::thread_specific_ptr<int> tp(&tcleanup); w.tss = &tp; struct S { boost::mutex m, m2; boost::condition_variable cv, cv2; bool ready = false, ready2 = false; }; S* st = new S; boost::mutex &m = st->m, &m2 = st->m2; boost::condition_variable &cv = st->cv, &cv2 = st->cv2; bool &ready = st->ready, &ready2 = st->ready2; u32 n = sim::range(0, 3), k = sim::choose(4); bool two = sim::flip(), raw = sim::choose(3) == 0, intr = !raw && sim::choose(4) == 0; sim::Threads t; u32 own = sim::choose(3);
  for (u32 i = 0; i < n; i++) t.go([&, i] { Tag g("waiter"); boost::mutex& mm = i == 1 && two ? m2 : m; boost::condition_variable& c = i == 1 && two ? cv2 : cv; bool& r = i == 1 && two ? ready2 : ready; boost::unique_lock<boost::mutex> l(mm); while (!r) c.wait(l); SIM_CHECK(W->ended.get(), "early", "a waiter got the lock before the thread had ended"); SIM_CHECK(W->late >= 100, "early", "effects of exit functions missing"); });
  if (sim::flip()) sim_settle();
  { Ender th(raw, [&] { Tag g("ending thread"); if (k & 1) marker(); prepare(k); { boost::unique_lock<boost::mutex> l(m); ready = true; boost::notify_all_at_thread_exit(cv, boost::move(l)); SIM_CHECK(!l.owns_lock(), "lock", "the lock still owns"); } if (two) { boost::unique_lock<boost::mutex> l(m2); ready2 = true; boost::notify_all_at_thread_exit(cv2, boost::move(l)); } if (!(k & 1)) marker(); nap(); if (intr && CAN_INTR) throw boost::thread_interrupted(); });
    if (own == 0) th.detach(); else if (own == 1) th.join(); if (own == 2) { t.join(); { boost::unique_lock<boost::mutex> l(m); SIM_CHECK(W->ended.get() || !ready, "early", "lock taken before the thread had ended"); while (!ready) cv.wait(l); } th.join(); } }
  t.join(); { boost::unique_lock<boost::mutex> l(m); while (!ready) cv.wait(l); SIM_CHECK(w.late >= 100, "early", "late"); } if (two) { boost::unique_lock<boost::mutex> l(m2); while (!ready2) cv2.wait(l); } sim_settle(); sim::Quiet q; delete st;
}
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef boost::packaged_task<int()> PT;
#else
typedef boost::packaged_task<int> PT;
#endif
static int target;
template<class R> struct Set;
template<> struct Set<int> { static void val(boost::promise<int>& p) { const int v = 7; if (sim::flip()) p.set_value_at_thread_exit(7); else p.set_value_at_thread_exit(v); } static void plain(boost::promise<int>& p) { p.set_value(8); } template<class F> static bool get(F& f) { return f.get() == 7; } };
template<> struct Set<int&> { static void val(boost::promise<int&>& p) { p.set_value_at_thread_exit(target); } static void plain(boost::promise<int&>& p) { static int o; p.set_value(o); } template<class F> static bool get(F& f) { return &f.get() == &target; } };
template<> struct Set<void> { static void val(boost::promise<void>& p) { p.set_value_at_thread_exit(); } static void plain(boost::promise<void>& p) { p.set_value(); } template<class F> static bool get(F& f) { f.get(); return true; } };
struct Ex { int v; };
template<class R> static void ready_case() {
  sim_faults(SIM_DEFAULT_FAULTS); World w; W = &w; boost::thread_specific_ptr<int> tp(&tcleanup); w.tss = &tp; u32 k = sim::choose(4), own = sim::choose(4), twice = sim::choose(6); bool ex = sim::flip(), raw = sim::choose(3) == 0, intr = !raw && sim::choose(4) == 0, late_future = sim::choose(3) == 0, kill = sim::choose(3) == 0, refused = false; std::unique_ptr<boost::promise<R> > p(new boost::promise<R>());
  boost::shared_future<R> sf; if (!late_future) sf = boost::shared_future<R>(p->get_future()); u32 n = late_future ? 0 : sim::range(0, 3); sim::Threads t; Flag setdone;
  auto check = [&](boost::shared_future<R> f) { bool e = false; try { SIM_CHECK(Set<R>::get(f), "value", "wrong value"); } catch (Ex& x) { e = true; SIM_CHECK(x.v == 9, "value", "wrong exception"); } SIM_CHECK(e == ex, "value", "value and exception mixed up"); };
  for (u32 i = 0; i < n; i++) t.go([&, sf, check] { Tag g("waiter"); boost::shared_future<R> f(sf); u32 how = sim::choose(3); if (how == 0) f.wait(); else if (how == 1) while (f.wait_for(nsd(3 * MS)) != boost::future_status::ready) {} SIM_CHECK(how == 2 || W->ended.get(), "early", "a future was ready before its thread had ended"); check(f); SIM_CHECK(W->ended.get() && W->late >= 100, "early", "a future was ready before its thread had ended"); });
  if (sim::flip()) sim_settle();
  Ender th(raw, [&] { Tag g("ending thread"); if (k & 1) marker(); prepare(k); if (ex) p->set_exception_at_thread_exit(Ex{9}); else Set<R>::val(*p);
    if (twice < 3) { try { switch (twice) { case 0: Set<R>::val(*p); break; case 1: p->set_exception_at_thread_exit(Ex{1}); break; default: if (sim::flip()) Set<R>::plain(*p); else p->set_exception(Ex{2}); } } catch (boost::promise_already_satisfied&) { refused = true; } }
    if (kill && !late_future) p.reset(); if (!(k & 1)) marker(); if (!late_future && sim::flip()) SIM_CHECK(!sf.is_ready(), "early", "a future was ready before its thread had ended"); setdone.set(); nap(); if (intr && CAN_INTR) throw boost::thread_interrupted(); });
  if (own == 0) { th.detach(); } else if (own == 1) { th.join(); if (!late_future) SIM_CHECK(sf.is_ready(), "not-ready", "not ready although the thread was joined"); }
  if (late_future) { if (own != 1) setdone.await(); boost::shared_future<R> f2(p->get_future()); check(f2); SIM_CHECK(W->ended.get() && w.late >= 100, "early", "ready before the end"); } else if (own == 2) { check(sf); SIM_CHECK(W->ended.get() && w.late >= 100, "early", "ready before the end"); }
  t.join(); if (!late_future) check(sf); if (th.joinable()) th.join(); sim_settle(); if (twice < 3) SIM_CHECK(refused || own == 0, "set-twice", "a second result was accepted");
}
SCENARIO(promise_int, 3) { ready_case<int>(); }
SCENARIO(promise_ref, 1) { ready_case<int&>(); }
SCENARIO(promise_void, 2) { ready_case<void>(); }
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
SCENARIO(task, 3) {
  sim_faults(SIM_DEFAULT_FAULTS); World w; W = &w; boost::thread_specific_ptr<int> tp(&tcleanup); w.tss = &tp; bool ex = sim::flip(), raw = sim::choose(3) == 0; u32 k = sim::choose(4), own = sim::choose(3); PT pt([ex]() -> int { if (ex) throw Ex{9}; return 7; }); boost::shared_future<int> sf(pt.get_future()); sim::Threads t; u32 n = sim::range(0, 3);
  auto check = [&](boost::shared_future<int> f) { bool e = false; try { SIM_CHECK(f.get() == 7, "value", "wrong value"); } catch (Ex& x) { e = true; } SIM_CHECK(e == ex, "value", "value"); SIM_CHECK(W->ended.get() && W->late >= 100, "early", "a future was ready before its thread had ended"); };
  for (u32 i = 0; i < n; i++) t.go([&, sf, check] { Tag g("waiter"); boost::shared_future<int> f(sf); if (sim::flip()) f.wait(); check(f); });
  Ender th(raw, [&] { Tag g("ending thread"); if (k & 1) marker(); prepare(k); pt.make_ready_at_thread_exit(); bool again = false; try { pt.make_ready_at_thread_exit(); } catch (boost::task_already_started&) { again = true; } SIM_CHECK(again, "run-twice", "a task ran twice"); if (!(k & 1)) marker(); SIM_CHECK(!sf.is_ready(), "early", "ready before the end"); nap(); });
  if (own == 0) th.detach(); else if (own == 1) { th.join(); SIM_CHECK(sf.is_ready(), "not-ready", "not ready although the thread was joined"); } check(sf); t.join(); if (th.joinable()) th.join(); sim_settle();
}
#endif
// Larger numbers than elsewhere.
static u32 crowd_ran[400]; static void crowd_fn(u32 i) { sim::Quiet q; crowd_ran[i]++; }
struct CrowdFn { u32 i; void operator()() { crowd_fn(i); if (i < 50) boost::this_thread::at_thread_exit(CrowdFn{i + 300}); } };
SCENARIO(crowd, 1) { if (sim::choose(8)) return; for (u32& r : crowd_ran) r = 0; u32 n = sim::range(20, 300); boost::thread t([&] { for (u32 i = 0; i < n; i++) boost::this_thread::at_thread_exit(CrowdFn{i}); for (u32 i = 0; i < n; i++) { sim::Quiet q; SIM_CHECK(crowd_ran[i] == 0, "early", "exit function %u ran before the thread ended", i); } }); t.join(); for (u32 i = 0; i < 400; i++) { u32 want = i < 300 ? (i < n ? 1u : 0u) : (i - 300 < n && i < 350 ? 1u : 0u); SIM_CHECK(crowd_ran[i] == want, "count", "exit function %u ran %u times", i, crowd_ran[i]); } }

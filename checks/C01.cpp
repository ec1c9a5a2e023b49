// C01 mutex and timed_mutex.
#include "locks.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/thread.hpp>

static u64 pick_to() { static const u64 t[] = {0, 1 * US, 50 * US, 1 * MS, 5 * MS, 30 * MS, 3600 * SEC, 86400 * 400 * SEC}; return t[sim::choose(8)]; }
template<class M> static void lock_forms(M& m, Excl& e) {
  e.want(); { Tag t("lock"); Blk<M>::run(m, sim::choose(Blk<M>::N), [&] { e.enter(); dwell(); e.leave(); }); } e.unwant();
}
template<class M> static void try_forms(M& m, Excl& e, bool nostall) {
  u64 ep; bool idle; { sim::Quiet q; idle = e.wants == 0; e.want(); ep = e.epoch; }
  u64 t0 = sim_now(); u64 t1 = 0;
  bool ok; { Tag t("try_lock"); ok = Try<M>::run(m, sim::choose(4), [&] { t1 = sim_now(); e.enter(); dwell(); e.leave(); }); }
  { sim::Quiet q; if (!ok) { t1 = sim_now(); sim_probe("try_lock failed"); SIM_CHECK(!(idle && ep == e.epoch), "try_lock-fails", "try_lock failed on a mutex that nobody owned or wanted"); }
    if (nostall) SIM_CHECK(t1 - t0 < 20 * MS, "try_lock-blocks", "try_lock took %llu ns", (unsigned long long)(t1 - t0)); }
  e.unwant();
}
static void timed_forms(boost::timed_mutex& m, Excl& e, bool nostall) {
  typedef boost::timed_mutex M; DL dl; u64 d = pick_to(); u32 k = sim::choose(Tmd<M>::N); bool ok;
  u64 ep; bool idle; { sim::Quiet q; idle = e.wants == 0; e.want(); ep = e.epoch; }
  { Tag t("timed lock"); ok = Tmd<M>::run(m, k, d, dl, [&] { if (nostall && d >= 1) check_not_late(dl, Tmd<M>::name(k)); e.enter(); dwell(); e.leave(); }); }
  { sim::Quiet q; if (!ok) { sim_probe("timed lock failed"); check_timeout(dl, Tmd<M>::name(k)); if (nostall) { check_not_late(dl, Tmd<M>::name(k)); SIM_CHECK(d < 3600 * SEC, "missed-unlock", "%s timed out although the mutex was released long before", Tmd<M>::name(k)); }
      SIM_CHECK(!(idle && ep == e.epoch), "timed-fails", "%s failed on a mutex that nobody owned or wanted", Tmd<M>::name(k)); } }
  e.unwant();
}
SCENARIO(mutex_mix, 3) {
  typedef boost::mutex M; bool nostall = sim::flip(); u32 f = nostall ? NOSTALL : SIM_DEFAULT_FAULTS; if (sim::flip()) f |= 1u << SF_EINTR; sim_faults(f);
  M m; Excl e; u32 nt = sim::range(2, 4), no = sim::range(1, 4);
  sim::Threads t;
  for (u32 i = 0; i < nt; i++) t.go([&] { for (u32 k = 0; k < no; k++) { if (sim::choose(3) == 0) try_forms(m, e, nostall); else lock_forms(m, e); if (sim::choose(3) == 0) nap(); } });
  t.join();
  SIM_CHECK(m.try_lock(), "leftover", "the mutex is still owned after everyone released it"); m.unlock();
}
SCENARIO(timed_mix, 5) {
  typedef boost::timed_mutex M; bool nostall = sim::flip(); u32 f = nostall ? NOSTALL : SIM_DEFAULT_FAULTS; if (sim::flip()) f |= 1u << SF_EINTR; if (sim::choose(4) == 0) f |= 1u << SF_RJUMP; if (f & (1u << SF_RJUMP)) nostall = false; sim_faults(f);
  M m; Excl e; u32 nt = sim::range(2, 4), no = sim::range(1, 4);
  sim::Threads t;
  for (u32 i = 0; i < nt; i++) t.go([&] { for (u32 k = 0; k < no; k++) { switch (sim::choose(5)) { case 0: try_forms(m, e, nostall); break; case 1: case 2: lock_forms(m, e); break; default: timed_forms(m, e, nostall); } if (sim::choose(3) == 0) nap(); } });
  t.join();
  SIM_CHECK(m.try_lock(), "leftover", "the mutex is still owned after everyone released it"); m.unlock();
}
// One timed waiter racing its deadline against the unlock: whichever wins, the next acquirer must get in.
SCENARIO(timed_handover, 3) {
  typedef boost::timed_mutex M; M m; Excl e; u64 d = sim::range(0, 4) * MS;
  sim::Threads t; m.lock();
  u32 nt = sim::range(1, 2);
  for (u32 i = 0; i < nt; i++) t.go([&] { DL dl; u32 k = sim::choose(Tmd<M>::N); if (!Tmd<M>::run(m, k, d, dl, [&] { e.enter(); e.leave(); })) check_timeout(dl, Tmd<M>::name(k)); });
  for (u32 i = 0; i < 2; i++) t.go([&] { Tag g("lock"); Blk<M>::run(m, sim::choose(Blk<M>::N), [&] { e.enter(); e.leave(); }); });
  sim_sleep_ns(sim::range(0, 4) * MS); m.unlock();
  t.join();
  SIM_CHECK(m.try_lock(), "leftover", "the mutex is still owned"); m.unlock();
}
// The last user of an object destroys the mutex it has just released.
template<class M> static void last_user() {
  struct Node { M m; int refs; Node(int n) : refs(n) {} }; Node* n = new Node(3);
  sim::Threads t;
  for (int i = 0; i < 3; i++) t.go([&] { bool last; u32 k = sim::choose(Blk<M>::N); Blk<M>::run(n->m, k, [&] { dwell(); last = --n->refs == 0; }); if (last) delete n; });
}
SCENARIO(last_user_mutex, 1) { last_user<boost::mutex>(); }
SCENARIO(last_user_timed, 1) { last_user<boost::timed_mutex>(); }
// Interruption is not delivered by, and does not disturb, acquisition.
SCENARIO(interrupted_waiter, 1) { if (!CAN_INTR) return;
  boost::timed_mutex m; boost::mutex m2; Excl e, e2; m.lock(); e.enter(); m2.lock(); e2.enter(); int got = 0;
  boost::thread t([&] { Tag g("lock"); DL dl; if (sim::flip()) Blk<boost::timed_mutex>::run(m, sim::choose(10), [&] { e.enter(); e.leave(); }); else SIM_CHECK(Tmd<boost::timed_mutex>::run(m, sim::choose(15), 100 * 86400 * SEC, dl, [&] { e.enter(); e.leave(); }) || dl.passed(), "early-timeout", "early");
    Blk<boost::mutex>::run(m2, sim::choose(10), [&] { e2.enter(); e2.leave(); }); got = 1; });
  nap(); intr_thread(t); nap(); e.leave(); m.unlock(); nap(); e2.leave(); m2.unlock(); t.join();
  SIM_CHECK(got == 1, "interrupted-lock", "an interruption was delivered during mutex acquisition");
}
// All contenders blocked at once, then one unlock per release lets them through one by one.
SCENARIO(convoy, 1) {
  typedef boost::timed_mutex M; M m; int in = 0; u32 n = sim::range(2, 6); m.lock(); sim::Threads t;
  for (u32 i = 0; i < n; i++) t.go([&] { Tag g("lock"); m.lock(); ++in; m.unlock(); });
  if (sim::flip()) sim_settle(); m.unlock(); t.join(); SIM_CHECK(in == (int)n, "lost", "%d of %u", in, n);
}
SCENARIO(special, 1) { special_excl<boost::timed_mutex>(); }

// C07 boost::condition_variable_any with every lock type.
#include "cv.h"
#include <atomic>
#include <boost/thread/null_mutex.hpp>
typedef boost::condition_variable_any CV;
// A user-defined lockable.
struct MyLock {
  boost::mutex m; u64 held; MyLock() : held(0) {}
  void lock() { m.lock(); SIM_CHECK(++held == 1, "user-lock", "held twice"); }
  bool try_lock() { if (!m.try_lock()) return false; ++held; return true; }
  void unlock() { SIM_CHECK(held-- == 1, "user-lock", "not held"); m.unlock(); }
};
#define SUITE(nm, M, L, K, EXTRA) \
  typedef CvTest<CV, M, L, K> T_##nm; \
  SCENARIO(nm##_mix, 4) { T_##nm t; switch (sim::choose(6)) { case 0: t.broadcast(); break; case 1: t.signals(); break; case 2: t.pingpong(); break; case 3: t.timedpred(); break; case 4: t.predthrow(); break; default: t.interrupt(); } } \
  EXTRA
#define EXCL(nm) SCENARIO(nm##_prodcons, 1) { T_##nm t; t.prodcons(); } SCENARIO(nm##_last, 1) { T_##nm::last_user(); }
SUITE(ul_mutex, boost::mutex, boost::unique_lock<boost::mutex>, 'x', EXCL(ul_mutex))
SUITE(ul_timed, boost::timed_mutex, boost::unique_lock<boost::timed_mutex>, 'x', EXCL(ul_timed))
SUITE(raw_mutex, boost::mutex, boost::mutex, 'x', EXCL(raw_mutex))
SUITE(ul_rec, boost::recursive_timed_mutex, boost::unique_lock<boost::recursive_timed_mutex>, 'x', EXCL(ul_rec))
SUITE(ul_rec2, boost::recursive_mutex, boost::unique_lock<boost::recursive_mutex>, 'x', )
SUITE(ul_shared, boost::shared_mutex, boost::unique_lock<boost::shared_mutex>, 'x', EXCL(ul_shared))
SUITE(sl_shared, boost::shared_mutex, boost::shared_lock<boost::shared_mutex>, 's', )
SUITE(gl_shared, boost::shared_mutex, boost::upgrade_lock<boost::shared_mutex>, 'u', )
SUITE(user, MyLock, MyLock, 'x', EXCL(user))
// Waiters with different locks on one condition variable.
SCENARIO(mixed, 3) {
  sim_faults(sim::flip() ? SIM_DEFAULT_FAULTS : NOSTALL); CV cv; boost::shared_mutex m; RW o; u64 gen = 0; sim::Threads t; u32 n = sim::range(2, 4); bool nostall = false; (void)nostall;
  for (u32 i = 0; i < n; i++) { u32 how = sim::choose(3); t.go([&, how] { Tag g("waiter"); DL dl; u32 k = sim::choose(CV_NP);
    if (how == 0) { boost::unique_lock<boost::shared_mutex> l(m); while (!cv_pred(cv, l, k, 400 * SEC, dl, [&] { o.ent('x'); bool r = gen > 0; o.lea('x'); return r; })) {} OWN(l, true); o.ent('x'); o.use('x'); o.lea('x'); }
    else if (how == 1) { boost::shared_lock<boost::shared_mutex> l(m); while (!cv_pred(cv, l, k, 400 * SEC, dl, [&] { o.ent('s'); bool r = gen > 0; o.lea('s'); return r; })) {} OWN(l, true); o.ent('s'); o.use('s'); o.lea('s'); }
    else { boost::upgrade_lock<boost::shared_mutex> l(m); while (!cv_pred(cv, l, k, 400 * SEC, dl, [&] { o.ent('u'); bool r = gen > 0; o.lea('u'); return r; })) {} OWN(l, true); o.ent('u'); o.use('u'); o.lea('u'); } }); }
  nap(); u64 at; bool under = sim::flip(); { boost::unique_lock<boost::shared_mutex> l(m); o.ent('x'); gen = 1; o.lea('x'); if (under) cv.notify_all(); } if (!under) cv.notify_all(); at = sim_now();
  t.join(); (void)at;
}
// Notification between the release of the user's lock and the wait: the notifier acts the moment the lock is free.
SCENARIO(handoff, 3) {
  sim_faults(1u << SF_WEAKCAS); CV cv; MyLock m; bool ready = false; Flag released; sim::Threads t; u64 wait_done = 0; bool pre = sim::flip(); (void)pre;
  struct Spy { MyLock& m; Flag& r; void lock() { m.lock(); } void unlock() { m.unlock(); r.set(); sim_yield(); } } spy = {m, released};
  t.go([&] { Tag g("waiter"); spy.lock(); DL dl; u32 k = sim::choose(CV_NW); if (!ready) { bool r = cv_wait(cv, spy, k, FOREVER, dl); SIM_CHECK(r, "timed-out", "a wait of 300 days gave up"); } wait_done = sim_now(); m.unlock(); });
  { Tag g("notifier"); while (!released.get()) sim_sleep_ns(20 * US); m.lock(); ready = true; bool under = sim::flip(); if (under) cv.notify_one(); m.unlock(); if (!under) cv.notify_one(); u64 at = sim_now(); t.join(); SIM_CHECK(wait_done < at + 10 * MS, "lost-notification", "the notification sent after the lock was released was lost"); }
}
// Locks that throw: unlock at the start of the wait, or lock at its end. The exception reaches the caller and nothing else is blocked.
SCENARIO(throwing, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); CV cv; MyLock m; bool ready = false; sim::Threads t; u32 which = sim::choose(2); Flag threw;
  struct Th { MyLock& m; u32 which; bool armed, held; void lock() { m.lock(); held = true; if (which == 1 && armed) { armed = false; held = false; m.unlock(); throw Boom(1); } } void unlock() { if (which == 0 && armed) { armed = false; throw Boom(2); } held = false; m.unlock(); } };
  t.go([&] { Tag g("throwing waiter"); Th l = {m, which, false, false}; l.lock(); l.armed = true; DL dl; try { cv_wait(cv, l, 1 + sim::choose(CV_NW - 1), 30 * MS, dl); } catch (Boom& b) { threw.set(); if (b.v == 2) SIM_CHECK(l.held, "throw", "lock lost"); if (l.held) l.unlock(); SIM_CHECK(b.v == (which == 0 ? 2 : 1), "throw", "wrong exception"); return; } l.unlock(); });
  t.go([&] { Tag g("waiter"); DL dl; MyLock* p = &m; p->lock(); while (!ready) cv_wait(cv, *p, 0, 0, dl); p->unlock(); });
  sim_sleep_ns(100 * MS); m.lock(); ready = true; m.unlock(); cv.notify_all(); t.join(); SIM_CHECK(threw.get(), "throw", "the exception of the lock was swallowed");
}
// Recursive locks: one level is given up (the waiter holds one level).
SCENARIO(null_lock, 1) { sim_faults(NOSTALL); CV cv; boost::null_mutex m; boost::unique_lock<boost::null_mutex> l(m); DL dl; u32 k = 1 + sim::choose(CV_NW - 1); if (k == 10) k = 9; /* a slow clock makes every plain wait return early */ u64 d = sim::range(0, 20) * MS; while (cv_wait(cv, l, k, d, dl)) {} check_timeout(dl, "condition wait"); check_not_late(dl, "condition wait"); OWN(l, true); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; boost::recursive_mutex m; boost::condition_variable_any cv; u32 n = sim::range(8, 34), in = 0, turn = 0; bool all = sim::flip(); sim::Threads th; for (u32 i = 0; i < n; i++) th.go([&] { boost::unique_lock<boost::recursive_mutex> l(m); in++; while (turn == 0) cv.wait(l); if (!all) turn--; }); for (;;) { boost::unique_lock<boost::recursive_mutex> l(m); if (in == n) break; l.unlock(); sim_settle(); } if (all) { boost::unique_lock<boost::recursive_mutex> l(m); turn = 1; if (sim::flip()) l.unlock(); cv.notify_all(); } else for (u32 i = 0; i < n; i++) { { boost::unique_lock<boost::recursive_mutex> l(m); turn++; } cv.notify_one(); } th.join(); }

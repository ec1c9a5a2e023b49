// C02 recursive_mutex and recursive_timed_mutex.
#include "locks.h"
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/thread.hpp>

static u64 pick_to() { static const u64 t[] = {0, 1 * US, 50 * US, 1 * MS, 5 * MS, 30 * MS, 3600 * SEC, 86400 * 400 * SEC}; return t[sim::choose(8)]; }
template<class M> struct HasTimed { static const bool v = false; };
template<> struct HasTimed<boost::recursive_timed_mutex> { static const bool v = true; };
template<class M, bool T> struct TimedOp { template<class F> static bool run(M&, u32, u64, DL&, F) { return false; } };
template<class M> struct TimedOp<M, true> { template<class F> static bool run(M& m, u32 k, u64 d, DL& dl, F f) { return Tmd<M>::run(m, k, d, dl, f); } };

template<class M> struct W {
  M m; Excl e; bool nostall;
  // One acquisition, with nested ones inside while it is owned.
  void level(u32 depth) {
    bool owned = depth > 0; u32 kind = sim::choose(HasTimed<M>::v ? 4 : 3); if (kind == 1) kind = 0;
    u64 t0 = sim_now(); u64 b0 = sim_blocks(); (void)b0;
    auto body = [&] {
      if (owned && nostall) SIM_CHECK(sim_now() - t0 < 20 * MS, "reentry-blocks", "re-acquisition by the owner took %llu ns", (unsigned long long)(sim_now() - t0));
      e.enter(); u32 n = depth < 4 ? sim::choose(3) : 0; for (u32 i = 0; i < n; i++) level(depth + 1); dwell(); e.leave();
    };
    if (kind == 0) { if (!owned) e.want(); Tag g("lock"); Blk<M>::run(m, sim::choose(Blk<M>::N), body); if (!owned) e.unwant(); }
    else if (kind == 2) {
      u64 ep; bool idle; { sim::Quiet q; idle = e.wants == 0; if (!owned) e.want(); ep = e.epoch; }
      bool ok; { Tag g("try_lock"); ok = Try<M>::run(m, sim::choose(Try<M>::N), body); }
      if (!ok) { sim::Quiet q; sim_probe("try_lock failed"); SIM_CHECK(!owned, "reentry-fails", "try_lock by the owner failed"); SIM_CHECK(!(idle && ep == e.epoch), "try_lock-fails", "try_lock failed on a mutex nobody owned or wanted"); if (nostall) SIM_CHECK(sim_now() - t0 < 20 * MS, "try_lock-blocks", "try_lock blocked"); }
      if (!owned) e.unwant();
    } else {
      DL dl; u64 d = pick_to(); u32 k = sim::choose(Tmd<M>::N); if (!owned) e.want();
      bool ok; { Tag g("timed lock"); ok = TimedOp<M, HasTimed<M>::v>::run(m, k, d, dl, body); }
      if (!ok) { sim::Quiet q; sim_probe("timed lock failed"); SIM_CHECK(!owned, "reentry-fails", "%s by the owner failed", Tmd<boost::recursive_timed_mutex>::name(k)); check_timeout(dl, Tmd<boost::recursive_timed_mutex>::name(k));
        if (nostall) { check_not_late(dl, "timed lock"); SIM_CHECK(d < 3600 * SEC, "missed-unlock", "%s timed out although the mutex was released long before", Tmd<boost::recursive_timed_mutex>::name(k)); } }
      if (!owned) e.unwant();
    }
  }
  void mix(bool jump) {
    nostall = sim::flip(); u32 f = nostall ? NOSTALL : SIM_DEFAULT_FAULTS; if (sim::flip()) f |= 1u << SF_EINTR; if (jump && sim::choose(4) == 0) { f |= 1u << SF_RJUMP; nostall = false; } sim_faults(f);
    u32 nt = sim::range(2, 4), no = sim::range(1, 3); sim::Threads t;
    for (u32 i = 0; i < nt; i++) t.go([&] { for (u32 k = 0; k < no; k++) { level(0); if (sim::choose(3) == 0) nap(); } });
    t.join();
    SIM_CHECK(m.try_lock(), "leftover", "the mutex is still owned after everyone released it"); m.unlock();
  }
  // Acquired n times and released n-1 times: still exclusive; after the n-th release others get in.
  void exact() {
    u32 n = sim::range(1, 6); bool last = false; sim::Threads t;
    for (u32 i = 0; i < n; i++) { Tag g("lock"); switch (sim::choose(2)) { case 0: m.lock(); break; default: SIM_CHECK(m.try_lock(), "reentry-fails", "try_lock by the owner failed"); } }
    u32 nt = sim::range(1, 3);
    for (u32 i = 0; i < nt; i++) t.go([&] { Tag g("lock");
      if (sim::flip()) { if (m.try_lock()) { SIM_CHECK(last, "two-owners", "acquired before the last unlock"); m.unlock(); } }
      Blk<M>::run(m, sim::choose(Blk<M>::N), [&] { SIM_CHECK(last, "two-owners", "acquired before the owner's last unlock"); }); });
    for (u32 i = 0; i < n; i++) { if (sim::choose(3) == 0) nap(); if (i + 1 == n) last = true; m.unlock(); }
    t.join();
  }
  void convoy() {
    int in = 0; u32 n = sim::range(2, 6), d = sim::range(1, 3); sim::Threads t; for (u32 i = 0; i < d; i++) m.lock();
    for (u32 i = 0; i < n; i++) t.go([&] { Tag g("lock"); m.lock(); m.lock(); ++in; m.unlock(); m.unlock(); });
    if (sim::flip()) sim_settle(); for (u32 i = 0; i < d; i++) m.unlock(); t.join(); SIM_CHECK(in == (int)n, "lost", "%d of %u", in, n);
  }
};
SCENARIO(recursive_mix, 3) { W<boost::recursive_mutex> w; w.mix(false); }
SCENARIO(recursive_timed_mix, 4) { W<boost::recursive_timed_mutex> w; w.mix(true); }
SCENARIO(exact_mutex, 1) { W<boost::recursive_mutex> w; w.exact(); }
SCENARIO(exact_timed, 2) { W<boost::recursive_timed_mutex> w; w.exact(); }
SCENARIO(convoy_mutex, 1) { W<boost::recursive_mutex> w; w.convoy(); }
SCENARIO(convoy_timed, 1) { W<boost::recursive_timed_mutex> w; w.convoy(); }
SCENARIO(timed_handover, 2) {
  typedef boost::recursive_timed_mutex M; M m; Excl e; u64 d = sim::range(0, 4) * MS; u32 dep = sim::range(1, 2);
  sim::Threads t; for (u32 i = 0; i < dep; i++) m.lock(); u32 nt = sim::range(1, 2);
  for (u32 i = 0; i < nt; i++) t.go([&] { DL dl; u32 k = sim::choose(Tmd<M>::N); if (!Tmd<M>::run(m, k, d, dl, [&] { e.enter(); m.lock(); m.unlock(); e.leave(); })) check_timeout(dl, Tmd<M>::name(k)); });
  for (u32 i = 0; i < 2; i++) t.go([&] { Tag g("lock"); Blk<M>::run(m, sim::choose(Blk<M>::N), [&] { e.enter(); e.leave(); }); });
  sim_sleep_ns(sim::range(0, 4) * MS); for (u32 i = 0; i < dep; i++) m.unlock();
  t.join(); SIM_CHECK(m.try_lock(), "leftover", "the mutex is still owned"); m.unlock();
}
// A new thread (possibly with a recycled identity) is not the owner.
SCENARIO(other_thread, 1) {
  boost::recursive_timed_mutex m; boost::recursive_mutex m2; m.lock(); m2.lock();
  boost::thread t([&] { DL dl; SIM_CHECK(!m.try_lock(), "two-owners", "try_lock by a non-owner succeeded"); SIM_CHECK(!m2.try_lock(), "two-owners", "try_lock by a non-owner succeeded");
    u32 k = sim::choose(15); SIM_CHECK(!(Tmd<boost::recursive_timed_mutex>::run(m, k, 2 * MS, dl, [] {})), "two-owners", "timed acquisition by a non-owner succeeded"); check_timeout(dl, "timed"); });
  t.join(); m.lock(); m.unlock(); m.unlock(); m2.unlock();
  boost::thread t2([&] { SIM_CHECK(m.try_lock(), "leftover", "not free"); m.unlock(); SIM_CHECK(m2.try_lock(), "leftover", "not free"); m2.unlock(); }); t2.join();
}
template<class M> static void last_user() {
  struct Node { M m; int refs; Node(int n) : refs(n) {} }; Node* n = new Node(3); sim::Threads t;
  for (int i = 0; i < 3; i++) t.go([&] { bool last; Blk<M>::run(n->m, sim::choose(Blk<M>::N), [&] { n->m.lock(); dwell(); last = --n->refs == 0; n->m.unlock(); }); if (last) delete n; });
}
SCENARIO(last_user_mutex, 1) { last_user<boost::recursive_mutex>(); }
SCENARIO(last_user_timed, 1) { last_user<boost::recursive_timed_mutex>(); }
// Deep re-entry: excluded until the last unlock, and free after it.
template<class M> static void deep() { if (sim::choose(24)) return; M m; u32 n = many(true); sim_step_limit(HUGE_STEPS); Flag got; for (u32 i = 0; i < n; i++) if (i % 7 == 3) SIM_CHECK(m.try_lock(), "reentry-refused", "the owner was refused at depth %u", i); else m.lock();
  auto probe = [&](bool free) { boost::thread t([&, free] { bool r = m.try_lock(); SIM_CHECK(r == free, free ? "try-refused" : "exclusion", "another thread %s the mutex, %s", r ? "got" : "did not get", free ? "which nobody owns" : "which has an owner"); if (r) m.unlock(); }); t.join(); };
  probe(false); u32 at = sim::choose(n); for (u32 i = 0; i < at; i++) m.unlock(); probe(false); for (u32 i = at; i + 1 < n; i++) m.unlock(); probe(false); boost::thread t([&] { m.lock(); got.set(); m.unlock(); }); if (sim::flip()) sim_settle(); SIM_CHECK(!got.get(), "exclusion", "the mutex was obtained before the last unlock"); m.unlock(); t.join(); probe(true); }
SCENARIO(deep_mutex, 1) { deep<boost::recursive_mutex>(); }
SCENARIO(deep_timed, 1) { deep<boost::recursive_timed_mutex>(); }
SCENARIO(special, 1) { special_excl<boost::recursive_timed_mutex>(); }

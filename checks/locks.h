// Every way of acquiring an exclusive lock, with the critical section given as a callable.
#ifndef CHECKS_LOCKS_H
#define CHECKS_LOCKS_H
#include "common.h"
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/strict_lock.hpp>

#define OWN(l, yes) SIM_CHECK((l).owns_lock() == (yes), "owns_lock", "owns_lock() is %d where %d is expected", (int)(l).owns_lock(), (int)(yes))

template<class M> struct Blk {
  static const u32 N = 10;
  template<class F> static void run(M& m, u32 k, F cs) {
    switch (k) {
      case 0: m.lock(); cs(); m.unlock(); break;
      case 1: { boost::unique_lock<M> l(m); OWN(l, true); cs(); break; }
      case 2: { boost::lock_guard<M> l(m); cs(); break; }
      case 3: { boost::unique_lock<M> l(m, boost::defer_lock); OWN(l, false); l.lock(); OWN(l, true); cs(); l.unlock(); OWN(l, false); break; }
      case 4: { m.lock(); boost::lock_guard<M> l(m, boost::adopt_lock); cs(); break; }
      case 5: { m.lock(); boost::unique_lock<M> l(m, boost::adopt_lock); OWN(l, true); cs(); break; }
      case 6: { boost::unique_lock<M> l = boost::make_unique_lock(m); OWN(l, true); boost::unique_lock<M> l2(boost::move(l)); OWN(l, false); OWN(l2, true); cs(); break; }
      case 7: { boost::with_lock_guard(m, cs); break; }
      case 8: { boost::unique_lock<M> l(m); M* r = l.release(); OWN(l, false); cs(); r->unlock(); break; }
      default: { boost::unique_lock<M> l; boost::unique_lock<M> k2(m); l.swap(k2); OWN(l, true); OWN(k2, false); cs(); l = boost::unique_lock<M>(); break; }
    }
  }
};
template<class M> struct Try {
  static const u32 N = 4;
  template<class F> static bool run(M& m, u32 k, F cs) {
    switch (k) {
      case 0: if (!m.try_lock()) return false; cs(); m.unlock(); return true;
      case 1: { boost::unique_lock<M> l(m, boost::try_to_lock); if (!l.owns_lock()) return false; cs(); return true; }
      case 2: { boost::unique_lock<M> l(m, boost::defer_lock); bool r = l.try_lock(); OWN(l, r); if (!r) return false; cs(); return true; }
      default: { boost::unique_lock<M> l = boost::make_unique_lock(m, boost::try_to_lock); if (!l) return false; cs(); return true; }
    }
  }
};
// Timed acquisition: d is the wait in ns (a multiple of 1000). dl receives the deadline as passed to the library.
template<class M> struct Tmd {
  static const u32 N = 15 + NUT;
  static const char* name(u32 k) {
    if (k >= 15) return "user clock or odd time type";
    static const char* n[] = {"try_lock_for(ns)", "try_lock_until(steady)", "try_lock_until(system)", "timed_lock(absolute)", "timed_lock(relative)", "unique_lock(m,system_time)",
      "unique_lock(m,steady)", "unique_lock(m,duration)", "unique_lock::try_lock_for", "unique_lock::try_lock_until(system)", "unique_lock::timed_lock(absolute)", "unique_lock::timed_lock(relative)", "try_lock_for(double)", "try_lock_for(us)", "unique_lock(m,system)"};
    return n[k]; }
  template<class F> static bool run(M& m, u32 k, u64 d, DL& dl, F cs) {
    u64 t = sim_now(), r = sim_now_real() / 1000 * 1000;
    switch (k) {
      case 0: dl = DL::mono(t + d); if (!m.try_lock_for(nsd(d))) return false; cs(); m.unlock(); return true;
      case 1: dl = DL::mono(t + d); if (!m.try_lock_until(st_at(t + d))) return false; cs(); m.unlock(); return true;
      case 2: dl = DL::sys(r + d); if (!m.try_lock_until(sy_at(r + d))) return false; cs(); m.unlock(); return true;
      case 3: { dl = DL::sys(r + d); boost::system_time a = pt_at(r + d); if (!m.timed_lock(a)) return false; cs(); m.unlock(); return true; }
      case 4: dl = DL::mono(t + us_fl(d)); if (!m.timed_lock(pd_of(d))) return false; cs(); m.unlock(); return true;
      case 5: { dl = DL::sys(r + d); boost::unique_lock<M> l(m, pt_at(r + d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 6: { dl = DL::mono(t + d); boost::unique_lock<M> l(m, st_at(t + d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 7: { dl = DL::mono(t + d); boost::unique_lock<M> l(m, nsd(d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 8: { dl = DL::mono(t + d); boost::unique_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_for(nsd(d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 9: { dl = DL::sys(r + d); boost::unique_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_until(sy_at(r + d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 10: { dl = DL::sys(r + d); boost::unique_lock<M> l(m, boost::defer_lock); bool r2 = l.timed_lock(pt_at(r + d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 11: { dl = DL::mono(t + us_fl(d)); boost::unique_lock<M> l(m, boost::defer_lock); bool r2 = l.timed_lock(pd_of(d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 12: dl = DL::mono(t + d); if (!m.try_lock_for(bc::duration<double>((double)(s64)d / 1e9))) return false; cs(); m.unlock(); return true;
      case 13: dl = DL::mono(t + d); if (!m.try_lock_for(bc::microseconds((s64)d / 1000))) return false; cs(); m.unlock(); return true;
      case 14: { dl = DL::sys(r + d); boost::unique_lock<M> l(m, sy_at(r + d)); if (!l.owns_lock()) return false; cs(); return true; }
      default: return odd_time(k - 15, d, dl, [&](auto at) { switch (sim::choose(3)) { case 0: if (!m.try_lock_until(at)) return false; cs(); m.unlock(); return true; case 1: { boost::unique_lock<M> l(m, at); if (!l.owns_lock()) return false; cs(); return true; } default: { boost::unique_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_until(at); OWN(l, r2); if (!r2) return false; cs(); return true; } } },
        [&](auto n) { switch (sim::choose(3)) { case 0: if (!m.try_lock_for(n)) return false; cs(); m.unlock(); return true; case 1: { boost::unique_lock<M> l(m, n); if (!l.owns_lock()) return false; cs(); return true; } default: { boost::unique_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_for(n); OWN(l, r2); if (!r2) return false; cs(); return true; } } });
    }
  }
};
// Who owns an exclusive lock; every access to data_ is checked by the race detector.
struct Excl {
  int owner = -1, depth = 0; u64 data = 0, expect = 0; int wants = 0; u64 epoch = 0;
  void want() { sim::Quiet q; wants++; epoch++; }
  void unwant() { sim::Quiet q; wants--; }
  void enter() {
    { sim::Quiet q; SIM_CHECK(owner == -1 || owner == sim_self(), "two-owners", "thread %d acquired the lock while thread %d owns it", sim_self(), owner); owner = sim_self(); depth++; }
    u64 d = data; if (sim::choose(4) == 3) sim_yield(); data = d + 1; { sim::Quiet q; expect++; SIM_CHECK(data == expect, "lost-update", "update lost under the lock"); }
  }
  void leave() { u64 d = data; { sim::Quiet q; SIM_CHECK(d == expect && owner == sim_self(), "two-owners", "state changed while thread %d owned the lock", sim_self()); if (--depth == 0) owner = -1; } }
};
// Times without a number: for ever, in the past, none at all. What they must never do is report a lock that is not held.
template<class M, class TR, class TA, class UN> static void special_times(bool x, TR tr, TA ta, UN un) {
  bool nostall = sim::flip(); sim_faults(nostall ? NOSTALL : SIM_DEFAULT_FAULTS); M m; int data = 0; u32 owned = 0, n = sim::range(1, 2); bool busy = sim::choose(3) != 0; sim::Threads t; Flag held;
  auto own = [&](bool on) { sim::Quiet q; owned = on; };
  if (busy) t.go([&] { Tag g("holder"); nap(); m.lock(); own(true); data++; held.set(); sim_sleep_ns(sim::range(0, 5) * MS); data++; own(false); m.unlock(); });
  if (sim::flip() && busy) held.await();
  for (u32 i = 0; i < n; i++) t.go([&] { Tag g("special time"); using namespace boost::posix_time; u32 k = sim::choose(6); u64 t0 = sim_now(); bool r;
    switch (k) { case 0: r = tr(m, time_duration(pos_infin)); break; case 1: r = tr(m, time_duration(neg_infin)); break; case 2: r = tr(m, time_duration(not_a_date_time)); break;
      case 3: r = ta(m, boost::system_time(pos_infin)); break; case 4: r = ta(m, boost::system_time(neg_infin)); break; default: r = ta(m, boost::system_time(min_date_time)); }
    if (k == 0 || k == 3) SIM_CHECK(r, "gave-up", "a timed lock without time limit (%u) gave up", k);
    if (!busy && n == 1) SIM_CHECK(r, "timed-fails", "a timed lock (%u) failed on a mutex that nobody owned or wanted", k);
    if (nostall && (k == 1 || k == 4 || k == 5)) SIM_CHECK(sim_now() - t0 < 20 * MS, "late", "a timed lock with a deadline in the past (%u) blocked", k);
    if (r) { { sim::Quiet q; SIM_CHECK(!owned, "exclusion", "a timed lock (%u) reports success while another thread owns the mutex", k); } if (x) { own(true); data++; nap(); data++; own(false); } else { int a = data; nap(); SIM_CHECK(data == a, "exclusion", "changed under a lock"); } un(m); } });
  t.join(); SIM_CHECK(m.try_lock(), "leftover", "the mutex is still owned"); m.unlock();
}
template<class M> static void special_excl() { special_times<M>(true, [](M& m, boost::posix_time::time_duration d) { return m.timed_lock(d); }, [](M& m, boost::system_time d) { return m.timed_lock(d); }, [](M& m) { m.unlock(); }); }
template<class M> static void special_shared() { special_times<M>(false, [](M& m, boost::posix_time::time_duration d) { return m.timed_lock_shared(d); }, [](M& m, boost::system_time d) { return m.timed_lock_shared(d); }, [](M& m) { m.unlock_shared(); }); }
template<class M> static void special_upgrade() { special_times<M>(false, [](M& m, boost::posix_time::time_duration d) { return m.timed_lock_upgrade(d); }, [](M& m, boost::system_time d) { return m.timed_lock_upgrade(d); }, [](M& m) { m.unlock_upgrade(); }); }
#endif

// Shared/upgrade/exclusive mutexes: every way of acquiring, converting and releasing, with an ownership oracle.
#ifndef CHECKS_SHM_H
#define CHECKS_SHM_H
#include "locks.h"
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/thread.hpp>

#if defined BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
#define UPWARDS 1
#else
#define UPWARDS 0
#endif
#define AFTER(l) OWN(l, false)

// Ownership oracle. Methods are called while the ownership is held by the library's account.
struct RW {
  int x = -1, u = -1, r = 0; u64 data = 0, ver = 0;      // owners; data is only written under exclusive ownership
  // who wants or holds: exclusive (or a conversion to it), upgrade, anything
  int wx = 0, wu = 0, wall = 0; u64 ex = 0, eu = 0, eall = 0;
  void want(char k) { sim::Quiet q; wall++; eall++; if (k == 'x') { wx++; ex++; } if (k == 'u') { wu++; eu++; } }
  void unwant(char k) { sim::Quiet q; wall--; if (k == 'x') wx--; if (k == 'u') wu--; }
  void ent(char k) {
    sim::Quiet q; int me = sim_self();
    SIM_CHECK(x == -1, "incompatible-owners", "thread %d obtained %c ownership while thread %d is the exclusive owner", me, k, x);
    if (k == 'x') SIM_CHECK(u == -1 && r == 0, "incompatible-owners", "thread %d obtained exclusive ownership while %d readers and upgrade owner %d exist", me, r, u);
    if (k == 'u') SIM_CHECK(u == -1, "incompatible-owners", "thread %d obtained upgrade ownership while thread %d has it", me, u);
    if (k == 'x') x = me; else if (k == 'u') u = me; else r++;
  }
  void lea(char k) { sim::Quiet q; if (k == 'x') { SIM_CHECK(x == sim_self(), "incompatible-owners", "exclusive ownership disturbed"); x = -1; } else if (k == 'u') { SIM_CHECK(u == sim_self(), "incompatible-owners", "upgrade ownership disturbed"); u = -1; } else { SIM_CHECK(r > 0, "incompatible-owners", "reader count"); r--; } }
  // The body of a critical section.
  void use(char k) {
    u64 d = data; u64 v; { sim::Quiet q; v = ver; SIM_CHECK(d == v, "stale-data", "value %llu read under %c ownership, last written %llu", (unsigned long long)d, k, (unsigned long long)v); }
    dwell();
    { sim::Quiet q; SIM_CHECK(v == ver, "changed-under-lock", "the data changed while thread %d had %c ownership", sim_self(), k); }
    if (k == 'x') { data = d + 1; sim::Quiet q; ver++; } else { u64 d2 = data; SIM_CHECK(d == d2, "changed-under-lock", "the data changed under %c ownership", k); }
  }
};
static u64 shm_to() { static const u64 t[] = {0, 1 * US, 50 * US, 1 * MS, 5 * MS, 30 * MS, 3600 * SEC, 86400 * 400 * SEC}; return t[sim::choose(8)]; }

template<class M> struct Shr { // shared: blocking, try, timed
  static const u32 NB = 7, NT = 3, NM = 12 + NUT;
  template<class F> static void blk(M& m, u32 k, F cs) {
    switch (k) {
      case 0: m.lock_shared(); cs(); m.unlock_shared(); break;
      case 1: { boost::shared_lock<M> l(m); OWN(l, true); cs(); break; }
      case 2: { boost::shared_lock_guard<M> l(m); cs(); break; }
      case 3: { boost::shared_lock<M> l(m, boost::defer_lock); l.lock(); OWN(l, true); cs(); l.unlock(); OWN(l, false); break; }
      case 4: { m.lock_shared(); boost::shared_lock<M> l(m, boost::adopt_lock); cs(); break; }
      case 5: { m.lock_shared(); boost::shared_lock_guard<M> l(m, boost::adopt_lock); cs(); break; }
      default: { boost::shared_lock<M> l(m); boost::shared_lock<M> l2(boost::move(l)); OWN(l, false); OWN(l2, true); boost::shared_lock<M> l3; l3 = boost::move(l2); cs(); M* p = l3.release(); p->unlock_shared(); break; }
    }
  }
  template<class F> static bool tr(M& m, u32 k, F cs) {
    switch (k) {
      case 0: if (!m.try_lock_shared()) return false; cs(); m.unlock_shared(); return true;
      case 1: { boost::shared_lock<M> l(m, boost::try_to_lock); if (!l.owns_lock()) return false; cs(); return true; }
      default: { boost::shared_lock<M> l(m, boost::defer_lock); bool r = l.try_lock(); OWN(l, r); if (!r) return false; cs(); return true; }
    }
  }
  template<class F> static bool tm(M& m, u32 k, u64 d, DL& dl, F cs) {
    u64 t = sim_now(), r = sim_now_real() / 1000 * 1000;
    switch (k) {
      case 0: dl = DL::mono(t + d); if (!m.try_lock_shared_for(nsd(d))) return false; cs(); m.unlock_shared(); return true;
      case 1: dl = DL::mono(t + d); if (!m.try_lock_shared_until(st_at(t + d))) return false; cs(); m.unlock_shared(); return true;
      case 2: dl = DL::sys(r + d); if (!m.try_lock_shared_until(sy_at(r + d))) return false; cs(); m.unlock_shared(); return true;
      case 3: dl = DL::sys(r + d); if (!m.timed_lock_shared(pt_at(r + d))) return false; cs(); m.unlock_shared(); return true;
      case 4: dl = DL::mono(t + us_fl(d)); if (!m.timed_lock_shared(pd_of(d))) return false; cs(); m.unlock_shared(); return true;
      case 5: { dl = DL::sys(r + d); boost::shared_lock<M> l(m, pt_at(r + d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 6: { dl = DL::mono(t + d); boost::shared_lock<M> l(m, st_at(t + d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 7: { dl = DL::mono(t + d); boost::shared_lock<M> l(m, nsd(d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 8: { dl = DL::mono(t + d); boost::shared_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_for(nsd(d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 9: { dl = DL::sys(r + d); boost::shared_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_until(sy_at(r + d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 10: { dl = DL::sys(r + d); boost::shared_lock<M> l(m, boost::defer_lock); bool r2 = l.timed_lock(pt_at(r + d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 11: { dl = DL::mono(t + us_fl(d)); boost::shared_lock<M> l(m, boost::defer_lock); bool r2 = l.timed_lock(pd_of(d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      default: return odd_time(k - 12, d, dl, [&](auto at) { switch (sim::choose(3)) { case 0: if (!m.try_lock_shared_until(at)) return false; cs(); m.unlock_shared(); return true; case 1: { boost::shared_lock<M> l(m, at); if (!l.owns_lock()) return false; cs(); return true; } default: { boost::shared_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_until(at); OWN(l, r2); if (!r2) return false; cs(); return true; } } },
        [&](auto n) { switch (sim::choose(3)) { case 0: if (!m.try_lock_shared_for(n)) return false; cs(); m.unlock_shared(); return true; case 1: { boost::shared_lock<M> l(m, n); if (!l.owns_lock()) return false; cs(); return true; } default: { boost::shared_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_for(n); OWN(l, r2); if (!r2) return false; cs(); return true; } } });
    }
  }
};
template<class M> struct Upg {
  static const u32 NB = 5, NT = 3, NM = 9 + NUT;
  template<class F> static void blk(M& m, u32 k, F cs) {
    switch (k) {
      case 0: m.lock_upgrade(); cs(); m.unlock_upgrade(); break;
      case 1: { boost::upgrade_lock<M> l(m); OWN(l, true); cs(); break; }
      case 2: { boost::upgrade_lock<M> l(m, boost::defer_lock); l.lock(); OWN(l, true); cs(); l.unlock(); OWN(l, false); break; }
      case 3: { m.lock_upgrade(); boost::upgrade_lock<M> l(m, boost::adopt_lock); cs(); break; }
      default: { boost::upgrade_lock<M> l(m); boost::upgrade_lock<M> l2(boost::move(l)); OWN(l, false); boost::upgrade_lock<M> l3; l3 = boost::move(l2); cs(); M* p = l3.release(); p->unlock_upgrade(); break; }
    }
  }
  template<class F> static bool tr(M& m, u32 k, F cs) {
    switch (k) {
      case 0: if (!m.try_lock_upgrade()) return false; cs(); m.unlock_upgrade(); return true;
      case 1: { boost::upgrade_lock<M> l(m, boost::try_to_lock); if (!l.owns_lock()) return false; cs(); return true; }
      default: { boost::upgrade_lock<M> l(m, boost::defer_lock); bool r = l.try_lock(); OWN(l, r); if (!r) return false; cs(); return true; }
    }
  }
  template<class F> static bool tm(M& m, u32 k, u64 d, DL& dl, F cs) {
    u64 t = sim_now(), r = sim_now_real() / 1000 * 1000;
    switch (k) {
      case 0: dl = DL::mono(t + d); if (!m.try_lock_upgrade_for(nsd(d))) return false; cs(); m.unlock_upgrade(); return true;
      case 1: dl = DL::mono(t + d); if (!m.try_lock_upgrade_until(st_at(t + d))) return false; cs(); m.unlock_upgrade(); return true;
      case 2: dl = DL::sys(r + d); if (!m.try_lock_upgrade_until(sy_at(r + d))) return false; cs(); m.unlock_upgrade(); return true;
      case 3: dl = DL::sys(r + d); if (!m.timed_lock_upgrade(pt_at(r + d))) return false; cs(); m.unlock_upgrade(); return true;
      case 4: dl = DL::mono(t + us_fl(d)); if (!m.timed_lock_upgrade(pd_of(d))) return false; cs(); m.unlock_upgrade(); return true;
      case 5: { dl = DL::mono(t + d); boost::upgrade_lock<M> l(m, st_at(t + d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 6: { dl = DL::mono(t + d); boost::upgrade_lock<M> l(m, nsd(d)); if (!l.owns_lock()) return false; cs(); return true; }
      case 7: { dl = DL::mono(t + d); boost::upgrade_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_for(nsd(d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      case 8: { dl = DL::sys(r + d); boost::upgrade_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_until(sy_at(r + d)); OWN(l, r2); if (!r2) return false; cs(); return true; }
      default: return odd_time(k - 9, d, dl, [&](auto at) { switch (sim::choose(3)) { case 0: if (!m.try_lock_upgrade_until(at)) return false; cs(); m.unlock_upgrade(); return true; case 1: { boost::upgrade_lock<M> l(m, at); if (!l.owns_lock()) return false; cs(); return true; } default: { boost::upgrade_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_until(at); OWN(l, r2); if (!r2) return false; cs(); return true; } } },
        [&](auto n) { switch (sim::choose(3)) { case 0: if (!m.try_lock_upgrade_for(n)) return false; cs(); m.unlock_upgrade(); return true; case 1: { boost::upgrade_lock<M> l(m, n); if (!l.owns_lock()) return false; cs(); return true; } default: { boost::upgrade_lock<M> l(m, boost::defer_lock); bool r2 = l.try_lock_for(n); OWN(l, r2); if (!r2) return false; cs(); return true; } } });
    }
  }
};
template<class M, bool HASU> struct UpgIf { static const u32 NB = 1, NT = 1, NM = 1;
  template<class F> static void blk(M&, u32, F) {} template<class F> static bool tr(M&, u32, F) { return false; } template<class F> static bool tm(M&, u32, u64, DL&, F) { return false; } template<class F> static void conv(M&, F) {} };
template<class M> struct UpgIf<M, true> : Upg<M> { template<class F> static void conv(M& m, F f) { m.lock_upgrade(); m.unlock_upgrade_and_lock(); f(); m.unlock(); } };

template<class M, bool HASU> struct ShmMix {
  typedef UpgIf<M, HASU> U;
  M m; RW o; bool nostall = false; bool rel2 = false; // rel2: relative timed_lock may take twice its time (v2)
  void cs(char k) { o.ent(k); o.use(k); o.lea(k); }
  void op(char k) {
    u32 kind = sim::choose(5);
    if (kind < 2) { Tag g(k == 'x' ? "lock" : k == 'u' ? "lock_upgrade" : "lock_shared"); o.want(k);
      if (k == 'x') Blk<M>::run(m, sim::choose(Blk<M>::N), [&] { cs(k); }); else if (k == 'u') U::blk(m, sim::choose(U::NB), [&] { cs(k); }); else Shr<M>::blk(m, sim::choose(Shr<M>::NB), [&] { cs(k); });
      o.unwant(k); return; }
    bool idle; u64 e0; { sim::Quiet q; idle = k == 'x' ? o.wall == 0 : k == 'u' ? o.wx == 0 && o.wu == 0 : o.wx == 0; o.want(k); e0 = k == 'x' ? o.eall : k == 'u' ? o.ex + o.eu : o.ex; }
    auto same = [&] { return e0 == (k == 'x' ? o.eall : k == 'u' ? o.ex + o.eu : o.ex); };
    u64 t0 = sim_now();
    if (kind == 2) { Tag g("try"); bool ok = k == 'x' ? Try<M>::run(m, sim::choose(Try<M>::N), [&] { cs(k); }) : k == 'u' ? U::tr(m, sim::choose(U::NT), [&] { cs(k); }) : Shr<M>::tr(m, sim::choose(Shr<M>::NT), [&] { cs(k); });
      if (!ok) { sim::Quiet q; sim_probe("try failed"); SIM_CHECK(!(idle && same()), "try-fails", "a try acquisition (%c) failed though nobody incompatible owned or wanted the mutex", k); if (nostall) SIM_CHECK(sim_now() - t0 < 20 * MS, "try-blocks", "a try acquisition blocked"); } }
    else { Tag g("timed"); DL dl; u64 d = shm_to(); u32 f = sim::choose(k == 'x' ? Tmd<M>::N : k == 'u' ? U::NM : Shr<M>::NM);
      bool dbl = rel2 && k == 'x' && (f == 4 || f == 11);
      auto body = [&] { if (nostall && !dbl) check_not_late(dl, "timed acquisition"); cs(k); };
      bool ok = k == 'x' ? Tmd<M>::run(m, f, d, dl, body) : k == 'u' ? U::tm(m, f, d, dl, body) : Shr<M>::tm(m, f, d, dl, body);
      if (!ok) { sim::Quiet q; sim_probe("timed failed"); check_timeout(dl, "timed acquisition"); SIM_CHECK(!(idle && same()), "timed-fails", "a timed acquisition (%c) failed though nobody incompatible owned or wanted the mutex", k);
        if (nostall) { if (!dbl) check_not_late(dl, "timed acquisition"); SIM_CHECK(d < 3600 * SEC, "missed-unlock", "a timed acquisition (%c, form %u) timed out although the mutex had been released long before", k, f); } } }
    o.unwant(k);
  }
  void final_free() {
    SIM_CHECK(m.try_lock(), "leftover", "the mutex is not free after everyone released it"); m.unlock();
    SIM_CHECK(m.try_lock_shared(), "leftover", "the mutex is not free for readers"); m.unlock_shared();
    if (HASU) SIM_CHECK(U::tr(m, 0, [] {}), "leftover", "the mutex is not free for upgrade owners");
  }
  void faults(bool jump) { nostall = sim::flip(); u32 f = nostall ? NOSTALL : SIM_DEFAULT_FAULTS; if (jump && sim::choose(4) == 0) { f |= 1u << SF_RJUMP; nostall = false; } sim_faults(f); }
  char kind() { return "xsxsu"[sim::choose(HASU ? 5 : 4)]; }
  void mix() {
    faults(true); u32 nt = sim::range(2, 4), no = sim::range(1, 4); sim::Threads t;
    for (u32 i = 0; i < nt; i++) t.go([&] { for (u32 k = 0; k < no; k++) { op(kind()); if (sim::choose(3) == 0) nap(); } });
    t.join(); final_free();
  }
  // Some readers/upgrader/writer hold; a timed or try attempt gives up; others must not be kept out by it.
  void giveup() {
    sim_faults(NOSTALL); nostall = true; char hold = sim::flip() ? 's' : kind(); u32 nr = hold == 's' ? sim::range(1, 2) : 1; sim::Threads t; bool go = false; u32 gaveup = 0, nw = sim::range(1, 2);
    for (u32 i = 0; i < nr; i++) { if (hold == 'x') m.lock(); else if (hold == 'u') U::blk(m, 0, [] {}); else m.lock_shared(); }
    if (hold == 'u') hold = 's', m.lock_shared();
    for (u32 i = 0; i < nw; i++) t.go([&] { Tag g("timed lock"); DL dl; bool r = Tmd<M>::run(m, sim::choose(Tmd<M>::N), sim::range(0, 3) * MS, dl, [&] { cs('x'); }); if (!r) check_timeout(dl, "timed lock"); sim::Quiet q; gaveup++; });
    u32 nrd = sim::range(1, 3);
    for (u32 i = 0; i < nrd; i++) t.go([&] { Tag g("lock_shared"); nap(); u64 t0 = sim_now(); Shr<M>::blk(m, sim::choose(Shr<M>::NB), [&] { if (hold == 's') SIM_CHECK(sim_now() - t0 < 5 * SEC, "kept-out", "a reader was kept out for %llu ns by a writer that had given up", (unsigned long long)(sim_now() - t0)); cs('s'); }); });
    if (HASU && sim::flip()) t.go([&] { Tag g("lock_upgrade"); nap(); u64 t0 = sim_now(); U::blk(m, sim::choose(U::NB), [&] { if (hold == 's') SIM_CHECK(sim_now() - t0 < 5 * SEC, "kept-out", "an upgrade owner was kept out for %llu ns by a writer that had given up", (unsigned long long)(sim_now() - t0)); cs('u'); }); });
    sim_sleep_ns(20 * SEC); (void)go;
    if (hold == 's') { SIM_CHECK(gaveup == nw, "late", "a timed acquisition is still waiting long after its deadline"); SIM_CHECK(m.try_lock_shared(), "kept-out", "try_lock_shared fails among readers after a timed writer gave up"); m.unlock_shared(); }
    for (u32 i = 0; i < nr; i++) { if (hold == 'x') m.unlock(); else m.unlock_shared(); }
    t.join(); final_free();
  }
  // Everybody blocks, then the owner releases.
  void convoy() {
    faults(false); char hold = kind(); u32 n = sim::range(2, 6); u32 done = 0; sim::Threads t;
    if (hold == 'x') m.lock(); else if (hold == 'u') { M* p = &m; (void)p; m.lock_shared(); hold = 's'; } else m.lock_shared();
    for (u32 i = 0; i < n; i++) { char k = kind(); t.go([&, k] { Tag g("blocked acquirer"); if (k == 'x') Blk<M>::run(m, sim::choose(Blk<M>::N), [&] { cs(k); }); else if (k == 'u') U::blk(m, sim::choose(U::NB), [&] { cs(k); }); else Shr<M>::blk(m, sim::choose(Shr<M>::NB), [&] { cs(k); }); sim::Quiet q; done++; }); }
    if (sim::flip()) sim_settle(); else nap();
    if (hold == 'x') m.unlock(); else m.unlock_shared();
    t.join(); SIM_CHECK(done == n, "lost", "%u of %u", done, n); final_free();
  }
  // Readers come and go so that the mutex is never free of them: a writer that waited before they came gets in all the same.
  void relay() {
    sim_faults(1u << SF_WEAKCAS); nostall = true; static const u32 K = 12, MAXR = 30; Flag in[MAXR], go[MAXR]; Flag win; sim::Threads t; u32 wk = sim::choose(HASU ? 3 : 2), first = sim::range(1, 3), n = 0, cur = MAXR; DL dl, dq; for (u32 i = 0; i < first; i++) m.lock_shared(); auto quiet_down = [] { sim_sleep_ns(2 * MS); sim_settle(); };
    t.go([&] { Tag g("waiting writer"); bool ok = true; auto w = [&] { win.set(); cs('x'); }; if (wk == 0) Blk<M>::run(m, sim::choose(Blk<M>::N), w); else if (wk == 1) ok = Tmd<M>::run(m, sim::choose(Tmd<M>::N), 100000 * SEC, dl, w); else UpgIf<M, HASU>::conv(m, w); SIM_CHECK(ok, "early", "a timed writer gave up before its deadline"); });
    sim_settle(); sim_sleep_ns(MS); sim_settle(); SIM_CHECK(!win, "exclusion", "a writer got in among readers");
    if (sim::choose(3) == 0) { t.go([&] { Tag g("short writer"); if (Tmd<M>::run(m, sim::choose(Tmd<M>::N), 5 * MS, dq, [&] { cs('x'); })) SIM_CHECK(false, "exclusion", "a writer got in among readers"); }); sim_sleep_ns(300 * MS); sim_settle(); } // another writer that gives up
    for (u32 round = 0; round < 4 && !win; round++) { bool blocked = false; u32 k = 0, all = sim::choose(6); // all: every reader of the round comes the same way
      // readers, each before the last one leaves: with the writer waiting they must not go on for ever
      for (; k < K && n < MAXR && !blocked; k++) { u32 me = n++; t.go([&, me, all] { Tag g("later reader"); auto hold = [&] { in[me].set(); go[me].await(); }; u32 rk = all < 3 ? all : sim::choose(3); if (!rk) Shr<M>::blk(m, sim::choose(Shr<M>::NB), hold); else if (rk == 1) { while (!Shr<M>::tr(m, sim::choose(Shr<M>::NT), hold)) sim_sleep_ns(MS); } else { DL d2; if (!Shr<M>::tm(m, sim::choose(Shr<M>::NM), 200000 * SEC, d2, hold)) SIM_CHECK(false, "early", "a timed reader gave up"); } }); quiet_down(); if (!in[me]) { blocked = true; break; } if (cur == MAXR) { for (u32 i = 0; i < first; i++) m.unlock_shared(); first = 0; } else go[cur].set(); cur = me; quiet_down(); }
      SIM_CHECK(k < K, "starved", "%u readers, each before the last one left, got in past a writer that had been waiting before all of them", K); if (!blocked) break;
      // now nobody is let in: when the owners leave, the writer or the blocked reader is next
      if (cur == MAXR) { for (u32 i = 0; i < first; i++) m.unlock_shared(); first = 0; } else go[cur].set(); quiet_down(); cur = n - 1; SIM_CHECK(win || in[cur], "stranded", "neither the waiting writer nor the waiting reader got in when the owners had left"); }
    for (u32 i = 0; i < first; i++) m.unlock_shared(); for (u32 i = 0; i < MAXR; i++) go[i].set(); t.join(); SIM_CHECK(win, "lost", "the writer did not get in"); final_free();
  }
  // An interrupted thread acquires all the same (acquisition is no interruption point) and nobody is kept out.
  void interrupted() {
    faults(false); bool held = false; char hold = sim::flip() ? 'x' : 's'; int fin = 0; if (hold == 'x') m.lock(); else m.lock_shared(); held = true; (void)held;
    char k = kind(); if (hold == 's' && k == 's') k = 'x';
    bool timed = sim::flip();
    boost::thread t([&] { Tag g("acquire"); DL dl; try {
      if (timed) { bool r = k == 'x' ? Tmd<M>::run(m, sim::choose(Tmd<M>::N), 1000 * SEC, dl, [&] { cs(k); }) : k == 'u' ? U::tm(m, sim::choose(U::NM), 1000 * SEC, dl, [&] { cs(k); }) : Shr<M>::tm(m, sim::choose(Shr<M>::NM), 1000 * SEC, dl, [&] { cs(k); }); if (!r) check_timeout(dl, "timed acquisition"); }
      else { if (k == 'x') Blk<M>::run(m, sim::choose(Blk<M>::N), [&] { cs(k); }); else if (k == 'u') U::blk(m, sim::choose(U::NB), [&] { cs(k); }); else Shr<M>::blk(m, sim::choose(Shr<M>::NB), [&] { cs(k); }); }
      fin = 1; } catch (boost::thread_interrupted&) { fin = 2; } });
    sim::Threads t2; t2.go([&] { Tag g("other"); nap(); Shr<M>::blk(m, 0, [&] { cs('s'); }); }); if (sim::flip()) t2.go([&] { Tag g("other"); nap(); Blk<M>::run(m, 0, [&] { cs('x'); }); });
    nap(); intr_thread(t); nap(); if (sim::flip()) { sim_yield(); }
    if (hold == 'x') m.unlock(); else m.unlock_shared();
    t.join(); t2.join(); SIM_CHECK(fin == 1, "interrupted-lock", "an interruption was delivered during acquisition"); final_free();
  }
  void last_user() {
    struct Node { M m; int refs; u64 v; Node(int n) : refs(n), v(0) {} }; Node* n = new Node(3); sim::Threads t;
    for (int i = 0; i < 3; i++) t.go([&] { bool last = false; if (sim::flip()) Shr<M>::blk(n->m, sim::choose(Shr<M>::NB), [&] { dwell(); }); Blk<M>::run(n->m, sim::choose(Blk<M>::N), [&] { dwell(); last = --n->refs == 0; }); if (last) delete n; });
  }
};
// Conversions. Before each call the caller owns the first kind; afterwards the second kind (or, if false, still the first).
template<class M> struct Cnv {
  typedef boost::unique_lock<M> X; typedef boost::upgrade_lock<M> U; typedef boost::shared_lock<M> S;
  static U ua(M& m) { return U(m, boost::adopt_lock); }
  static void u2x(M& m) { switch (sim::choose(2)) { case 0: m.unlock_upgrade_and_lock(); break; default: { U u(m, boost::adopt_lock); X x(boost::move(u)); OWN(u, false); OWN(x, true); x.release(); } } }
  static void x2u(M& m) { switch (sim::choose(2)) { case 0: m.unlock_and_lock_upgrade(); break; default: { X x(m, boost::adopt_lock); U u(boost::move(x)); OWN(x, false); OWN(u, true); u.release(); } } }
  static void x2s(M& m) { switch (sim::choose(2)) { case 0: m.unlock_and_lock_shared(); break; default: { X x(m, boost::adopt_lock); S s(boost::move(x)); OWN(x, false); OWN(s, true); s.release(); } } }
  static void u2s(M& m) { switch (sim::choose(2)) { case 0: m.unlock_upgrade_and_lock_shared(); break; default: { U u(m, boost::adopt_lock); S s(boost::move(u)); OWN(u, false); OWN(s, true); s.release(); } } }
  template<class A, class B> static bool fin(A& a, B& b) { if (b.owns_lock()) { OWN(a, false); SIM_CHECK(a.mutex() == 0, "owns_lock", "a converted lock object still names its mutex"); b.release(); return true; } OWN(a, true); a.release(); return false; }
  static bool tu2x(M& m) { if (sim::flip()) return m.try_unlock_upgrade_and_lock();
#if UPWARDS
    U u(m, boost::adopt_lock); X x(boost::move(u), boost::try_to_lock); return fin(u, x);
#else
    return m.try_unlock_upgrade_and_lock();
#endif
  }
  static bool fu2x(M& m, u64 d, DL& dl) {
    u64 t = sim_now(), r = sim_now_real() / 1000 * 1000;
    switch (sim::choose(UPWARDS ? 9 : 4)) {
      case 0: dl = DL::mono(t + d); return m.try_unlock_upgrade_and_lock_for(nsd(d));
      case 1: dl = DL::mono(t + d); return m.try_unlock_upgrade_and_lock_until(st_at(t + d));
      case 2: dl = DL::sys(r + d); return m.try_unlock_upgrade_and_lock_until(sy_at(r + d));
      case 3: return odd_time(sim::choose(NUT), d, dl, [&](auto at) -> bool { return m.try_unlock_upgrade_and_lock_until(at); }, [&](auto n) -> bool { return m.try_unlock_upgrade_and_lock_for(n); });
#if UPWARDS
      case 4: case 5: return odd_time(sim::choose(NUT), d, dl, [&](auto at) -> bool { if (sim::flip()) return m.try_unlock_upgrade_and_lock_until(at); { U u(m, boost::adopt_lock); X x(boost::move(u), at); return fin(u, x); } }, [&](auto n) -> bool { if (sim::flip()) return m.try_unlock_upgrade_and_lock_for(n); { U u(m, boost::adopt_lock); X x(boost::move(u), n); return fin(u, x); } });
      case 6: { dl = DL::mono(t + d); U u(m, boost::adopt_lock); X x(boost::move(u), nsd(d)); return fin(u, x); }
      case 7: { dl = DL::mono(t + d); U u(m, boost::adopt_lock); X x(boost::move(u), st_at(t + d)); return fin(u, x); }
      default: { dl = DL::sys(r + d); U u(m, boost::adopt_lock); X x(boost::move(u), sy_at(r + d)); return fin(u, x); }
#endif
    }
    return false;
  }
#if UPWARDS
  static bool ts2x(M& m) { if (sim::flip()) return m.try_unlock_shared_and_lock(); S s(m, boost::adopt_lock); X x(boost::move(s), boost::try_to_lock); return fin(s, x); }
  static bool ts2u(M& m) { if (sim::flip()) return m.try_unlock_shared_and_lock_upgrade(); S s(m, boost::adopt_lock); U x(boost::move(s), boost::try_to_lock); return fin(s, x); }
  static bool fs2x(M& m, u64 d, DL& dl) {
    u64 t = sim_now(), r = sim_now_real() / 1000 * 1000;
    switch (sim::choose(8)) {
      case 0: dl = DL::mono(t + d); return m.try_unlock_shared_and_lock_for(nsd(d));
      case 1: dl = DL::mono(t + d); return m.try_unlock_shared_and_lock_until(st_at(t + d));
      case 2: dl = DL::sys(r + d); return m.try_unlock_shared_and_lock_until(sy_at(r + d));
      case 3: { dl = DL::mono(t + d); S s(m, boost::adopt_lock); X x(boost::move(s), nsd(d)); return fin(s, x); }
      case 4: { dl = DL::mono(t + d); S s(m, boost::adopt_lock); X x(boost::move(s), st_at(t + d)); return fin(s, x); }
      case 5: case 6: return odd_time(sim::choose(NUT), d, dl, [&](auto at) -> bool { if (sim::flip()) return m.try_unlock_shared_and_lock_until(at); { S u(m, boost::adopt_lock); X x(boost::move(u), at); return fin(u, x); } }, [&](auto n) -> bool { if (sim::flip()) return m.try_unlock_shared_and_lock_for(n); { S u(m, boost::adopt_lock); X x(boost::move(u), n); return fin(u, x); } });
      default: { dl = DL::sys(r + d); S s(m, boost::adopt_lock); X x(boost::move(s), sy_at(r + d)); return fin(s, x); }
    }
  }
  static bool fs2u(M& m, u64 d, DL& dl) {
    u64 t = sim_now(), r = sim_now_real() / 1000 * 1000;
    switch (sim::choose(8)) {
      case 0: dl = DL::mono(t + d); return m.try_unlock_shared_and_lock_upgrade_for(nsd(d));
      case 1: dl = DL::mono(t + d); return m.try_unlock_shared_and_lock_upgrade_until(st_at(t + d));
      case 2: dl = DL::sys(r + d); return m.try_unlock_shared_and_lock_upgrade_until(sy_at(r + d));
      case 3: { dl = DL::mono(t + d); S s(m, boost::adopt_lock); U x(boost::move(s), nsd(d)); return fin(s, x); }
      case 4: { dl = DL::mono(t + d); S s(m, boost::adopt_lock); U x(boost::move(s), st_at(t + d)); return fin(s, x); }
      case 5: case 6: return odd_time(sim::choose(NUT), d, dl, [&](auto at) -> bool { if (sim::flip()) return m.try_unlock_shared_and_lock_upgrade_until(at); { S u(m, boost::adopt_lock); U x(boost::move(u), at); return fin(u, x); } }, [&](auto n) -> bool { if (sim::flip()) return m.try_unlock_shared_and_lock_upgrade_for(n); { S u(m, boost::adopt_lock); U x(boost::move(u), n); return fin(u, x); } });
      default: { dl = DL::sys(r + d); S s(m, boost::adopt_lock); U x(boost::move(s), sy_at(r + d)); return fin(s, x); }
    }
  }
#endif
};
template<class M> struct ShmConv : ShmMix<M, true> {
  typedef ShmMix<M, true> B; typedef Cnv<M> C; using B::m; using B::o; using B::nostall;
  u64 cto() { static const u64 t[] = {0, 1 * US, 50 * US, 1 * MS, 3 * MS, 10 * MS, 40 * MS, 300 * MS}; return t[sim::choose(8)]; }
  // Weakening: others may come in before the call returns, so the account changes first.
  void weaken(char a, char b) { sim::Quiet q; o.lea(a); if (b == 'u') o.u = sim_self(); else if (b == 's') o.r++; }
  void strengthen(char a, char b) { sim::Quiet q; o.lea(a); o.ent(b); }
  void rel(char k) { { sim::Quiet q; o.lea(k); } if (k == 'x') m.unlock(); else if (k == 'u') m.unlock_upgrade(); else m.unlock_shared(); { sim::Quiet q; o.unwant(k); } }
  void step(char& k) {
    u64 v; { sim::Quiet q; v = o.ver; } bool ok = true; char was = k; const char* nm = "";
    u32 f = sim::choose(4); u64 d = 0; DL dl; bool timed = false; char to = k;
    if (k == 'x') to = f < 2 ? 'u' : 's'; else if (k == 'u') to = f == 0 ? 's' : 'x'; else to = f & 1 ? 'x' : 'u';
    bool idle; u64 e0; { sim::Quiet q; o.want(to); idle = o.wall == 2; e0 = o.eall; }
    u64 t0 = sim_now();
    if (k == 'x') { Tag g(nm = to == 'u' ? "exclusive to upgrade" : "exclusive to shared"); weaken('x', to); if (to == 'u') C::x2u(m); else C::x2s(m); }
    else if (k == 'u') {
      if (f == 0) { Tag g(nm = "upgrade to shared"); weaken('u', 's'); C::u2s(m); }
      else if (f == 1) { Tag g(nm = "upgrade to exclusive"); C::u2x(m); strengthen('u', 'x'); }
      else if (f == 2) { Tag g(nm = "try upgrade to exclusive"); ok = C::tu2x(m); if (ok) strengthen('u', 'x'); }
      else { timed = true; Tag g(nm = "timed upgrade to exclusive"); d = cto(); ok = C::fu2x(m, d, dl); if (ok) strengthen('u', 'x'); }
    } else {
#if UPWARDS
      if (f < 2) { Tag g(nm = "try shared to upgrade/exclusive"); ok = to == 'x' ? C::ts2x(m) : C::ts2u(m); } else { timed = true; Tag g(nm = "timed shared to upgrade/exclusive"); d = cto(); ok = to == 'x' ? C::fs2x(m, d, dl) : C::fs2u(m, d, dl); }
      if (ok) strengthen('s', to);
#else
      { sim::Quiet q; o.unwant(to); } return;
#endif
    }
    sim::Quiet q; o.unwant(ok ? was : to);
    SIM_CHECK(o.ver == v, "not-atomic", "%s: another thread wrote during the conversion", nm);
    if (ok) { k = to; if (nostall && timed) check_not_late(dl, nm); }
    else { if (timed) { check_timeout(dl, nm); if (nostall) check_not_late(dl, nm); } else if (nostall) SIM_CHECK(sim_now() - t0 < 20 * MS, "try-blocks", "%s blocked", nm);
      SIM_CHECK(!(idle && e0 == o.eall), "conversion-fails", "%s failed though nobody else owned or wanted the mutex", nm); SIM_CHECK(k == was, "x", "x"); }
  }
  void person(u32 n) {
    for (u32 i = 0; i < n; i++) {
      char k = this->kind(); { sim::Quiet q; o.want(k); }
      { Tag g("acquire"); if (k == 'x') m.lock(); else if (k == 'u') m.lock_upgrade(); else m.lock_shared(); }
      o.ent(k); o.use(k);
      u32 c = sim::choose(4); for (u32 j = 0; j < c; j++) { step(k); o.use(k); }
      rel(k); if (sim::choose(3) == 0) nap();
    }
  }
  void conv() { this->faults(true); u32 nt = sim::range(2, 4), no = sim::range(1, 3); sim::Threads t; for (u32 i = 0; i < nt; i++) t.go([&] { if (sim::choose(3) == 0) for (u32 k = 0; k < no; k++) this->op(this->kind()); else person(no); }); t.join(); this->final_free(); }
  // The temporary upgrade of upgrade_to_unique_lock.
  void temp() {
    this->faults(false); sim::Threads t; u32 n = sim::range(1, 3);
    for (u32 i = 0; i < n; i++) t.go([&] { Tag g("upgrade_to_unique_lock");
      { sim::Quiet q; o.want('u'); } boost::upgrade_lock<M> u(m); o.ent('u'); o.use('u'); u64 v; { sim::Quiet q; v = o.ver; }
      { sim::Quiet q; o.want('x'); }
      try { boost::upgrade_to_unique_lock<M> x(u); OWN(u, false); OWN(x, true); { sim::Quiet q; SIM_CHECK(o.ver == v, "not-atomic", "another thread wrote during the upgrade"); } strengthen('u', 'x'); o.use('x');
        if (sim::flip()) { boost::upgrade_to_unique_lock<M> y(boost::move(x)); OWN(y, true); OWN(x, false); o.use('x'); weaken('x', 'u'); { sim::Quiet q; v = o.ver; } if (sim::flip()) throw Boom(); }
        else { weaken('x', 'u'); sim::Quiet q; v = o.ver; } } catch (Boom&) {}
      { sim::Quiet q; o.unwant('x'); }
      OWN(u, true); { sim::Quiet q; SIM_CHECK(o.ver == v, "not-atomic", "another thread wrote during the downgrade"); } o.use('u'); { sim::Quiet q; o.lea('u'); } u.unlock(); { sim::Quiet q; o.unwant('u'); } });
    t.go([&] { nap(); this->op('s'); this->op('s'); }); if (sim::flip()) t.go([&] { nap(); this->op('x'); });
    t.join(); this->final_free();
  }
  // A timed conversion that becomes possible while it waits must succeed then.
  void possible() {
    sim_faults(NOSTALL); sim::Threads t; u32 f = sim::choose(UPWARDS ? 3 : 1), nr = sim::range(1, 2); bool by_conv = sim::flip(); DL dl; bool ok = false; u64 t0 = 0, done = 0; u64 lead = sim::range(0, 2) * MS; bool timed2 = sim::flip();
    if (f == 0) m.lock_upgrade(); else m.lock_shared();
    if (f == 1) m.lock_upgrade(); else for (u32 i = 0; i < nr; i++) m.lock_shared(); // what is in the way
    t.go([&] { Tag g("timed conversion"); t0 = sim_now(); const u64 D = 1000 * SEC;
#if UPWARDS
      ok = f == 0 ? C::fu2x(m, D, dl) : f == 1 ? C::fs2u(m, D, dl) : C::fs2x(m, D, dl);
#else
      ok = C::fu2x(m, D, dl);
#endif
      done = sim_now(); if (!ok) { if (f == 0) m.unlock_upgrade(); else m.unlock_shared(); } else { if (f == 1) m.unlock_upgrade(); else m.unlock(); } });
    // a rival that gives up, or waits
    u32 rival = sim::choose(4); if (rival == 1) t.go([&] { DL d2; nap(); if (Tmd<M>::run(m, sim::choose(Tmd<M>::N), sim::range(0, 3) * MS, d2, [] {})) {} }); else if (rival == 2) t.go([&] { nap(); m.lock(); m.unlock(); }); else if (rival == 3) t.go([&] { nap(); m.lock_upgrade(); m.unlock_upgrade(); });
    sim_sleep_ns(lead); (void)timed2; nap(); u64 freed = sim_now();
    if (f == 1) { if (by_conv) { m.unlock_upgrade_and_lock_shared(); m.unlock_shared(); } else m.unlock_upgrade(); } else for (u32 i = 0; i < nr; i++) m.unlock_shared();
    t.join(); if (rival == 0 || rival == 1) { SIM_CHECK(ok, "missed-conversion", "a timed conversion timed out although it was possible long before"); SIM_CHECK(done < (freed > t0 ? freed : t0) + 5 * SEC, "late-conversion", "a timed conversion succeeded only %llu ns after it became possible", (unsigned long long)(done - freed)); }
    this->final_free();
  }
  // An upgrade owner waits for the last reader, which itself asks for exclusive ownership for a while.
  void duel() {
    sim_faults(NOSTALL); sim::Threads t; { sim::Quiet q; o.want('x'); o.want('s'); } m.lock_upgrade(); 
    { sim::Quiet q; o.u = 1000; }
    int upg = -1; bool got = false; m.lock_shared(); { sim::Quiet q; o.r++; }
    t.go([&] { u64 v; { sim::Quiet q; v = o.ver; } nap(); bool ok = false; DL dl;
#if UPWARDS
      u64 d = cto(); bool ex = sim::flip(); Tag g("timed shared conversion"); { sim::Quiet q; o.want(ex ? 'x' : 'u'); }
      if (sim::flip()) { ok = ex ? C::fs2x(m, d, dl) : C::fs2u(m, d, dl); if (!ok) check_timeout(dl, "timed conversion"); } else ok = ex ? C::ts2x(m) : C::ts2u(m);
      { sim::Quiet q; o.unwant(ok ? 's' : ex ? 'x' : 'u'); }
      if (ok) { { sim::Quiet q; SIM_CHECK(o.ver == v, "not-atomic", "another thread wrote during the conversion"); strengthen('s', ex ? 'x' : 'u'); } o.use(ex ? 'x' : 'u'); rel(ex ? 'x' : 'u'); return; }
#endif
      { sim::Quiet q; SIM_CHECK(o.ver == v, "not-atomic", "another thread wrote while a reader owned the mutex"); } o.use('s'); rel('s'); });
    t.go([&] { Tag g("upgrade to exclusive"); nap(); { sim::Quiet q; o.u = upg = sim_self(); } C::u2x(m); strengthen('u', 'x'); got = true; o.use('x'); rel('x'); });
    if (sim::flip()) t.go([&] { nap(); this->op('x'); }); if (sim::flip()) t.go([&] { nap(); this->op('s'); });
    t.join(); SIM_CHECK(got, "lost", "the upgrade owner never became exclusive"); this->final_free();
  }
  // Weakening conversions let the waiting ones in.
  void lets_in() {
    this->faults(false); char k = sim::choose(3) == 0 ? 'u' : 'x'; char to = k == 'u' ? 's' : sim::flip() ? 'u' : 's'; if (k == 'x') m.lock(); else m.lock_upgrade();
    sim::Threads t; u32 nr = sim::range(0, 2), nu = sim::range(k == 'u' ? 1 : 0, 2); u32 in = 0; bool w = sim::choose(3) == 0;
    for (u32 i = 0; i < nr; i++) t.go([&] { Tag g("lock_shared"); Shr<M>::blk(m, sim::choose(Shr<M>::NB), [&] { sim::Quiet q; in++; }); });
    if (to == 's') for (u32 i = 0; i < nu; i++) t.go([&] { Tag g("lock_upgrade"); Upg<M>::blk(m, sim::choose(Upg<M>::NB), [&] { sim::Quiet q; in++; }); }); else nu = 0;
    if (sim::flip()) sim_settle(); else nap();
    u64 t0 = sim_now(); if (k == 'u') C::u2s(m); else if (to == 's') C::x2s(m); else C::x2u(m);
    if (w) t.go([&] { Tag g("lock"); Blk<M>::run(m, 0, [] {}); });
    else { for (int i = 0; i < 40 && in < nr + nu; i++) sim_sleep_ns(50 * MS); SIM_CHECK(in == nr + nu, "kept-out", "%u of %u threads got in within %llu ns after a conversion made room for them", in, nr + nu, (unsigned long long)(sim_now() - t0)); }
    if (to == 's') m.unlock_shared(); else m.unlock_upgrade();
    t.join(); this->final_free();
  }
  // Steps of a few actors, each followed by silence: whoever still waits then must have a reason to.
  void quiescent() {
    sim_faults(1u << SF_WEAKCAS); static const u32 NA = 6; struct Act { char own = 0, want = 0; u32 cmd = 0; char to = 0; u64 d = 0; bool busy = false; } a[NA]; bool stop = false; u32 na = sim::range(2, NA); pthread_mutex_t pm = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t pc = PTHREAD_COND_INITIALIZER; auto poke = [&] { pthread_mutex_lock(&pm); pthread_cond_broadcast(&pc); pthread_mutex_unlock(&pm); }; sim::Threads t;
    enum { ACQ = 1, TIMED, REL, CONV, TCONV };
    auto actor = [&](u32 i) { Act& x = a[i]; for (;;) { pthread_mutex_lock(&pm); for (;;) { { sim::Quiet q; if (stop || x.cmd) break; } pthread_cond_wait(&pc, &pm); } pthread_mutex_unlock(&pm); u32 c; char to, was; u64 d; { sim::Quiet q; if (stop && !x.cmd) return; c = x.cmd; x.cmd = 0; to = x.to; d = x.d; was = x.own; x.want = to; x.busy = true; } bool ok = true; DL dl;
      switch (c) {
        case ACQ: { Tag g(to == 'x' ? "lock" : to == 'u' ? "lock_upgrade" : "lock_shared"); if (to == 'x') m.lock(); else if (to == 'u') m.lock_upgrade(); else m.lock_shared(); o.ent(to); break; }
        case TIMED: { Tag g("timed acquisition"); u32 k = sim::choose(3); s64 at = (s64)(sim_now() + d); (void)at;
          if (to == 'x') ok = k == 0 ? m.try_lock_for(nsd(d)) : k == 1 ? m.try_lock_until(sy_at(sim_now_real() + d)) : m.try_lock_until(UClk<2, 1>::reached(at)); else if (to == 'u') ok = k == 0 ? m.try_lock_upgrade_for(nsd(d)) : k == 1 ? m.try_lock_upgrade_until(sy_at(sim_now_real() + d)) : m.try_lock_upgrade_until(st_at((u64)at)); else ok = k == 0 ? m.try_lock_shared_for(nsd(d)) : k == 1 ? m.try_lock_shared_until(sy_at(sim_now_real() + d)) : m.try_lock_shared_until(st_at((u64)at));
          if (ok) o.ent(to); break; }
        case REL: { sim::Quiet q; o.lea(was); x.own = 0; } if (was == 'x') m.unlock(); else if (was == 'u') m.unlock_upgrade(); else m.unlock_shared(); break;
        case CONV: if (was == 'x' || to == 's') { { sim::Quiet q; weaken(was, to); x.own = to; } Tag g("weakening conversion"); if (was == 'u') C::u2s(m); else if (to == 'u') C::x2u(m); else C::x2s(m); } else { Tag g("upgrade to exclusive"); C::u2x(m); strengthen('u', 'x'); } break;
        default: { Tag g("timed conversion");
#if UPWARDS
          ok = was == 'u' ? C::fu2x(m, d, dl) : to == 'x' ? C::fs2x(m, d, dl) : C::fs2u(m, d, dl);
#else
          ok = C::fu2x(m, d, dl);
#endif
          if (ok) strengthen(was, to); else check_timeout(dl, "timed conversion"); }
      }
      sim::Quiet q; if (c != REL) x.own = ok ? to : was; x.busy = false; } };
    for (u32 i = 0; i < na; i++) t.go([&, i] { actor(i); });
    auto check = [&] { sim::Quiet q; u32 ns = 0, nu = 0, nx = 0, xs = 0, nb = 0; for (u32 i = 0; i < na; i++) { ns += a[i].own == 's'; nu += a[i].own == 'u'; nx += a[i].own == 'x'; xs += a[i].busy && a[i].want == 'x'; nb += a[i].busy; }
      SIM_CHECK(ns + nu + nx || !nb, "stranded", "%u threads wait for a mutex that nobody owns", nb);
      for (u32 i = 0; i < na; i++) if (a[i].busy && a[i].want) { char w = a[i].want, own = a[i].own; u32 s2 = ns - (own == 's'), u2 = nu - (own == 'u'); bool can = w == 's' ? !nx && !xs : w == 'u' ? !nx && !u2 && !xs : !nx && !u2 && !s2 && (own == 'u' || (own == 's' && xs == 1)); SIM_CHECK(!can, "stranded", "a thread with %c ownership waits for %c ownership although %u shared, %u upgrade and %u exclusive owners and %u waiting for exclusive ownership do not keep it out", own ? own : '-', w, ns, nu, nx, xs); } };
    u32 steps = sim::range(3, 20); bool crowd = sim::flip();
    for (u32 k = 0; k < steps + 40; k++) {
      u32 free[NA], nf = 0; bool any = false; { sim::Quiet q; for (u32 i = 0; i < na; i++) { if (!a[i].busy && (k < steps || a[i].own)) free[nf++] = i; any |= a[i].busy || a[i].own; } }
      if (!nf) { if (!any) break; sim_sleep_ns(1200 * SEC); sim_settle(); check(); continue; }
      Act& x = a[free[sim::choose(nf)]]; char own; { sim::Quiet q; own = x.own; } u32 c = 0; char to = 0; u64 d = sim::choose(3) == 0 ? 1000 * SEC : sim::range(0, 60) * MS; u32 r = sim::choose(8);
      if (!own) { c = sim::choose(3) ? ACQ : TIMED; to = "xsussx"[sim::choose(6)]; if (crowd && sim::choose(4)) { to = 's'; c = ACQ; } }
      else if (k >= steps || r < 3) c = REL;
      else if (own == 'x') { c = CONV; to = sim::flip() ? 'u' : 's'; }
      else if (own == 'u') { c = r < 5 ? CONV : TCONV; to = r == 3 ? 's' : 'x'; }
      else { if (!UPWARDS) c = REL; else { c = TCONV; to = sim::flip() ? 'u' : 'x'; } }
      { sim::Quiet q; x.cmd = c; x.to = to; x.d = d; x.busy = true; x.want = to; } poke(); sim_sleep_ns(sim::choose(4) ? 1 * MS : 6 * MS); sim_settle(); sim_sleep_ns(4 * MS); sim_settle(); check();
    }
    { sim::Quiet q; stop = true; } poke(); t.join(); this->final_free(); pthread_cond_destroy(&pc); pthread_mutex_destroy(&pm);
  }
  // Conversions are no interruption points.
  void interrupted_conv() {
    this->faults(false); bool timed = sim::flip(); char k = 'u';
#if UPWARDS
    if (timed) k = "sug"[sim::choose(3)];
#endif
    if (k == 'g') m.lock_upgrade(); else m.lock_shared(); Flag holding; int fin = 0; bool ok = true;
    boost::thread t([&] { DL dl; if (k == 'u') m.lock_upgrade(); else m.lock_shared(); holding.set(); Tag g("conversion"); try {
        if (!timed) C::u2x(m); else
#if UPWARDS
        if (k == 's') ok = C::fs2x(m, 100 * SEC, dl); else if (k == 'g') ok = C::fs2u(m, 100 * SEC, dl); else
#endif
        ok = C::fu2x(m, 100 * SEC, dl);
        fin = 1; if (ok) { if (k == 'g') m.unlock_upgrade(); else m.unlock(); } else { check_timeout(dl, "timed conversion"); if (k == 'u') m.unlock_upgrade(); else m.unlock_shared(); } } catch (boost::thread_interrupted&) { fin = 2; } });
    holding.await(); nap(); intr_thread(t); nap(); if (k == 'g') m.unlock_upgrade(); else m.unlock_shared(); t.join(); SIM_CHECK(fin == 1, "interrupted-lock", "an interruption was delivered during a conversion"); this->final_free();
  }
};
// Very many shared owners.
template<class S, bool UPG> struct DeepShm { template<class X> static void up(X& m) { m.lock_upgrade(); } template<class X> static void down(X& m) { m.unlock_upgrade(); } };
template<class S> struct DeepShm<S, false> { template<class X> static void up(X&) { } template<class X> static void down(X&) { } };
template<class S, bool UPG> void deep_shared() { if (sim::choose(24)) return; S m; u32 n = many(true); sim_step_limit(HUGE_STEPS); bool up = UPG && sim::flip(); Flag got; auto probe = [&](bool free) { boost::thread t([&, free] { bool r = m.try_lock(); SIM_CHECK(r == free, "exclusion", "an exclusive owner %s", r ? "got in beside shared owners" : "was refused by a free mutex"); if (r) m.unlock(); }); t.join(); };
  u32 late = sim::choose(n), upat = sim::choose(n); for (u32 i = 0; i < n; i++) { if (up && i == upat) DeepShm<S, UPG>::up(m); if (i % 5 == 2) SIM_CHECK(m.try_lock_shared(), "compatibility", "shared owner %u was refused", i); else m.lock_shared(); } probe(false);
  boost::thread w([&] { m.lock(); got.set(); m.unlock(); }); if (sim::flip()) sim_settle(); for (u32 i = 0; i + 1 < n; i++) { if (up && i == late) { DeepShm<S, UPG>::down(m); up = false; } m.unlock_shared(); if (i == late) SIM_CHECK(!got.get(), "exclusion", "an exclusive owner got in beside shared owners"); } if (sim::flip()) sim_settle(); SIM_CHECK(!got.get(), "exclusion", "an exclusive owner got in beside a shared owner"); m.unlock_shared(); if (up) { if (sim::flip()) sim_settle(); SIM_CHECK(!got.get(), "exclusion", "an exclusive owner got in beside an upgrade owner"); DeepShm<S, UPG>::down(m); } w.join(); probe(true); }
#endif

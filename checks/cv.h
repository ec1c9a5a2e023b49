// Condition variables with any lock type: every wait form, against a lock-ownership and notification oracle.
#ifndef CHECKS_CV_H
#define CHECKS_CV_H
#include "shm.h"
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/xtime.hpp>

template<class L, class M> struct Hold { L l; Hold(M& m) : l(m) {} L& get() { return l; } void check() { OWN(l, true); } };
template<class M> struct Hold<M, M> { M& m; Hold(M& m_) : m(m_) { m.lock(); } ~Hold() { m.unlock(); } M& get() { return m; } void check() {} };
inline boost::xtime xt_at(s64 ns) { boost::xtime x; x.sec = (boost::xtime::xtime_sec_t)(ns / (s64)SEC); x.nsec = (boost::xtime::xtime_nsec_t)(ns % (s64)SEC / 1000 * 1000); return x; }

// One wait without a predicate; returns false if it reported a timeout.
static const u32 CV_NW = 9 + NUT;
template<class CV, class L> bool cv_wait(CV& cv, L& l, u32 k, u64 d, DL& dl) {
  u64 t = sim_now(), r = sim_now_real() / 1000 * 1000; dl = DL::mono(0);
  switch (k) {
    case 0: cv.wait(l); return true;
    case 1: { boost::system_time a = pt_at(r + d); dl = DL::sys(r + d); return cv.timed_wait(l, a); }
    case 2: dl = DL::mono(t + us_fl(d)); return cv.timed_wait(l, pd_of(d));
    case 3: dl = DL::mono(t + d); return cv.wait_until(l, st_at(t + d)) == boost::cv_status::no_timeout;
    case 4: dl = DL::sys(r + d); return cv.wait_until(l, sy_at(r + d)) == boost::cv_status::no_timeout;
    case 5: dl = DL::mono(t + d); return cv.wait_for(l, nsd(d)) == boost::cv_status::no_timeout;
    case 6: dl = DL::mono(t + d); return cv.wait_for(l, bc::duration<double>((double)(s64)d / 1e9)) == boost::cv_status::no_timeout;
    case 7: { boost::xtime x = xt_at(r + d); dl = DL::sys(r + d); return cv.timed_wait(l, x); }
    case 8: dl = DL::mono(t + us_fl(d)); return cv.wait_for(l, bc::microseconds((s64)d / 1000)) == boost::cv_status::no_timeout;
    default: return odd_time(k == 11 ? 0 : k - 9 /* a plain wait cannot notice that a clock is fast */, d, dl, [&](auto at) { return cv.wait_until(l, at) == boost::cv_status::no_timeout; }, [&](auto n) { return cv.wait_for(l, n) == boost::cv_status::no_timeout; });
  }
}
static const u32 CV_NP = 9 + NUT;
template<class CV, class L, class P> bool cv_pred(CV& cv, L& l, u32 k, u64 d, DL& dl, P p) {
  u64 t = sim_now(), r = sim_now_real() / 1000 * 1000; dl = DL::mono(0);
  switch (k) {
    case 0: cv.wait(l, p); return true;
    case 1: { boost::system_time a = pt_at(r + d); dl = DL::sys(r + d); return cv.timed_wait(l, a, p); }
    case 2: dl = DL::mono(t + us_fl(d)); return cv.timed_wait(l, pd_of(d), p);
    case 3: dl = DL::mono(t + d); return cv.wait_until(l, st_at(t + d), p);
    case 4: dl = DL::sys(r + d); return cv.wait_until(l, sy_at(r + d), p);
    case 5: dl = DL::mono(t + d); return cv.wait_for(l, nsd(d), p);
    case 6: dl = DL::mono(t + d); return cv.wait_for(l, bc::duration<double>((double)(s64)d / 1e9), p);
    case 7: { boost::xtime x = xt_at(r + d); dl = DL::sys(r + d); return cv.timed_wait(l, x, p); }
    case 8: dl = DL::mono(t + us_fl(d)); return cv.wait_for(l, bc::microseconds((s64)d / 1000), p);
    default: return odd_time(k - 9, d, dl, [&](auto at) { return cv.wait_until(l, at, p); }, [&](auto n) { return cv.wait_for(l, n, p); });
  }
}
static const u64 FOREVER = 86400 * 300 * SEC;

// K: kind of the waiters' ownership ('x','s','u'). NL: lock of the notifiers (exclusive).
template<class CV, class M, class L, char K, class NL = boost::unique_lock<M> > struct CvTest {
  typedef Hold<L, M> WL;
  CV cv; M m; RW o; u64 gen = 0; u32 inwait = 0; bool nostall = false, jump = false; u32 items = 0; u64 lastn = 0;
  void faults() { nostall = sim::flip(); u32 f = nostall ? NOSTALL : SIM_DEFAULT_FAULTS; if (!nostall && sim::choose(3) == 0) { f |= 1u << SF_RJUMP; jump = true; } sim_faults(f); }
  // The wait with the account kept: the lock is given up and must be back.
  template<class W> auto waiting(WL& h, W w) -> decltype(w()) {
    struct Back { CvTest& t; WL& h; Back(CvTest& t_, WL& h_) : t(t_), h(h_) { sim::Quiet q; t.o.lea(K); t.inwait++; } ~Back() { { sim::Quiet q; t.inwait--; } t.o.ent(K); h.check(); } } b(*this, h);
    return w();
  }
  bool wait1(WL& h, u32 k, u64 d) { DL dl; bool r = waiting(h, [&] { return cv_wait(cv, h.get(), k, d, dl); }); if (!r) check_timeout(dl, "condition wait"); if (nostall && k && d < 3600 * SEC) check_not_late(dl, "condition wait"); return r; }
  template<class P> bool waitp(WL& h, u32 k, u64 d, P p) {
    // inside the predicate the lock is held
    DL dl; auto pp = [&] { o.ent(K); h.check(); bool v = p(); { sim::Quiet q; o.lea(K); } return v; };
    bool r = waiting(h, [&] { return cv_pred(cv, h.get(), k, d, dl, pp); }); bool v = p();
    SIM_CHECK(r == v, "pred-result", "a predicate wait (form %u) returned %d while the predicate is %d under the lock", k, (int)r, (int)v); if (!r) check_timeout(dl, "predicate wait"); if (nostall && k && d < 3600 * SEC) check_not_late(dl, "predicate wait"); return r; }
  struct In { RW& o; char k; In(RW& o_, char k_) : o(o_), k(k_) { o.ent(k); } ~In() { sim::Quiet q; o.lea(k); } };
  template<class F> void update(F f, bool all) { // change under the exclusive lock, notify under or after it
    bool under = sim::flip();
    { Tag g("notifier"); NL l(m); { In i(o, 'x'); f(); } if (under) { if (all) cv.notify_all(); else cv.notify_one(); } }
    if (!under) { if (sim::flip()) sim_yield(); if (all) cv.notify_all(); else cv.notify_one(); }
    sim::Quiet q; lastn = sim_now();
  }
  void broadcast() {
    faults(); u32 n = sim::range(1, 4), rounds = sim::range(1, 3); sim::Threads t;
    for (u32 i = 0; i < n; i++) t.go([&] { for (u32 g = 1; g <= rounds; g++) { Tag tg("waiter"); u64 t0 = sim_now(); (void)t0; WL h(m); In in(o, K); u32 st = sim::choose(3);
      if (st == 0) { while (gen < g) wait1(h, sim::choose(CV_NW), FOREVER); } else if (st == 1) { bool r = waitp(h, sim::choose(CV_NP), FOREVER, [&] { return gen >= g; }); SIM_CHECK(r || jump, "timed-out", "a wait of 300 days gave up"); while (gen < g) wait1(h, 0, 0); } else while (!waitp(h, sim::choose(CV_NP), shm_to() % (3600 * SEC) + 10 * MS, [&] { return gen >= g; })) {}
      if (nostall) { sim::Quiet q; u64 due = lastn > t0 ? lastn : t0; SIM_CHECK(sim_now() < due + 60 * MS, "late-wake", "a notified waiter came back %llu ns after the notification", (unsigned long long)(sim_now() - due)); } } });
    for (u32 g = 1; g <= rounds; g++) { if (sim::flip()) sim_settle(); else nap(); update([&] { gen++; }, true); }
    t.join();
  }
  void signals() { // n waiters in a single wait each: n notify_one calls release them all
    sim_faults((1u << SF_WEAKCAS)); u32 n = sim::range(1, 4); sim::Threads t; Flag reg, out;
    for (u32 i = 0; i < n; i++) t.go([&] { Tag tg("waiter"); { WL h(m); In in(o, K); reg.add(); u32 k = sim::choose(CV_NW); bool r = wait1(h, k, FOREVER); SIM_CHECK(r, "timed-out", "a wait of 300 days gave up"); } out.add(); });
    while (1) { { NL l(m); In in(o, 'x'); if (reg.get() == n) break; } sim_sleep_ns(50 * US); }
    bool all = sim::choose(4) == 0, par = sim::flip();
    if (all) cv.notify_all(); else if (par) { for (u32 i = 0; i < n; i++) t.go([&] { bool u = sim::flip(); if (u) { NL l(m); cv.notify_one(); } else cv.notify_one(); }); }
    else for (u32 i = 0; i < n; i++) { u64 before = out.get(); if (sim::flip()) { NL l(m); cv.notify_one(); } else cv.notify_one(); if (sim::flip()) { sim_settle(); SIM_CHECK(out.get() > before || out.get() == n || out.get() > i, "lost-notification", "notify_one woke none of %u waiting threads", n - i); } }
    t.join();
  }
  void pingpong() {
    faults(); u32 n = sim::range(2, 3), rounds = sim::range(1, 4); sim::Threads t; u64 turn = 0; bool all = n > 2;
    for (u32 i = 0; i < n; i++) t.go([&, i] { for (u32 r = 0; r < rounds; r++) {
      { Tag tg("waiter"); WL h(m); In in(o, K); u32 k = sim::choose(2); if (k) while (turn % n != i) wait1(h, 0, 0); else { while (!waitp(h, sim::choose(CV_NP), sim::flip() ? FOREVER : 20 * MS, [&] { return turn % n == i; })) {} } }
      update([&] { turn++; }, all || sim::choose(3) == 0); } });
    t.join(); SIM_CHECK(turn == n * rounds, "turns", "%llu turns", (unsigned long long)turn);
  }
  void prodcons() {
    faults(); u32 np = sim::range(1, 2), nc = sim::range(1, 3), per = sim::range(1, 3); u32 total = np * per, taken = 0; bool closed = false; sim::Threads t; static_assert(K == 'x', "");
    for (u32 i = 0; i < nc; i++) t.go([&] { for (;;) { Tag tg("consumer"); WL h(m); In in(o, K);
      u32 st = sim::choose(3); auto p = [&] { return items > 0 || closed; };
      if (st == 0) while (!p()) wait1(h, sim::choose(CV_NW), sim::choose(3) ? FOREVER : sim::range(1, 2000) * US); else while (!waitp(h, sim::choose(CV_NP), st == 1 ? FOREVER : sim::range(1, 2000) * US, p)) {}
      if (items) { items--; taken++; } else if (closed) return; } });
    sim::Threads tp; for (u32 i = 0; i < np; i++) tp.go([&] { for (u32 j = 0; j < per; j++) { update([&] { items++; }, false); if (sim::choose(3) == 0) nap(); } });
    tp.join(); u32 left = 1; for (int i = 0; i < 60 && left; i++) { sim_sleep_ns(5 * MS); sim_settle(); NL l(m); left = items; } // every consumer idle: nothing may be left over
    SIM_CHECK(left == 0, "lost-notification", "%u item(s) are left although every consumer waits and each item was notified", left);
    update([&] { closed = true; }, true); t.join(); SIM_CHECK(taken == total, "count", "%u of %u items consumed", taken, total);
  }
  void timedpred() { // short deadlines against a predicate that changes with and without notification
    faults(); u32 n = sim::range(1, 3); sim::Threads t;
    for (u32 i = 0; i < n; i++) t.go([&] { for (u32 r = 0; r < 2; r++) { Tag tg("timed waiter"); WL h(m); In in(o, K); u64 want = sim::range(1, 2); u32 k = 1 + sim::choose(CV_NP - 1); static const u64 ds[] = {0, 1 * US, 100 * US, 1 * MS, 10 * MS, 90 * MS, 101 * MS, 250 * MS, 2 * SEC}; u64 d = ds[sim::choose(9)];
      if (sim::flip()) waitp(h, k, d, [&] { return gen >= want; }); else if (gen < want) wait1(h, k, d); } });
    u32 nu = sim::range(0, 2); for (u32 i = 0; i < nu; i++) { nap(); if (sim::flip()) update([&] { gen++; }, sim::flip()); else { NL l(m); In in(o, 'x'); gen++; } }
    t.join();
  }
  void predthrow() {
    faults(); bool thrown = false; u32 at = sim::range(1, 3), c = 0; sim::Threads t;
    t.go([&] { Tag tg("waiter"); WL h(m); In in(o, K); DL dl; u32 k = sim::choose(CV_NP); try { waiting(h, [&] { return cv_pred(cv, h.get(), k, FOREVER, dl, [&]() -> bool { if (++c >= at) throw Boom(); return false; }); }); } catch (Boom&) { thrown = true; h.check(); } });
    t.go([&] { Tag tg("other"); for (u32 i = 0; i < 6; i++) { nap(); update([&] { gen++; }, true); } });
    sim_sleep_ns(3600 * SEC); for (int i = 0; i < 4; i++) { sim_settle(); cv.notify_all(); } t.join(); SIM_CHECK(thrown, "pred-throw", "the exception of the predicate was swallowed");
  }
  // Waiters are interrupted; they throw with the lock held, and later notifications reach the others.
  void interrupt() {
    if (!CAN_INTR) return;
    sim_faults((1u << SF_WEAKCAS) | (sim::flip() ? 1u << SF_STALL : 0)); u32 n = sim::range(1, 3); Flag reg, vreg, out, intr; bool dis = sim::choose(3) == 0; u32 form = sim::choose(3);
    boost::thread* th[3]; u32 victim = sim::choose(n);
    for (u32 i = 0; i < n; i++) th[i] = new boost::thread([&, i] { Tag tg("waiter"); WL h(m); In in(o, K); DL dl;
      try { boost::this_thread::interruption_point(); if (i == victim) vreg.set(); if (dis && i == victim) { boost::this_thread::disable_interruption di; reg.add(); if (form == 0) wait1(h, sim::choose(CV_NW), FOREVER); else while (!waitp(h, sim::choose(CV_NP), FOREVER, [&] { return gen > 0; })) {} }
        else { reg.add(); if (form == 0) { wait1(h, sim::choose(CV_NW), FOREVER); } else while (!waitp(h, sim::choose(CV_NP), FOREVER, [&] { return gen > 0; })) {} } out.add(); }
      catch (boost::thread_interrupted&) { h.check(); SIM_CHECK(i == victim && !dis, "interrupted", "thread_interrupted in a thread that must not get it"); intr.add(); } });
    bool early = !dis && sim::choose(4) == 0; if (!early) while (1) { { NL l(m); if (reg.get() == n) break; } sim_sleep_ns(50 * US); } else nap();
    intr_thread(*th[victim]);
    if (!dis) { th[victim]->join(); SIM_CHECK(intr.get() == 1, "interrupted", "the interrupted waiter did not throw"); }
    if (sim::flip()) { sim_settle(); }
    while (1) { { NL l(m); if (reg.get() + (intr.get() && !vreg.get() ? 1 : 0) >= n) break; } sim_sleep_ns(50 * US); }
    if (form == 0) for (u32 i = 0; i < n; i++) cv.notify_one(); else if (sim::flip()) update([&] { gen++; }, true); else { { NL l(m); In in(o, 'x'); gen++; } for (u32 i = 0; i < n; i++) cv.notify_one(); }
    for (u32 i = 0; i < n; i++) { if (th[i]->joinable()) th[i]->join(); delete th[i]; } SIM_CHECK(out.get() + intr.get() == n, "count", "lost");
  }
  static void last_user() {
    sim_faults(SIM_DEFAULT_FAULTS); struct Node { CV cv; M m; RW o; bool go = false; }; Node* n = new Node; sim::Threads t;
    t.go([n] { nap(); NL l(n->m); n->go = true; if (sim::flip()) n->cv.notify_one(); else n->cv.notify_all(); });
    { Hold<L, M> h(n->m); DL dl; u32 k = sim::choose(CV_NP); if (sim::flip()) cv_pred(n->cv, h.get(), k, FOREVER, dl, [&] { return n->go; }); while (!n->go) cv_wait(n->cv, h.get(), 0, 0, dl); }
    t.join(); delete n;
  }
};
#endif

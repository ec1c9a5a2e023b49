// C16 latch and completion_latch: they open exactly at zero, for everybody.
#include "common.h"
#include <memory>
#include <boost/thread/thread.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>

static const u32 MR = 6, MT = 5;
template<class L> struct World { L* l; u32 n; bool stall; Flag arrived[MR * 4]; Flag resets, waiting, back; int data[MR * 4][MT]; World() { for (auto& a : data) for (int& x : a) x = 0; } bool open_since(u32 r0) { for (u32 r = r0; r < MR * 4; r++) if (arrived[r].get() >= n) return true; return false; } };
// Every way to wait. Returns whether it reported that the latch is open; r0 is the round at the start of the call.
template<class L> static bool wait_once(World<L>& w, u32 how) {
  u32 r0 = (u32)w.resets.get(); bool ok = true; DL d; const char* what = "wait"; bool timed = false; bool sure = w.resets.get() * 0 + (w.arrived[r0].get() >= w.n + 100);
  switch (how) {
    case 0: w.l->wait(); break;
    case 1: what = "try_wait"; ok = w.l->try_wait(); break;
    case 2: { what = "wait_for"; timed = true; s64 ns = (s64)sim::choose(5) * 700 * (s64)US - 100; d = DL::mono((s64)sim_now() + ns); ok = w.l->wait_for(nsd(ns)) == boost::cv_status::no_timeout; break; }
    case 3: { what = "wait_until(steady)"; timed = true; s64 at = (s64)sim_now() + (s64)sim::choose(5) * 900 * (s64)US; d = DL::mono(at); ok = w.l->wait_until(st_at(at)) == boost::cv_status::no_timeout; break; }
    default: { what = "wait_until(system)"; timed = true; s64 at = (s64)sim_now_real() + (s64)sim::choose(5) * 900 * (s64)US; d = DL::sys(at); ok = w.l->wait_until(sy_at(at)) == boost::cv_status::no_timeout; break; }
  }
  if (ok) { SIM_CHECK(w.open_since(r0), "early", "%s reported an open latch before the count reached zero", what); for (u32 r = r0; r < MR * 4; r++) if (w.arrived[r].get() >= w.n) { for (u32 i = 0; i < w.n; i++) SIM_CHECK(w.data[r][i] == (int)(r * 10 + i), "visible", "work done before the count down is not visible"); break; } }
  else { SIM_CHECK(!sure || w.arrived[r0].get() < w.n + 100, "not-open", "%s reports a closed latch although it is open", what); if (timed) check_timeout(d, what); }
  if (timed && !w.stall) check_not_late(d, what); return ok;
}
template<class L> static bool arrive(World<L>& w, u32 r, u32 i, u32 how) {
  w.data[r][i] = (int)(r * 10 + i); w.arrived[r].add(); bool all = false;
  switch (how) { case 0: w.l->count_down(); break; case 1: w.l->signal(); break; case 2: w.l->count_down_and_wait(); all = true; break; default: w.l->sync(); all = true; }
  if (all) SIM_CHECK(w.arrived[r].get() >= w.n, "early", "count_down_and_wait returned before the count reached zero"); return all;
}
static bool try_arrive(World<boost::latch>& w, u32 r, u32 i) {
  w.data[r][i] = (int)(r * 10 + i); w.arrived[r].add(); bool z = w.l->try_count_down(); if (z) SIM_CHECK(w.arrived[r].get() >= w.n, "early", "try_count_down reported zero too early"); return z;
}
SCENARIO(latch, 5) {
  bool stall = sim::flip(); sim_faults(stall ? SIM_DEFAULT_FAULTS : NOSTALL); World<boost::latch> w; w.stall = stall; w.n = sim::range(1, MT); boost::latch l(w.n); w.l = &l; u32 rounds = sim::range(1, 3), nw = sim::range(1, 3); sim::Threads waiters; Flag done;
  for (u32 r = 0; r < rounds; r++) {
    sim::Threads t; for (u32 k = 0; k < nw; k++) waiters.go([&] { Tag g("waiter"); if (sim::choose(3) == 0) nap(); bool ok = false; for (u32 c = 0; !ok; c++) { ok = wait_once(w, c < 6 ? sim::choose(5) : 0); } done.add(); });
    if (sim::choose(3) == 0) sim_settle(); Flag zero; bool tr = sim::choose(3) == 0;
    for (u32 i = 0; i < w.n; i++) t.go([&, i, r] { Tag g("counter"); if (sim::flip()) nap(); if (tr) { if (try_arrive(w, r, i)) zero.add(); } else arrive(w, r, i, sim::choose(4)); });
    if (sim::flip()) wait_once(w, 0); t.join(); if (tr) SIM_CHECK(zero.get() == 1, "count", "%llu of %u count downs reported zero", (unsigned long long)zero.get(), w.n);
    if (sim::flip()) { w.arrived[r].add(100); u32 c = sim::range(1, 3); for (u32 k = 0; k < c; k++) wait_once(w, sim::choose(5)); if (r + 1 == rounds && sim::flip()) SIM_CHECK(l.try_count_down(), "count", "try_count_down of an open latch"); wait_once(w, 0); if (r + 1 < rounds) w.arrived[r].add(-100); }
    if (r + 1 < rounds) { l.reset(w.n); w.resets.add(); }
  }
  waiters.join(); SIM_CHECK(done.get() == nw * rounds, "count", "x");
}
SCENARIO(latch_zero, 1) { sim_faults(NOSTALL); World<boost::latch> w; w.stall = false; w.n = 0; boost::latch l(0); w.l = &l; w.arrived[0].add(100); for (u32 i = 0; i < 5; i++) wait_once(w, i); sim::Threads t; t.go([&] { wait_once(w, 0); }); t.join(); SIM_CHECK(l.try_count_down(), "count", "zero latch"); }
// A reset right after the opening does not take the opening back from those who were waiting.
SCENARIO(latch_reset, 2) {
  sim_faults(NOSTALL); World<boost::latch> w; w.stall = false; w.n = sim::range(1, 2); boost::latch l(w.n); w.l = &l; sim::Threads t; u32 k = sim::range(1, 4), how = sim::choose(3); Flag done;
  for (u32 i = 0; i < k; i++) t.go([&] { Tag g("waiter"); if (how == 0) l.wait(); else if (how == 1) SIM_CHECK(l.wait_for(nsd(10000 * SEC)) == boost::cv_status::no_timeout, "timeout", "timeout of an opened latch"); else wait_once(w, 0); done.add(); });
  sim_settle(); for (u32 i = 0; i < w.n; i++) arrive(w, 0, i, sim::choose(2)); l.reset(sim::range(1, 3)); t.join();
}
// Waiting is an interruption point and leaves the latch intact.
SCENARIO(latch_interrupt, 2) { if (!CAN_INTR) return;
  sim_faults(NOSTALL); boost::latch l(2); std::vector<std::unique_ptr<boost::thread> > v; Flag thrown, left, open; u32 n = sim::range(1, 3), asked = 0; bool cdw = sim::flip();
  for (u32 i = 0; i < n; i++) v.emplace_back(new boost::thread([&, i] { try { if (i == 0 && cdw) l.count_down_and_wait(); else if (sim::flip()) l.wait(); else SIM_CHECK(l.wait_for(nsd(1000 * SEC)) == boost::cv_status::no_timeout, "timeout", "timeout of an opened latch"); SIM_CHECK(open.get(), "early", "released early"); left.add(); } catch (boost::thread_interrupted&) { thrown.add(); } }));
  if (sim::flip()) sim_settle(); for (auto& p : v) if (sim::choose(3) == 0) { intr_thread(*p); asked++; } sim_settle(); SIM_CHECK(left.get() == 0, "early", "released early"); SIM_CHECK(thrown.get() == asked, "interrupt", "%llu of %u interruptions", (unsigned long long)thrown.get(), asked); bool first = cdw && sim::flip(); (void)first; if (!cdw) l.count_down(); open.set(); { u32 k = 0; while (!l.try_count_down()) SIM_CHECK(++k < 3, "count", "count lost"); } for (auto& p : v) p->join(); SIM_CHECK(left.get() + thrown.get() == n, "count", "x");
}

static World<boost::completion_latch>* C; static Flag* completed;
static void on_complete() { World<boost::completion_latch>& w = *C; u32 r = (u32)w.resets.get(); SIM_CHECK(w.arrived[r].get() >= w.n, "early-completion", "the completion function ran before the count reached zero"); for (u32 i = 0; i < w.n; i++) SIM_CHECK(w.data[r][i] == (int)(r * 10 + i), "visible", "work not visible in the completion function"); completed->add(); dwell(); w.l->reset(w.n); w.resets.add(); }
struct OnComplete { std::shared_ptr<int> p; OnComplete() : p(new int(3)) {} void operator()() { SIM_CHECK(*p == 3, "functor", "x"); on_complete(); } };
static void round(World<boost::completion_latch>& w, u32 r, bool cdw) { sim::Threads t; u32 m = 0; bool c = cdw && w.n > 1; for (u32 i = 0; i < w.n; i++) { bool a = c && i + 1 < w.n && sim::choose(3) == 0; m += a; t.go([&, i, r, a] { Tag g("counter"); if (sim::flip()) nap(); arrive(w, r, i, a ? 2 + sim::choose(2) : sim::choose(2)); }); } t.join(); SIM_CHECK(completed->get() == r + 1, "completion", "the completion function ran %llu times in %u rounds", (unsigned long long)completed->get(), r + 1); }
// The last count down waits for a waiter, the waiters leave, then the completion function runs.
SCENARIO(completion, 4) {
  sim_faults(SIM_DEFAULT_FAULTS); World<boost::completion_latch> w; w.stall = true; C = &w; Flag comp; completed = &comp; w.n = sim::range(1, 4); std::unique_ptr<boost::completion_latch> l; u32 form = sim::choose(3);
  if (form == 0) l.reset(new boost::completion_latch(w.n, &on_complete)); else if (form == 1) l.reset(new boost::completion_latch(w.n, OnComplete())); else { l.reset(new boost::completion_latch(w.n)); l->then(&on_complete); }
  w.l = l.get(); u32 rounds = sim::range(1, 2), nw = sim::range(1, 3), total = 0; sim::Threads waiters; Flag done; u32 r = 0;
  auto waiter = [&] { total++; waiters.go([&] { Tag g("waiter"); wait_once(w, sim::choose(5) == 0 ? sim::choose(5) : 0); done.add(); }); };
  for (; r < rounds; r++) { for (u32 k = 0; k < nw; k++) waiter(); round(w, r, false); }
  for (;;) { sim_settle(); if (done.get() == total) break; SIM_CHECK(r < rounds + 3, "stuck", "waiters are not released"); waiter(); sim_settle(); round(w, r++, false); }
  waiters.join();
}
SCENARIO(completion_sync, 2) { // counters that wait too
  sim_faults(SIM_DEFAULT_FAULTS); World<boost::completion_latch> w; w.stall = true; C = &w; Flag comp, done; completed = &comp; w.n = sim::range(2, MT); boost::completion_latch l(w.n, &on_complete); w.l = &l; sim::Threads ws, t; Flag in;
  for (u32 i = 0; i + 1 < w.n; i++) t.go([&, i] { in.add(); arrive(w, 0, i, 2 + sim::choose(2)); done.add(); }); for (int k = 0; k < 2 && in.get() < w.n - 1; k++) sim_settle(); sim_settle();
  arrive(w, 0, w.n - 1, sim::choose(4)); t.join(); SIM_CHECK(comp.get() == 1 && done.get() == w.n - 1, "completion", "x");
}
SCENARIO(completion_meet, 2) { // one waiter and the counters in any order: all of them are done at the end
  sim_faults(SIM_DEFAULT_FAULTS); World<boost::completion_latch> w; w.stall = true; C = &w; Flag comp; completed = &comp; w.n = sim::range(1, 4); boost::completion_latch l(w.n, &on_complete); w.l = &l; sim::Threads t;
  t.go([&] { Tag g("waiter"); if (sim::flip()) nap(); l.wait(); SIM_CHECK(w.arrived[0].get() >= w.n, "early", "wait returned before the count reached zero"); for (u32 i = 0; i < w.n; i++) SIM_CHECK(w.data[0][i] == (int)i, "visible", "work not visible to the waiter"); });
  for (u32 i = 0; i < w.n; i++) t.go([&, i] { Tag g("counter"); if (sim::flip()) nap(); arrive(w, 0, i, sim::choose(2)); }); t.join(); SIM_CHECK(comp.get() == 1, "completion", "the completion function ran %llu times", (unsigned long long)comp.get());
}
SCENARIO(completion_interrupt, 2) { if (!CAN_INTR) return; // an interrupted waiter is gone: it neither holds up nor opens the latch
  sim_faults(NOSTALL); World<boost::completion_latch> w; w.stall = false; C = &w; Flag comp, thrown, left; completed = &comp; w.n = sim::range(1, 3); boost::completion_latch l(w.n, &on_complete); w.l = &l; u32 n = sim::range(1, 3), asked = 0; std::vector<std::unique_ptr<boost::thread> > v;
  for (u32 i = 0; i < n; i++) v.emplace_back(new boost::thread([&] { try { wait_once(w, 0); left.add(); } catch (boost::thread_interrupted&) { thrown.add(); } }));
  if (sim::flip()) sim_settle(); for (auto& p : v) if (sim::flip()) { intr_thread(*p); asked++; } bool racing = sim::choose(3) == 0; if (!racing) { sim_settle(); SIM_CHECK(thrown.get() == asked && left.get() == 0, "interrupt", "%llu of %u", (unsigned long long)thrown.get(), asked); }
  sim::Threads x; x.go([&] { wait_once(w, 0); left.add(); }); if (sim::flip()) sim_settle(); round(w, 0, false); u32 r = 1, all = n + 1; for (;;) { sim_settle(); if (left.get() + thrown.get() == all) break; SIM_CHECK(r < 4, "stuck", "waiters are not released"); all++; x.go([&] { wait_once(w, 0); left.add(); }); sim_settle(); round(w, r++, false); } x.join(); for (auto& p : v) p->join(); SIM_CHECK(thrown.get() <= asked, "interrupt", "unrequested");
}
// Known findings: timed and late waits of a completion_latch block until a (next) opening.
SCENARIO(completion_timed, 1) { sim_faults(NOSTALL); if (sim::choose(40)) return; boost::completion_latch l(1); u32 how = sim::choose(3); DL d = DL::mono((s64)sim_now() + 5 * (s64)MS); bool ok = how == 0 ? l.try_wait() : how == 1 ? l.wait_for(nsd(5 * MS)) == boost::cv_status::no_timeout : l.wait_until(st_at(d.at)) == boost::cv_status::no_timeout; SIM_CHECK(!ok, "early", "open without a count down"); if (how) check_timeout(d, "timed wait"); }
SCENARIO(completion_late, 1) { sim_faults(NOSTALL); if (sim::choose(40)) return; boost::completion_latch l(1); sim::Threads t; t.go([&] { l.wait(); }); sim_settle(); l.count_down(); t.join(); l.wait(); SIM_CHECK(l.try_wait(), "not-open", "x"); }
// Large counts.
template<class L> static void deep(L& l, u32 n) { Flag back; sim_step_limit(HUGE_STEPS); boost::thread t([&] { l.wait(); back.set(); }); u32 at = sim::choose(n); for (u32 i = 0; i + 1 < n; i++) { l.count_down(); if (i == at) SIM_CHECK(!back.get(), "early", "a waiter returned at %u of %u", i + 1, n); } if (sim::flip()) sim_settle(); SIM_CHECK(!back.get(), "early", "a waiter returned before the last count"); l.count_down(); t.join(); }
// A try_wait or a generously timed wait that comes back because the latch opened says so (see the known findings for when it comes back).
SCENARIO(completion_results, 1) { sim_faults(NOSTALL); if (sim::choose(6)) return; boost::completion_latch l(2); u32 how = sim::choose(3); Flag opening, early; sim::Threads t; t.go([&] { Tag g("waiter"); l.wait(); }); t.go([&] { Tag g("timed waiter"); bool r = how == 0 ? l.try_wait() : how == 1 ? l.wait_for(nsd(1000 * SEC)) == boost::cv_status::no_timeout : l.wait_until(st_at(sim_now() + 1000 * SEC)) == boost::cv_status::no_timeout; if (opening) SIM_CHECK(r, "not-open", "a wait that the opening of the latch ended reports that it is not open"); else { SIM_CHECK(!r, "early", "open before the last count down"); SIM_CHECK(how == 0, "early", "a timed wait gave up before its deadline"); } });
  sim_settle(); l.count_down(); sim_settle(); sim_sleep_ns(5 * MS); opening.set(); l.count_down(); t.join(); }
SCENARIO(deep, 1) { if (sim::choose(24)) return; sim_faults(NOSTALL); u32 n = many(true); if (sim::flip()) { boost::latch l(n); SIM_CHECK(!l.try_wait(), "early", "a new latch is open"); deep(l, n); SIM_CHECK(l.try_wait(), "late", "not open at zero"); } else { boost::completion_latch l(n); deep(l, n); } }

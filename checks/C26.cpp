// C26 Scheduled executors run tasks when due, never before, once.
#include "exec.h"
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>

template<class C> struct ClockOf; template<> struct ClockOf<StC> { static s64 now() { return (s64)sim_now(); } static StC::time_point at(s64 n) { return st_at((u64)n); } static const bool real = false; };
template<> struct ClockOf<SyC> { static s64 now() { return (s64)sim_now_real(); } static SyC::time_point at(s64 n) { return sy_at((u64)n); } static const bool real = true; };
struct Item { s64 due, hi; u64 pushed, start; u32 thread; bool real; };
struct Plan { Item it[32]; bool jump; static Plan& get() { static Plan p; return p; } };
struct JobT : Job_ { explicit JobT(Rec& x) : Job_(x) {} void operator()() const { ok(); u32 i = (u32)(r - Rig::get().rec); Item& t = Plan::get().it[i]; u64 real = sim_real_max(), now = sim_now(); { sim::Quiet q; t.start = now; t.thread = sim_self(); } s64 clk = t.real ? (s64)real : (s64)now; SIM_CHECK(clk >= t.due, "early", "task %u ran %lld ns before its time", i, (long long)(t.due - clk)); run_task(*r); ok(); } };
static s64 pick_due() { static const s64 d[] = {-5000000, 0, 1000000, 2000000, 2000000, 7000000, 20000000, 250000000, 5000000000}; return d[sim::choose(9)]; }
enum { AT, AFTER, AT_EX, AFTER_EX, AT_ON, ON_AT, ON_AFTER };
// one task; the due time of a relative form is not known when the clock jumps during the call
template<class C, class S> static void sched_base(S& s, Rec& r, bool rel) { Rig& g = Rig::get(); Item& it = Plan::get().it[(u32)(&r - g.rec)]; it.real = ClockOf<C>::real; s64 d = pick_due(), now = ClockOf<C>::now(); it.due = it.real ? us_fl(now + d) : now + d; if (rel && it.real && Plan::get().jump) it.due = 0; submission(r, [&] { if (rel) s.submit_after(JobT(r), nsd(d)); else s.submit_at(JobT(r), ClockOf<C>::at(it.due)); }); it.pushed = sim_now(); it.hi = rel ? (s64)it.pushed + d : it.due; }
template<class C, class S, class X> static void sched_full(S& s, X& x, Rec& r) { bool lv = sim::flip(); typedef ClockOf<C> K; Rig& g = Rig::get(); Item& it = Plan::get().it[(u32)(&r - g.rec)]; it.real = K::real; s64 d = pick_due(), now = K::now(); it.due = it.real ? us_fl(now + d) : now + d; u32 how = sim::choose(5);
  JobT j(r); s64 at = it.due; if ((how == 1 || how == 4) && it.real && Plan::get().jump) it.due = 0; submission(r, [&] { switch (how) { case 0: if (lv) s.at(K::at(at)).submit(j); else s.at(K::at(at)).submit(JobT(r)); break; case 1: if (lv) s.after(nsd(d)).submit(j); else s.after(nsd(d)).submit(JobT(r)); break; case 2: if (lv) s.at(K::at(at)).on(x).submit(j); else s.at(K::at(at)).on(x).submit(JobT(r)); break; case 3: if (lv) s.on(x).at(K::at(at)).submit(j); else s.on(x).at(K::at(at)).submit(JobT(r)); break; default: if (lv) s.on(x).after(nsd(d)).submit(j); else s.on(x).after(nsd(d)).submit(JobT(r)); } }); if (lv) j.ok(); it.pushed = sim_now(); it.hi = how == 1 || how == 4 ? (s64)it.pushed + d : at; r.used = how >= 2; }

// waits for the accepted tasks, judges the order and the delay
static void settle_tasks(bool jump) { Rig& g = Rig::get(); for (u32 k = 0; k < 400; k++) { bool all = true; for (u32 i = 0; i < 32; i++) if (g.rec[i].accepted && !g.rec[i].done.get()) all = false; if (all) break; if (jump && k % 8 == 7) sim_clock_jump((s64)SEC * 100); sim_sleep_ns(SEC / 4); } for (u32 i = 0; i < 32; i++) if (g.rec[i].accepted) SIM_CHECK(g.rec[i].done.get() == 1, "lost", "task %u did not run", i); }
static void judge(bool single, bool late) { sim::Quiet quiet; Rig& g = Rig::get(); Plan& p = Plan::get(); for (u32 i = 0; i < 32; i++) { Rec& a = g.rec[i]; Item& x = p.it[i]; if (!a.accepted || !a.done.get()) continue; if (late && !x.real) { u64 from = std::max<u64>(x.pushed, x.due > 0 ? (u64)x.due : 0); SIM_CHECK(x.start <= from + SEC, "late", "task %u started %llu ns after its time", i, (unsigned long long)(x.start - from)); }
    if (single) for (u32 j = 0; j < 32; j++) { Rec& b = g.rec[j]; Item& y = p.it[j]; if (i == j || !b.accepted || !b.done.get() || x.real || y.real) continue; if (x.hi < y.due && (s64)x.pushed < y.due) SIM_CHECK(a.seq < b.seq, "order", "task %u is due before task %u and ran after it", i, j); } } }
// after the executor is gone: no task ran twice, none runs now
static void over() { Rig& g = Rig::get(); u64 n[32]; for (u32 i = 0; i < 32; i++) { n[i] = g.rec[i].runs.get(); if (g.rec[i].refused) SIM_CHECK(!n[i], "closed", "refused task %u ran", i); SIM_CHECK(n[i] <= 1 && g.rec[i].done.get() == n[i], "runs", "task %u ran %llu times and was done %llu times", i, (unsigned long long)n[i], (unsigned long long)g.rec[i].done.get()); } sim_sleep_ns(6 * SEC); for (u32 i = 0; i < 32; i++) SIM_CHECK(g.rec[i].runs.get() == n[i], "runs", "task %u ran after the end of the executor", i); }
struct Go { bool stall, jump; u32 subs, per; bool early; };
template<class C> static Go prepare() { Rig::start(); Go o; o.stall = sim::flip(); Plan::get().jump = o.jump = ClockOf<C>::real && sim::flip(); o.subs = sim::range(1, 3); o.per = sim::range(1, 3); o.early = sim::choose(3) == 0; sim_faults((o.stall ? SIM_DEFAULT_FAULTS : NOSTALL) | (o.jump ? 1u << SF_RJUMP : 0)); return o; }
template<class C, class S, class F> static void drive(S* s, Go o, bool single, F send) { Rig& g = Rig::get(); g.no_throw = false; g.kids = [=](Rec& r) { send(*s, r); };
  sim::Threads th; for (u32 i = 0; i < o.subs; i++) th.go([=] { Tag t("submitter"); for (u32 k = 0; k < o.per; k++) { nap(); send(*s, Rig::get().rec[i * 3 + k]); SIM_CHECK(!s->closed() || Rig::get().closing.get(), "closed", "closed without close"); } });
  if (o.early) { nap(); if (sim::flip()) sim_sleep_ns(sim::range(1, 30) * 10 * MS); g.closing.set(); s->close(); SIM_CHECK(s->closed(), "closed", "not closed after close"); g.closed.set(); if (sim::flip()) send(*s, g.rec[30]); th.join(); }
  else { th.join(); settle_tasks(o.jump); judge(single, !o.stall && !o.jump); g.closing.set(); }
  delete s; g.closed.set(); if (o.early) judge(false, false); }
SCENARIO(pool, 4) { Go o = prepare<StC>(); u32 w = sim::range(1, 3); drive<StC>(new boost::scheduled_thread_pool(w), o, w == 1, [](boost::scheduled_thread_pool& s, Rec& r) { sched_base<StC>(s, r, sim::flip()); }); over(); Rig::get().end(); }
SCENARIO(adaptor, 4) { Go o = prepare<StC>(); { boost::basic_thread_pool p(sim::range(1, 2)); typedef boost::scheduling_adaptor<boost::basic_thread_pool> S; S* s = new S(p); SIM_CHECK(&s->underlying_executor() == &p, "underlying", "another underlying executor"); drive<StC>(s, o, true, [](S& s, Rec& r) { sched_base<StC>(s, r, sim::flip()); }); } over(); Rig::get().end(); }
template<class C> static void scheduled() { Go o = prepare<C>(); bool x = sim::flip(); if (x && o.early) Rig::get().no_kids = true; { typedef boost::scheduler<C> S; boost::basic_thread_pool* p = new boost::basic_thread_pool(1); u32 worker = 0; { Flag f; p->submit([&] { worker = sim_self(); f.set(); }); f.await(); } S* s = new S(); drive<C>(s, o, !x, [=](S& s, Rec& r) { if (x) sched_full<C>(s, *p, r); else sched_base<C>(s, r, sim::flip()); });
    delete p; Rig& g = Rig::get(); for (u32 i = 0; i < 32; i++) if (g.rec[i].done.get()) SIM_CHECK((Plan::get().it[i].thread == worker) == g.rec[i].used, "executor", "task %u ran on the wrong executor", i); } over(); Rig::get().end(); }
SCENARIO(sched_steady, 4) { scheduled<StC>(); }
SCENARIO(sched_system, 4) { scheduled<SyC>(); }
// the derived executors: closing one closes nothing else, closing the scheduler or the target closes them
SCENARIO(derived, 1) { Rig& g = Rig::start(); sim_faults(NOSTALL); g.no_throw = g.no_kids = true; for (u32 i = 0; i < 4; i++) g.rec[i].before = 7; { boost::basic_thread_pool p(1); boost::scheduler<StC> s; u32 what = sim::choose(4); boost::at_executor<boost::scheduler<StC> > a = s.after(nsd(2000000)); boost::resubmit_at_executor<boost::scheduler<StC>, boost::basic_thread_pool> b = s.on(p).after(nsd(3000000)); SIM_CHECK(&a.underlying_scheduler() == &s && &b.underlying_scheduler() == &s && &b.underlying_executor() == &p, "underlying", "another scheduler or executor"); bool ca = what == 0 || what == 2, cb = what != 0; SIM_CHECK(!a.closed() && !b.closed(), "closed", "closed without close"); a.submit(Job_(g.rec[0])); b.submit(Job_(g.rec[1])); 
    sim_sleep_ns(SEC); SIM_CHECK(g.rec[0].done.get() == 1 && g.rec[1].done.get() == 1, "lost", "a task did not run"); if (what == 0) a.close(); if (what == 1) b.close(); if (what == 2) s.close(); if (what == 3) p.close();
    SIM_CHECK(a.closed() == ca && b.closed() == cb, "closed", "closed() is wrong"); bool ta = false, tb = false; try { a.submit(Job_(g.rec[2])); } catch (boost::sync_queue_is_closed&) { ta = true; } try { b.submit(Job_(g.rec[3])); } catch (boost::sync_queue_is_closed&) { tb = true; } SIM_CHECK(ta == ca && tb == cb, "closed", "a submission was %s", ta != ca ? ta ? "refused" : "accepted" : tb ? "refused" : "accepted"); sim_sleep_ns(SEC); SIM_CHECK(g.rec[2].done.get() == (u64)!ca && g.rec[3].done.get() == (u64)!cb, "lost", "a task did not run, or ran after close"); } sim_settle(); }
// threads or memory run out
SCENARIO(fail_make, 2) { Rig& g = Rig::start(); sim_faults(0); u32 w = sim::range(1, 3), form = sim::choose(3); bool mem = sim::flip(), made = false; boost::basic_thread_pool p(1); if (mem) { sim_faults(1u << SF_ALLOC); sim_alloc_fail_nth((int)sim::range(1, 14)); } else sim_fail_create((int)sim::range(1, form ? 1 : w)); try { if (form == 0) { boost::scheduled_thread_pool e(w); made = true; } else if (form == 1) { boost::scheduling_adaptor<boost::basic_thread_pool> e(p); made = true; } else { boost::scheduler<StC> e; made = true; } } catch (std::bad_alloc&) { SIM_CHECK(mem, "failure", "bad_alloc without an allocation failure"); } catch (boost::thread_resource_error&) { } sim_alloc_fail_nth(0); sim_fail_create(0); if (!mem) SIM_CHECK(!made, "failure", "a thread could not be created and the executor does not tell"); g.end(); }
SCENARIO(fail_submit, 1) { Rig& g = Rig::start(); sim_faults(0); g.no_throw = g.no_kids = true; u32 n = sim::range(1, 4), bad = sim::choose(n); { boost::scheduled_thread_pool e(1); for (u32 i = 0; i < n; i++) { if (i == bad) { sim_faults(1u << SF_ALLOC); sim_alloc_fail_nth((int)sim::range(1, 6)); } try { sched_base<StC>(e, g.rec[i], sim::flip()); } catch (std::bad_alloc&) { SIM_CHECK(i == bad, "failure", "bad_alloc without an allocation failure"); g.rec[i].refuse(); } sim_alloc_fail_nth(0); sim_faults(0); } settle_tasks(false); judge(true, false); g.closing.set(); } over(); g.end(); }
// the owner is interrupted: destroying a scheduler is no interruption point
SCENARIO(interrupted_owner, 2) { Rig& g = Rig::start(); g.no_throw = g.no_kids = true; sim_faults(NOSTALL); u32 n = sim::range(0, 3), form = sim::choose(4); bool before = sim::flip(); Flag over, go; boost::thread t([&] { Tag tg("owner"); if (before) go.await(); 
    switch (form) { case 0: { boost::scheduled_thread_pool s(sim::range(1, 2)); for (u32 i = 0; i < n; i++) sched_base<StC>(s, g.rec[i], sim::flip()); g.closing.set(); break; } case 1: { boost::basic_thread_pool p(1); boost::scheduling_adaptor<boost::basic_thread_pool> s(p); for (u32 i = 0; i < n; i++) sched_base<StC>(s, g.rec[i], sim::flip()); g.closing.set(); break; } case 2: { boost::scheduler<StC> s; for (u32 i = 0; i < n; i++) sched_base<StC>(s, g.rec[i], sim::flip()); g.closing.set(); break; }
      default: { u32 w = sim::range(1, 3); sim_fail_create((int)sim::range(1, w)); try { boost::scheduled_thread_pool s(w); SIM_CHECK(false, "failure", "a thread could not be created and the pool does not tell"); } catch (boost::thread_resource_error&) { } sim_fail_create(0); } } over.set(); }); if (!before) nap(); intr_thread(t); go.set(); t.join(); SIM_CHECK(over.get(), "interruption", "making or destroying the scheduler was interrupted"); ::over(); g.end(); }
// A clock that only moves when told: tasks run when it reaches their time, not before, in order on the scheduler's thread.
SCENARIO(manual_clock, 3) { sim_faults(NOSTALL); Rig::start(); static const u32 M = 6; u32 n = sim::range(1, M); s64 unit = sim::flip() ? 50 * (s64)MS : (s64)sim::range(1, 5) * (s64)SEC, base = sim::flip() ? 0 : -1000 * (s64)SEC, due[M]; struct G { Flag ran; u32 runs[M]; s64 last; bool all_here; } g; memset((void*)&g, 0, sizeof g); g.last = base; g.all_here = true; MClk::set(base); bool jumps = sim::flip(); {
  boost::basic_thread_pool p(1); boost::scheduler<MClk>* s = new boost::scheduler<MClk>; if (sim::flip()) sim_settle();
  for (u32 i = 0; i < n; i++) { due[i] = base + unit * (s64)(2 * sim::range(1, 4)); s64 rel = due[i] - base; auto job = [&g, &due, i] { sim::Quiet q; SIM_CHECK(MClk::t() >= due[i], "early", "task %u ran %lld ns before its time", i, (long long)(due[i] - MClk::t())); if (g.all_here) { SIM_CHECK(due[i] >= g.last, "order", "a task due earlier ran later"); g.last = due[i]; } g.runs[i]++; g.ran.v++; };
    switch (sim::choose(8)) { case 0: s->submit_at(job, MClk::at(due[i])); break; case 1: s->submit_after(job, bc::nanoseconds(rel)); break; case 2: s->at(MClk::at(due[i])).submit(job); break; case 3: s->after(bc::nanoseconds(rel)).submit(job); break; case 4: s->on(p).at(MClk::at(due[i])).submit(job); g.all_here = false; break; case 5: s->on(p).after(bc::nanoseconds(rel)).submit(job); g.all_here = false; break; case 6: s->at(MClk::at(due[i])).on(p).submit(job); g.all_here = false; break; default: s->after(bc::nanoseconds(rel)).on(p).submit(job); g.all_here = false; } if (sim::choose(4) == 0) nap(); }
  u32 want = 0; s64 upto = (s64)sim::range(4, 9); for (s64 step = 1; step <= upto; step++) { s64 now = base + unit * step; MClk::set(now); want = 0; for (u32 i = 0; i < n; i++) want += due[i] <= now; sim_sleep_ns(400 * MS); SIM_CHECK(g.ran.get() == want, g.ran.get() > want ? "early" : "late", "%llu tasks ran when %u were due", (unsigned long long)g.ran.get(), want); if (jumps && sim::choose(3) == 0) { MClk::set(now - unit * 30); sim_sleep_ns(sim::choose(3) * 70 * MS); SIM_CHECK(g.ran.get() == want, "early", "a task ran before its time"); } }
  s->close(); delete s; SIM_CHECK(g.ran.get() == want, "early", "a task that is not due ran when its scheduler was closed"); } for (u32 i = 0; i < n; i++) SIM_CHECK(g.runs[i] <= 1, "runs", "a task ran %u times", g.runs[i]); Rig::get().end(); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(12, 80); sim_faults(SIM_DEFAULT_FAULTS & ~(1u << SF_STALL)); static Flag ran[80]; for (Flag& r : ran) r.set(0); u32 last = 0; sim_step_limit(HUGE_STEPS); StC::time_point t0 = StC::now(); u32 a = 0; Flag done; { boost::scheduled_thread_pool p(1); for (u32 i = 0; i < n; i++) { a = (a * 7 + 31 + sim::choose(3)) % 900; u32 due = 100 + a; p.submit_at([&, i, due] { SIM_CHECK(StC::now() >= t0 + bc::milliseconds(due), "early", "task %u runs before its time", i); SIM_CHECK(due >= last, "order", "a task due at %u ms runs after one due at %u ms", due, last); last = due; ran[i].add(); done.add(); }, t0 + bc::milliseconds(due)); } sim_sleep_ns(2 * SEC); SIM_CHECK(done.get() == n, "late", "%llu of %u tasks ran though all are due", (unsigned long long)done.get(), n); } for (u32 i = 0; i < n; i++) SIM_CHECK(ran[i].get() == 1, "runs", "task %u ran %llu times", i, (unsigned long long)ran[i].get()); }

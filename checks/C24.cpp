// C24 Executors run every accepted task exactly once.
#include "exec.h"
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/user_scheduler.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>

// ---- submitters, one closer, one destroyer; Own makes, drains and destroys the executor
struct Pool { typedef boost::basic_thread_pool E; static const bool runs_itself = true; };
template<class E> struct Life { E* e; Life() : e(0) {} void close() { e->close(); } };

static void entered() { nap(); SIM_CHECK(ran_here() == 0, "entry", "a thread of the pool ran tasks before its entry function"); Rig::get().entries.add(); }
static void entry_fn(boost::basic_thread_pool&) { entered(); }
struct EntryF { u32 magic; EntryF() : magic(0xF00D) {} ~EntryF() { magic = 0; } void operator()(boost::basic_thread_pool&) { SIM_CHECK(magic == 0xF00D, "closure", "a thread entry function was used after its destruction"); entered(); } };
// submits `n` tasks through one of the interfaces of an executor
template<class E> static void submitter(E& ex, u32 base, u32 n) { Rig& g = Rig::get(); boost::generic_executor_ref ref(ex); boost::executor_ref<E> eref(ex); boost::executor& vex = eref; u32 how = sim::choose(4);
  for (u32 i = 0; i < n; i++) { nap(); Rec& r = g.rec[base + i]; if (how == 0) submit_one(ex, r); else if (how == 1) submit_one(ref, r); else if (how == 2) submit_one(vex, r); else submit_async(ex, r); if (sim::choose(4) == 0) { bool c = g.closing.get() != 0, d = g.closed.get() != 0; bool is = ex.closed(); if (d) SIM_CHECK(is, "closed", "not closed after close"); if (is) SIM_CHECK(c || g.closing.get(), "closed", "closed without close"); } } }
template<class E> static void closer(E& ex) { Rig& g = Rig::get(); boost::generic_executor_ref ref(ex); boost::executor_ref<E> eref(ex); boost::executor& vex = eref; g.closing.set(); switch (sim::choose(3)) { case 0: ex.close(); break; case 1: ref.close(); break; default: vex.close(); } SIM_CHECK(ex.closed() && ref.closed() && vex.closed(), "closed", "not closed after close"); g.closed.set(); }
template<class E> static void stealer_(E& ex, u32 n) { for (u32 i = 0; i < n; i++) { nap(); if (sim::choose(3) == 0) { u32 c = ran_here(); u32 lim = sim::choose(3); bool all = ex.reschedule_until([&] { return ran_here() - c >= lim; }); u32 got = ran_here() - c; if (all) SIM_CHECK(got >= 1 && got >= lim, "try", "reschedule_until reports success after %u tasks", got); else SIM_CHECK(got == 0 || got < lim, "try", "reschedule_until reports failure after %u tasks", got); continue; } u32 b = ran_here(); bool did = ex.try_executing_one(); u32 a = ran_here(); SIM_CHECK(a - b == (did ? 1u : 0u), "try", "try_executing_one returned %d and ran %u tasks", (int)did, a - b); } }
template<class E> static void stealer(E& ex, u32 n) { boost::generic_executor_ref ref(ex); boost::executor_ref<E> eref(ex); boost::executor& vex = eref; switch (sim::choose(3)) { case 0: stealer_(ex, n); break; case 1: stealer_(ref, n); break; default: stealer_(vex, n); } }
static const u32 PER = 3;
struct Plan { u32 subs, per, steal; bool close, late; };
static Plan plan() { Plan p; p.subs = sim::range(1, 3); p.per = sim::range(1, PER); p.steal = sim::choose(3); p.close = sim::flip(); p.late = sim::choose(3) == 0; return p; }

SCENARIO(pool, 8) { Rig& g = Rig::start(); Plan p = plan(); u32 w = sim::range(1, 3), form = sim::choose(3); { boost::basic_thread_pool* ex = form == 0 ? new boost::basic_thread_pool(w) : form == 1 ? new boost::basic_thread_pool(w, &entry_fn) : new boost::basic_thread_pool(w, EntryF()); g.kids = [ex](Rec& r) { submit_one(*ex, r); }; sim::Threads th; for (u32 s = 0; s < p.subs; s++) th.go([=] { Tag t("submitter"); submitter(*ex, s * PER, p.per); }); if (p.steal == 2) th.go([=] { Tag t("stealer"); stealer(*ex, 2); }); if (p.close) { if (p.late) th.join(); else nap(); closer(*ex); if (sim::flip()) submit_one(*ex, g.rec[30]); } th.join(); if (p.close && sim::flip()) ex->join(); g.closing.set(); delete ex; g.closed.set(); g.finish(); if (form) SIM_CHECK(g.entries.get() == w, "entry", "%llu entry functions ran for %u threads", (unsigned long long)g.entries.get(), w); } g.end(); }
SCENARIO(pool_immediate, 5) { Rig& g = Rig::start(); u32 w = sim::range(1, 2), n = sim::range(1, 4); { boost::executor_adaptor<boost::basic_thread_pool>* ex = new boost::executor_adaptor<boost::basic_thread_pool>(w); boost::executor& e = *ex; g.kids = [ex](Rec& r) { submit_one(*ex, r); }; if (sim::flip()) sim_settle(); for (u32 i = 0; i < n; i++) submit_one(e, g.rec[i]); if (sim::choose(3) == 0) stealer_(e, sim::range(1, 2)); if (sim::choose(3) == 0) nap(); SIM_CHECK(!e.closed(), "closed", "closed without close"); g.closing.set(); if (sim::choose(3) == 0) { e.close(); SIM_CHECK(e.closed() && ex->underlying_executor().closed(), "closed", "not closed after close"); g.closed.set(); submit_one(e, g.rec[30]); } delete ex; g.closed.set(); g.finish(); } g.end(); }
SCENARIO(threads, 4) { Rig& g = Rig::start(); g.no_throw = true; Plan p = plan(); { boost::thread_executor* ex = new boost::thread_executor(); g.kids = [ex](Rec& r) { submit_one(*ex, r); }; g.probe = [ex] { return ex->closed(); }; sim::Threads th; for (u32 s = 0; s < p.subs; s++) th.go([=] { Tag t("submitter"); submitter(*ex, s * PER, p.per); }); if (p.close) { if (p.late) th.join(); else nap(); closer(*ex); if (sim::flip()) submit_one(*ex, g.rec[30]); } th.join(); SIM_CHECK(!ex->try_executing_one(), "try", "a thread_executor has nothing to execute"); g.closing.set(); delete ex; g.closed.set(); g.finish(); } g.end(); }
template<class E> static void loop_run() { Rig& g = Rig::start(); g.no_throw = true; Plan p = plan(); u32 w = sim::range(1, 2); { E* ex = new E(); g.kids = [ex](Rec& r) { submit_one(*ex, r); }; sim::Threads th, lp; for (u32 s = 0; s < p.subs; s++) th.go([=] { Tag t("submitter"); submitter(*ex, s * PER, p.per); }); for (u32 i = 0; i < w; i++) lp.go([=] { Tag t("loop"); ex->loop(); SIM_CHECK(ex->closed(), "closed", "a loop ended before close"); }); if (p.steal == 2) th.go([=] { Tag t("stealer"); stealer(*ex, 2); }); if (p.late) th.join(); else nap(); closer(*ex); if (sim::flip()) submit_one(*ex, g.rec[30]); lp.join(); th.join(); while (ex->try_executing_one()) SIM_CHECK(p.steal == 2 || !p.late, "runs", "a loop left a task behind"); g.finish(); delete ex; } g.end(); }
SCENARIO(loop, 5) { loop_run<boost::loop_executor>(); }
SCENARIO(user_loop, 3) { loop_run<boost::user_scheduler>(); }
// the queue is drained by hand
template<class E> static void hand_run() { Rig& g = Rig::start(); g.no_throw = true; u32 n = sim::range(1, 4), left = n; { E ex; g.kids = [&](Rec& r) { submit_one(ex, r); }; for (u32 i = 0; i < n; i++) submit_one(ex, g.rec[i]); switch (sim::choose(3)) { case 0: ex.run_queued_closures(); break; case 1: while (ex.try_executing_one()) {} break; default: { u32 b = ran_here(); SIM_CHECK(ex.reschedule_until([&] { return ran_here() - b >= n; }), "try", "reschedule_until ran out of tasks"); SIM_CHECK(ran_here() - b >= n, "try", "reschedule_until stopped early"); } } for (u32 i = 0; i < n; i++) { SIM_CHECK(g.rec[i].runs.get() == 1, "runs", "a queued task ran %llu times", (unsigned long long)g.rec[i].runs.get()); left--; } while (ex.try_executing_one()) {} g.closing.set(); ex.close(); g.closed.set(); if (sim::flip()) submit_one(ex, g.rec[30]); ex.loop(); g.finish(); } g.end(); }
SCENARIO(loop_by_hand, 2) { if (sim::flip()) hand_run<boost::loop_executor>(); else hand_run<boost::user_scheduler>(); }
SCENARIO(inlined, 2) { Rig& g = Rig::start(); g.no_throw = true; Plan p = plan(); { boost::inline_executor* ex = new boost::inline_executor(); g.here = true; g.kids = [ex](Rec& r) { submit_one(*ex, r); }; g.probe = [ex] { return ex->closed(); }; sim::Threads th; for (u32 s = 0; s < p.subs; s++) th.go([=] { Tag t("submitter"); submitter(*ex, s * PER, p.per); }); if (p.close) { nap(); closer(*ex); submit_one(*ex, g.rec[30]); } th.join(); SIM_CHECK(!ex->try_executing_one(), "try", "an inline_executor has nothing to execute"); delete ex; g.finish(); } g.end(); }
// interrupt() reaches every worker, whatever it does, and so does the destructor
SCENARIO(pool_interrupt, 2) { sim_faults(SIM_DEFAULT_FAULTS); struct S { Flag in, out, fin; bool idle; } s; u32 w = sim::range(1, 3), busy = sim::choose(w + 1), how = sim::choose(3); { boost::basic_thread_pool* ex = new boost::basic_thread_pool(w);
  for (u32 i = 0; i < busy; i++) ex->submit([&s] { s.in.add(); try { boost::this_thread::sleep_for(bc::hours(10000)); s.fin.add(); } catch (boost::thread_interrupted&) { s.out.add(); throw; } }); while (s.in.get() < busy) sim_sleep_ns(MS); if (sim::flip()) sim_settle();
  if (how == 0) { Tag t("interrupt of a pool"); ex->interrupt(); ex->join(); } else if (how == 1) { Tag t("interrupt_and_join of a pool"); ex->interrupt_and_join(); } else { Tag t("destructor of a pool"); delete ex; ex = 0; }
  SIM_CHECK(s.out.get() == busy && !s.fin.get(), "interrupt", "%llu of %u waiting closures were interrupted", (unsigned long long)s.out.get(), busy); delete ex; } SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked"); }
// one task at a time by hand, while no worker of the pool is free
template<class E, class F> static void hand_one(E& ex, F&& one) { Rig& g = Rig::get(); u32 n = sim::range(1, 4); for (u32 i = 0; i < n; i++) submit_one(ex, g.rec[i]); for (u32 i = 0; i < n; i++) { u32 b = ran_here(); if (sim::flip()) SIM_CHECK(ex.reschedule_until([] { return true; }), "try", "reschedule_until(true) reports failure"); else one(ex); SIM_CHECK(ran_here() - b == 1, "try", "running one task by hand ran %u", ran_here() - b); } u32 b = ran_here(); one(ex); SIM_CHECK(ran_here() == b && !ex.try_executing_one() && !ex.reschedule_until([] { return true; }), "try", "an empty executor ran a task"); for (u32 i = 0; i < n; i++) submit_one(ex, g.rec[8 + i]); SIM_CHECK(!ex.reschedule_until([] { return false; }) && ran_here() - b == n, "try", "reschedule_until(false) ran %u of %u tasks", ran_here() - b, n); }
SCENARIO(one_by_hand, 2) { Rig& g = Rig::start(); g.no_throw = true; g.kids = [](Rec&) {}; u32 k = sim::choose(3);
  if (k == 0) { Flag in, go; boost::basic_thread_pool* ex = new boost::basic_thread_pool(1); ex->submit([&] { in.set(); go.await(); }); in.await(); hand_one(*ex, [](boost::basic_thread_pool& e) { e.schedule_one_or_yield(); }); go.set(); g.closing.set(); delete ex; g.closed.set(); g.finish(); }
  else if (k == 1) { boost::loop_executor* ex = new boost::loop_executor; hand_one(*ex, [](boost::loop_executor& e) { e.try_executing_one(); }); g.closing.set(); ex->close(); g.closed.set(); g.finish(); delete ex; } else { boost::user_scheduler* ex = new boost::user_scheduler; hand_one(*ex, [](boost::user_scheduler& e) { e.try_executing_one(); }); g.closing.set(); ex->close(); g.closed.set(); g.finish(); delete ex; } g.end(); }
// a pool shared through several references that outlive each other
SCENARIO(references, 2) { Rig& g = Rig::start(); u32 n = sim::range(1, 3); { boost::basic_thread_pool* ex = new boost::basic_thread_pool(sim::range(1, 2)); g.kids = [ex](Rec& r) { submit_one(*ex, r); }; { boost::generic_executor_ref* a = new boost::generic_executor_ref(*ex); boost::generic_executor_ref b(*a); submit_one(*a, g.rec[0]); delete a; for (u32 i = 1; i < n; i++) submit_one(b, g.rec[i]); if (sim::flip()) { g.closing.set(); b.close(); SIM_CHECK(b.closed() && ex->closed(), "closed", "not closed after close"); g.closed.set(); submit_one(b, g.rec[30]); } } g.closing.set(); delete ex; g.closed.set(); g.finish(); } g.end(); }

// ---- threads or memory run out
SCENARIO(fail_make, 3) { Rig& g = Rig::start(); sim_faults(0); u32 w = sim::range(1, 3), nth = sim::range(1, w); bool mem = sim::flip(), made = false; if (mem) { sim_faults(1u << SF_ALLOC); sim_alloc_fail_nth((int)sim::range(1, 14)); } else sim_fail_create((int)nth); u32 form = sim::choose(3); try { boost::basic_thread_pool* ex = form == 0 ? new boost::basic_thread_pool(w) : form == 1 ? new boost::basic_thread_pool(w, &entry_fn) : new boost::basic_thread_pool(w, EntryF()); sim_alloc_fail_nth(0); sim_fail_create(0); made = true; submit_one(*ex, g.rec[0]); g.closing.set(); delete ex; g.closed.set(); } catch (std::bad_alloc&) { sim_alloc_fail_nth(0); SIM_CHECK(mem, "failure", "bad_alloc without an allocation failure"); } catch (boost::thread_resource_error&) { sim_alloc_fail_nth(0); } sim_fail_create(0); if (!mem) SIM_CHECK(!made, "failure", "a thread could not be created and the pool does not tell"); g.finish(); g.end(); }
template<class E> static void fail_submit(E* ex, Rig& g, u32 n, bool drain) { sim::Threads lp; (void)drain; u32 bad = sim::choose(n); for (u32 i = 0; i < n; i++) { if (i == bad) { if (sim::flip()) sim_fail_create(1); else { sim_faults(1u << SF_ALLOC); sim_alloc_fail_nth((int)sim::range(1, 8)); } } Rec& r = g.rec[i]; try { submit_one(*ex, r); } catch (std::bad_alloc&) { r.refuse(); } catch (boost::thread_resource_error&) { r.refuse(); } sim_alloc_fail_nth(0); sim_fail_create(0); sim_faults(0); } }
SCENARIO(fail_submit, 3) { Rig& g = Rig::start(); sim_faults(0); g.no_throw = g.no_kids = true; u32 n = sim::range(1, 3); switch (sim::choose(3)) { case 0: { boost::basic_thread_pool* ex = new boost::basic_thread_pool(1); sim_settle(); fail_submit(ex, g, n, false); delete ex; break; } case 1: { boost::thread_executor* ex = new boost::thread_executor(); fail_submit(ex, g, n, false); delete ex; break; } default: { boost::loop_executor ex; fail_submit(&ex, g, n, true); ex.close(); ex.loop(); } } g.finish(); g.end(); }
// the owner is interrupted: making and destroying an executor are no interruption points, and the tasks complete
template<class F> static void by_interrupted(F fn) { Flag over; bool before = sim::flip(); Flag go; boost::thread t([&] { Tag g("owner"); if (before) go.await(); fn(); SIM_CHECK(boost::this_thread::interruption_enabled(), "interruption", "interruption is left disabled"); over.set(); }); if (!before) nap(); intr_thread(t); go.set(); t.join(); SIM_CHECK(over.get(), "interruption", "making or destroying the executor was interrupted"); }
SCENARIO(interrupted_owner, 3) { Rig& g = Rig::start(); u32 n = sim::range(0, 3), w = sim::range(1, 2), form = sim::choose(3); g.no_throw = true; by_interrupted([&] { if (form == 2) { sim_fail_create((int)sim::range(1, w)); try { boost::basic_thread_pool p(w); SIM_CHECK(false, "failure", "a thread could not be created and the pool does not tell"); } catch (boost::thread_resource_error&) { } sim_fail_create(0); return; } if (form) { boost::thread_executor ex; for (u32 i = 0; i < n; i++) submit_one(ex, g.rec[i]); g.closing.set(); } else { boost::basic_thread_pool ex(w); for (u32 i = 0; i < n; i++) submit_one(ex, g.rec[i]); g.closing.set(); } g.finish(); }); g.end(); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(40, 300), w = sim::range(1, 8), form = sim::choose(4); static Flag ran[300]; for (Flag& r : ran) r.set(0); sim_step_limit(HUGE_STEPS); auto job = [](u32 i) { return [i] { ran[i].add(); }; }; sim::Threads th;
  switch (form) { case 0: { boost::basic_thread_pool p(w); th.go([&] { for (u32 i = 0; i < n / 2; i++) p.submit(job(i)); }); for (u32 i = n / 2; i < n; i++) p.submit(job(i)); th.join(); if (sim::flip()) { p.close(); p.join(); } break; }
    case 1: { boost::loop_executor p; th.go([&] { for (u32 i = 0; i < n / 2; i++) p.submit(job(i)); }); for (u32 i = n / 2; i < n; i++) p.submit(job(i)); th.join(); if (sim::flip()) { p.run_queued_closures(); } p.close(); p.loop(); break; }
    case 2: { n = sim::range(10, 34); boost::thread_executor p; for (u32 i = 0; i < n; i++) p.submit(job(i)); break; }
    default: { boost::basic_thread_pool p(w); for (u32 i = 0; i < n; i++) p.submit(job(i)); u32 k = sim::choose(n); while (k-- && p.try_executing_one()) { } break; } }
  for (u32 i = 0; i < 300; i++) SIM_CHECK(ran[i].get() == (i < n ? 1u : 0u), "runs", "task %u of %u ran %llu times", i, n, (unsigned long long)ran[i].get()); }

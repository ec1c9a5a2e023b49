// C25 Serial executors run tasks one at a time, in submission order.
#include "exec.h"
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>

// the underlying executors; pause() lets nothing through for a while
struct UPool { typedef boost::basic_thread_pool E; static const bool async = true; E e; UPool() : e(sim::range(1, 3)) {} };
struct UThreads { typedef boost::thread_executor E; static const bool async = true; E e; };
struct UInline { typedef boost::inline_executor E; static const bool async = false; E e; };
struct ULoop { typedef boost::loop_executor E; static const bool async = true; E e; sim::Threads t; ULoop() { u32 n = sim::range(1, 2); for (u32 i = 0; i < n; i++) t.go([this] { Tag g("loop"); e.loop(); }); } ~ULoop() { e.close(); t.join(); } };
struct USerial { typedef boost::serial_executor E; static const bool async = true; boost::basic_thread_pool p; E e; USerial() : p(sim::range(1, 2)), e(p) {} };

template<class S> static void send(S& s, Rec& r, u32 how) { if (how == 0) submit_one(s, r); else if (how == 1) { boost::generic_executor_ref g(s); submit_one(g, r); } else { boost::executor_ref<S> e(s); boost::executor& v = e; submit_one(v, r); } }
template<class S> static void close_it(S& s, bool again) { Rig& g = Rig::get(); g.closing.set(); s.close(); SIM_CHECK(s.closed(), "closed", "not closed after close"); g.closed.set(); if (again) submit_one(s, g.rec[30]); }
// `subs` threads submit to a serial executor over an underlying executor
template<class U, class S> static void serial(bool throwing, bool kids) { Rig& g = Rig::start(); g.serial = true; g.throwing = throwing && sim::flip(); g.no_kids = !kids; u32 subs = sim::range(1, 3), per = sim::range(1, 3); bool close = sim::flip(), late = sim::choose(3) == 0, beside = sim::choose(4) == 0;
  { U* u = new U(); S* s = new S(u->e); g.kids = [s](Rec& r) { submit_one(*s, r); }; if (kids && sim::choose(3) == 0) g.probe = [s] { return s->closed(); }; sim::Threads th;
    for (u32 i = 0; i < subs; i++) th.go([=] { Tag t("submitter"); u32 how = sim::choose(3); for (u32 k = 0; k < per; k++) { nap(); Rec& r = Rig::get().rec[i * 3 + k]; send(*s, r, how); if (sim::choose(4) == 0) { bool d = Rig::get().closed.get() != 0; bool is = s->closed(); if (d) SIM_CHECK(is, "closed", "not closed after close"); if (is) SIM_CHECK(Rig::get().closing.get(), "closed", "closed without close"); } } });
    if (beside) th.go([=] { Tag t("beside"); for (u32 k = 0; k < 2; k++) { nap(); u->e.submit([] { dwell(); }); } });
    if (close) { if (late) th.join(); else nap(); close_it(*s, sim::flip()); }
    th.join(); g.closing.set(); if (sim::choose(3) == 0) nap(); delete s; g.closed.set(); { Rig& r = Rig::get(); for (u32 i = 0; i < 32; i++) if (r.rec[i].accepted) SIM_CHECK(r.rec[i].done.get() == 1, "destructor", "task %u is not done when the serial executor is gone", i); }
    if (sim::flip()) { Flag& f = g.entries; u->e.submit([&f] { f.add(); }); } delete u; g.finish(); } g.end(); }
SCENARIO(serial_pool, 6) { serial<UPool, boost::serial_executor>(true, true); }
SCENARIO(serial_threads, 3) { serial<UThreads, boost::serial_executor>(true, true); }
SCENARIO(serial_inline, 3) { serial<UInline, boost::serial_executor>(true, true); }
SCENARIO(serial_loop, 3) { serial<ULoop, boost::serial_executor>(true, true); }
SCENARIO(serial_serial, 2) { serial<USerial, boost::serial_executor>(true, true); }
SCENARIO(cont_pool, 6) { serial<UPool, boost::serial_executor_cont>(false, true); }
SCENARIO(cont_threads, 3) { serial<UThreads, boost::serial_executor_cont>(false, true); }
SCENARIO(cont_inline, 3) { serial<UInline, boost::serial_executor_cont>(false, false); }
SCENARIO(cont_loop, 3) { serial<ULoop, boost::serial_executor_cont>(false, true); }
SCENARIO(cont_serial, 2) { serial<USerial, boost::serial_executor_cont>(false, true); }
// two serial executors share a pool: each keeps its order
template<class S> static void pair() { Rig& g = Rig::start(); struct Two { u32 next[2]; Flag in[2]; }; static Two two; two = Two(); u32 n = sim::range(1, 4); { boost::basic_thread_pool* u = new boost::basic_thread_pool(sim::range(1, 2)); S* s[2] = {new S(*u), new S(*u)}; sim::Threads th; for (u32 k = 0; k < 2; k++) { S* x = s[k]; th.go([=] { Tag t("submitter"); for (u32 i = 0; i < n; i++) { nap(); x->submit([=] { SIM_CHECK(two.in[k].get() == 0, "overlap", "two tasks of a serial executor run at once"); two.in[k].set(1); SIM_CHECK(two.next[k] == i, "order", "task %u runs as number %u", i, two.next[k]); two.next[k]++; dwell(); two.in[k].set(0); }); } }); } th.join(); for (u32 k = 0; k < 2; k++) { delete s[k]; SIM_CHECK(two.next[k] == n, "runs", "%u of %u tasks ran", two.next[k], n); } delete u; } (void)g; sim_settle(); }
SCENARIO(pair_serial, 2) { pair<boost::serial_executor>(); }
SCENARIO(pair_cont, 2) { pair<boost::serial_executor_cont>(); }

// ---- memory runs out in a submission: it is refused, the accepted ones run in order. (A serial_executor_cont drops a task that it cannot hand on.)
template<class U, class S> static void fail_submission(bool cont) { Rig& g = Rig::start(); g.serial = true; g.no_throw = g.no_kids = true; sim_faults(0); u32 n = sim::range(2, 4), bad = sim::choose(n); { U* u = new U(); S* s = new S(u->e); for (u32 i = 0; i < n; i++) { Rec& r = g.rec[i]; bool hit = i == bad; if (hit) { sim_faults(1u << SF_ALLOC); sim_alloc_fail_nth((int)sim::range(1, 10)); } try { submit_one(*s, r); } catch (std::bad_alloc&) { SIM_CHECK(hit, "failure", "bad_alloc without an allocation failure"); r.refuse(); } sim_alloc_fail_nth(0); sim_faults(0); } g.closing.set(); delete s; g.closed.set(); delete u; if (cont && !g.rec[bad].runs.get()) g.rec[bad].accepted.set(0); g.finish(); } g.end(); }
SCENARIO(fail_cont, 2) { fail_submission<UInline, boost::serial_executor_cont>(true); }
SCENARIO(fail_cont_pool, 1) { fail_submission<UPool, boost::serial_executor_cont>(true); }
SCENARIO(fail_serial, 1) { fail_submission<UPool, boost::serial_executor>(false); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(20, 120); u32 next = 0; Flag in; sim_step_limit(HUGE_STEPS); boost::basic_thread_pool pool(sim::range(1, 4)); boost::generic_executor_ref ref(pool); auto job = [&](u32 i) { return [&, i] { in.add(); SIM_CHECK(in.get() == 1, "overlap", "two tasks of a serial executor run at once"); SIM_CHECK(next == i, "order", "task %u runs where task %u is due", i, next); next++; in.add(-1); }; }; if (sim::flip()) { boost::serial_executor s(ref); for (u32 i = 0; i < n; i++) s.submit(job(i)); } else { boost::serial_executor_cont s(ref); for (u32 i = 0; i < n; i++) s.submit(job(i)); } SIM_CHECK(next == n, "runs", "%u of %u tasks ran", next, n); }

// C31 task_region: no task outlives its region, no exception is lost.
#include "exec.h"
#include <boost/thread/experimental/task_region.hpp>
#include <boost/thread/experimental/exception_list.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#endif
namespace par = boost::experimental::parallel;
enum { MAXT = 30, INTR = 62, FAIL = 63 };
static const u64 FAULT = 1ull << FAIL;
struct Task { Flag runs, done, accepted, refused, threw, live; u32 before, after, region; };
struct World { Task t[MAXT]; u64 thrown; u32 next, regions; bool fault, quiet; static World& get() { static World w; return w; } };
static World& W() { return World::get(); }
static u64 bit(u32 i) { return 1ull << i; }
static u32 fresh() { sim::Quiet q; World& w = W(); return w.next < MAXT ? w.next++ : (u32)MAXT; }
struct Thrown { u64 set; };
// what an exception consists of
static u64 ids_now() { try { throw; } catch (Boom& b) { return bit((u32)b.v); } catch (boost::thread_interrupted&) { return bit(INTR); } catch (std::bad_alloc&) { return FAULT; } catch (boost::thread_resource_error&) { return FAULT; } catch (par::task_canceled_exception&) { return bit(61); }
  catch (par::exception_list& l) { u64 s = 0; size_t n = 0; for (par::exception_list::const_iterator i = l.begin(); i != l.end(); ++i, ++n) { try { boost::rethrow_exception(*i); } catch (...) { s |= ids_now(); } } SIM_CHECK(n == l.size(), "list", "the list has %zu elements and size %zu", n, l.size()); return s; } catch (...) { return W().fault ? FAULT : bit(60); } }
struct Mine { u32 id[MAXT], n; Mine() : n(0) {} };
// tasks of one region which run() accepted are complete
static void complete(Mine const& m, const char* when) { for (u32 i = 0; i < m.n; i++) { Task& t = W().t[m.id[i]]; if (t.refused.get()) { SIM_CHECK(t.runs.get() == 0, "refused", "task %u ran although run() failed", m.id[i]); continue; } if (!t.accepted.get()) continue; SIM_CHECK(t.runs.get() == 1, "runs", "task %u ran %llu times when %s", m.id[i], (unsigned long long)t.runs.get(), when); SIM_CHECK(t.done.get() == 1, "outlives", "task %u is not complete when %s", m.id[i], when); SIM_CHECK(t.after == 11, "visibility", "effects of task %u are missing when %s (%u)", m.id[i], when, t.after); } }
static bool any_threw(Mine const& m) { for (u32 i = 0; i < m.n; i++) if (W().t[m.id[i]].threw.get()) return true; return false; }
struct Env { u32 depth; void* ex; u32 kind; };
static void nested(Env e, u64& got, bool& did);
static void act(u32 id, Env e) { Tag tg("task"); World& w = W(); Task& t = w.t[id]; t.runs.add(); SIM_CHECK(t.runs.get() == 1, "runs", "task %u runs twice", id); SIM_CHECK(t.before == 7, "visibility", "effects before run() are missing in task %u (%u)", id, t.before); t.after = 10;
  struct End { Task& t; ~End() { t.after = 11; t.done.add(); } } end = {t};
  try { dwell(); if (sim::choose(3) == 0) { if (sim::flip()) boost::this_thread::sleep_for(boost::chrono::milliseconds(sim::range(1, 9))); else sim_sleep_ns(sim::range(1, 20) * MS); } if (e.depth && sim::choose(3) == 0) { u64 got = 0; bool did = false; Env f = e; f.depth--; nested(f, got, did); } dwell(); if (sim::choose(4) == 0 && !w.quiet) { if (sim::choose(6) == 0) throw boost::thread_interrupted(); throw Boom((int)id); } }
  catch (...) { u64 s = ids_now(); { sim::Quiet q; w.thrown |= s; } t.threw.set(s | (1ull << 59)); throw; } }
struct Job { u32 id, magic; Env e; Job(u32 i, Env x) : id(i), magic(0xF00D), e(x) { W().t[id].live.add(); } Job(Job&& o) noexcept : id(o.id), magic(0xF00D), e(o.e) { SIM_CHECK(o.magic == 0xF00D, "closure", "a dead closure was moved"); o.magic = 0xE11F; W().t[id].live.add(); } Job(Job const& o) : id(o.id), magic(0xF00D), e(o.e) { SIM_CHECK(o.magic == 0xF00D, "closure", "a dead closure was copied"); W().t[id].live.add(); } ~Job() { SIM_CHECK(magic == 0xF00D || magic == 0xE11F, "closure", "a closure was destroyed twice"); magic = 0xDEAD; W().t[id].live.add(-1); } void operator()() const { SIM_CHECK(magic == 0xF00D, "closure", "a dead closure was run"); act(id, e); SIM_CHECK(magic == 0xF00D, "closure", "a closure died while it ran"); } };
struct JobMv : Job { JobMv(u32 i, Env x) : Job(i, x) {} JobMv(JobMv&& o) noexcept : Job(static_cast<Job&&>(o)) {} };
// the body of a region; own: what it threw itself, caught: whether it swallows failures of run and wait
template<class TR> static void body(TR& tr, Mine& m, u64& own, Env e) { World& w = W(); u32 n = sim::range(0, 5); bool swallow = sim::flip(), reported = false;
  try { for (u32 k = 0; k < n; k++) { if (sim::choose(3) == 0) dwell(); if (sim::choose(5) == 0) { if (sim::flip()) boost::this_thread::sleep_for(boost::chrono::milliseconds(sim::range(1, 5))); else sim_sleep_ns(sim::range(1, 20) * MS); }
      if (k && sim::choose(3) == 0) { try { tr.wait(); SIM_CHECK(!reported, "canceled", "wait() returned after an earlier one threw"); complete(m, "wait() returned"); SIM_CHECK(!any_threw(m), "wait-lost", "wait() returned although a task threw"); } catch (par::exception_list& l) { complete(m, "wait() threw"); u64 s = 0; for (u32 i = 0; i < m.n; i++) s |= w.t[m.id[i]].threw.get(); s &= ~(1ull << 59); reported = true; u64 got = ids_now(); if (!w.fault) SIM_CHECK(got == s, "wait-list", "wait() threw %llx, the tasks threw %llx", (unsigned long long)got, (unsigned long long)s); if (!swallow) throw; } catch (par::task_canceled_exception&) { SIM_CHECK(any_threw(m), "canceled", "wait() was cancelled and no task threw"); if (!swallow) throw; } }
      u32 id = fresh(); if (id == MAXT) break; Task& t = w.t[id]; t.before = 7; m.id[m.n++] = id; try { if (sim::flip()) tr.run(Job(id, e)); else tr.run(JobMv(id, e)); t.accepted.set(); SIM_CHECK(!reported, "canceled", "run() started a task after wait() threw"); } catch (par::task_canceled_exception&) { t.refused.set(); SIM_CHECK(any_threw(m), "canceled", "run() was cancelled and no task threw"); if (!swallow) throw; } catch (...) { t.refused.set(); SIM_CHECK(w.fault || (ids_now() == bit(INTR)), "run", "run() threw without a reason"); if (!swallow) throw; own |= 0; } }
    if (sim::choose(5) == 0 && !w.quiet) throw Boom(50); }
  catch (par::task_canceled_exception&) { throw; } catch (...) { own |= ids_now(); throw; } }
// what the caller of a region sees
struct Seen { Mine m; u64 own; u64 got; bool threw; Seen() : own(0), got(0), threw(false) {} };
static void judge(Seen& s) { World& w = W(); complete(s.m, "the region returned"); u64 want = s.own; bool any = s.own != 0; for (u32 i = 0; i < s.m.n; i++) { u64 t = w.t[s.m.id[i]].threw.get(); want |= t & ~(1ull << 59); any |= t != 0; } if (w.fault) { SIM_CHECK(s.threw || !any, "lost", "a task threw and the region did not"); SIM_CHECK(!(s.got & ~(want | FAULT)), "list", "the region threw %llx, thrown were %llx", (unsigned long long)s.got, (unsigned long long)want); return; } SIM_CHECK(s.threw == any, s.threw ? "list" : "lost", s.threw ? "the region threw %llx and no task did" : "a task threw and the region did not (%llx)", (unsigned long long)(s.threw ? s.got : want)); SIM_CHECK(!(want & ~s.got), "lost", "exceptions %llx were thrown and the region threw %llx", (unsigned long long)want, (unsigned long long)s.got); SIM_CHECK(!(s.got & ~want), "list", "the region threw %llx, thrown were %llx", (unsigned long long)s.got, (unsigned long long)want); }
template<class F> static void region(Seen& s, bool rethrow, F call) { try { call(); } catch (...) { s.threw = true; s.got = ids_now(); bool list = false; try { throw; } catch (par::exception_list&) { list = true; } catch (...) { } SIM_CHECK(list || W().fault, "list", "the region threw something that is not an exception list (%llx)", (unsigned long long)s.got); judge(s); if (rethrow) throw; return; } judge(s); }
static void run_region(Seen& s, bool rethrow, Env e) { bool fin = sim::flip(); Mine* m = &s.m; u64* own = &s.own; auto f = [=](auto& tr) { body(tr, *m, *own, e); };
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  switch (e.kind) { case 0: region(s, rethrow, [&] { if (fin) par::task_region_final(f); else par::task_region(f); }); return;
    case 1: { boost::basic_thread_pool& x = *(boost::basic_thread_pool*)e.ex; region(s, rethrow, [&] { if (fin) par::task_region_final(x, f); else par::task_region(x, f); }); return; }
    case 2: { boost::thread_executor& x = *(boost::thread_executor*)e.ex; region(s, rethrow, [&] { if (fin) par::task_region_final(x, f); else par::task_region(x, f); }); return; }
    default: { boost::inline_executor& x = *(boost::inline_executor*)e.ex; region(s, rethrow, [&] { if (fin) par::task_region_final(x, f); else par::task_region(x, f); }); return; } }
#else
  region(s, rethrow, [&] { if (fin) par::task_region_final(f); else par::task_region(f); });
#endif
}
static void nested(Env e, u64& got, bool& did) { Seen s; bool re = sim::flip(); did = true; run_region(s, re, e); got = s.got; }
static u32 pick_kind() {
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  return sim::choose(3) == 0 ? 0 : 1 + sim::choose(3);
#else
  return 0;
#endif
}
// runs fn with an executor of the kind; a pool has as many threads as it wants, so nested regions may not share it
template<class FN> static void with_executor(u32 kind, FN fn) { Env e = {kind == 0 || kind == 1 ? 0u : 2u, nullptr, kind};
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  if (kind == 1) { boost::basic_thread_pool p(sim::range(1, 3)); e.ex = &p; fn(e); return; } if (kind == 2) { boost::thread_executor x; e.ex = &x; fn(e); return; } if (kind == 3) { boost::inline_executor x; e.ex = &x; fn(e); return; }
#else
  e.depth = 2;
#endif
  fn(e); }
static void no_leaks() { sim_settle(); for (u32 i = 0; i < MAXT; i++) { Task& t = W().t[i]; SIM_CHECK(t.live.get() == 0, "closure", "%llu copies of task %u are left", (unsigned long long)t.live.get(), i); SIM_CHECK(t.runs.get() <= 1 && t.done.get() == t.runs.get(), "runs", "task %u ran %llu times, done %llu", i, (unsigned long long)t.runs.get(), (unsigned long long)t.done.get()); } }
SCENARIO(plain, 5) { W().quiet = sim::choose(4) == 0; with_executor(pick_kind(), [](Env e) { Seen s; run_region(s, false, e); if (sim::flip()) { Seen s2; run_region(s2, false, e); } }); no_leaks(); }
// two regions at once on one executor
SCENARIO(two, 2) { u32 k = pick_kind(); with_executor(k, [](Env e) { e.depth = 0; sim::Threads th; for (u32 i = 0; i < 2; i++) th.go([=] { Tag t("region"); Seen s; run_region(s, false, e); }); th.join(); }); no_leaks(); }
// somebody interrupts the thread of the region
SCENARIO(interrupted, 4) { W().quiet = sim::flip(); with_executor(pick_kind(), [](Env e) { if (e.kind == 0) e.depth = 0; Flag over; boost::thread t([&] { Tag g("region"); try { Seen s; run_region(s, false, e); } catch (boost::thread_interrupted&) { SIM_CHECK(false, "list", "thread_interrupted escapes the region"); } over.set(); }); u32 n = sim::range(1, 3); for (u32 i = 0; i < n; i++) { dwell(); if (sim::flip()) sim_sleep_ns(sim::range(1, 20) * MS); intr_thread(t); } t.join(); SIM_CHECK(over.get(), "thread", "the region's thread did not end"); }); no_leaks(); }
// memory or threads run out
SCENARIO(no_memory, 3) { World& w = W(); w.quiet = sim::flip(); sim_faults(0); with_executor(pick_kind(), [&](Env e) { e.depth = 0; w.fault = true; sim_faults(1u << SF_ALLOC); sim_alloc_fail_nth((int)sim::range(1, 40)); { Seen s; run_region(s, false, e); } sim_alloc_fail_nth(0); sim_faults(0); }); no_leaks(); }
SCENARIO(no_threads, 1) { World& w = W(); w.quiet = sim::flip(); sim_faults(0); u32 k = pick_kind(); with_executor(k, [&](Env e) { e.depth = 0; w.fault = true; sim_fail_create((int)sim::range(1, 5)); { Seen s; run_region(s, false, e); } sim_fail_create(0); }); no_leaks(); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(8, 30), bad = 0; static Flag ran[32]; for (Flag& r : ran) r.set(0); u32 thrown = 0; try { boost::experimental::parallel::v2::task_region([&](boost::experimental::parallel::v2::task_region_handle& h) { for (u32 i = 0; i < n; i++) { bool t = sim::choose(8) == 0; try { h.run([i, t] { dwell(); ran[i].add(); if (t) throw Ex{(int)i}; }); } catch (par::v2::task_canceled_exception&) { SIM_CHECK(bad, "canceled", "run() refuses a task though none has thrown"); n = i; break; } if (t) bad++; } }); } catch (boost::experimental::parallel::v1::exception_list& e) { thrown = (u32)e.size(); } for (u32 i = 0; i < n; i++) SIM_CHECK(ran[i].get() == 1, "runs", "task %u ran %llu times", i, (unsigned long long)ran[i].get()); SIM_CHECK(thrown == bad, "lost", "%u exceptions of %u", thrown, bad); }

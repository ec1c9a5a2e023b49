// Tasks with a life and a record, shared by the executor harnesses.
#ifndef CHECKS_EXEC_H
#define CHECKS_EXEC_H
#include "fut.h"
#include <functional>
#include <boost/thread/concurrent_queues/queue_op_status.hpp>
struct Rec { Flag runs, live, done, accepted, refused, started; u32 before, after, result; int by; u32 seq, sub0, sub1; bool used; void refuse() { refused.set(); } };
struct Rig { Rec rec[32]; Flag closing, closed, entries, order, next_kid; bool no_throw, no_kids, here, serial, throwing; Flag inside, stamp; u32 chain; std::function<void(Rec&)> kids; std::function<bool()> probe; u32 ran[64];
  static Rig& get() { static Rig g; return g; }
  static Rig& start() { targets_init(); Rig& g = get(); g.next_kid.set(20); return g; }
  // after the executor is gone: every accepted task ran once and its effects are visible, no refused one ran
  void finish() { for (u32 i = 0; i < 32; i++) { Rec& r = rec[i]; if (!r.accepted && !r.refused) continue; u32 n = (u32)r.runs.get(); if (r.refused) { SIM_CHECK(n == 0, "runs", "refused task %u ran", i); continue; } SIM_CHECK(n == 1, "runs", "task %u ran %u times", i, n); SIM_CHECK(r.done.get() == 1, "runs", "task %u is not done", i); SIM_CHECK(r.after == 11, "visibility", "effects of task %u are missing (%u)", i, r.after); }
    // two tasks submitted one after the other are run in that order
    if (serial) for (u32 i = 0; i < 32; i++) for (u32 j = 0; j < 32; j++) { Rec &a = rec[i], &b = rec[j]; if (i != j && a.accepted && b.accepted && a.sub1 < b.sub0) SIM_CHECK(a.seq < b.seq, "order", "task %u was submitted before task %u and ran after it", i, j); } }
  void end() { kids = std::function<void(Rec&)>(); probe = std::function<bool()>(); sim_settle(); for (u32 i = 0; i < 32; i++) SIM_CHECK(rec[i].live.get() == 0, "closure", "%llu copies of task %u are left", (unsigned long long)rec[i].live.get(), i); } };
inline u32 ran_here() { sim::Quiet q; return Rig::get().ran[sim_self() & 63]; }
inline void run_task(Rec& r) { Tag t("task"); Rig& g = Rig::get(); { sim::Quiet q; g.ran[sim_self() & 63]++; r.seq = (u32)(g.order.v++); } r.runs.add(); SIM_CHECK(r.runs.get() == 1, "runs", "a task ran twice"); r.by = sim_self(); SIM_CHECK(r.before == 7, "visibility", "effects before the submission are missing (%u)", r.before); r.started.set(); r.after = 10; if (g.serial) { SIM_CHECK(g.inside.get() == 0, "overlap", "two tasks of a serial executor run at once"); g.inside.set(1); g.chain++; }
  struct End { Rec& r; End(Rec& x) : r(x) {} ~End() { r.after++; r.done.add(); Rig& g = Rig::get(); if (g.serial) { g.inside.set(0); g.chain++; } } } end(r); dwell();
  switch (sim::choose(6)) { case 0: if (!g.no_throw) boost::this_thread::sleep_for(boost::chrono::milliseconds(sim::range(1, 5))); break; case 1: if (g.probe) (void)g.probe(); break; case 2: if (g.kids && !g.no_kids) { u32 k; { sim::Quiet q; k = g.next_kid.v < 29 ? (u32)g.next_kid.v++ : 99; } if (k < 32) g.kids(g.rec[k]); } break; default: break; } if (g.throwing && sim::choose(3) == 0) throw Boom(3); }
// a closure; magic tells whether it was moved from, copied after that, or destroyed twice
struct Job_ { Rec* r; u32 magic; explicit Job_(Rec& x) : r(&x), magic(0xF00D) { r->live.add(); } Job_(Job_ const& o) : r(o.r), magic(0xF00D) { o.ok(); r->live.add(); } Job_(Job_&& o) noexcept : r(o.r), magic(0xF00D) { o.ok(); o.magic = 0xE11F; r->live.add(); } ~Job_() { SIM_CHECK(magic == 0xF00D || magic == 0xE11F, "closure", "a closure was destroyed twice"); magic = 0xDEAD; r->live.add(-1); } void ok() const { SIM_CHECK(magic == 0xF00D, "closure", "a closure was used after being moved from or destroyed"); } void operator()() const { ok(); run_task(*r); ok(); } };
struct JobM : Job_ { explicit JobM(Rec& x) : Job_(x) {} JobM(JobM&& o) noexcept : Job_(static_cast<Job_&&>(o)) {} };
template<int N> inline void fn_task() { run_task(Rig::get().rec[N]); }
inline void (*fn_of(u32 i))() { static void (*const f[32])() = {fn_task<0>, fn_task<1>, fn_task<2>, fn_task<3>, fn_task<4>, fn_task<5>, fn_task<6>, fn_task<7>, fn_task<8>, fn_task<9>, fn_task<10>, fn_task<11>, fn_task<12>, fn_task<13>, fn_task<14>, fn_task<15>, fn_task<16>, fn_task<17>, fn_task<18>, fn_task<19>, fn_task<20>, fn_task<21>, fn_task<22>, fn_task<23>, fn_task<24>, fn_task<25>, fn_task<26>, fn_task<27>, fn_task<28>, fn_task<29>, fn_task<30>, fn_task<31>}; return f[i]; }
// one submission: it is accepted, or refused because the executor is closed
template<class FN> inline void submission(Rec& r, FN fn) { Rig& g = Rig::get(); bool must = g.closed.get() != 0; r.before = 7; { sim::Quiet q; r.sub0 = (u32)++g.stamp.v; } try { fn(); { sim::Quiet q; r.sub1 = (u32)++g.stamp.v; } r.accepted.set(); SIM_CHECK(!must, "closed", "a submission after close was accepted"); if (g.here) SIM_CHECK(r.done.get() == 1 && r.by == sim_self(), "inline", "an inline executor did not run the task in the call"); } catch (boost::sync_queue_is_closed&) { SIM_CHECK(g.closing.get(), "closed", "a submission was refused although nobody closed the executor"); r.refuse(); } }
template<class X> inline void submit_one(X& ex, Rec& r) { u32 i = (u32)(&r - Rig::get().rec); switch (sim::choose(4)) { case 0: submission(r, [&] { ex.submit(Job_(r)); }); break; case 1: { Job_ j(r); submission(r, [&] { ex.submit(boost::move(j)); }); break; } case 2: submission(r, [&] { ex.submit(JobM(r)); }); break; default: submission(r, [&] { ex.submit(fn_of(i)); }); } }
// boost::async on an executor: the outcome of the function, value or exception, is that of the future
template<class X> inline void submit_async(X& ex, Rec& r) { Rig& g = Rig::get(); u32 form = sim::choose(5); bool boom = sim::choose(3) == 0; Out o{Out::value, -1}; auto settle = [&](auto& f, Out w) { if (r.refused.get() || g.no_kids || !sim::flip()) return; SIM_CHECK(f.valid(), "value", "async gave an empty future"); o = outcome([&] { return V<typename std::decay<decltype(f)>::type::value_type>::get(f); }); if (o.k != Out::intr) SIM_CHECK(o == w, "value", "the result of async is %s %d instead of %s %d", oname(o.k), o.id, oname(w.k), w.id); SIM_CHECK(r.after == 11, "visibility", "effects of the task are missing"); };
  switch (form) {
    case 0: case 1: { boost::future<Cp> f; submission(r, [&] { f = boost::async(ex, [&r, boom, j = Job_(r)]() -> Cp { j(); if (boom) throw Ex{6}; return Cp(5); }); }); settle(f, boom ? Out{Out::exc, 6} : Out{Out::value, 5}); break; }
    case 2: { boost::future<void> f; submission(r, [&] { f = boost::async(ex, [&r, boom, j = Job_(r)]() { j(); if (boom) throw Ex{6}; }); }); settle(f, boom ? Out{Out::exc, 6} : Out{Out::value, -1}); break; }
    case 3: { boost::future<Mv> f; int a = 3; submission(r, [&] { f = boost::async(ex, [&r, boom, j = Job_(r)](Cp x, int y) -> Mv { j(); if (boom) throw Ex{6}; return Mv(x.id + y); }, Cp(4), a); }); a = 90; settle(f, boom ? Out{Out::exc, 6} : Out{Out::value, 7}); break; }
    default: { boost::future<Cp&> f; submission(r, [&] { f = boost::async(ex, [&r, boom, j = Job_(r)]() -> Cp& { j(); if (boom) throw Ex{6}; return V<Cp&>::make(5); }); }); settle(f, boom ? Out{Out::exc, 6} : Out{Out::value, 5}); break; } } }
#endif

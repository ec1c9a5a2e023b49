// C14 call_once: one successful run, no two at once, retried after an exception, effects visible to every caller.
#include "common.h"
#include <memory>
#include <boost/thread/thread.hpp>
#include <boost/thread/once.hpp>
#ifndef BOOST_THREAD_PROVIDES_ONCE_CXX11
#define NEWFLAG boost::once_flag f = BOOST_ONCE_INIT
#else
#define NEWFLAG boost::once_flag f
#endif

static const u32 NF = 3;
struct Once { NEWFLAG; Flag inside, ok, ran; int data = 0; u32 fail_left = 0; };
struct World { Once o[NF]; u32 nf; Flag returned; };
static World* W;
struct Err { int who; u32 call; };
static void one_call(u32 i, int depth);
// The body of every function passed to call_once on flag i; 'call' identifies the call.
static void body(u32 i, int who, u32 call, int depth) {
  Once& o = W->o[i]; SIM_CHECK(who == sim_self(), "wrong-thread", "a call ran another call's function");
  SIM_CHECK(o.inside.get() == 0, "concurrent", "two calls run their function at the same time"); SIM_CHECK(o.ok.get() == 0, "twice", "a function ran after another one had succeeded");
  o.inside.add(1); o.ran.add(); bool fail; { sim::Quiet q; fail = o.fail_left > 0; if (fail) o.fail_left--; } o.data++;
  dwell(); if (depth < 2 && i + 1 < W->nf && sim::choose(3) == 0) one_call(i + 1, depth + 1);
  if (fail) { o.data += 100; o.inside.add(-1); throw Err{who, call}; }
  o.data = 12345; o.inside.add(-1); o.ok.add();
}
struct Counted { static int live; int v; Counted(int x) : v(x) {} };
static u32 ncall = 0;
struct Functor { u32 i; int who; u32 call; int depth; bool* ran; void operator()() const { *ran = true; body(i, who, call, depth); } int f1(int a) const { SIM_CHECK(a == 11, "args", "argument damaged"); *ran = true; body(i, who, call, depth); return 3; } };
struct Args { bool* ran; int depth; void operator()(u32 i, int who, u32 call) { *ran = true; body(i, who, call, depth); } void operator()(u32 i, int who) { *ran = true; body(i, who, 0, depth); } void operator()(u32 i) { *ran = true; body(i, sim_self(), 0, depth); } };
static thread_local int dummy;
struct Plain { u32 i; int who; u32 call; int depth; bool ran; }; static Plain plain_arg[64];
static void plain() { Plain& p = plain_arg[sim_self()]; Plain c = p; p.ran = true; body(c.i, c.who, c.call, c.depth); }
static void one_call(u32 i, int depth) {
  u32 call; { sim::Quiet q; call = ++ncall; } bool ran = false; int me = sim_self(); boost::once_flag& f = W->o[i].f; u32 form = sim::choose(8);
  if (form == 1 || form == 2) plain_arg[me] = Plain{i, me, call, depth, false};
  try {
    switch (form) {
      case 0: boost::call_once(f, Functor{i, me, call, depth, &ran}); break;
      case 1: boost::call_once(f, plain); ran = plain_arg[me].ran; break;
      case 2: boost::call_once(f, &plain); ran = plain_arg[me].ran; break;
      case 3: boost::call_once(f, Args{&ran, depth}, i, me, call); break;
      case 4: { Args a{&ran, depth}; u32 k = i; call = 0; boost::call_once(f, a, k, me); break; }
      case 5: call = 0; boost::call_once(f, Args{&ran, depth}, i); break;
      case 6: { Functor fu{i, me, call, depth, &ran}; boost::call_once(fu, f); break; }
      default: {
#ifdef BOOST_THREAD_ONCE_ATOMIC
        Functor fu{i, me, call, depth, &ran}; boost::call_once(f, &Functor::f1, fu, 11);
#else
        boost::call_once(f, [&] { Functor{i, me, call, depth, &ran}(); });
#endif
      } }
  } catch (Err& e) { bool pr = ran || (form < 3 && form > 0); SIM_CHECK(e.who == me && e.call == call && pr, "exception", "a call got an exception that its function did not throw"); return; }
  SIM_CHECK(W->o[i].ok.get() == 1, "early", "call_once returned although no function had succeeded"); SIM_CHECK(W->o[i].inside.get() == 0, "early", "call_once returned while a function runs");
  SIM_CHECK(W->o[i].data == 12345, "visible", "effects not visible"); W->returned.add();
}
static void setup(World& w) { W = &w; ncall = 0; w.nf = sim::range(1, NF); for (u32 i = 0; i < w.nf; i++) w.o[i].fail_left = sim::choose(3) ? 0 : sim::range(1, 4); }
static void finish() { for (u32 i = 0; i < W->nf; i++) { while (!W->o[i].ok.get()) one_call(i, 0); u64 r = W->o[i].ran.get(); one_call(i, 0); SIM_CHECK(W->o[i].ran.get() == r && W->o[i].ok.get() == 1, "twice", "a function ran after success"); } }

SCENARIO(plain_threads, 5) {
  sim_faults(SIM_DEFAULT_FAULTS); World w; setup(w); u32 n = sim::range(2, 4), k = sim::range(1, 4); sim::Threads t;
  for (u32 i = 0; i < n; i++) t.go([k] { for (u32 j = 0; j < k; j++) { one_call(sim::choose(W->nf), 0); if (sim::choose(4) == 0) nap(); } });
  if (sim::flip()) one_call(sim::choose(w.nf), 0); t.join(); finish();
}
// Many waiters of one flag whose first calls throw: nobody is left behind.
SCENARIO(retry, 4) {
  sim_faults(SIM_DEFAULT_FAULTS); World w; setup(w); w.nf = sim::range(1, 2); w.o[0].fail_left = sim::range(1, 3); u32 n = sim::range(2, 5); sim::Threads t; Flag done;
  for (u32 i = 0; i < n; i++) t.go([&] { u32 f = w.nf == 2 && sim::choose(4) == 0 ? 1 : 0; for (u32 c = 0; c < 6; c++) { u64 b = W->o[f].ok.get(); one_call(f, 1); if (b) break; } done.add(); });
  t.join(); SIM_CHECK(done.get() == n, "count", "calls missing"); finish();
}
// Interruption inside the function counts as an exception; waiting for a flag is not an interruption point.
SCENARIO(interrupted, 3) { if (!CAN_INTR) return;
  sim_faults(SIM_DEFAULT_FAULTS); World w; setup(w); Once& o = w.o[0]; Flag in, go, sent; u32 n = sim::range(1, 3); bool hit = sim::flip();
  boost::thread a([&] { bool intr = false; try { boost::call_once(o.f, [&] { SIM_CHECK(!o.inside.get() && !o.ok.get(), "concurrent", "two at once"); o.inside.add(); in.set(); try { boost::this_thread::sleep_for(nsd(sim::range(1, 4) * SEC)); } catch (boost::thread_interrupted&) { o.inside.add(-1); throw; } o.data = 12345; o.inside.add(-1); o.ok.add(); }); } catch (boost::thread_interrupted&) { intr = true; } in.set(); if (intr) SIM_CHECK(hit, "interrupt", "unrequested interruption"); });
  std::vector<std::unique_ptr<boost::thread> > v; for (u32 i = 0; i < n; i++) v.emplace_back(new boost::thread([&] { if (sim::flip()) in.await(); bool req = sim::flip(); if (req) boost::this_thread::get_id(); one_call(0, 2); sent.await(); try { boost::this_thread::interruption_point(); } catch (boost::thread_interrupted&) { go.add(); } }));
  nap(); if (hit) intr_thread(a); u32 asked = 0; for (auto& p : v) if (sim::choose(3) == 0) { intr_thread(*p); asked++; } sent.set(); a.join(); for (auto& p : v) p->join(); SIM_CHECK(go.get() == asked, "interrupt", "a waiting call swallowed an interruption request or raised it"); w.o[0].fail_left = 0; finish();
}
#ifndef BOOST_THREAD_ONCE_ATOMIC
// The per-thread epoch cannot be allocated: bad_alloc, nothing changes.
SCENARIO(no_memory, 2) {
  sim_faults(SIM_DEFAULT_FAULTS | 1u << SF_ALLOC); World w; setup(w); w.nf = 1; sim::Threads t; u32 n = sim::range(1, 3);
  for (u32 i = 0; i < n; i++) t.go([&] { bool ran = false; sim_alloc_fail_nth(1); bool bad = false; try { boost::call_once(w.o[0].f, [&] { sim_alloc_fail_nth(0); ran = true; body(0, sim_self(), 0, 2); }); } catch (std::bad_alloc&) { bad = true; } catch (Err&) {} sim_alloc_fail_nth(0); if (bad) SIM_CHECK(!ran, "exception", "bad_alloc after running"); one_call(0, 2); });
  t.join(); finish();
}
#endif
// Function arguments are only consumed by the call that runs; move-only arguments work.
#ifdef BOOST_THREAD_ONCE_ATOMIC
SCENARIO(moved_args, 1) {
  sim_faults(SIM_DEFAULT_FAULTS); World w; setup(w); w.nf = 1; sim::Threads t; Flag consumed; u32 n = sim::range(2, 4);
  for (u32 i = 0; i < n; i++) t.go([&] { std::unique_ptr<int> p(new int(5)); bool ran = false; try { boost::call_once(w.o[0].f, [&](std::unique_ptr<int> q) { ran = true; SIM_CHECK(*q == 5, "args", "argument damaged"); body(0, sim_self(), 0, 2); }, std::move(p)); } catch (Err&) {} SIM_CHECK(ran == !p, "args", "an argument was consumed although the function did not run"); if (ran) consumed.add(); });
  t.join(); SIM_CHECK(consumed.get() == w.o[0].ran.get(), "count", "runs"); finish();
}
#endif
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(8, 32), fails = sim::choose(6); NEWFLAG; Flag tries, in, thrown, ok; u32 plain = 0; sim::Threads th; for (u32 i = 0; i < n; i++) th.go([&] { try { boost::call_once(f, [&] { in.add(); SIM_CHECK(in.get() == 1, "overlap", "two functions run at once"); tries.add(); bool bad = tries.get() <= fails; dwell(); in.add(-1); if (bad) throw 5; plain = 77; ok.add(); }); SIM_CHECK(plain == 77, "visibility", "call_once returned before the function was done"); } catch (int) { thrown.add(); } }); th.join(); u32 want = fails; SIM_CHECK(thrown.get() == want && (ok.get() == 1), "runs", "%llu functions threw and %llu succeeded", (unsigned long long)thrown.get(), (unsigned long long)ok.get()); }

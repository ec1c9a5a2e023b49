// C21 packaged_task and async run the task once and deliver its outcome.
#include "fut.h"
#if defined BOOST_THREAD_VERSION && BOOST_THREAD_VERSION >= 4
#define V4 1
template<class R> using PT = boost::packaged_task<R()>;
#else
#define V4 0
template<class R> using PT = boost::packaged_task<R>;
#endif

// What one task did. Plain `effect` is written by the task and read by whoever got the result: unordered access is reported.
struct Run { u32 runs = 0, live = 0; int by = -1; u32 effect = 0; Flag entered, left; u32 count() { sim::Quiet q; return runs; } };
enum Mode { m_value, m_exc, m_modes };
template<class R> struct Fn { Run* r; int id; Mode m; u32 magic; bool slow;
  Fn(Run* r_, int id_, Mode m_, bool s = false) : r(r_), id(id_), m(m_), magic(0xF00D), slow(s) { sim::Quiet q; r->live++; }
  Fn(Fn const& o) : r(o.r), id(o.id), m(o.m), magic(0xF00D), slow(o.slow) { o.ok(); sim::Quiet q; r->live++; }
  Fn(Fn&& o) noexcept : r(o.r), id(o.id), m(o.m), magic(0xF00D), slow(o.slow) { o.ok(); o.magic = 0xE11F; sim::Quiet q; r->live++; }
  Fn& operator=(Fn const& o) { o.ok(); id = o.id; m = o.m; magic = o.magic; return *this; }
  ~Fn() { SIM_CHECK(magic == 0xF00D || magic == 0xE11F, "closure", "a task was destroyed twice"); magic = 0xDEAD; sim::Quiet q; r->live--; }
  void ok() const { SIM_CHECK(magic == 0xF00D, "closure", "a task function was used after being moved from or destroyed"); }
  R operator()() { ok(); Tag g("task"); { sim::Quiet q; r->runs++; r->by = sim_self(); } r->entered.add(); r->effect++; dwell(); if (slow) sim_sleep_ns(sim::range(1, 8) * MS); ok(); r->effect += 10; r->left.add(); if (m == m_exc) throw Ex{id}; return V<R>::make(id); } };
template<class R> static Out want(int id, Mode m) { return m == m_exc ? Out{Out::exc, id} : Out{Out::value, V<R>::ids ? id : -1}; }
template<class R> static void expect(Out o, Out w, const char* what) { SIM_CHECK(o == w, "value", "%s: %s %d instead of %s %d", what, oname(o.k), o.id, oname(w.k), w.id); }
template<class R, class F> static PT<R> task(F&& f) {
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
  switch (sim::choose(6)) { case 0: return PT<R>(boost::allocator_arg, Arena<int>(), std::forward<F>(f)); case 1: { F& x = f; return PT<R>(boost::allocator_arg, Arena<int>(), x); } default:; }
#endif
  return PT<R>(std::forward<F>(f)); }
static Mode pick() { return sim::choose(3) == 0 ? m_exc : m_value; }
static void start() { targets_init(); sim::Quiet q; for (int i = 0; i < 64; i++) (&Cp::armed() - (sim_self() & 63))[i] = 0; }
template<class F> static bool poll(F& f) { // one bounded wait; true when ready
  switch (sim::choose(4)) {
    case 0: { DL d = DL::mono((s64)sim_now() + sim::range(0, 6) * MS); bool r = f.wait_until(st_at((u64)d.at)) == boost::future_status::ready; if (!r) check_timeout(d, "wait_until"); return r; }
    case 1: { DL d = DL::mono((s64)sim_now() + sim::range(0, 6) * MS); bool r = f.wait_for(nsd((s64)d.at - (s64)d.t0)) == boost::future_status::ready; if (!r) check_timeout(d, "wait_for"); return r; }
    case 2: return f.is_ready();
    default: f.wait(); return true; } }
template<class F> static void many(F& f) { for (u32 n = sim::choose(3); n; n--) if (poll(f)) { SIM_CHECK(f.is_ready(), "state", "not ready after a successful wait"); break; } }

// ---- racing invocations of one task, several waiters
template<class R> static void race_case() {
  start(); Run run; Mode m = pick(); u32 ni = sim::range(1, 3), nw = V<R>::copy ? sim::range(0, 3) : 0, ran = 0, refused = 0; int id = 5;
  { PT<R> t(task<R>(Fn<R>(&run, id, m))); PT<R> pt; bool mv = sim::flip(); if (mv) { if (sim::flip()) pt = boost::move(t); else pt.swap(t); SIM_CHECK(pt.valid() && !t.valid(), "state", "a moved-from task is valid"); } PT<R>& p = mv ? pt : t;
    boost::future<R> f = p.get_future(); boost::shared_future<R> sf; if (V<R>::copy) sf = f.share(); sim::Threads th; Flag early;
    for (u32 i = 0; i < nw; i++) th.go([&, sf] { Tag g("waiter"); boost::shared_future<R> c(sf); many(c); Out o = take<R>(c); expect<R>(o, want<R>(id, m), "waiter"); SIM_CHECK(run.effect == 11, "visibility", "effects of the task are missing (%u)", run.effect); });
    for (u32 i = 0; i < ni; i++) th.go([&] { Tag g("invoker"); nap(); bool ok = false, no = false; try { p(); ok = true; } catch (boost::task_already_started&) { no = true; } SIM_CHECK(ok != no, "started", "invocation ended strangely"); if (ok) { if (V<R>::copy) { SIM_CHECK(sf.is_ready(), "state", "not ready after the task was invoked"); } } sim::Quiet q; ran += ok; refused += no; });
    if (!V<R>::copy) { many(f); Out o = take<R>(f); expect<R>(o, want<R>(id, m), "owner"); SIM_CHECK(run.effect == 11, "visibility", "effects of the task are missing (%u)", run.effect); }
    th.join(); SIM_CHECK(ran == 1 && refused == ni - 1, "started", "%u invocations ran, %u were refused", ran, refused); SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count());
    bool again = false; try { p(); } catch (boost::task_already_started&) { again = true; } SIM_CHECK(again, "started", "a second invocation was accepted"); bool twice = false; try { boost::future<R> x = p.get_future(); } catch (boost::future_already_retrieved&) { twice = true; } SIM_CHECK(twice, "misuse", "the future was retrieved twice");
    if (V<R>::copy) { Out o = take<R>(sf); expect<R>(o, want<R>(id, m), "late"); } }
  SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count()); SIM_CHECK(run.live == 0, "closure", "%u copies of the task function are left", run.live); }
SCENARIO(race_copyable, 3) { race_case<Cp>(); arena_empty(); }
SCENARIO(race_moveonly, 2) { race_case<Mv>(); arena_empty(); }
SCENARIO(race_ref, 2) { race_case<Cp&>(); arena_empty(); }
SCENARIO(race_void, 3) { race_case<void>(); arena_empty(); }

// ---- a task is handed to another thread, which runs it or drops it; the caller may destroy things as soon as it has the result
template<class R> static void handed_case() {
  start(); Run* run; { sim::Quiet q; run = new Run; } Mode m = pick(); int id = 3; u32 mode = sim::choose(6); bool runs = mode < 3; sim::Threads th; Flag dropped;
  { boost::future<R> f; boost::shared_future<R> sf; bool shared = V<R>::copy && sim::flip();
    { PT<R> t(task<R>(Fn<R>(run, id, m))); f = t.get_future(); if (shared) sf = f.share(); PT<R>* h; { sim::Quiet q; h = new PT<R>(); } *h = boost::move(t);
      bool twr = false; try { t(); } catch (boost::task_moved&) { twr = true; } SIM_CHECK(twr, "misuse", "a moved-from task was invoked");
      if (mode == 0) { boost::thread x(boost::move(*h)); x.detach(); sim::Quiet q; delete h; }
      else th.go([=, &dropped] { Tag g("owner"); nap(); switch (mode) { case 1: case 2: (*h)(); break; case 3: *h = PT<R>(); break; case 4: { PT<R> o; o.swap(*h); break; } default: { PT<R> o(boost::move(*h)); nap(); if (sim::flip()) { PT<R> o2(boost::move(o)); } break; } }
        if (mode == 2) nap(); { sim::Quiet q; delete h; } dropped.set(); }); }
    u32 extra = shared ? sim::choose(3) : 0; for (u32 i = 0; i < extra; i++) th.go([sf, runs, id, m] { Tag g("waiter"); boost::shared_future<R> c(sf); many(c); Out o = take<R>(c); expect<R>(o, runs ? want<R>(id, m) : Out{Out::broken, 0}, "waiter"); });
    if (shared) many(sf); else many(f); Out o = shared ? take<R>(sf) : take<R>(f); expect<R>(o, runs ? want<R>(id, m) : Out{Out::broken, 0}, "getter"); SIM_CHECK(run->effect == (runs ? 11u : 0u), "visibility", "effects of the task: %u", run->effect); }
  th.join(); sim_settle(); SIM_CHECK(run->count() == (runs ? 1u : 0u), "runs", "the task ran %u times", run->count()); SIM_CHECK(run->live == 0, "closure", "%u copies of the task function are left", run->live); sim::Quiet q; delete run; }
SCENARIO(handed_copyable, 2) { handed_case<Cp>(); arena_empty(); }
SCENARIO(handed_moveonly, 2) { handed_case<Mv>(); arena_empty(); }
SCENARIO(handed_ref, 1) { handed_case<Cp&>(); arena_empty(); }
SCENARIO(handed_void, 2) { handed_case<void>(); arena_empty(); }

// ---- lazy invocation from a wait callback
template<class R> static void lazy_case() {
  start(); Run run; Mode m = pick(); int id = 4; u32 nw = V<R>::copy ? sim::range(1, 3) : 1; Flag called;
  { PT<R> t(task<R>(Fn<R>(&run, id, m))); PT<R>* tp = &t; boost::function<void(PT<R>&)> cb([&](PT<R>& x) { called.add(); SIM_CHECK(&x == tp, "callback", "the callback got another task"); nap(); try { x(); } catch (boost::task_already_started&) {} }); t.set_wait_callback(cb); boost::future<R> f = t.get_future(); sim::Threads th;
    if (V<R>::copy) { boost::shared_future<R> sf(f.share()); for (u32 i = 0; i < nw; i++) th.go([&, sf] { Tag g("waiter"); boost::shared_future<R> c(sf); many(c); Out o = take<R>(c); expect<R>(o, want<R>(id, m), "waiter"); SIM_CHECK(run.effect == 11, "visibility", "effects of the task are missing (%u)", run.effect); }); th.join(); }
    else { many(f); Out o = take<R>(f); expect<R>(o, want<R>(id, m), "owner"); } SIM_CHECK(called.get() >= 1, "callback", "the wait callback was not called"); SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count()); }
  SIM_CHECK(run.live == 0, "closure", "%u copies of the task function are left", run.live); }
SCENARIO(lazy_value, 2) { lazy_case<Cp>(); arena_empty(); }
SCENARIO(lazy_moveonly, 1) { lazy_case<Mv>(); arena_empty(); }
SCENARIO(lazy_void, 2) { lazy_case<void>(); arena_empty(); }

// ---- make_ready_at_thread_exit
template<class R> static void exit_case() {
  start(); Run run; Mode m = pick(); int id = 6; { PT<R> t(task<R>(Fn<R>(&run, id, m))); boost::future<R> f = t.get_future(); Flag called, second; bool twice = sim::flip(); u32* late; { sim::Quiet q; late = new u32(0); }
    boost::thread th([&] { Tag g("exiting"); nap(); t.make_ready_at_thread_exit(); called.set(); SIM_CHECK(!f.is_ready(), "exit", "ready before the thread ended"); if (twice) { bool no = false; try { t(); } catch (boost::task_already_started&) { no = true; } SIM_CHECK(no, "started", "a second invocation was accepted"); } nap(); *late = 9; SIM_CHECK(!f.is_ready(), "exit", "ready before the thread ended"); });
    if (sim::flip()) { for (u32 n = sim::choose(4); n; n--) { nap(); if (f.is_ready()) { SIM_CHECK(*late == 9, "visibility", "ready before the thread ended"); break; } } } Out o = take<R>(f); expect<R>(o, want<R>(id, m), "waiter"); SIM_CHECK(called.get() == 1, "exit", "ready before the call returned"); SIM_CHECK(run.effect == 11 && *late == 9, "visibility", "effects of the thread are missing"); { sim::Quiet q; delete late; }
    th.join(); SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count()); bool no = false; try { if (sim::flip()) t(); else t.make_ready_at_thread_exit(); } catch (boost::task_already_started&) { no = true; } catch (boost::promise_already_satisfied&) { no = true; } SIM_CHECK(no && run.count() == 1, "started", "a second invocation was accepted"); }
  SIM_CHECK(run.live == 0, "closure", "%u copies of the task function are left", run.live); }
SCENARIO(exit_copyable, 1) { exit_case<Cp>(); arena_empty(); }
SCENARIO(exit_moveonly, 1) { exit_case<Mv>(); arena_empty(); }
SCENARIO(exit_ref, 1) { exit_case<Cp&>(); arena_empty(); }
SCENARIO(exit_void, 1) { exit_case<void>(); arena_empty(); }

// ---- reset: as a new task with the same function
template<class R> static void reset_case() {
  start(); Run run; u32 rounds = sim::range(2, 4); sim::Threads th; static Mode modes[4]; { sim::Quiet q; for (u32 i = 0; i < 4; i++) modes[i] = m_value; } for (u32 i = 0; i < 4; i++) modes[i] = pick();
  struct Seq { Run* r; u32* n; Seq(Run* a, u32* b) : r(a), n(b) {} R operator()() { u32 k; { sim::Quiet q; r->runs++; k = *n; } dwell(); if (modes[k] == m_exc) throw Ex{(int)k}; return V<R>::make((int)k); } };
  u32 cur = 0, ran = 0; { PT<R> t(Seq(&run, &cur)); boost::shared_future<R> sf[4]; boost::future<R> uf[4]; bool did[4]; Out got[4];
    for (u32 k = 0; k < rounds; k++) { { sim::Quiet q; cur = k; } bool before = sim::flip(); did[k] = sim::choose(3) != 0; got[k] = did[k] ? want<R>((int)k, modes[k]) : Out{Out::broken, 0};
      auto fetch = [&] { uf[k] = t.get_future(); if (V<R>::copy && sim::flip()) sf[k] = uf[k].share(); }; if (before || !did[k]) fetch(); if (!did[k] || before) SIM_CHECK(sf[k].valid() ? !sf[k].is_ready() : !uf[k].is_ready(), "reset", "the future of a fresh task is ready");
      bool conc = V<R>::copy && sf[k].valid() && sim::flip(); if (conc) { boost::shared_future<R> c0 = sf[k]; Out w = got[k]; th.go([c0, w, k] { Tag g("waiter"); boost::shared_future<R> c(c0); Out o = take<R>(c); expect<R>(o, w, "waiter"); }); }
      if (did[k]) { t(); ran++; bool no = false; try { t(); } catch (boost::task_already_started&) { no = true; } SIM_CHECK(no, "started", "a second invocation was accepted"); } if (!(before || !did[k])) fetch(); nap();
      if (did[k] && !sf[k].valid() && sim::flip()) { Out o = take<R>(uf[k]); expect<R>(o, got[k], "before reset"); uf[k] = boost::future<R>(); }
      if (k + 1 < rounds) t.reset(); else { PT<R> o; t.swap(o); } }
    for (u32 k = 0; k < rounds; k++) { if (sf[k].valid()) { Out o = take<R>(sf[k]); expect<R>(o, got[k], "old shared future"); } else if (uf[k].valid()) { SIM_CHECK(uf[k].is_ready(), "reset", "an old future is not ready"); Out o = take<R>(uf[k]); expect<R>(o, got[k], "old future"); } } th.join(); }
  SIM_CHECK(run.count() == ran, "runs", "the task ran %u times for %u invocations", run.count(), ran); }
SCENARIO(reset_copyable, 1) { reset_case<Cp>(); arena_empty(); }
SCENARIO(reset_moveonly, 1) { reset_case<Mv>(); arena_empty(); }
SCENARIO(reset_ref, 1) { reset_case<Cp&>(); arena_empty(); }
SCENARIO(reset_void, 1) { reset_case<void>(); arena_empty(); }

// ---- swap: everything a task is goes to the other one
template<class R> static void swap_case() { start(); Run run[2]; Mode m[2] = {pick(), pick()}; bool did[2], got[2], has[2]; u32 ran[2] = {0, 0}; boost::future<R> f[2];
  { PT<R> t[2]; for (int i = 0; i < 2; i++) { has[i] = i == 0 || sim::choose(5) != 0; did[i] = has[i] && sim::choose(3) == 0; got[i] = has[i] && sim::flip(); if (has[i]) { PT<R> x(task<R>(Fn<R>(&run[i], 4 + i, m[i]))); t[i] = boost::move(x); } if (got[i]) f[i] = t[i].get_future(); if (did[i]) { t[i](); ran[i]++; } }
    bool sw = sim::choose(4) != 0; if (sw) { if (sim::flip()) t[0].swap(t[1]); else { using boost::swap; swap(t[0], t[1]); } }
    sim::Threads th; for (int k = 0; k < 2; k++) { int i = sw ? 1 - k : k; PT<R>* p = &t[k]; bool* g = &got[i]; bool d = did[i], h = has[i]; boost::future<R>* pf = &f[i]; u32* pr = &ran[i];
      th.go([=] { Tag tg("user"); nap(); SIM_CHECK(p->valid() == h, "state", "a swapped task is %s", h ? "empty" : "not empty"); bool no = false; try { boost::future<R> x = p->get_future(); *pf = boost::move(x); } catch (boost::future_already_retrieved&) { no = true; } catch (boost::task_moved&) { SIM_CHECK(!h, "misuse", "task_moved from a task with a function"); return; }
        SIM_CHECK(h, "misuse", "an empty task gave a future"); SIM_CHECK(no == *g, "misuse", "after a swap the future of a task %s", no ? "was refused although nobody had it" : "was given out twice");
        bool re = false; try { (*p)(); sim::Quiet q; (*pr)++; } catch (boost::task_already_started&) { re = true; } SIM_CHECK(re == d, "started", "after a swap a task that %s %s", d ? "had run" : "had not run", re ? "refused to" : "ran");
        if (sim::flip()) { p->reset(); boost::future<R> x; try { x = p->get_future(); } catch (boost::future_already_retrieved&) { SIM_CHECK(false, "reset", "a reset task refused its future"); } SIM_CHECK(!x.is_ready(), "reset", "the future of a reset task is ready"); if (sim::flip()) { (*p)(); { sim::Quiet q; (*pr)++; } Out o = take<R>(x); expect<R>(o, want<R>(4 + i, m[i]), "after reset"); } } }); }
    th.join(); }
  for (int i = 0; i < 2; i++) { if (has[i]) { Out o = take<R>(f[i]); expect<R>(o, want<R>(4 + i, m[i]), "swapped"); f[i] = boost::future<R>(); } SIM_CHECK(run[i].count() == ran[i], "runs", "a task ran %u times for %u invocations", run[i].count(), ran[i]); SIM_CHECK(run[i].live == 0, "closure", "%u copies of the task function are left", run[i].live); } }
SCENARIO(swap_copyable, 1) { swap_case<Cp>(); arena_empty(); }
SCENARIO(swap_moveonly, 1) { swap_case<Mv>(); arena_empty(); }
SCENARIO(swap_void, 1) { swap_case<void>(); arena_empty(); }

// ---- empty tasks
template<class R> static void empty_case() { start(); Run run; { PT<R> a; PT<R> b(task<R>(Fn<R>(&run, 1, m_value))); if (sim::flip()) { PT<R> c(boost::move(b)); } PT<R>& e = sim::flip() ? a : b; if (e.valid()) { boost::future<R> f = b.get_future(); a = boost::move(b); SIM_CHECK(!f.is_ready(), "state", "moving a task made its future ready"); }
    PT<R>& x = a.valid() ? b : a; u32 moved = 0, ops = 0; try { ops++; x(); } catch (boost::task_moved&) { moved++; } try { ops++; boost::future<R> f = x.get_future(); } catch (boost::task_moved&) { moved++; } try { ops++; x.make_ready_at_thread_exit(); } catch (boost::task_moved&) { moved++; } try { ops++; x.reset(); } catch (boost::task_moved&) { moved++; }
    try { ops++; boost::function<void(PT<R>&)> cb([](PT<R>&) {}); x.set_wait_callback(cb); } catch (boost::task_moved&) { moved++; } SIM_CHECK(moved == ops, "misuse", "%u of %u uses of an empty task were reported", moved, ops); } SIM_CHECK(run.live == 0 && run.runs == 0, "closure", "left %u ran %u", run.live, run.runs); }
SCENARIO(empty_task, 1) { if (sim::flip()) empty_case<Cp>(); else empty_case<void>(); }

// ---- arguments
#if V4
SCENARIO(arguments, 2) {
  start(); Run run; int a = sim::range(1, 9), b = sim::range(1, 9); auto body = [&run](Cp c, Mv m, Cp* r) -> Mv { { sim::Quiet q; run.runs++; } c.live(); m.live(); int s = c.id * 100 + m.id; r->id = s; dwell(); return Mv(s); };
  u32 how = sim::choose(3); static Cp tgt; tgt.id = 0; sim::Threads th; int out;
  if (how == 0) { boost::packaged_task<Mv(Cp, Mv, Cp*)> t(body); boost::future<Mv> f = t.get_future(); th.go([&] { nap(); t(Cp(a), Mv(b), &tgt); }); out = f.get().id; th.join(); }
  else { Cp arg(a); boost::launch pol = how == 1 ? boost::launch::async : boost::launch::deferred; boost::future<Mv> f = boost::async(pol, body, arg, Mv(b), &tgt); arg.id = 77; nap(); out = f.get().id; }
  SIM_CHECK(out == a * 100 + b && tgt.id == out, "arguments", "the task got other arguments: %d", out); SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count()); sim_settle(); }
#endif

#if V4
// the same for every result type, with a function object or a function, run at once or made ready at the exit of the thread
static Run* args_run; static Mode args_mode; static u32 args_got;
template<class R> static R args_fn(Cp c, Mv m, u32* late) { { sim::Quiet q; args_run->runs++; } c.live(); m.live(); args_got = (u32)(c.id * 10 + m.id); args_run->effect++; if (late) *late += 1; dwell(); args_run->effect += 10; if (args_mode == m_exc) throw Ex{5}; return V<R>::make(6); }
template<class R> struct ArgsF { u32 magic; Run* r; explicit ArgsF(Run* x) : magic(0xF00D), r(x) { sim::Quiet q; r->live++; } ArgsF(ArgsF const& o) : magic(o.magic), r(o.r) { sim::Quiet q; r->live++; } ArgsF(ArgsF&& o) noexcept : magic(o.magic), r(o.r) { o.magic = 1; sim::Quiet q; r->live++; } ~ArgsF() { magic = 0; sim::Quiet q; r->live--; } R operator()(Cp c, Mv m, u32* late) { SIM_CHECK(magic == 0xF00D, "closure", "a task function was used after being moved from or destroyed"); return args_fn<R>(boost::move(c), boost::move(m), late); } };
template<class R> static void args_case() { start(); Run run; args_run = &run; args_mode = pick(); args_got = 0; typedef boost::packaged_task<R(Cp, Mv, u32*)> T; u32 a = sim::range(1, 9), b = sim::range(1, 9); bool at_exit = sim::flip(); u32* late; { sim::Quiet q; late = new u32(0); }
  { T t; switch (sim::choose(4)) { case 0: if constexpr (!std::is_reference<R>::value) { t = T(&args_fn<R>); break; } /* fall through */ case 1: if constexpr (!std::is_reference<R>::value) { t = T(args_fn<R>); break; } /* fall through */ case 2: t = T(ArgsF<R>(&run)); break; default: { ArgsF<R> f(&run); t = T(f); } } boost::future<R> f = t.get_future(); boost::thread th([&] { Tag g("invoker"); nap(); if (at_exit) { t.make_ready_at_thread_exit(Cp((int)a), Mv((int)b), late); SIM_CHECK(!f.is_ready(), "exit", "ready before the thread ended"); nap(); *late += 8; } else t(Cp((int)a), Mv((int)b), late); });
    Out o = take<R>(f); expect<R>(o, want<R>(args_mode == m_exc ? 5 : 6, args_mode), "result"); SIM_CHECK(args_got == a * 10 + b, "arguments", "the task got other arguments: %u", args_got); SIM_CHECK(run.effect == 11 && *late == (at_exit ? 9u : 1u), "visibility", "effects of the task are missing"); th.join(); SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count());
    bool no = false; try { t(Cp(1), Mv(1), late); } catch (boost::task_already_started&) { no = true; } SIM_CHECK(no && run.count() == 1, "started", "a second invocation was accepted"); if (sim::flip()) { t.reset(); boost::future<R> g = t.get_future(); SIM_CHECK(!g.is_ready(), "reset", "the future of a fresh task is ready"); t(Cp(2), Mv(3), late); SIM_CHECK(args_got == 23, "arguments", "the task got other arguments after reset: %u", args_got); Out o2 = take<R>(g); expect<R>(o2, want<R>(args_mode == m_exc ? 5 : 6, args_mode), "after reset"); } }
  SIM_CHECK(run.live == 0, "closure", "%u copies of the task function are left", run.live); { sim::Quiet q; delete late; } }
SCENARIO(arguments_of, 2) { switch (sim::choose(4)) { case 0: args_case<Cp>(); break; case 1: args_case<Mv>(); break; case 2: args_case<Cp&>(); break; default: args_case<void>(); } }
#endif

// a task function that returns something its result can be made of: a reference, another type
struct AsCp { int id; operator Cp() const { return Cp(id); } };
template<class A> struct Conv { Run* r; Mode m; Cp const* src; A give() const; A operator()() { { sim::Quiet q; r->runs++; } r->effect++; dwell(); r->effect += 10; if (m == m_exc) throw Ex{6}; return give(); } A operator()(int k) { SIM_CHECK(k == 3, "arguments", "the task got %d", k); return (*this)(); } };
template<> Cp const& Conv<Cp const&>::give() const { return *src; }
template<> AsCp Conv<AsCp>::give() const { return AsCp{6}; }
template<class A> static void conv_case() { start(); Run run; Mode m = pick(); Cp src(6); { Conv<A> c{&run, m, &src}; boost::future<Cp> f; bool at_exit = sim::flip(); boost::thread th;
#if V4
  boost::packaged_task<Cp(int)> ta; 
  if (sim::flip()) { ta = boost::packaged_task<Cp(int)>(c); f = ta.get_future(); th = boost::thread([&] { Tag g("invoker"); nap(); if (at_exit) ta.make_ready_at_thread_exit(3); else ta(3); }); Out o = take<Cp>(f); expect<Cp>(o, want<Cp>(6, m), "result"); SIM_CHECK(run.effect == 11, "visibility", "effects of the task are missing"); th.join(); } else
#endif
  { PT<Cp> t(c); f = t.get_future(); th = boost::thread([&] { Tag g("invoker"); nap(); if (at_exit) t.make_ready_at_thread_exit(); else t(); }); Out o = take<Cp>(f); expect<Cp>(o, want<Cp>(6, m), "result"); SIM_CHECK(run.effect == 11, "visibility", "effects of the task are missing"); th.join(); } } SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count()); src.live(); }
SCENARIO(converted, 1) { if (sim::flip()) conv_case<Cp const&>(); else conv_case<AsCp>(); }

// ---- async
template<class R> static void async_case() {
  start(); Run* run; { sim::Quiet q; run = new Run; } Mode m = pick(); int id = 7, me = sim_self(); u32 mode = sim::choose(4), nw = V<R>::copy ? sim::choose(4) : 0; sim::Threads th; Fn<R>* fn; { sim::Quiet q; fn = new Fn<R>(run, id, m, sim::flip()); }
  { boost::future<R> f; switch (sim::choose(3)) { case 0: f = boost::async(boost::launch::async, *fn); break; case 1: f = boost::async(boost::launch::async, boost::move(*fn)); break; default: f = boost::async(*fn); } { sim::Quiet q; delete fn; }
    boost::shared_future<R> sf; bool shared = V<R>::copy && (nw || sim::flip()); if (shared) sf = f.share();
    for (u32 i = 0; i < nw; i++) th.go([=] { Tag g("waiter"); boost::shared_future<R> c(sf); many(c); if (sim::flip()) { Out o = take<R>(c); expect<R>(o, want<R>(id, m), "waiter"); SIM_CHECK(run->effect == 11, "visibility", "effects of the task are missing (%u)", run->effect); } });
    if (mode == 0) { Out o = shared ? take<R>(sf) : take<R>(f); expect<R>(o, want<R>(id, m), "getter"); SIM_CHECK(run->effect == 11 && run->by != me, "visibility", "effects of the task: %u, run by %d", run->effect, run->by); } else if (mode == 1) { if (shared) many(sf); else many(f); } else if (mode == 2) nap(); }
  th.join(); sim_settle(); run->left.await(); sim_settle(); SIM_CHECK(run->count() == 1, "runs", "the task ran %u times", run->count()); SIM_CHECK(run->live == 0, "closure", "%u copies of the task function are left", run->live); sim::Quiet q; delete run; }
SCENARIO(async_copyable, 2) { async_case<Cp>(); arena_empty(); }
SCENARIO(async_moveonly, 1) { async_case<Mv>(); arena_empty(); }
SCENARIO(async_ref, 1) { async_case<Cp&>(); arena_empty(); }
SCENARIO(async_void, 2) { async_case<void>(); arena_empty(); }

#if V4
// ---- deferred: runs in a waiting thread, once, and only on demand
template<class R> static void deferred_case() {
  start(); Run run; Mode m = pick(); int id = 8; u32 nw = V<R>::copy ? sim::range(0, 3) : sim::range(0, 1), np = sim::choose(2); bool intr = sim::choose(4) == 0, waiting[64]; { sim::Quiet q; for (auto& w : waiting) w = false; } Flag asked; { 
    boost::future<R> f = boost::async(boost::launch::deferred, Fn<R>(&run, id, m, sim::choose(3) == 0)); boost::shared_future<R> sf; bool shared = V<R>::copy; if (shared) sf = f.share(); sim::Threads th; boost::thread* bt = 0;
    if (sim::flip()) nap(); SIM_CHECK(run.count() == 0, "deferred", "a deferred task ran before it was waited for");
    auto ask = [&](auto& c) { Tag g("waiter"); { sim::Quiet q; waiting[sim_self()] = true; } asked.add(); bool first = false; if (sim::flip()) { c.wait(); SIM_CHECK(c.is_ready(), "state", "not ready after wait"); } else if (sim::flip()) { SIM_CHECK(c.get_exception_ptr() ? m == m_exc : m == m_value, "value", "get_exception_ptr of a deferred task"); } (void)first; Out o = take<R>(c); expect<R>(o, want<R>(id, m), "waiter"); SIM_CHECK(run.effect == 11, "visibility", "effects of the task are missing (%u)", run.effect); };
    for (u32 i = 0; i < nw; i++) if (shared) { if (intr && !bt) bt = new boost::thread([&, sf] { boost::this_thread::disable_interruption di; boost::shared_future<R> c(sf); ask(c); }); else th.go([&, sf] { boost::shared_future<R> c(sf); ask(c); }); } else th.go([&] { ask(f); });
    for (u32 i = 0; i < np && shared; i++) th.go([&, sf] { Tag g("poller"); boost::shared_future<R> c(sf); for (u32 n = sim::range(1, 3); n; n--) { u32 e0 = run.entered.get(); s64 d = (s64)sim::range(0, 4) * MS; DL dl = DL::mono((s64)sim_now() + d); boost::future_status st = sim::flip() ? c.wait_for(nsd(d)) : c.wait_until(st_at((u64)dl.at));
        if (st == boost::future_status::deferred) SIM_CHECK(e0 == 0, "deferred", "a task that has started is reported as deferred"); else if (st == boost::future_status::timeout) { check_timeout(dl, "wait"); SIM_CHECK(asked.get() > 0, "deferred", "a deferred task nobody waits for is reported as a timeout"); } else SIM_CHECK(run.left.get() == 1, "deferred", "ready before the task ended"); if (st == boost::future_status::ready) { SIM_CHECK(run.effect == 11, "visibility", "effects of the task are missing (%u)", run.effect); } bool rd = c.is_ready(); if (!asked.get()) SIM_CHECK(!rd, "state", "ready before anybody asked"); nap(); } });
    if (bt) { nap(); intr_thread(*bt); bt->join(); delete bt; } th.join(); if (!nw) SIM_CHECK(run.count() == 0, "deferred", "a deferred task ran although nobody waited"); else { SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count()); sim::Quiet q; SIM_CHECK(waiting[run.by], "deferred", "the task ran in a thread that does not wait for it"); } }
  SIM_CHECK(run.live == 0, "closure", "%u copies of the task function are left", run.live); }
SCENARIO(deferred_copyable, 3) { deferred_case<Cp>(); arena_empty(); }
SCENARIO(deferred_moveonly, 1) { deferred_case<Mv>(); arena_empty(); }
SCENARIO(deferred_ref, 2) { deferred_case<Cp&>(); arena_empty(); }
SCENARIO(deferred_void, 2) { deferred_case<void>(); arena_empty(); }
// nobody is kept from looking at the future while the deferred task runs (timed waits stay timed)
template<class R> static void deferred_busy_case() {
  start(); sim_faults(0); Run run; Flag in, go; { boost::shared_future<R> sf(boost::async(boost::launch::deferred, [&]() -> R { in.set(); go.await(); { sim::Quiet q; run.runs++; } return V<R>::make(2); }).share()); sim::Threads th; th.go([&, sf] { boost::shared_future<R> c(sf); c.wait(); }); in.await();
    SIM_CHECK(!sf.is_ready() && sf.valid(), "deferred", "ready while the task runs"); DL d = DL::mono((s64)sim_now() + 5 * MS); SIM_CHECK(sf.wait_for(nsd(5 * MS)) == boost::future_status::timeout, "deferred", "a running deferred task"); check_timeout(d, "wait_for"); check_not_late(d, "wait_for"); go.set(); th.join(); SIM_CHECK(sf.is_ready() && run.count() == 1, "runs", "ran %u", run.count()); } }
SCENARIO(deferred_busy, 2) { switch (sim::choose(3)) { case 0: deferred_busy_case<Cp>(); break; case 1: deferred_busy_case<Cp&>(); break; default: deferred_busy_case<void>(); } }
#endif

// ---- resource failures: reported to the caller, or the task runs normally
template<class R> static void fail_case() {
  start(); Run* run; { sim::Quiet q; run = new Run; } Mode m = pick(); int id = 9; bool cr = sim::flip(); sim_faults(cr ? 0 : 1u << SF_ALLOC); bool threw = false; Fn<R>* fn; { sim::Quiet q; fn = new Fn<R>(run, id, m); }
  { boost::future<R> f; if (cr) sim_fail_create(1); else sim_alloc_fail_nth(sim::range(1, 10)); int before = sim_alloc_failed();
    try { f = boost::async(boost::launch::async, *fn); } catch (std::bad_alloc&) { threw = true; } catch (boost::system::system_error&) { threw = true; } sim_alloc_fail_nth(0); bool hit = cr || sim_alloc_failed() > before; { sim::Quiet q; delete fn; }
    if (!hit) SIM_CHECK(!threw, "resources", "async failed without a reason"); if (cr) SIM_CHECK(threw, "resources", "a failure to start a thread was not reported");
    if (!threw) { Out o = take<R>(f); expect<R>(o, want<R>(id, m), "getter"); run->left.await(); } }
  sim_fail_create(0); sim_settle(); SIM_CHECK(run->count() == (threw ? 0u : 1u), "runs", "the task ran %u times", run->count()); SIM_CHECK(run->live == 0, "closure", "%u copies of the task function are left", run->live); sim::Quiet q; delete run; }
SCENARIO(fail_async, 2) { switch (sim::choose(3)) { case 0: fail_case<Cp>(); break; case 1: fail_case<Cp&>(); break; default: fail_case<void>(); } }
template<class R> static void fail_task_case() { start(); sim_faults(1u << SF_ALLOC); Run run; int id = 2; Fn<R> fn(&run, id, m_value); { PT<R>* t = 0; int k = sim::range(1, 4), b = sim_alloc_failed(); sim_alloc_fail_nth(k); try { t = new PT<R>(task<R>(fn)); } catch (std::bad_alloc&) {} sim_alloc_fail_nth(0); SIM_CHECK(t || sim_alloc_failed() > b, "resources", "the constructor failed without a reason"); if (!t) t = new PT<R>(task<R>(fn));
    boost::future<R> f = t->get_future(); if (sim::flip()) { sim_alloc_fail_nth(sim::range(1, 3)); b = sim_alloc_failed(); bool ok = false; try { t->reset(); ok = true; } catch (std::bad_alloc&) {} sim_alloc_fail_nth(0); if (ok) { if (f.is_ready()) { Out o{Out::broken, 0}; try { o = take<R>(f); } catch (std::bad_alloc&) {} SIM_CHECK(o.k == Out::broken, "value", "a task reset before it ran gave %s", oname(o.k)); } f = t->get_future(); } }
    (*t)(); Out o = take<R>(f); expect<R>(o, want<R>(id, m_value), "after a failed allocation"); delete t; } SIM_CHECK(run.count() == 1, "runs", "the task ran %u times", run.count()); }
SCENARIO(fail_task, 1) { if (sim::flip()) fail_task_case<Cp>(); else fail_task_case<void>(); }

// ---- ready-made futures
SCENARIO(ready_made, 1) { start(); Out o; { Cp c(3); boost::future<Cp> f = boost::make_ready_future(c); SIM_CHECK(f.is_ready() && f.has_value(), "ready", "make_ready_future"); o = take<Cp>(f); SIM_CHECK(o.id == 3, "ready", "make_ready_future gave %d", o.id); } { boost::future<Mv> f = boost::make_ready_future(Mv(4)); SIM_CHECK(take<Mv>(f).id == 4, "ready", "make_ready_future"); } { boost::future<void> f = boost::make_ready_future(); SIM_CHECK(f.is_ready() && take<void>(f).k == Out::value, "ready", "make_ready_future<void>"); } { boost::future<Cp&> f = boost::make_ready_future<Cp&>(targets()[2]); SIM_CHECK(take<Cp&>(f).id == 2, "ready", "make_ready_future<T&>"); }
  { boost::future<Cp> f = boost::make_ready_future<Cp>(2, 3); SIM_CHECK(take<Cp>(f).id == 5, "ready", "make_ready_future(args)"); } { boost::future<Cp> f = boost::make_exceptional_future<Cp>(Ex{6}); SIM_CHECK(f.has_exception() && take<Cp>(f) == (Out{Out::exc, 6}), "ready", "make_exceptional_future"); } { boost::future<void> f = boost::make_exceptional_future<void>(boost::copy_exception(Ex{7})); SIM_CHECK(take<void>(f) == (Out{Out::exc, 7}), "ready", "make_exceptional_future"); } { boost::future<Mv> f; try { throw Ex{8}; } catch (...) { f = boost::make_exceptional_future<Mv>(); } SIM_CHECK(take<Mv>(f) == (Out{Out::exc, 8}), "ready", "make_exceptional_future()"); }
  { boost::shared_future<Cp> f = boost::make_shared_future(Cp(5)); SIM_CHECK(take<Cp>(f).id == 5, "ready", "make_shared_future"); } { boost::shared_future<void> f = boost::make_shared_future(); SIM_CHECK(f.is_ready() && take<void>(f).k == Out::value, "ready", "make_shared_future() holds no value"); } }

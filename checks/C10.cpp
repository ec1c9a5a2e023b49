// C10 life cycle of threads: run once with own copies, join means finished, failures leave nothing.
#define BOOST_THREAD_PROVIDES_FUTURE
#include "common.h"
#include <sstream>
#include <memory>
#include <boost/thread/thread.hpp>
#include <boost/bind/bind.hpp>
#include <boost/ref.hpp>

// Counts its copies; the value must stay intact.
struct Cnt { Flag live, made; };
struct Obj { Cnt* c; u32 v; int* heap;
  explicit Obj(Cnt* c_, u32 v_) : c(c_), v(v_), heap(new int((int)v_)) { c->live.add(); c->made.add(); }
  Obj(const Obj& o) : c(o.c), v(o.v), heap(new int(*o.heap)) { c->live.add(); c->made.add(); }
  Obj(Obj&& o) : c(o.c), v(o.v), heap(o.heap) { o.heap = 0; o.v = 0; c->live.add(); c->made.add(); }
  Obj& operator=(const Obj&) = delete;
  ~Obj() { delete heap; heap = 0; v = 0xdead; c->live.add(-1); }
  bool ok(u32 x) const { return v == x && heap && *heap == (int)x; }
};
struct Work { // the callable
  Obj o; Flag* runs; u32* out; u32 want; bool sleepy; Flag* fin;
  template<class... A> void operator()(A const&... a) const {
    runs->add(); SIM_CHECK(o.ok(want), "copy", "the callable's state was damaged"); bool all[] = {true, a.ok(want)...}; for (bool b : all) SIM_CHECK(b, "copy", "an argument was damaged");
    switch (sim::choose(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep_ns(sim::range(1, 20) * 100 * US); break; default: if (sleepy) boost::this_thread::sleep_for(bc::milliseconds(5)); }
    if (out) *out = want; if (fin) fin->set();
  }
};
struct MoveOnly { std::unique_ptr<Obj> p; Flag* runs; u32 want; u32* out; MoveOnly(MoveOnly&&) = default; MoveOnly(std::unique_ptr<Obj> q, Flag* r, u32 w, u32* o) : p(std::move(q)), runs(r), want(w), out(o) {} void operator()() { runs->add(); SIM_CHECK(p && p->ok(want), "copy", "move-only callable damaged"); if (out) *out = want; } };
struct Rcv { u32 got = 0; void m0() { got = 1; } void m2(Obj const& a, u32 b) { SIM_CHECK(a.ok(b), "copy", "argument damaged"); got = b; } };
static void fref(u32& r, Obj const& o, u32 w) { SIM_CHECK(o.ok(w), "copy", "argument damaged"); r = w; }

static const u32 NFORM = 12;
struct Made;
struct RefCall { Made* m; u32 want; RefCall* self; RefCall() : m(0), want(0), self(this) {} RefCall(RefCall const&) = delete; RefCall& operator=(RefCall const&) = delete; void operator()(); void operator()() const; };
struct Made { RefCall rc; Flag runs, fin; u32 out = 0; Cnt c; Rcv rcv; bool counts = true; };
void RefCall::operator()() { SIM_CHECK(self == this, "copy", "a referenced callable was copied"); m->runs.add(); nap(); m->out = want; }
void RefCall::operator()() const { const_cast<RefCall*>(this)->operator()(); }
// Creates a thread in one of the supported ways. Arguments are temporaries or die before the thread may have run.
static boost::thread make(u32 f, Made& m, u32 w, bool sleepy) {
  Obj a(&m.c, w); Work k = {a, &m.runs, &m.out, w, sleepy, &m.fin}; m.counts = true;
  switch (f) {
    case 0: return boost::thread(k);
    case 1: return boost::thread(k, a);
    case 2: return boost::thread(k, a, Obj(&m.c, w), a);
    case 3: { boost::thread::attributes at; at.set_stack_size(1 << 16); const boost::thread::attributes& ca = at; return boost::thread(ca, k); }
    case 4: return boost::thread(boost::bind<void>(k, a));
    case 5: return boost::thread(MoveOnly(std::unique_ptr<Obj>(new Obj(&m.c, w)), &m.runs, w, &m.out));
    case 6: m.counts = false; return boost::thread(&Rcv::m2, &m.rcv, a, w);
    case 7: m.counts = false; return boost::thread(&fref, boost::ref(m.out), a, w);
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
    case 10: m.rc.m = &m; m.rc.want = w; return boost::thread(std::ref(m.rc)); case 11: { m.rc.m = &m; m.rc.want = w; const std::reference_wrapper<const RefCall> r(m.rc); return boost::thread(r); }
#else
    case 10: m.rc.m = &m; m.rc.want = w; return boost::thread(boost::ref(m.rc)); case 11: { m.rc.m = &m; m.rc.want = w; const boost::reference_wrapper<const RefCall> r(m.rc); return boost::thread(r); }
#endif
    case 8: return boost::thread([k, &m] { k(); (void)m; });
    default: { boost::thread t0(k); boost::thread t1; t1 = boost::move(t0); SIM_CHECK(!t0.joinable(), "move", "moved-from thread is joinable"); boost::thread t2; t2.swap(t1); return boost::thread(boost::move(t2)); }
  }
}
static void finished(Made& m, u32 w, u32 f) {
  if (m.counts) { SIM_CHECK(m.runs.get() == 1, "runs", "the callable ran %llu times", (unsigned long long)m.runs.get()); SIM_CHECK(m.out == w, "result", "effects of the callable are missing (form %u)", f); }
  else if (f == 6) SIM_CHECK(m.rcv.got == w, "result", "the member function did not run"); else SIM_CHECK(m.out == w, "result", "the referenced argument was not written");
  SIM_CHECK(m.c.live.get() == 0, "copies", "%llu copies of the callable or its arguments are still alive after the join (form %u)", (unsigned long long)m.c.live.get(), f);
}
// one of the joins; false: timed out
#ifdef BOOST_THREAD_USES_DATETIME
static const u32 NJOIN = 7;
#else
static const u32 NJOIN = 5;
#endif
static bool join1(boost::thread& t, u32 k, u64 d) {
  u64 n = sim_now(), r = sim_now_real() / 1000 * 1000; bool b = true; DL dl = DL::mono(0);
  switch (k) {
    case 0: case 1: t.join(); return true;
    case 2: dl = DL::mono(n + d); b = t.try_join_for(nsd(d)); break;
    case 3: dl = DL::mono(n + d); b = t.try_join_until(st_at(n + d)); break;
    case 4: dl = DL::sys(r + d); b = t.try_join_until(sy_at(r + d)); break;
#ifdef BOOST_THREAD_USES_DATETIME
    case 5: dl = DL::mono(n + us_fl(d)); b = t.timed_join(pd_of(d)); break;
    default: dl = DL::sys(r + d); b = t.timed_join(pt_at(r + d)); break;
#else
    default: break;
#endif
  }
  if (!b) check_timeout(dl, "timed join"); return b;
}
static u64 jd() { static const u64 t[] = {0, 1 * US, 100 * US, 1 * MS, 3 * MS, 110 * MS, 3600 * SEC}; return t[sim::choose(7)]; }

SCENARIO(run_join, 5) {
  sim_faults(SIM_DEFAULT_FAULTS | (1u << SF_RJUMP)); u32 f = sim::choose(NFORM), n = sim::range(1, 3); Made m[3]; boost::thread t[3]; u32 before[3] = {7, 7, 7};
  for (u32 i = 0; i < n; i++) { before[i] = 8 + i; m[i].out = 99; t[i] = make(f, m[i], 10 + i, true); }
  for (u32 i = 0; i < n; i++) { SIM_CHECK(t[i].joinable(), "joinable", "a running thread is not joinable"); boost::thread::id id = t[i].get_id(); for (u32 j = 0; j < i; j++) SIM_CHECK(!t[j].joinable() || t[j].get_id() != id, "id", "two live threads share an id"); }
  for (u32 i = 0; i < n; i++) { int tries = 0; while (!join1(t[i], sim::choose(NJOIN), jd())) { SIM_CHECK(t[i].joinable(), "joinable", "a timed-out join consumed the thread"); if (++tries > 4) { t[i].join(); break; } }
    SIM_CHECK(!t[i].joinable(), "joinable", "joinable after a successful join"); SIM_CHECK(t[i].get_id() == boost::thread::id(), "id", "a joined thread still has an id"); finished(m[i], 10 + i, f); }
  SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "%d system threads were never joined or detached", sim_thread_handles());
}
// What the parent wrote before the creation is visible; what the child wrote is visible after the join, including its exit handlers.
SCENARIO(visibility, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); u32 a = 0, b = 0, c = 0; a = 1; boost::thread::id cid; boost::thread t([&] { SIM_CHECK(a == 1, "visibility", "the child misses a write of its parent"); boost::this_thread::at_thread_exit([&] { if (sim::flip()) sim_sleep_ns(1 * MS); c = 3; }); cid = boost::this_thread::get_id(); b = 2; a = 4; });
  boost::thread::id hid = t.get_id(); u32 k = sim::choose(NJOIN); int n = 0; while (!join1(t, k, jd())) if (++n > 5) k = 0; SIM_CHECK(b == 2 && c == 3 && a == 4, "visibility", "join returned before the child's exit handlers"); SIM_CHECK(hid == cid, "id", "get_id of the handle and of the thread differ");
}
SCENARIO(detached, 4) {
  sim_faults(SIM_DEFAULT_FAULTS); u32 f = sim::choose(NFORM); if (f == 6 || f == 7 || f > 9) f = 0; Made* m; { sim::Quiet q; m = new Made; } u32 how = sim::choose(3);
  { boost::thread t = make(f, *m, 33, false); if (sim::flip()) nap(); switch (how) { case 0: t.detach(); SIM_CHECK(!t.joinable(), "detach", "joinable after detach"); break; case 1: {
#ifndef BOOST_THREAD_PROVIDES_THREAD_DESTRUCTOR_CALLS_TERMINATE_IF_JOINABLE
      break;
#endif
      } t.detach(); break; default: { join1(t, 2, jd()); if (t.joinable()) t.detach(); } } }
  for (int i = 0; i < 200 && !(m->runs.get() && m->c.live.get() == 0); i++) sim_sleep_ns(5 * MS); sim_settle(); SIM_CHECK(m->runs.get() == 1 && m->c.live.get() == 0, "detached", "detached thread: %llu runs, %llu objects alive", (unsigned long long)m->runs.get(), (unsigned long long)m->c.live.get()); SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "%d system threads were never joined or detached", sim_thread_handles()); { sim::Quiet q; delete m; }
}
// Attributes reach the system: the stack size asked for, and a thread created detached belongs to nobody from the start.
SCENARIO(with_attributes, 3) {
  sim_faults(SIM_DEFAULT_FAULTS); Made* m; { sim::Quiet q; m = new Made; } boost::thread::attributes at; size_t dflt = at.get_stack_size(); static const size_t sizes[] = {0, 1, 5000, 16384, 40000, 65536, 1000001, 1 << 22}; size_t want = sizes[sim::choose(8)]; bool det = sim::flip(); u32 w = 21;
  if (sim::flip()) at.set_stack_size(sizes[sim::choose(8)]), dflt = at.get_stack_size(); at.set_stack_size(want); size_t got = at.get_stack_size(); if (want) SIM_CHECK(got >= want && got >= (size_t)PTHREAD_STACK_MIN && got < want + 300000, "stack", "stack size %zu for a request of %zu", got, want); else SIM_CHECK(got == dflt, "stack", "a stack size of zero is not the default");
  if (det) pthread_attr_setdetachstate(at.native_handle(), PTHREAD_CREATE_DETACHED); const boost::thread::attributes& ca = at;
  { Obj a(&m->c, w); Work k = {a, &m->runs, &m->out, w, sim::flip(), &m->fin}; boost::thread t; switch (sim::choose(3)) { case 0: { boost::thread x(ca, k); t.swap(x); break; } case 1: t = boost::thread(ca, boost::bind<void>(k, a)); break; default: { Cnt* c = &m->c; (void)c; t = boost::thread(ca, [k] { k(); }); } }
    SIM_CHECK(sim_last_stack() == got, "stack", "the thread was created with a stack of %zu instead of %zu", sim_last_stack(), got);
    if (det) { SIM_CHECK(!t.joinable() && t.get_id() == boost::thread::id(), "detached", "a thread created detached is joinable"); bool threw = false; try { t.join(); } catch (boost::thread_resource_error&) { threw = true; } SIM_CHECK(threw, "detached", "a thread created detached was joined"); }
    else { SIM_CHECK(t.joinable(), "joinable", "not joinable"); if (sim::choose(3) == 0) t.detach(), det = true; else { int n = 0; u32 k = sim::choose(NJOIN); while (!join1(t, k, jd())) if (++n > 4) k = 0; SIM_CHECK(m->runs.get() == 1 && m->out == w, "result", "join returned before the thread had finished"); } } }
  for (int i = 0; i < 200 && !(m->runs.get() && m->c.live.get() == 0); i++) sim_sleep_ns(5 * MS); sim_settle(); SIM_CHECK(m->runs.get() == 1 && m->c.live.get() == 0, "detached", "thread with attributes: %llu runs, %llu objects alive", (unsigned long long)m->runs.get(), (unsigned long long)m->c.live.get()); SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked"); { sim::Quiet q; delete m; }
}
// Creation fails: thread_resource_error or bad_alloc, nothing ran, nothing left; the next creation works.
SCENARIO(no_thread, 4) {
  sim_faults(0); u32 f = sim::choose(NFORM); Made* m = new Made; u64 live0 = 0; bool failed = false; u32 how = sim::choose(4); boost::thread t; { boost::thread w([] {}); w.join(); } live0 = sim_live_allocs(); u32 nth = sim::range(1, 12);
  try { if (how == 0) sim_fail_create(1); if (how == 1) sim_fail_minit(sim::range(1, 2)); if (how == 2) sim_fail_cinit(sim::range(1, 2)); if (how == 3) sim_alloc_fail_nth(nth); sim_alloc_window(1); boost::thread t2 = make(f, *m, 5, false); sim_alloc_window(-1); t = boost::move(t2); }
  catch (boost::thread_resource_error& e) { sim_alloc_window(-1); failed = true; SIM_CHECK(how != 3, "exception", "a failed allocation is reported as thread_resource_error"); SIM_CHECK(e.native_error() != 0 || how != 0, "exception", "no error code"); } catch (std::bad_alloc&) { sim_alloc_window(-1); failed = true; SIM_CHECK(how == 3, "exception", "bad_alloc without a failed allocation"); }
  sim_fail_create(0); sim_fail_minit(0); sim_fail_cinit(0); sim_alloc_fail_nth(0);
  if (how == 0) SIM_CHECK(failed, "exception", "thread creation failed without an exception");
  if (failed) { SIM_CHECK(!t.joinable(), "joinable", "joinable without a thread"); sim_settle(); SIM_CHECK(m->runs.get() == 0 && m->rcv.got == 0, "runs", "the callable of a thread that could not be started ran"); SIM_CHECK(m->c.live.get() == 0, "copies", "%llu copies leaked by a failed creation", (unsigned long long)m->c.live.get()); u64 l = sim_live_allocs(); SIM_CHECK(l == live0, "leak", "%lld allocations leaked by a failed creation (form %u, kind %u)", (long long)(l - live0), f, how); delete m; m = new Made; t = make(f, *m, 5, false); }
  t.join(); finished(*m, 5, f); SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked"); delete m;
}
// Any sequence of operations on a few handles, against a model.
SCENARIO(handles, 5) {
  sim_faults(SIM_DEFAULT_FAULTS); static const u32 N = 3, T = 6; boost::thread h[N]; int at[N] = {-1, -1, -1}; struct Tk { Made m; boost::thread::id id; }; Tk* tk[T]; u32 nt = 0; u32 steps = sim::range(3, 12);
  auto fresh = [&](u32 i) { u32 k = nt++; { sim::Quiet q; tk[k] = new Tk; } h[i] = boost::thread(Work{Obj(&tk[k]->m.c, 100 + k), &tk[k]->m.runs, &tk[k]->m.out, 100 + k, false, &tk[k]->m.fin}); tk[k]->id = h[i].get_id(); at[i] = (int)k; };
  for (u32 s = 0; s < steps; s++) { u32 i = sim::choose(N), j = sim::choose(N);
    switch (sim::choose(8)) {
      case 0: case 1: if (at[i] < 0 && nt < T) fresh(i); break;
      case 2: if (i != j && at[i] < 0) { h[i] = boost::move(h[j]); at[i] = at[j]; at[j] = -1; } break;
      case 3: h[i].swap(h[j]); std::swap(at[i], at[j]); break;
      case 4: swap(h[i], h[j]); std::swap(at[i], at[j]); break;
      case 5: if (at[i] >= 0) { if (join1(h[i], sim::choose(NJOIN), jd())) { Made& m = tk[at[i]]->m; SIM_CHECK(m.out == 100 + (u32)at[i], "result", "join returned too early"); at[i] = -1; } } else { bool threw = false; try { h[i].join(); } catch (boost::thread_resource_error&) { threw = true; } SIM_CHECK(threw, "join", "joining not-a-thread was accepted"); } break;
      case 6: h[i].detach(); at[i] = -1; break;
      default: { boost::thread x(boost::move(h[i])); SIM_CHECK(!h[i].joinable(), "move", "moved-from handle is joinable"); h[i].swap(x); }
    }
    for (u32 q = 0; q < N; q++) { SIM_CHECK(h[q].joinable() == (at[q] >= 0), "joinable", "joinable() is %d", (int)h[q].joinable()); SIM_CHECK(h[q].get_id() == (at[q] >= 0 ? tk[at[q]]->id : boost::thread::id()), "id", "wrong id after a handle operation"); }
  }
  for (u32 i = 0; i < N; i++) if (at[i] >= 0) { h[i].join(); SIM_CHECK(tk[at[i]]->m.out == 100 + (u32)at[i], "result", "join returned too early"); }
  for (int w = 0; w < 200; w++) { bool all = true; for (u32 k = 0; k < nt; k++) if (!tk[k]->m.runs.get() || tk[k]->m.c.live.get()) all = false; if (all) break; sim_sleep_ns(2 * MS); }
  sim_settle(); for (u32 k = 0; k < nt; k++) { SIM_CHECK(tk[k]->m.runs.get() == 1, "runs", "callable ran %llu times", (unsigned long long)tk[k]->m.runs.get()); SIM_CHECK(tk[k]->m.c.live.get() == 0, "copies", "copies left"); { sim::Quiet q; delete tk[k]; } } SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked");
}
// Interruption that nobody catches ends that thread only, and the handle behaves as ever.
SCENARIO(interrupted_end, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); Flag a, b, ex; boost::thread o([&] { sim_sleep_ns(5 * MS); b.set(); });
  boost::thread t([&] { struct R { Flag& f; ~R() { f.set(); } } r = {a}; boost::this_thread::at_thread_exit([&] { ex.set(); }); boost::this_thread::sleep_for(bc::hours(5000)); }); if (sim::flip()) nap(); t.interrupt(); u32 k = sim::choose(NJOIN); while (!join1(t, k, 3600 * SEC)) {} SIM_CHECK(a.get() && ex.get() == 1, "unwind", "an interrupted thread was not ended properly"); o.join(); SIM_CHECK(b.get(), "other", "another thread was affected");
}
// Threads created by threads, each joined or detached by whoever holds the handle then.
SCENARIO(nested, 3) {
  sim_faults(SIM_DEFAULT_FAULTS); Flag n; u32 v[3] = {0, 0, 0}; boost::mutex m; boost::thread inner; boost::thread outer([&] { v[0] = 1; boost::thread t([&] { v[1] = v[0] + 1; boost::thread d([&] { n.add(); }); if (sim::flip()) d.detach(); else d.join(); }); if (sim::flip()) { t.join(); } else { boost::lock_guard<boost::mutex> l(m); inner = boost::move(t); } });
  outer.join(); if (inner.joinable()) inner.join(); SIM_CHECK(v[1] == 2, "result", "inner thread not finished"); while (!n.get()) sim_sleep_ns(1 * MS); sim_settle(); SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked");
}
// join on oneself fails cleanly; a thread detached while it finishes is not lost.
SCENARIO(self, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); boost::mutex m; boost::thread t; Flag r; u32 k = sim::choose(3); m.lock(); t = boost::thread([&] { boost::lock_guard<boost::mutex> l(m); bool threw = false; try { if (k == 0) t.join(); else if (k == 1) t.try_join_for(nsd(MS)); else if (k == 2) t.try_join_until(st_at(sim_now() + MS)); } catch (boost::thread_resource_error&) { threw = true; } SIM_CHECK(threw, "self-join", "a thread joined itself"); r.set(); }); m.unlock(); 
  if (sim::flip()) { sim_settle(); m.lock(); m.unlock(); } else { r.await(); } t.join(); SIM_CHECK(r.get(), "run", "did not run");
}
// Thread ids: one per thread, totally ordered, the same from inside and outside, hashing alike when equal.
SCENARIO(ids, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); static const u32 N = 4; u32 n = sim::range(2, N); boost::thread t[N]; boost::thread::id in[N], out[N + 2]; Flag go; for (u32 i = 0; i < n; i++) t[i] = boost::thread([&, i] { in[i] = boost::this_thread::get_id(); go.await(); });
  for (u32 i = 0; i < n; i++) out[i] = t[i].get_id(); out[n] = boost::this_thread::get_id(); out[n + 1] = boost::thread::id(); nap(); go.set();
  auto str = [](boost::thread::id const& i) { std::ostringstream s; s << i; return s.str(); };
  for (u32 a = 0; a < n + 2; a++) for (u32 b = 0; b < n + 2; b++) { bool e = a == b; boost::thread::id x = out[a], y = out[b]; SIM_CHECK((x == y) == e && (x != y) == !e, "id", "two threads alive share an id or one thread has two"); SIM_CHECK((x < y) + (y < x) + e == 1 && (x < y) == (y > x) && (x <= y) == !(y < x) && (x >= y) == !(x < y), "id", "the order of thread ids is inconsistent"); for (u32 c = 0; c < n + 2; c++) SIM_CHECK(!(x < y && y < out[c]) || x < out[c], "id", "the order of thread ids is not transitive"); if (e) SIM_CHECK(boost::hash<boost::thread::id>()(x) == boost::hash<boost::thread::id>()(y) && str(x) == str(y), "id", "equal ids hash or print differently"); else SIM_CHECK(str(x) != str(y), "id", "different ids print alike"); }
  boost::thread::id keep = out[0]; t[0].swap(t[1]); SIM_CHECK(t[1].get_id() == keep && t[0].get_id() == out[1], "id", "ids do not follow the threads"); for (u32 i = 0; i < n; i++) t[i].join(); for (u32 i = 0; i < n; i++) SIM_CHECK(in[i] == out[i] && out[i] != boost::thread::id() && t[i].get_id() == boost::thread::id(), "id", "a thread's id differs between inside and outside");
}

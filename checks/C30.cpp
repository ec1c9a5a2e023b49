// C30 Resource failures are reported and leave everything usable.
#include "fut.h"
#include <boost/thread/locks.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/condition.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#endif
enum { A = 1, T = 2, M = 4, C = 8 };
static int fired() { return sim_injected(SF_ALLOC) + sim_injected(SF_CREATE) + sim_injected(SF_MINIT) + sim_injected(SF_CINIT); }
static void arm(u32 kinds, u32 reach) { u32 k[4], n = 0; for (u32 i = 0; i < 4; i++) if (kinds >> i & 1) k[n++] = 1u << i; switch (k[sim::choose(n)]) { case A: sim_faults(1u << SF_ALLOC); sim_alloc_fail_nth((int)sim::range(1, reach)); break; case T: sim_fail_create(1 + (sim::choose(4) == 3)); break; case M: sim_fail_minit((int)sim::range(1, 3)); break; default: sim_fail_cinit((int)sim::range(1, 3)); } }
static void disarm() { sim_alloc_fail_nth(0); sim_fail_create(0); sim_fail_minit(0); sim_fail_cinit(0); sim_faults(0); }
// one operation with a failure waiting for it: done, or the documented exception
template<class F> static bool attempt(const char* what, u32 kinds, u32 reach, F f) { int b = fired(); bool ok = false; const char* got = 0; int av = sim_injected(SF_ALLOC); arm(kinds, reach); try { f(); ok = true; } catch (std::bad_alloc&) { disarm(); SIM_CHECK(sim_injected(SF_ALLOC) > av, "spurious", "%s throws bad_alloc and no allocation failed", what); } catch (boost::thread_resource_error&) { got = "thread_resource_error"; } catch (boost::lock_error&) { got = "lock_error"; } catch (boost::condition_error&) { got = "condition_error"; } catch (boost::thread_interrupted&) { disarm(); SIM_CHECK(false, "exception", "%s throws thread_interrupted", what); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
  catch (boost::sync_queue_is_closed&) { disarm(); SIM_CHECK(false, "exception", "%s throws sync_queue_is_closed", what); }
#endif
  catch (std::exception& e) { disarm(); SIM_CHECK(false, "exception", "%s throws something else: %s", what, e.what()); } catch (...) { disarm(); SIM_CHECK(false, "exception", "%s throws something else", what); } disarm();
  SIM_CHECK(!got || fired() > b, "spurious", "%s throws %s and nothing failed", what, got); return ok; }
// with failures, until it works; then once more must work
template<class F, class U> static void persist(const char* what, u32 kinds, u32 reach, F f, U unchanged) { u32 n = sim::range(1, 3); for (u32 i = 0; i < n; i++) { if (attempt(what, kinds, reach, f)) return; unchanged(); } int b = fired(); try { f(); } catch (std::exception& e) { SIM_CHECK(false, "repeat", "%s does not work once resources are back: %s", what, e.what()); } catch (boost::thread_interrupted&) { SIM_CHECK(false, "repeat", "%s is interrupted", what); } SIM_CHECK(fired() == b, "harness", "a failure after disarm"); }
// runs fn in a thread of its own; afterwards nothing is left
template<class F> static void isolated(F fn) { sim_faults(0); int p = sim_live_prims(); u64 m = sim_live_allocs(); if (sim::flip()) { sim::Threads th; th.go([&] { Tag t("subject"); fn(); }); th.join(); } else { boost::thread t([&] { Tag g("subject"); fn(); }); t.join(); } sim_settle(); SIM_CHECK(sim_live_prims() == p, "primitives", "%d mutexes or condition variables are left", sim_live_prims() - p); SIM_CHECK(sim_live_allocs() == m, "memory", "%lld blocks are left", (long long)(sim_live_allocs() - m)); SIM_CHECK(sim_thread_handles() == 0, "threads", "%d threads neither joined nor detached", sim_thread_handles()); }
static void nothing() {}
// a callable which counts its copies and runs, and holds memory
struct Life { Flag live, runs, done; };
struct Fn0 { Life* l; int* mem; explicit Fn0(Life& x) : l(&x), mem(new int(5)) { l->live.add(); } Fn0(Fn0 const& o) : l(o.l), mem(new int(*o.mem)) { l->live.add(); } Fn0(Fn0&& o) noexcept : l(o.l), mem(o.mem) { o.mem = 0; l->live.add(); } Fn0& operator=(Fn0 const&) = delete; ~Fn0() { delete mem; l->live.add(-1); } int operator()() const { SIM_CHECK(mem && *mem == 5, "closure", "a dead closure runs"); l->runs.add(); dwell(); l->done.add(); return 5; } };
struct FnV { Fn0 f; explicit FnV(Life& x) : f(x) {} void operator()() const { f(); } };
#define LIFE(n) static Life n
static void unrun(Life& l, const char* what, u64 copies) { SIM_CHECK(l.runs.get() == 0, "ran", "%s failed, yet its function ran", what); SIM_CHECK(l.live.get() == copies, "closure", "%s failed, %llu copies of its function are left", what, (unsigned long long)(l.live.get() - copies)); }
static void free_now(boost::mutex& m, const char* what) { bool ok = false; sim::Threads th; th.go([&] { for (u32 i = 0; i < 200 && !ok; i++) { ok = m.try_lock(); if (ok) m.unlock(); else sim_sleep_ns(MS); } }); th.join(); SIM_CHECK(ok, "lock-held", "%s leaves its lock held", what); }

// ---- making things, then using them
template<class X, class U> static void make(const char* what, u32 kinds, U use) { persist(what, kinds, 10, [&] { X x; use(x); }, nothing); }
template<class X> static void lockit(X& x) { x.lock(); bool b = false; { sim::Quiet q; b = true; } x.unlock(); (void)b; }
struct Big { std::vector<int> v; explicit Big(int n = 3) : v((size_t)n, 1) {} };
SCENARIO(make_locks, 2) { u32 w = sim::choose(8); isolated([&] { switch (w) { case 0: make<boost::mutex>("mutex()", M, [](boost::mutex& m) { lockit(m); }); break; case 1: make<boost::timed_mutex>("timed_mutex()", M | C, [](boost::timed_mutex& m) { lockit(m); SIM_CHECK(m.try_lock_for(nsd(1000000)), "use", "cannot lock"); m.unlock(); }); break; case 2: make<boost::recursive_mutex>("recursive_mutex()", M, [](boost::recursive_mutex& m) { m.lock(); lockit(m); m.unlock(); }); break; case 3: make<boost::recursive_timed_mutex>("recursive_timed_mutex()", M | C, [](boost::recursive_timed_mutex& m) { m.lock(); SIM_CHECK(m.try_lock_for(nsd(1000000)), "use", "cannot lock"); m.unlock(); m.unlock(); }); break;
    case 4: make<boost::shared_mutex>("shared_mutex()", M | C, [](boost::shared_mutex& m) { lockit(m); m.lock_shared(); m.unlock_shared(); }); break; case 5: make<boost::upgrade_mutex>("upgrade_mutex()", M | C, [](boost::upgrade_mutex& m) { lockit(m); m.lock_upgrade(); m.unlock_upgrade_and_lock(); m.unlock(); }); break; case 6: make<boost::condition_variable>("condition_variable()", M | C, [](boost::condition_variable& c) { c.notify_all(); boost::mutex m; boost::unique_lock<boost::mutex> l(m); c.wait_for(l, nsd(1000)); }); break; default: make<boost::condition_variable_any>("condition_variable_any()", M | C, [](boost::condition_variable_any& c) { c.notify_one(); boost::recursive_mutex m; boost::unique_lock<boost::recursive_mutex> l(m); c.wait_for(l, nsd(1000)); }); } }); }
struct Bar1 : boost::barrier { Bar1() : boost::barrier(1) {} }; struct Bar2 : boost::barrier { Bar2() : boost::barrier(1, Nop()) {} struct Nop { int* p; Nop() : p(new int(1)) {} Nop(Nop const& o) : p(new int(*o.p)) {} ~Nop() { delete p; } void operator()() const {} }; }; struct La1 : boost::latch { La1() : boost::latch(1) {} }; struct Cl1 : boost::completion_latch { Cl1() : boost::completion_latch(1) {} }; struct BQ : boost::sync_bounded_queue<int> { BQ() : boost::sync_bounded_queue<int>(2) {} };
SCENARIO(make_sync, 2) { u32 w = sim::choose(9); isolated([&] { switch (w) { case 0: make<Bar1>("barrier()", A | M | C, [](Bar1& b) { SIM_CHECK(b.wait(), "use", "the last one of a barrier"); }); break; case 1: make<Bar2>("barrier(f)", A | M | C, [](Bar2& b) { SIM_CHECK(b.wait(), "use", "the last one of a barrier"); }); break; case 2: make<La1>("latch()", M | C, [](La1& b) { b.count_down(); b.wait(); }); break; case 3: make<Cl1>("completion_latch()", M | C, [](Cl1& b) { sim::Threads th; th.go([&] { b.wait(); }); b.count_down(); th.join(); }); break; case 4: make<boost::sync_queue<int> >("sync_queue()", A | M | C, [](boost::sync_queue<int>& q) { q.push(3); SIM_CHECK(q.pull() == 3, "use", "another element"); }); break; case 5: make<BQ>("sync_bounded_queue()", A | M | C, [](BQ& q) { q.push(3); SIM_CHECK(q.pull() == 3, "use", "another element"); }); break;
    case 6: make<boost::sync_priority_queue<int> >("sync_priority_queue()", A | M | C, [](boost::sync_priority_queue<int>& q) { q.push(3); q.push(4); SIM_CHECK(q.pull() == 4, "use", "another element"); }); break; case 7: make<boost::sync_timed_queue<int> >("sync_timed_queue()", A | M | C, [](boost::sync_timed_queue<int>& q) { q.push(3, nsd(10)); SIM_CHECK(q.pull() == 3, "use", "another element"); }); break; default: make<boost::synchronized_value<Big> >("synchronized_value()", A | M, [](boost::synchronized_value<Big>& s) { SIM_CHECK(s->v.size() == 3, "use", "another value"); }); } }); }
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
SCENARIO(make_with_allocator, 2) { u32 w = sim::choose(4); isolated([&] { LIFE(l); static int target; switch (w) { case 0: persist("promise(allocator)", A | M | C, 6, [&] { boost::promise<int> p(boost::allocator_arg, Arena<char>()); boost::future<int> f = p.get_future(); p.set_value(2); SIM_CHECK(f.get() == 2, "use", "another value"); }, arena_empty); break; case 1: persist("promise<void>(allocator)", A | M | C, 6, [&] { boost::promise<void> p(boost::allocator_arg, Arena<char>()); boost::future<void> f = p.get_future(); p.set_value(); f.get(); }, arena_empty); break; case 2: persist("promise<T&>(allocator)", A | M | C, 6, [&] { boost::promise<int&> p(boost::allocator_arg, Arena<char>()); boost::future<int&> f = p.get_future(); p.set_value(target); SIM_CHECK(&f.get() == &target, "use", "another object"); }, arena_empty); break;
#if BOOST_THREAD_VERSION >= 4
    default: persist("packaged_task(allocator, f)", A | M | C, 10, [&] { Fn0 fn(l); if (sim::flip()) { boost::packaged_task<int()> t(boost::allocator_arg, Arena<char>(), fn); boost::future<int> f = t.get_future(); t(); SIM_CHECK(f.get() == 5, "use", "another value"); } else { boost::packaged_task<int()> t(boost::allocator_arg, Arena<char>(), boost::move(fn)); boost::future<int> f = t.get_future(); t(); SIM_CHECK(f.get() == 5, "use", "another value"); } }, arena_empty);
#else
    default: persist("packaged_task(allocator, f)", A | M | C, 10, [&] { Fn0 fn(l); boost::packaged_task<int> t(boost::allocator_arg, Arena<char>(), fn); boost::future<int> f = t.get_future(); t(); SIM_CHECK(f.get() == 5, "use", "another value"); }, arena_empty);
#endif
    } arena_empty(); SIM_CHECK(l.live.get() == 0, "closure", "%llu copies of a function are left", (unsigned long long)l.live.get()); }); }
#endif
SCENARIO(make_futures, 2) { u32 w = sim::choose(5); isolated([&] { LIFE(l); switch (w) { case 0: make<boost::promise<int> >("promise()", A | M | C, [](boost::promise<int>& p) { boost::future<int> f = p.get_future(); p.set_value(2); SIM_CHECK(f.get() == 2, "use", "another value"); }); break; case 1: make<boost::promise<void> >("promise<void>()", A | M | C, [](boost::promise<void>& p) { p.set_value(); boost::future<void> f = p.get_future(); f.get(); }); break;
#if BOOST_THREAD_VERSION >= 4
    case 2: persist("packaged_task(f)", A | M | C, 10, [&] { boost::packaged_task<int()> t((Fn0(l))); boost::future<int> f = t.get_future(); t(); SIM_CHECK(f.get() == 5, "use", "another value"); }, nothing); break;
#else
    case 2: persist("packaged_task(f)", A | M | C, 10, [&] { boost::packaged_task<int> t((Fn0(l))); boost::future<int> f = t.get_future(); t(); SIM_CHECK(f.get() == 5, "use", "another value"); }, nothing); break;
#endif
    case 3: persist("make_ready_future()", A | M | C, 10, [&] { boost::future<Big> f = boost::make_ready_future(Big(4)); SIM_CHECK(f.get().v.size() == 4, "use", "another value"); }, nothing); break; default: persist("make_exceptional_future()", A | M | C, 10, [&] { boost::future<int> f = boost::make_exceptional_future<int>(Ex{3}); boost::shared_future<int> s = f.share(); Out o = outcome([&] { return s.get(); }); SIM_CHECK((o == Out{Out::exc, 3}) || sim_alloc_failed(), "use", "another exception"); }, nothing); } SIM_CHECK(l.live.get() == 0, "closure", "%llu copies of a function are left", (unsigned long long)l.live.get()); }); }
// ---- threads
SCENARIO(make_thread, 4) { u32 form = sim::choose(6); isolated([&] { LIFE(l); { FnV f(l); boost::thread t; boost::scoped_thread<>* sc = 0; boost::thread_group* g = form == 5 ? new boost::thread_group() : 0; u64 base = 1; char const* what = form == 5 ? "create_thread" : "thread(f)";
    persist(what, A | T | M | C, 8, [&] { switch (form) { case 0: t = boost::thread(f); break; case 1: { boost::thread u((FnV(f))); t = boost::move(u); break; }
      case 2: { boost::thread::attributes a; a.set_stack_size(1 << 20); boost::thread::attributes const& ca = a; (void)ca; t = boost::thread(ca, f); break; } case 3: { t = boost::thread([](FnV const& x, int) { x(); }, f, 3); break; } case 4: { boost::scoped_thread<>* s = new boost::scoped_thread<>(f); sc = s; break; } default: g->create_thread(f); } },
      [&] { sim_settle(); unrun(l, what, base); SIM_CHECK(!t.joinable() && !sc, "state", "%s failed and there is a thread", what); if (g) SIM_CHECK(g->size() == 0, "state", "%s failed and the group has %zu threads", what, g->size()); });
    if (g) { SIM_CHECK(g->size() == 1, "state", "the group has %zu threads", g->size()); g->join_all(); delete g; } else if (sc) delete sc; else { SIM_CHECK(t.joinable(), "state", "the thread is not joinable"); t.join(); } SIM_CHECK(l.done.get() == 1, "runs", "the thread's function ran %llu times", (unsigned long long)l.done.get()); } sim_settle(); SIM_CHECK(l.live.get() == 0, "closure", "%llu copies of the function are left", (unsigned long long)l.live.get()); }); }
// ---- thread-specific values
static void count_up(Life* l) { l->done.add(); }
SCENARIO(tss, 3) { isolated([&] { LIFE(a); LIFE(b); boost::thread_specific_ptr<Life>* p = 0; persist("thread_specific_ptr()", A, 4, [&] { p = new boost::thread_specific_ptr<Life>(&count_up); }, nothing); boost::thread_specific_ptr<Life>* q = 0; persist("thread_specific_ptr()", A, 4, [&] { q = new boost::thread_specific_ptr<Life>(&count_up); }, nothing); bool two = sim::flip();
    sim::Threads th; th.go([&] { Tag t("user"); if (two) persist("reset", A | M | C, 6, [&] { q->reset(&b); }, [&] { SIM_CHECK(q->get() == 0 && b.done.get() == 0, "state", "a failed reset stored its value or cleaned it up"); }); persist("reset", A | M | C, 6, [&] { p->reset(&a); }, [&] { SIM_CHECK(p->get() == 0 && a.done.get() == 0, "state", "a failed reset stored its value or cleaned it up"); SIM_CHECK(!two || (q->get() == &b && !b.done.get()), "state", "a failed reset touched another value"); }); SIM_CHECK(p->get() == &a, "state", "the value is not stored"); }); th.join(); SIM_CHECK(a.done.get() == 1 && b.done.get() == (u64)two, "cleanup", "cleanups ran %llu and %llu times", (unsigned long long)a.done.get(), (unsigned long long)b.done.get()); delete p; delete q; }); }
// ---- exit actions
SCENARIO(at_exit, 3) { bool raw = sim::flip(); isolated([&] { LIFE(l); LIFE(k); bool two = sim::flip(); { auto body = [&] { Tag t("user"); if (two) boost::this_thread::at_thread_exit(FnV(k)); { FnV f(l); persist("at_thread_exit", A | M | C, 6, [&] { boost::this_thread::at_thread_exit(f); }, [&] { unrun(l, "at_thread_exit", 1); }); } SIM_CHECK(l.runs.get() == 0 && k.runs.get() == 0, "ran", "an exit function ran early"); }; if (raw) { sim::Threads th; th.go(body); th.join(); } else { boost::thread t(body); t.join(); } } SIM_CHECK(l.runs.get() == 1 && k.runs.get() == (u64)two, "runs", "exit functions ran %llu and %llu times", (unsigned long long)l.runs.get(), (unsigned long long)k.runs.get()); SIM_CHECK(l.live.get() == 0 && k.live.get() == 0, "closure", "copies of the exit functions are left"); }); }
SCENARIO(notify_exit, 3) { isolated([&] { boost::mutex m; boost::condition_variable c; bool over = false; boost::thread t([&] { Tag g("notifier"); persist("notify_all_at_thread_exit", A, 3, [&] { boost::unique_lock<boost::mutex> l(m); over = true; boost::notify_all_at_thread_exit(c, boost::move(l)); }, [&] { free_now(m, "notify_all_at_thread_exit"); }); SIM_CHECK(!m.try_lock(), "state", "the lock is not held until the thread ends"); }); { boost::unique_lock<boost::mutex> l(m); while (!over) c.wait(l); } t.join(); }); }
SCENARIO(value_exit, 3) { u32 form = sim::choose(3); isolated([&] { boost::promise<int>* p = 0; p = new boost::promise<int>(); boost::future<int> f = p->get_future(); boost::thread t([&] { Tag g("setter"); persist("set_value_at_thread_exit", A, 5, [&] { if (form == 0) p->set_value_at_thread_exit(4); else if (form == 1) { int const four = 4; p->set_value_at_thread_exit(four); } else p->set_exception_at_thread_exit(boost::copy_exception(Ex{4})); }, [&] { SIM_CHECK(!f.is_ready(), "state", "ready although the operation failed"); }); SIM_CHECK(!f.is_ready(), "early", "ready before the thread ends"); }); t.join(); SIM_CHECK(f.is_ready(), "state", "not ready after the thread ended"); Out o = outcome([&] { return f.get(); }); SIM_CHECK(o.id == 4 && o.k == (form == 2 ? Out::exc : Out::value), "value", "the future has %s %d", oname(o.k), o.id); delete p; }); }
// ---- promises: the state is made late
SCENARIO(promise, 3) { u32 form = sim::choose(4); bool first = sim::flip(); isolated([&] { boost::promise<int> p; boost::future<int> f; if (first) persist("get_future", A | M | C, 4, [&] { f = p.get_future(); }, nothing); persist("setting a promise", A | M | C, 6, [&] { switch (form) { case 0: p.set_value(4); break; case 1: { int v = 4; p.set_value(v); break; } case 2: p.set_exception(boost::copy_exception(Ex{4})); break; default: p.set_exception(Ex{4}); } }, [&] { if (first) SIM_CHECK(!f.is_ready(), "state", "ready although setting failed"); }); if (!first) persist("get_future", A | M | C, 4, [&] { f = p.get_future(); }, nothing); SIM_CHECK(f.is_ready(), "state", "not ready"); Out o = outcome([&] { return f.get(); }); if (o.k == Out::other) SIM_CHECK(form >= 2, "value", "another exception"); else SIM_CHECK(o.id == 4 && o.k == (form >= 2 ? Out::exc : Out::value), "value", "the future has %s %d", oname(o.k), o.id); }); }
// ---- async
#if BOOST_THREAD_VERSION >= 3
enum { deferred_works = 1 };
#else
enum { deferred_works = 0 };
#endif
SCENARIO(async, 3) { u32 form = sim::choose(3); if (!deferred_works) form &= 2; isolated([&] { LIFE(l); { Fn0 fn(l); boost::future<int> f; persist("async", A | T | M | C, 12, [&] { switch (form) { case 0: f = boost::async(boost::launch::async, fn); break; case 1: f = boost::async(boost::launch::deferred, fn); break; default: f = boost::async(fn); } }, [&] { sim_settle(); unrun(l, "async", 1); SIM_CHECK(!f.valid(), "state", "async failed and there is a future"); }); SIM_CHECK(f.get() == 5 && l.done.get() == 1, "value", "another value, or %llu runs", (unsigned long long)l.done.get()); } sim_settle(); SIM_CHECK(l.live.get() == 0, "closure", "%llu copies of the function are left", (unsigned long long)l.live.get()); }); }
// ---- continuations and compositions: the futures given may be lost with a failure (as arguments moved into the operation), a shared one stays as it is
#if BOOST_THREAD_VERSION >= 4
struct Cont { Life* l; int* mem; explicit Cont(Life& x) : l(&x), mem(new int(1)) { l->live.add(); } Cont(Cont const& o) : l(o.l), mem(new int(1)) { l->live.add(); } Cont(Cont&& o) noexcept : l(o.l), mem(o.mem) { o.mem = 0; l->live.add(); } ~Cont() { delete mem; l->live.add(-1); } template<class F> int operator()(F f) const { SIM_CHECK(mem, "closure", "a dead closure runs"); l->runs.add(); int r = f.get() + 1; l->done.add(); return r; } };
static void still(boost::future<int>& f, bool ready, const char* what) { SIM_CHECK(f.valid(), "state", "%s failed and took its future", what); SIM_CHECK(f.is_ready() == ready, "state", "%s failed and changed its future", what); }
SCENARIO(then, 4) { u32 form = sim::choose(4); bool ready = sim::flip(), late = sim::flip(); isolated([&] { LIFE(l); { Cont fn(l); boost::promise<int> p; boost::future<int> f = p.get_future(); boost::shared_future<int> sf; boost::future<int> r; if (ready) p.set_value(4); if (form == 3) sf = f.share(); const char* what = "then";
    persist(what, A | T | M | C, 12, [&] { switch (form) { case 0: r = f.then(boost::launch::async, Cont(fn)); break; case 1: r = f.then(boost::launch::deferred, Cont(fn)); break; case 2: r = f.then(boost::launch::sync, Cont(fn)); break; default: r = sf.then(boost::launch::async, Cont(fn)); } }, [&] { sim_settle(); unrun(l, what, 1); if (form < 3) { if (f.valid()) still(f, ready, what); else { { boost::promise<int> q; std::swap(p, q); } sim_settle(); unrun(l, what, 1); f = p.get_future(); if (ready) p.set_value(4); } } else SIM_CHECK(sf.valid() && sf.is_ready() == ready, "state", "then failed and took its future"); });
    if (!ready) { if (late) sim_settle(); bool bad = !attempt("set_value", A | T | M | C, 12, [&] { p.set_value(4); }); SIM_CHECK(!bad, "exception", "set_value fails for its continuation's sake"); } Out o = outcome([&]() -> int { try { return r.get(); } catch (std::bad_alloc&) { return -1; } catch (boost::thread_resource_error&) { return -2; } }); SIM_CHECK(o.id == 5 || ((o.id < 0 || o.k != Out::value) && fired()), "value", "the continuation gave %s %d", oname(o.k), o.id); SIM_CHECK(o.id == 5 ? l.done.get() == 1 : l.runs.get() <= 1, "runs", "the continuation ran %llu times", (unsigned long long)l.runs.get()); } sim_settle(); SIM_CHECK(l.live.get() == 0, "closure", "%llu copies of the function are left", (unsigned long long)l.live.get()); }); }
// the outcome of a future whose own thread may have met the failure
template<class F> static Out result_of(F f) { return outcome([&]() -> int { try { return f(); } catch (boost::thread_resource_error&) { return -2; } catch (std::bad_alloc&) { return -1; } }); }
static void gives(Out o, int v, const char* what) { SIM_CHECK((o == Out{Out::value, v}) || ((o.id < 0 || o.k != Out::value) && fired()), "value", "%s gave %s %d", what, oname(o.k), o.id); }
SCENARIO(compose, 3) { u32 form = sim::choose(7); bool ready = sim::flip(); isolated([&] { boost::promise<int> p, p2; boost::future<int> f = p.get_future(), g = p2.get_future(); if (ready) p.set_value(4); Out o{Out::none, 0}; const char* what = "composing futures"; auto same = [&] { still(f, ready, what); still(g, false, what); }; auto again = [&] { boost::promise<int> q1, q2; std::swap(p, q1); std::swap(p2, q2); f = p.get_future(); g = p2.get_future(); if (ready) p.set_value(4); }; auto fill = [&] { if (!ready) p.set_value(4); p2.set_value(6); };
    switch (form) { case 0: { boost::future<boost::csbl::tuple<boost::future<int>, boost::future<int> > > r; persist(what, A | T | M | C, 12, [&] { r = boost::when_all(boost::move(f), boost::move(g)); }, again); fill(); o = result_of([&]() -> int { boost::csbl::tuple<boost::future<int>, boost::future<int> > t = r.get(); return boost::csbl::get<0>(t).get() + boost::csbl::get<1>(t).get(); }); gives(o, 10, "when_all"); break; }
      case 1: { boost::future<boost::csbl::tuple<boost::future<int>, boost::future<int> > > r; persist(what, A | T | M | C, 12, [&] { r = boost::when_any(boost::move(f), boost::move(g)); }, again); fill(); o = result_of([&]() -> int { boost::csbl::tuple<boost::future<int>, boost::future<int> > t = r.get(); return boost::csbl::get<0>(t).get() + boost::csbl::get<1>(t).get(); }); gives(o, 10, "when_any"); break; }
      case 2: { boost::csbl::vector<boost::future<int> > v; v.push_back(boost::move(f)); v.push_back(boost::move(g)); boost::future<boost::csbl::vector<boost::future<int> > > r; persist(what, A | T | M | C, 12, [&] { r = boost::when_all(v.begin(), v.end()); }, [&] { again(); v[0] = boost::move(f); v[1] = boost::move(g); }); fill(); o = result_of([&]() -> int { boost::csbl::vector<boost::future<int> > t = r.get(); return t[0].get() + t[1].get(); }); gives(o, 10, "when_all"); break; }
      case 3: { sim::Threads th; th.go([&] { dwell(); fill(); }); u32 k = 9; what = "wait_for_any"; persist(what, A | M | C, 8, [&] { k = boost::wait_for_any(f, g); }, [&] { SIM_CHECK(f.valid() && g.valid(), "state", "wait_for_any took its futures"); }); SIM_CHECK(k < 2 && (k ? g : f).is_ready(), "value", "wait_for_any tells %u", k); th.join(); SIM_CHECK(f.get() + g.get() == 10, "value", "another value"); break; }
      case 4: { boost::shared_future<int> s; what = "share"; persist(what, A, 4, [&] { s = f.share(); }, same); fill(); SIM_CHECK(s.get() == 4 && g.get() == 6, "value", "another value"); break; }
      case 5: { what = "unwrap"; boost::promise<boost::future<int> > po; boost::future<boost::future<int> > fo = po.get_future(); boost::future<int> r; bool early = sim::flip(); if (early) po.set_value(boost::move(f)); persist(what, A | T | M | C, 8, [&] { r = fo.unwrap(); }, [&] { if (fo.valid()) { SIM_CHECK(fo.is_ready() == early, "state", "unwrap failed and changed its future"); } else { boost::promise<boost::future<int> > q; std::swap(po, q); fo = po.get_future(); if (early) { again(); po.set_value(boost::move(f)); } } }); if (!early) po.set_value(boost::move(f)); fill(); gives(result_of([&] { return r.get(); }), 4, what); g.get(); break; }
      default: { what = "fallback_to"; boost::future<int> r; persist(what, A | T | M | C, 8, [&] { r = f.fallback_to(9); }, [&] { if (f.valid()) same(); else again(); }); fill(); gives(result_of([&] { return r.get(); }), 4, "fallback_to"); g.get(); } } }); }
#endif
// ---- queues
template<class Q, class P> static void queue_case(Q& q, P push, bool sorted) { u32 n = sim::range(1, 6), have = 0; for (u32 i = 0; i < n; i++) { persist("push", A, 3, [&] { push(q, (int)(n - i)); }, [&] { size_t s = 99; sim::Threads th; th.go([&] { s = q.size(); }); th.join(); SIM_CHECK(s == have, "state", "push failed and the queue has %zu elements, not %u", s, have); }); have++; SIM_CHECK(q.size() == have, "state", "the queue has %zu elements, not %u", q.size(), have); } (void)sorted; }
SCENARIO(queues, 3) { u32 form = sim::choose(4), how = sim::choose(4); isolated([&] { auto all = [&](auto& q) { queue_case(q, [&](auto& x, int v) { switch (how) { case 0: x.push(v); break; case 1: SIM_CHECK(x.try_push(v) == boost::queue_op_status::success, "use", "try_push refuses"); break; case 2: SIM_CHECK(x.nonblocking_push(v) == boost::queue_op_status::success, "use", "nonblocking_push refuses"); break; default: SIM_CHECK(x.wait_push(v) == boost::queue_op_status::success, "use", "wait_push refuses"); } }, false); };
    switch (form) { case 0: { boost::sync_queue<int> q; all(q); int n = (int)q.size(); for (int i = n; i; i--) SIM_CHECK(q.pull() == i, "order", "another element"); break; } case 1: { boost::sync_priority_queue<int> q; queue_case(q, [&](boost::sync_priority_queue<int>& x, int v) { if (how & 1) x.push(v); else SIM_CHECK(x.try_push(v) == boost::queue_op_status::success, "use", "try_push refuses"); }, true); int n = (int)q.size(); for (int i = n; i; i--) SIM_CHECK(q.pull() == i, "order", "another element"); break; } case 2: { boost::sync_timed_queue<int> q; queue_case(q, [&](boost::sync_timed_queue<int>& x, int v) { if (how & 1) x.push(v, nsd(1000 * v)); else x.push(v, StC::now() + nsd(1000000)); }, false); sim_sleep_ns(SEC); u32 n = (u32)q.size(), sum = 0; for (u32 i = 0; i < n; i++) sum += (u32)q.pull(); SIM_CHECK(sum == n * (n + 1) / 2, "order", "other elements"); break; }
      default: { boost::sync_queue<Big> q; u32 n = sim::range(1, 4), have = 0; for (u32 i = 0; i < n; i++) { Big b((int)i + 1); persist("push", A, 4, [&] { if (how & 1) q.push(b); else q.push(Big(b)); }, [&] { SIM_CHECK(q.size() == have && b.v.size() == i + 1, "state", "push failed and the queue has %zu elements", q.size()); }); have++; } for (u32 i = 0; i < n; i++) { Big b(7); persist("pull", A, 3, [&] { q.pull(b); }, [&] { SIM_CHECK(q.size() == n - i, "state", "pull failed and the queue has %zu elements", q.size()); }); SIM_CHECK(b.v.size() == i + 1, "order", "another element"); } } } }); }
// ---- values and their locks
SCENARIO(values, 2) { u32 form = sim::choose(5); isolated([&] { typedef boost::synchronized_value<Big> SV; Big b2(2), b5(5); SV a(b2), b(b5); auto sizes = [&](size_t x, size_t y) { Big p = a.get(), q = b.get(); SIM_CHECK(p.v.size() == x && q.v.size() == y, "state", "the values have %zu and %zu elements", p.v.size(), q.v.size()); }; auto same = [&] { bool ok = false; sim::Threads th; th.go([&] { auto la = a.try_to_synchronize(); auto lb = b.try_to_synchronize(); ok = la.owns_lock() && lb.owns_lock(); }); th.join(); SIM_CHECK(ok, "lock-held", "a failed operation leaves the lock held"); sizes(2, 5); };
    switch (form) { case 0: persist("assignment", A, 3, [&] { a = b; }, same); sizes(5, 5); break; case 1: { Big c(7); persist("assignment", A, 3, [&] { a = c; }, same); sizes(7, 5); break; } case 2: { size_t n = 0; persist("get", A, 3, [&] { n = a.get().v.size(); }, same); SIM_CHECK(n == 2, "value", "another value"); break; } case 3: { size_t n = 0; persist("copying", A, 3, [&] { SV c(a); n = c->v.size(); }, same); SIM_CHECK(n == 2, "value", "another value"); break; } default: persist("a call through ->", A, 3, [&] { a->v.reserve(100); }, same); sizes(2, 5); } }); }
SCENARIO(once, 1) { isolated([&] { boost::once_flag flag = BOOST_ONCE_INIT; LIFE(l); persist("call_once", A | M | C, 3, [&] { boost::call_once(flag, [&] { Big b(3); l.done.add(); (void)b; }); }, [&] { SIM_CHECK(l.done.get() == 0, "state", "call_once failed after its function"); }); boost::call_once(flag, [&] { l.done.add(); }); SIM_CHECK(l.done.get() == 1, "runs", "the function completed %llu times", (unsigned long long)l.done.get()); }); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
template<class E> static void submit_case(E& ex, Life& l, const char* what, bool async, u32 kinds = A | T | M | C) { FnV fn(l); Fn0 f0(l); boost::future<int> f; persist(what, kinds, 12, [&] { if (async) f = boost::async(ex, f0); else ex.submit(fn); }, [&] { sim_sleep_ns(SEC); unrun(l, what, 2); SIM_CHECK(!ex.closed(), "state", "a failed submission closes the executor"); }); if (async) SIM_CHECK(f.get() == 5, "value", "another value"); }
SCENARIO(submit, 3) { u32 form = sim::choose(5); bool as = sim::flip(); isolated([&] { LIFE(l); switch (form) { case 0: { boost::basic_thread_pool x(1); submit_case(x, l, "submit to a pool", as); break; } case 1: { boost::thread_executor x; submit_case(x, l, "submit to a thread_executor", as); break; } case 2: { boost::inline_executor x; FnV fn(l); x.submit(fn); break; } case 3: { boost::loop_executor x; FnV fn(l); persist("submit to a loop_executor", A, 6, [&] { x.submit(fn); }, [&] { unrun(l, "submit", 1); }); x.run_queued_closures(); break; } default: { boost::basic_thread_pool p(1); boost::serial_executor x(p); submit_case(x, l, "submit to a serial_executor", as, A); /* its worker makes a promise for each task and has nobody to report to */ } } sim_settle(); SIM_CHECK(l.done.get() == 1 && l.live.get() == 0, "runs", "the task ran %llu times, %llu copies are left", (unsigned long long)l.done.get(), (unsigned long long)l.live.get()); }); }
SCENARIO(make_executor, 2) { u32 form = sim::choose(7); isolated([&] { boost::inline_executor in; persist("making an executor", A | T | M | C, 16, [&] { LIFE(l); l.done.v = 0; switch (form) { case 0: { boost::basic_thread_pool x(2); break; } case 1: { boost::thread_executor x; break; } case 2: { boost::loop_executor x; break; } case 3: { boost::serial_executor x(in); break; } case 4: { boost::scheduled_thread_pool x(2); break; } case 5: { boost::scheduler<> x; break; } default: { boost::serial_executor_cont x(in); } } }, nothing); }); }
#endif
// ---- EINTR is invisible: all primitives return it at will
SCENARIO(eintr, 5) { sim_faults(SIM_DEFAULT_FAULTS | (1u << SF_EINTR) | (1u << SF_SLEEPINTR)); boost::timed_mutex tm; boost::recursive_timed_mutex rm; boost::shared_mutex sm; boost::mutex m; boost::recursive_mutex re; boost::condition_variable c; boost::condition_variable_any ca; boost::barrier bar(2); boost::sync_bounded_queue<int> q(1); boost::promise<int> p; boost::future<int> f = p.get_future(); u32 in = 0, turns = sim::range(1, 3); int stage = 0, sum = 0;
  auto crit = [&](auto& l, u32& n) { u32 x = n; dwell(); n = x + 1; (void)l; }; u32 a1 = 0, a2 = 0, a3 = 0, a4 = 0, a5 = 0; bool tmo = sim::flip();
  auto work = [&](u32 me) { for (u32 k = 0; k < turns; k++) { { boost::unique_lock<boost::mutex> l(m); crit(l, a1); } { boost::unique_lock<boost::timed_mutex> l(tm, boost::defer_lock); if (tmo) { u64 t0 = sim_now(); if (!l.try_lock_for(boost::chrono::seconds(10))) { SIM_CHECK(sim_now() >= t0 + 10 * SEC, "eintr", "a timed lock gives up early"); l.lock(); } } else l.lock(); crit(l, a2); } { boost::unique_lock<boost::recursive_timed_mutex> l(rm); boost::unique_lock<boost::recursive_timed_mutex> l2(rm); crit(l, a3); } { boost::unique_lock<boost::shared_mutex> l(sm); crit(l, a4); } { boost::shared_lock<boost::shared_mutex> l(sm); SIM_CHECK(a4 >= k + 1, "eintr", "effects missing"); } { boost::lock_guard<boost::recursive_mutex> l(re); crit(l, a5); } while (!m.try_lock()) sim_sleep_ns(US); in++; m.unlock(); if (me == 0) q.push((int)k); else sum += q.pull(); bar.wait(); u64 t0 = sim_now(); boost::this_thread::sleep_for(nsd(3000000)); SIM_CHECK(sim_now() >= t0 + 3000000, "eintr", "a sleep ends early"); } 
    if (me == 0) { { boost::unique_lock<boost::mutex> l(m); stage = 1; c.notify_all(); while (stage != 2) c.wait(l); } { boost::unique_lock<boost::mutex> l(m); stage = 3; ca.notify_all(); } p.set_value(8); } else { { boost::unique_lock<boost::mutex> l(m); while (stage != 1) c.wait_for(l, boost::chrono::seconds(100)); stage = 2; c.notify_all(); while (stage != 3) ca.wait(l); } SIM_CHECK(f.get() == 8, "eintr", "another value"); } };
  boost::thread t1([&] { Tag t("one"); work(0); }), t2([&] { Tag t("two"); work(1); }); if (sim::flip()) { while (!t1.try_join_for(boost::chrono::milliseconds(1))) {} } else t1.join(); t2.join(); SIM_CHECK(a1 == 2 * turns && a2 == a1 && a3 == a1 && a4 == a1 && a5 == a1 && in == a1 && sum == (int)(turns * (turns - 1) / 2), "eintr", "updates are lost"); }

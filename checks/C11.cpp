// C11 scoped_thread, strict_scoped_thread, thread_guard, thread_group.
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#include <memory>

// A thread's work: finishes by itself after a while, or only when interrupted. 'out' is a plain variable: reading it needs a join.
struct St { Flag runs, fin, intr; u32 out = 0; u32 acts = 0; };
struct Work { St* s; bool forever; Work(St* s_, bool f) : s(s_), forever(f) {}
  void operator()() const { s->runs.add(); struct F { St* s; ~F() { s->fin.set(); } } f = {s}; try { switch (sim::choose(3)) { case 0: break; case 1: sim_yield(); break; default: sim_sleep_ns(sim::range(1, 30) * 100 * US); } if (forever) boost::this_thread::sleep_for(bc::hours(9000)); } catch (boost::thread_interrupted&) { s->intr.add(); s->out = 43; throw; } s->out = 42; } };
static St* g_last; static Flag g_acts, g_exp;
struct CountingJoin { template<class T> void operator()(T& t) { if (t.joinable()) { g_acts.add(); t.join(); } } };
template<class A> struct Act { enum { waits = 1, interrupts = 0, counts = 0 }; };
template<> struct Act<boost::detach> { enum { waits = 0, interrupts = 0, counts = 0 }; };
template<> struct Act<boost::detach_if_joinable> { enum { waits = 0, interrupts = 0, counts = 0 }; };
template<> struct Act<boost::interrupt_and_join_if_joinable> { enum { waits = 1, interrupts = 1, counts = 0 }; };
template<> struct Act<CountingJoin> { enum { waits = 1, interrupts = 0, counts = 1 }; };
static St* fresh() { sim::Quiet q; return new St; }
static void drop(St* s) { sim::Quiet q; delete s; }
template<class A> static void after(St* s, bool forever) {
  if (Act<A>::waits) { SIM_CHECK(s->fin.get(), "not-finished", "the scope was left before its thread had finished"); if (!forever && !Act<A>::interrupts) SIM_CHECK(s->out == 42, "result", "effects missing after the scope"); if (forever) SIM_CHECK(s->out == 43 && s->intr.get() == 1, "result", "not interrupted"); }
  for (int i = 0; i < 100 && !s->fin.get(); i++) sim_sleep_ns(1 * MS); sim_settle(); SIM_CHECK(s->runs.get() == 1 && s->fin.get() == 1, "runs", "the thread ran %llu times", (unsigned long long)s->runs.get()); if (Act<A>::counts) SIM_CHECK(g_acts.get() == g_exp.get(), "actions", "the action was applied %llu times", (unsigned long long)g_acts.get()); SIM_CHECK(sim_thread_handles() == 0 || sim_self() != 0, "handle-leak", "%d system threads neither joined nor detached", sim_thread_handles());
}
// leaving a scope in every way
template<class A> static void leave(St* s, bool forever) {
  u32 kind = sim::choose(4), how = sim::choose(2); bool again = sim::choose(5) == 0 && !forever; g_exp.set(again && (kind == 0 || kind == 2) ? 0 : 1); auto out = [&] { nap(); if (how) throw Boom(); };
  try { switch (kind) {
    case 0: { boost::scoped_thread<A> t((Work(s, forever))); if (again) try { t.join(); } catch (boost::thread_interrupted&) { g_exp.set(1); } out(); break; }
    case 1: { boost::strict_scoped_thread<A> t((Work(s, forever))); out(); break; }
    case 2: { boost::thread b((Work(s, forever))); boost::thread_guard<A> t(b); if (again) try { b.join(); } catch (boost::thread_interrupted&) { g_exp.set(1); } out(); break; }
    default: { boost::thread b((Work(s, forever))); boost::scoped_thread<A> t(boost::move(b)); SIM_CHECK(!b.joinable(), "move", "thread moved into a scoped_thread is still joinable"); if (sim::flip()) { boost::scoped_thread<A> u(boost::move(t)); SIM_CHECK(!t.joinable() && u.joinable(), "move", "moving a scoped_thread"); out(); } else out(); }
  } } catch (Boom&) {}
}
template<class A> static void scoped_case(bool forever) {
  bool in_thread = sim::flip(), pend = in_thread && sim::flip(); St* s = fresh(); { sim::Quiet q; g_acts.set(0); }
  if (!in_thread) { leave<A>(s, forever); after<A>(s, forever); }
  else { Flag left; boost::thread owner([&] { Tag g("owner"); leave<A>(s, forever); left.set(); after<A>(s, forever); if (pend) SIM_CHECK(boost::this_thread::interruption_enabled(), "interruption", "interruption left disabled"); });
    if (pend) { if (sim::flip()) nap(); owner.interrupt(); } owner.join(); SIM_CHECK(left.get(), "owner", "the owner did not leave the scope normally"); SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "%d system threads neither joined nor detached", sim_thread_handles()); }
  drop(s);
}
SCENARIO(scope, 30) {
  sim_faults(SIM_DEFAULT_FAULTS);
  switch (sim::choose(6)) { case 0: case 1: scoped_case<boost::join_if_joinable>(false); break; case 2: scoped_case<CountingJoin>(false); break; case 3: scoped_case<boost::detach>(false); break; case 4: scoped_case<boost::detach_if_joinable>(false); break; default: scoped_case<boost::interrupt_and_join_if_joinable>(sim::flip()); }
}
// Any sequence of operations on scoped_threads, against a model.
SCENARIO(scoped_ops, 20) {
  sim_faults(SIM_DEFAULT_FAULTS); typedef boost::scoped_thread<> S; static const u32 N = 2, T = 5; St* st[T]; u32 nt = 0; int at[N] = {-1, -1}; bool det[T] = {}; bool threw = false;
  { S h[N]; u32 steps = sim::range(2, 9);
    for (u32 k = 0; k < steps; k++) { u32 i = sim::choose(N), j = 1 - i;
      switch (sim::choose(7)) {
        case 0: case 1: if (nt < T) { int old = at[i]; st[nt] = fresh(); h[i] = S(Work(st[nt], false)); if (old >= 0) SIM_CHECK(st[old]->fin.get() && st[old]->out == 42, "not-finished", "an overwritten scoped_thread left its thread running"); at[i] = (int)nt++; } break;
        case 2: { int old = at[i]; h[i] = boost::move(h[j]); if (old >= 0) SIM_CHECK(st[old]->fin.get() && st[old]->out == 42, "not-finished", "an overwritten scoped_thread left its thread running"); at[i] = at[j]; at[j] = -1; break; }
        case 3: if (sim::flip()) h[i].swap(h[j]); else swap(h[i], h[j]); std::swap(at[0], at[1]); break;
        case 4: if (at[i] >= 0) { if (sim::flip()) { h[i].join(); SIM_CHECK(st[at[i]]->out == 42, "result", "join"); at[i] = -1; } else { u64 d = sim::choose(4) * MS; u64 t0 = sim_now(); if (h[i].try_join_for(nsd(d))) { SIM_CHECK(st[at[i]]->out == 42, "result", "try_join_for"); at[i] = -1; } else SIM_CHECK(sim_now() >= t0 + d, "early-timeout", "try_join_for"); } } break;
        case 5: if (at[i] >= 0) { det[at[i]] = true; h[i].detach(); at[i] = -1; } break;
        default: h[i].interrupt(); break;
      }
      for (u32 q = 0; q < N; q++) { SIM_CHECK(h[q].joinable() == (at[q] >= 0), "joinable", "joinable() is %d", (int)h[q].joinable()); SIM_CHECK((h[q].get_id() != boost::thread::id()) == (at[q] >= 0), "id", "id"); }
    } }
  for (u32 q = 0; q < N; q++) if (at[q] >= 0) SIM_CHECK(st[at[q]]->fin.get() && st[at[q]]->out == 42, "not-finished", "a destroyed scoped_thread left its thread running");
  for (u32 t = 0; t < nt; t++) { while (!st[t]->fin.get()) sim_sleep_ns(1 * MS); } sim_settle(); for (u32 t = 0; t < nt; t++) { SIM_CHECK(st[t]->runs.get() == 1, "runs", "ran %llu times", (unsigned long long)st[t]->runs.get()); drop(st[t]); } SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked"); (void)threw; (void)det;
}
// Overwriting a scoped_thread while an interruption of the owner is pending: either it is applied, or the exception leaves both as they were.
SCENARIO(scoped_interrupt, 4) { // interrupt() reaches the owned thread, and no other
  sim_faults(SIM_DEFAULT_FAULTS); St* a = fresh(); St* b = fresh(); { boost::scoped_thread<> y((Work(b, false))); { boost::scoped_thread<> t((Work(a, true))); SIM_CHECK(!t.interruption_requested(), "interrupt", "an interruption nobody asked for"); if (sim::flip()) nap(); t.interrupt(); if (sim::flip()) { boost::scoped_thread<> u(boost::move(t)); if (sim::flip()) u.join(); } } SIM_CHECK(a->fin.get() && a->intr.get() == 1, "interrupt", "scoped_thread::interrupt does not reach its thread"); SIM_CHECK(!y.interruption_requested(), "interrupt", "another thread was interrupted"); }
  SIM_CHECK(b->fin.get() && b->out == 42 && b->intr.get() == 0, "interrupt", "another thread was interrupted"); drop(a); drop(b);
}
SCENARIO(overwrite_interrupted, 10) {
  sim_faults(SIM_DEFAULT_FAULTS); St* a = fresh(); St* b = fresh(); Flag ok;
  boost::thread owner([&] { { boost::scoped_thread<> x((Work(a, false))), y((Work(b, false))); try { x = boost::move(y); SIM_CHECK(a->fin.get() && x.joinable() && !y.joinable(), "not-finished", "overwritten thread still running"); } catch (boost::thread_interrupted&) { SIM_CHECK(y.joinable(), "lost", "the right-hand side lost its thread"); } } SIM_CHECK(a->fin.get() && b->fin.get() && a->out == 42 && b->out == 42, "not-finished", "a thread outlived its scope"); ok.set(); });
  if (sim::flip()) nap(); owner.interrupt(); owner.join(); SIM_CHECK(ok.get(), "owner", "owner did not finish"); drop(a); drop(b);
}
// thread_group: sequences of operations against a model, members running meanwhile.
SCENARIO(group_ops, 20) {
  sim_faults(SIM_DEFAULT_FAULTS); static const u32 T = 6; St* st[T]; u32 nt = 0; std::vector<std::pair<boost::thread*, u32> > in; std::vector<std::pair<boost::thread*, u32> > out; bool stopper = false;
  { boost::thread_group g; u32 steps = sim::range(2, 9);
    for (u32 k = 0; k < steps; k++) {
      switch (sim::choose(6)) {
        case 0: if (nt < T) { st[nt] = fresh(); boost::thread* p = g.create_thread(Work(st[nt], false)); SIM_CHECK(p && p->joinable(), "create", "create_thread"); sim::Quiet q; in.push_back(std::make_pair(p, nt++)); } break;
        case 1: if (nt < T) { st[nt] = fresh(); boost::thread* p = new boost::thread(Work(st[nt], false)); SIM_CHECK(!g.is_thread_in(p), "member", "a thread never added is a member"); g.add_thread(p); if (sim::choose(4) == 0) { bool threw = false; try { g.add_thread(p); } catch (boost::thread_resource_error&) { threw = true; } SIM_CHECK(threw, "duplicate", "a thread was added twice"); } sim::Quiet q; in.push_back(std::make_pair(p, nt++)); } break;
        case 2: if (!in.empty()) { u32 i = sim::choose(in.size()); auto e = in[i]; g.remove_thread(e.first); SIM_CHECK(!e.first->joinable() || !g.is_thread_in(e.first), "member", "a removed thread is still a member"); sim::Quiet q; in.erase(in.begin() + i); out.push_back(e); } break;
        case 3: for (auto& e : in) SIM_CHECK(g.is_thread_in(e.first), "member", "a member is not found"); SIM_CHECK(!g.is_this_thread_in(), "member", "the main thread is a member"); break;
        case 4: if (sim::choose(3) == 0) { g.join_all(); for (auto& e : in) SIM_CHECK(st[e.second]->fin.get() && st[e.second]->out == 42, "not-finished", "join_all returned before member %u had finished", e.second); } break;
        default: if (sim::choose(4) == 0 && nt < T) { /* a member that only an interruption ends */ stopper = true; } g.add_thread(0); g.remove_thread(0); SIM_CHECK(!g.is_thread_in(0), "member", "no thread is a member"); break;
      }
      SIM_CHECK(g.size() == in.size(), "size", "size() is %zu with %zu members", g.size(), in.size());
      if (k + 1 == steps || sim::choose(8) == 0) { /* not-a-thread members would compare equal to each other */ }
      bool dead = false; for (auto& e : in) if (!e.first->joinable()) dead = true; if (dead) break;
    }
    if (stopper && nt < T) { st[nt] = fresh(); boost::thread* p = g.create_thread(Work(st[nt], true)); { sim::Quiet q; in.push_back(std::make_pair(p, nt++)); } nap(); g.interrupt_all(); g.join_all(); SIM_CHECK(st[nt - 1]->intr.get() == 1, "interrupt", "interrupt_all missed a member"); for (auto& e : in) SIM_CHECK(st[e.second]->fin.get(), "not-finished", "join_all returned too early"); }
    else if (sim::flip()) { g.join_all(); for (auto& e : in) SIM_CHECK(st[e.second]->fin.get() && st[e.second]->out == 42, "not-finished", "join_all returned before member %u had finished", e.second); }
  }
  for (auto& e : out) { if (e.first->joinable()) e.first->join(); delete e.first; }
  for (u32 t = 0; t < nt; t++) while (!st[t]->fin.get()) sim_sleep_ns(1 * MS); sim_settle(); for (u32 t = 0; t < nt; t++) { SIM_CHECK(st[t]->runs.get() == 1, "runs", "ran %llu times", (unsigned long long)st[t]->runs.get()); drop(st[t]); } SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked"); { sim::Quiet q; in = decltype(in)(); out = decltype(out)(); }
}
// Several threads create, add, remove and look up members at once.
SCENARIO(group_concurrent, 20) {
  sim_faults(SIM_DEFAULT_FAULTS); u32 n = sim::range(2, 3), per = sim::range(1, 3); St* st[9]; for (u32 i = 0; i < n * per; i++) st[i] = fresh(); Flag removed, live; bool rm[9] = {}; sim::Threads ts; bool early = sim::flip();
  { boost::thread_group g; Flag started;
    for (u32 i = 0; i < n; i++) ts.go([&, i] { Tag tg("group user"); for (u32 k = 0; k < per; k++) { u32 id = i * per + k; boost::thread* p; { auto body = [&, id] { struct F { St* s; ~F() { s->fin.set(); } } f = {st[id]}; st[id]->runs.add(); if (sim::choose(3) == 0) sim_sleep_ns(1 * MS); st[id]->out = 42; };
        if (early || sim::flip()) p = g.create_thread(body); else { p = new boost::thread(body); g.add_thread(p); } }
        live.add(); if (!early) SIM_CHECK(g.is_thread_in(p), "member", "a thread just added is not found"); size_t s = g.size(); SIM_CHECK(s <= n * per && s >= 1, "size", "size() is %zu", s); if (!early) SIM_CHECK(!g.is_this_thread_in(), "member", "a stranger is a member");
        if (!early && sim::choose(3) == 0) { g.remove_thread(p); removed.add(); SIM_CHECK(!g.is_thread_in(p), "member", "a removed thread is found"); p->join(); SIM_CHECK(st[id]->out == 42, "result", "join"); delete p; rm[id] = true; } } });
    if (early) { /* join_all at any moment: everything that was a member before it started must be finished */ nap(); std::vector<u32> fin0; g.join_all(); }
    ts.join(); SIM_CHECK(g.size() == n * per - removed.get(), "size", "size() is %zu, expected %llu", g.size(), (unsigned long long)(n * per - removed.get()));
    g.join_all(); for (u32 i = 0; i < n * per; i++) SIM_CHECK(st[i]->fin.get() && st[i]->out == 42, "not-finished", "join_all returned before a member had finished"); }
  sim_settle(); for (u32 i = 0; i < n * per; i++) { SIM_CHECK(st[i]->runs.get() == 1, "runs", "ran %llu times", (unsigned long long)st[i]->runs.get()); drop(st[i]); } SIM_CHECK(sim_thread_handles() == 0, "handle-leak", "system thread leaked");
}
// Members look at their own group; joining the own group is refused; the owner of the group is interrupted in join_all.
SCENARIO(group_inside, 15) {
  sim_faults(SIM_DEFAULT_FAULTS); boost::thread_group g; u32 n = sim::range(1, 3); Flag in, refused, go, out; bool selfjoin = sim::flip();
  for (u32 i = 0; i < n; i++) g.create_thread([&] { go.await(); if (g.is_this_thread_in()) in.add(); if (selfjoin) { try { g.join_all(); } catch (boost::thread_resource_error&) { refused.add(); } } out.add(); });
  SIM_CHECK(g.size() == n, "size", "size"); go.set(); while (out.get() < n) sim_sleep_ns(100 * US); g.join_all(); SIM_CHECK(in.get() == n, "member", "a member does not find itself"); SIM_CHECK(!selfjoin || refused.get() == n, "self-join", "joining the own group was not refused");
}
SCENARIO(group_join_interrupted, 15) {
  sim_faults(SIM_DEFAULT_FAULTS); boost::thread_group g; u32 n = sim::range(1, 3); Flag thrown, fin; boost::mutex m; boost::condition_variable cv; bool rel = false;
  for (u32 i = 0; i < n; i++) g.create_thread([&] { boost::this_thread::disable_interruption d; { boost::unique_lock<boost::mutex> l(m); while (!rel) cv.wait(l); } fin.add(); });
  boost::thread j([&] { Tag tg("joiner"); try { g.join_all(); } catch (boost::thread_interrupted&) { thrown.set(); } }); nap(); j.interrupt(); j.join(); SIM_CHECK(thrown.get(), "interrupt", "join_all is not interruptible");
  SIM_CHECK(g.size() == n, "size", "an interrupted join_all changed the group"); boost::thread* x = g.create_thread([&] { fin.add(); }); SIM_CHECK(g.is_thread_in(x), "member", "create_thread after an interrupted join_all"); { boost::lock_guard<boost::mutex> l(m); rel = true; cv.notify_all(); } g.join_all(); SIM_CHECK(fin.get() == n + 1, "not-finished", "join_all returned early");
}
// Interrupting or inspecting the group while someone joins it.
SCENARIO(group_join_vs_rest, 1) {
  sim_faults(SIM_DEFAULT_FAULTS); boost::thread_group g; u32 n = sim::range(1, 3), what = sim::choose(4); Flag fin; for (u32 i = 0; i < n; i++) g.create_thread([&] { struct F { Flag& f; ~F() { f.add(); } } f = {fin}; if (what == 0) boost::this_thread::sleep_for(bc::hours(9000)); else if (what == 1) { nap(); g.is_this_thread_in(); } else nap(); });
  sim::Threads ts; ts.go([&] { Tag tg("other"); if (sim::flip()) nap(); switch (what) { case 0: g.interrupt_all(); break; case 1: break; case 2: g.join_all(); break; default: g.size(); g.is_this_thread_in(); } }); { Tag tg("joiner"); g.join_all(); } SIM_CHECK(fin.get() == n, "not-finished", "join_all returned early"); ts.join();
}
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(8)) return; u32 n = sim::range(8, 32); Flag ran, hit; bool intr = CAN_INTR && sim::flip(); { boost::thread_group g; for (u32 i = 0; i < n; i++) g.create_thread([&] { ran.add(); if (intr) try { boost::this_thread::sleep_for(bc::hours(20)); } catch (boost::thread_interrupted&) { hit.add(); } }); SIM_CHECK(g.size() == n, "size", "size %u of %u", (u32)g.size(), n); if (intr) g.interrupt_all(); g.join_all(); } SIM_CHECK(ran.get() == n, "runs", "%llu of %u threads ran", (unsigned long long)ran.get(), n); if (intr) SIM_CHECK(hit.get() == n, "interrupt", "%llu of %u threads were interrupted", (unsigned long long)hit.get(), n); }

// C20 promise and future: one result, seen by every waiter, or broken_promise.
#include "fut.h"
template<class R> static boost::promise<R>* fresh(bool* own = 0) {
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
  if (sim::choose(3) == 0) { if (own) *own = true; return new boost::promise<R>(boost::allocator_arg, Arena<int>()); }
#endif
  return new boost::promise<R>(); }

// ---- several setters, many waiters
struct Race { bool tried[NID], ok[NID]; Out made[NID]; u32 payload[NID]; u32 nset; Flag closed; u32 wins() const { u32 n = 0; for (u32 i = 0; i < nset; i++) n += ok[i]; return n; } Out winner() const { for (u32 i = 0; i < nset; i++) if (ok[i]) return made[i]; return Out{Out::broken, 0}; } };
template<class R> static void judge(Race& r, Out o) {
  if (o.k == Out::value && !V<R>::ids) return; // checked against the winner at the end
  if (o.k == Out::value || o.k == Out::exc) { SIM_CHECK(o.id >= 0 && (u32)o.id < r.nset, "value", "a %s %d nobody stored", oname(o.k), o.id); SIM_CHECK(r.payload[o.id] == (u32)o.id * 7 + 1, "visibility", "writes before the result was set are not visible"); }
  else SIM_CHECK(o.k == Out::broken, "value", "a waiter got %s", oname(o.k)); }
template<class R, class P> static void setter(P& p, Race& r, u32 i, bool defer_ok) {
  Tag g("setter"); u32 how = sim::choose(defer_ok ? 6 : 4), form = sim::choose(3); bool exc = sim::choose(3) == 0, nt = false; r.payload[i] = i * 7 + 1; bool thr = false; if (sim::choose(8) == 0) { sim::Quiet q; Cp::armed() = 1; thr = true; }
  bool ok = false, sat = false; try {
    if (how < 4) { if (exc) { if (form) p.set_exception(Ex{(int)i}); else p.set_exception(boost::copy_exception(Ex{(int)i})); } else V<R>::set(p, (int)i, form); }
    else { if (exc) { if (form) p.set_exception_deferred(Ex{(int)i}); else p.set_exception_deferred(boost::copy_exception(Ex{(int)i})); } else V<R>::defer(p, (int)i, form); nt = true; }
    ok = true; } catch (boost::promise_already_satisfied&) { sat = true; } catch (Boom&) {}
  { sim::Quiet q; Cp::armed() = 0; r.tried[i] = true; r.ok[i] = ok; r.made[i] = Out{exc ? Out::exc : Out::value, exc || V<R>::ids ? (int)i : -1}; if (sat) { } (void)thr; }
  if (ok && nt) { dwell(); p.notify_deferred(); } }
template<class R, class F> static Out consume(F& f, bool shared, Race& r) {
  for (;;) { u32 how = sim::choose(9); bool rdy = false; try { switch (how) {
      case 0: f.wait(); rdy = true; break;
      case 1: { DL d = DL::mono((s64)sim_now() + sim::range(0, 10) * MS); rdy = f.wait_until(st_at((u64)d.at)) == boost::future_status::ready; if (!rdy) check_timeout(d, "wait_until"); break; }
      case 2: { s64 n = (s64)sim::range(0, 10) * MS; DL d = DL::mono((s64)sim_now() + n); rdy = f.wait_for(nsd(n)) == boost::future_status::ready; if (!rdy) check_timeout(d, "wait_for"); break; }
      case 3: { DL d = DL::sys((s64)sim_now_real() + sim::range(0, 10) * MS); rdy = f.wait_until(sy_at((u64)d.at)) == boost::future_status::ready; if (!rdy) check_timeout(d, "wait_until(system)"); break; }
#if defined BOOST_THREAD_USES_DATETIME
      case 4: { DL d = DL::sys((s64)sim_now_real() + sim::range(0, 10) * MS); rdy = f.timed_wait_until(pt_at(d.at)); if (!rdy) check_timeout(d, "timed_wait_until"); break; }
      case 5: { s64 n = (s64)sim::range(0, 10) * MS; DL d = DL::mono((s64)sim_now() + n); rdy = f.timed_wait(pd_of(n)); if (!rdy) check_timeout(d, "timed_wait"); break; }
#endif
      case 6: rdy = f.is_ready(); break;
      case 7: { Out o = Out{Out::none, 0}; boost::exception_ptr e = f.get_exception_ptr(); rdy = true; if (e) { o = out_of(e); judge<R>(r, o); SIM_CHECK(f.has_exception() && !f.has_value(), "state", "has_exception is false with an exception"); } else SIM_CHECK(f.has_value() && !f.has_exception(), "state", "has_value is false without an exception"); break; }
      default: return take<R>(f); }
    if (rdy) { SIM_CHECK(f.is_ready() && f.get_state() == boost::future_state::ready, "state", "not ready after a successful wait"); SIM_CHECK(f.has_value() != f.has_exception(), "state", "both or neither of has_value and has_exception"); if (shared || sim::flip()) return take<R>(f); }
    else if (how == 6) sim_sleep_ns(1 * MS); } catch (boost::thread_interrupted&) { return Out{Out::intr, 0}; } } }
template<class R> static void race_case(bool callback) {
  targets_init(); Cp::armed() = 0; sim_faults(SIM_DEFAULT_FAULTS); Race r; { sim::Quiet q; for (u32 i = 0; i < NID; i++) { r.tried[i] = r.ok[i] = false; r.payload[i] = 0; } } u32 ns = callback ? 0 : sim::range(0, 3), nw = sim::range(V<R>::copy ? 0 : 1, V<R>::copy ? 4 : 1); r.nset = callback ? 1 : ns; bool shared = V<R>::copy && sim::choose(4) != 0, intr = sim::choose(3) == 0; if (!shared) nw = nw ? 1 : 0; u32 abandon = sim::choose(3);
  boost::promise<R>* p = fresh<R>(); if (sim::flip()) { boost::promise<R>* p2 = new boost::promise<R>(boost::move(*p)); delete p; p = p2; } Flag called;
  if (callback) { r.payload[0] = 1; r.ok[0] = true; r.made[0] = Out{Out::value, V<R>::ids ? 0 : -1}; boost::function<void(boost::promise<R>&)> cb([&](boost::promise<R>& x) { called.add(); SIM_CHECK(&x == p, "callback", "the callback got another promise"); nap(); try { V<R>::set(x, 0, 1); } catch (boost::promise_already_satisfied&) {} }); p->set_wait_callback(cb); }
  boost::future<R> f = p->get_future(); boost::shared_future<R> sf; if (shared) sf = f.share(); if (shared) SIM_CHECK(!f.valid() && sf.valid(), "state", "share"); std::vector<Out> got(nw); Flag gone; sim::Threads t; boost::thread* bt[4] = {0, 0, 0, 0};
  for (u32 i = 0; i < ns; i++) t.go([&, i] { setter<R>(*p, r, i, true); });
  if (sim::flip()) nap();
  for (u32 i = 0; i < nw; i++) { auto body = [&, i] { Tag g("waiter"); Out o; bool again = false; do { if (shared) { boost::shared_future<R> c(sf); o = consume<R>(c, true, r); } else o = consume<R>(f, false, r); again = o.k == Out::intr; } while (again); judge<R>(r, o); { sim::Quiet q; got[i] = o; } if (!shared) {
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
        SIM_CHECK(!f.valid(), "state", "a future is valid after get"); Out o2 = take<R>(f); SIM_CHECK(o2.k == Out::uninit, "get-twice", "a second get gave %s", oname(o2.k));
#else
        SIM_CHECK(f.is_ready() && (f.has_value() ? o.k == Out::value : o.k != Out::value), "state", "the state changed after get");
#endif
      } else if (sim::flip()) { boost::shared_future<R> c(sf); Out o2 = take<R>(c); SIM_CHECK(o2 == o, "value", "a second get of a shared_future gave another result"); } };
    if (intr) bt[i] = new boost::thread(body); else t.go(body); }
  if (intr) for (int k = sim::range(1, 3); k > 0; k--) { nap(); u32 w = sim::choose(4); if (bt[w]) intr_thread(*bt[w]); }
  if (callback) { // the promise stays until somebody has triggered the callback
    if (!nw) { if (shared) sf.wait(); else f.wait(); } }
  // setters are done (joined below through t); an unsatisfied promise is then abandoned
  auto setters_done = [&] { sim::Quiet q; for (u32 i = 0; i < ns; i++) if (!r.tried[i]) return false; return true; };
  if (!callback && ns == 1 && nw == 0 && sim::flip() && !intr) { } // fallthrough
  while (!setters_done()) sim_sleep_ns(200 * US);
  for (u32 i = 0; i < nw; i++) if (bt[i]) { if (callback || r.wins()) { bt[i]->join(); delete bt[i]; bt[i] = 0; } }
  if (callback || r.wins()) t.join();
  if (abandon == 0) delete p; else if (abandon == 1) { *p = boost::promise<R>(); } else { boost::promise<R> q2; q2.swap(*p); }
  for (u32 i = 0; i < nw; i++) if (bt[i]) { bt[i]->join(); delete bt[i]; } t.join();
  SIM_CHECK(r.wins() <= 1, "set-twice", "%u setters succeeded on one promise", r.wins()); Out win = r.winner(); { sim::Quiet q; for (u32 i = 0; i < nw; i++) SIM_CHECK(got[i] == win, "value", "waiter %u got %s %d instead of %s %d", i, oname(got[i].k), got[i].id, oname(win.k), win.id); }
  if (shared) { Out o = take<R>(sf); SIM_CHECK(o == win, "value", "late get gave %s", oname(o.k)); }
  if (abandon) { boost::future<R> nf = p->get_future(); SIM_CHECK(!nf.is_ready(), "state", "a new promise is satisfied"); Cp::armed() = 0; V<R>::set(*p, 1, 1); Out o = take<R>(nf); SIM_CHECK(o.k == Out::value, "value", "a new promise does not work"); delete p; } }
SCENARIO(race_copyable, 4) { race_case<Cp>(false); arena_empty(); }
SCENARIO(race_moveonly, 2) { race_case<Mv>(false); arena_empty(); }
SCENARIO(race_ref, 2) { race_case<Cp&>(false); arena_empty(); }
SCENARIO(race_void, 3) { race_case<void>(false); arena_empty(); }
SCENARIO(callback_value, 2) { race_case<Cp>(true); arena_empty(); }
SCENARIO(callback_moveonly, 1) { race_case<Mv>(true); arena_empty(); }
SCENARIO(callback_ref, 1) { race_case<Cp&>(true); arena_empty(); }
SCENARIO(callback_void, 1) { race_case<void>(true); arena_empty(); }

// ---- the promise is destroyed by the thread that got the result, or abandoned by the thread that owns it
template<class R> static void owner_case() {
  targets_init(); Cp::armed() = 0; sim_faults(SIM_DEFAULT_FAULTS); u32 mode = sim::choose(5), n = sim::range(0, 3); boost::promise<R>* p = fresh<R>(); boost::future<R> f = p->get_future(); u32* payload = new u32(0); sim::Threads t; bool exc = sim::choose(4) == 0; boost::shared_future<R> sf; bool shared = V<R>::copy && sim::flip(); if (shared) sf = f.share(); Flag ready;
  for (u32 i = 0; shared && i < n; i++) t.go([&, sf] { Tag g("waiter"); boost::shared_future<R> c(sf); Out o = take<R>(c); SIM_CHECK(o.k == (mode < 2 ? exc ? Out::exc : Out::value : Out::broken), "value", "a waiter got %s", oname(o.k)); });
  if (sim::flip()) nap();
  if (mode < 2) { t.go([p, payload, exc, &ready] { Tag g("setter"); nap(); *payload = 5; if (exc) p->set_exception(Ex{3}); else V<R>::set(*p, 3, 1); }); }
  else { t.go([p, payload, mode, &ready] { Tag g("owner"); boost::promise<R> mine(boost::move(*p)); nap(); if (mode == 3) { boost::promise<R> o; o.swap(mine); } else if (mode == 4) mine = boost::promise<R>(); *payload = 5; if (mode == 4) nap(); }); }
  Out o = shared ? take<R>(sf) : take<R>(f); if (mode < 2) { SIM_CHECK(o.k == (exc ? Out::exc : Out::value) && (o.k == Out::value && !V<R>::ids ? true : o.id == 3), "value", "got %s %d", oname(o.k), o.id); SIM_CHECK(*payload == 5, "visibility", "writes before set_value are not visible"); if (mode == 0) { delete p; p = 0; delete payload; payload = 0; } }
  else SIM_CHECK(o.k == Out::broken, "value", "got %s from an abandoned promise", oname(o.k));
  t.join(); delete p; delete payload; }
SCENARIO(owner_value, 2) { owner_case<Cp>(); arena_empty(); }
SCENARIO(owner_moveonly, 1) { owner_case<Mv>(); arena_empty(); }
SCENARIO(owner_void, 2) { owner_case<void>(); arena_empty(); }

// ---- a promise without state: nothing can be stored in it, and the future of the state it had is unharmed
template<class R> static void stateless_case() {
#ifndef BOOST_THREAD_PROVIDES_PROMISE_LAZY
  targets_init(); Cp::armed() = 0; sim_faults(0); boost::promise<R> a; boost::future<R> f = a.get_future(); boost::promise<R> b; if (sim::flip()) b = boost::move(a); else { boost::promise<R> c(boost::move(a)); b.swap(c); if (sim::flip()) { boost::promise<R> d(boost::move(c)); } boost::promise<R> gone(boost::move(c)); a.swap(c); }
  u32 ops = 0, told = 0; auto is_moved = [&](auto fn) { ops++; try { fn(); } catch (boost::promise_moved&) { told++; } }; is_moved([&] { V<R>::set(a, 3, sim::choose(3)); }); is_moved([&] { V<R>::defer(a, 3, sim::choose(2)); }); is_moved([&] { a.set_exception(Ex{3}); }); is_moved([&] { a.set_exception(boost::copy_exception(Ex{3})); }); is_moved([&] { a.set_exception_deferred(Ex{3}); }); is_moved([&] { a.notify_deferred(); }); is_moved([&] { a.get_future(); }); is_moved([&] { a.set_exception_at_thread_exit(Ex{4}); }); is_moved([&] { boost::function<void(boost::promise<R>&)> cb([](boost::promise<R>&) {}); a.set_wait_callback(cb); });
  is_moved([&] { if constexpr (std::is_void<R>::value) a.set_value_at_thread_exit(); else if constexpr (std::is_reference<R>::value) a.set_value_at_thread_exit(targets()[2]); else if constexpr (V<R>::copy) { Cp c(2); if (sim::flip()) a.set_value_at_thread_exit(c); else a.set_value_at_thread_exit(Cp(2)); } else a.set_value_at_thread_exit(V<R>::make(2)); });
  SIM_CHECK(told == ops, "misuse", "%u of %u uses of a promise without state were reported", told, ops); SIM_CHECK(f.valid() && !f.is_ready(), "state", "the future of a moved promise"); V<R>::set(b, 5, 1); Out o = take<R>(f); SIM_CHECK(o.k == Out::value && (!V<R>::ids || o.id == 5), "value", "got %s %d", oname(o.k), o.id);
#endif
}
SCENARIO(stateless, 1) { switch (sim::choose(4)) { case 0: stateless_case<Cp>(); break; case 1: stateless_case<Mv>(); break; case 2: stateless_case<Cp&>(); break; default: stateless_case<void>(); } }

// ---- interrupted waits lose nothing
template<class R> static void interrupted_case() {
  targets_init(); Cp::armed() = 0; sim_faults(SIM_DEFAULT_FAULTS); boost::promise<R> p; boost::future<R> f = p.get_future(); Out o{Out::none, 0}; u32 hits = 0; Flag in; bool get = sim::flip();
  boost::thread th([&] { Tag g("waiter"); for (;;) { try { in.add(); if (get) { o = Out{Out::value, V<R>::get(f)}; return; } f.wait(); SIM_CHECK(f.is_ready(), "state", "not ready after wait"); get = true; } catch (boost::thread_interrupted&) { hits++; SIM_CHECK(f.valid(), "interrupted", "an interrupted wait made the future invalid"); } } });
  int k = sim::range(1, 3); for (int i = 0; i < k; i++) { if (sim::flip()) sim_settle(); nap(); intr_thread(th); } nap(); V<R>::set(p, 4, 1); th.join(); SIM_CHECK(o.k == Out::value && (!V<R>::ids || o.id == 4), "value", "the result was lost"); (void)hits; }
SCENARIO(interrupted_value, 1) { if (!CAN_INTR) return; interrupted_case<Cp>(); arena_empty(); }
SCENARIO(interrupted_moveonly, 1) { if (!CAN_INTR) return; interrupted_case<Mv>(); arena_empty(); }
SCENARIO(interrupted_ref, 1) { if (!CAN_INTR) return; interrupted_case<Cp&>(); arena_empty(); }
SCENARIO(interrupted_void, 1) { if (!CAN_INTR) return; interrupted_case<void>(); arena_empty(); }

// ---- histories of calls against a reference model, with failing copies and allocations
struct St { bool retrieved = false, done = false, deferred = false, valid = true, taken = false, broken = false; Out res{Out::none, 0}; };
template<class R> struct Mirror { static const u32 NP = 3, NF = 3; std::unique_ptr<boost::promise<R> > p[NP]; int ps[NP]; bool pret[NP]; boost::future<R> f[NF]; int fs[NF]; boost::shared_future<R> s[NF]; int ss[NF]; std::vector<St> st; };
#ifdef BOOST_THREAD_PROVIDES_PROMISE_LAZY
static const bool lazy = true;
#else
static const bool lazy = false;
#endif
template<class R> static void model_case() {
  targets_init(); Cp::armed() = 0; bool alloc = sim::choose(3) == 0; sim_faults(alloc ? 1u << SF_ALLOC : 0); Mirror<R> m; for (u32 i = 0; i < m.NP; i++) { m.ps[i] = -1; m.pret[i] = false; m.fs[i] = m.ss[i] = -1; }
  auto nst = [&] { sim::Quiet q; m.st.push_back(St()); return (int)m.st.size() - 1; };
  auto brk = [&](int s) { if (s >= 0 && !m.st[s].done && !m.st[s].deferred) { m.st[s].done = true; m.st[s].broken = true; m.st[s].res = Out{Out::broken, 0}; } };
  // lazily created state: the model creates it too (-1 = none, promise exists)
  auto need = [&](u32 i) { if (m.ps[i] < 0 && lazy) m.ps[i] = nst(); return m.ps[i]; };
  u32 steps = sim::range(6, 24); int id = 0; static int log[64]; (void)log;
  auto chk = [&](u32 i) { { St* x = m.fs[i] >= 0 ? &m.st[m.fs[i]] : 0; boost::future<R>& f = m.f[i]; SIM_CHECK(f.valid() == (x && x->valid), "state", "future::valid() is %d", (int)f.valid()); SIM_CHECK(f.is_ready() == (x && x->done), "state", "future::is_ready() is %d", (int)f.is_ready()); SIM_CHECK(f.has_value() == (x && x->done && x->res.k == Out::value), "state", "future::has_value() is wrong"); SIM_CHECK(f.has_exception() == (x && x->done && x->res.k != Out::value), "state", "future::has_exception() is wrong"); SIM_CHECK(f.get_state() == (!x ? boost::future_state::uninitialized : x->done ? boost::future_state::ready : boost::future_state::waiting), "state", "future::get_state() is wrong"); }
    { St* x = m.ss[i] >= 0 ? &m.st[m.ss[i]] : 0; boost::shared_future<R>& f = m.s[i]; SIM_CHECK(f.valid() == (x && x->valid), "state", "shared_future::valid() is %d", (int)f.valid()); SIM_CHECK(f.is_ready() == (x && x->done), "state", "shared_future::is_ready() is wrong"); SIM_CHECK(f.has_value() == (x && x->done && x->res.k == Out::value), "state", "shared_future::has_value() is wrong"); SIM_CHECK(f.get_state() == (!x ? boost::future_state::uninitialized : x->done ? boost::future_state::ready : boost::future_state::waiting), "state", "shared_future::get_state() is wrong"); } };
  for (u32 step = 0; step < steps; step++) { u32 op = sim::choose(18), i = sim::choose(3), j = sim::choose(3); id = (id + 1) % (int)NID; u32 nf = 0; bool bad = false; if (alloc && sim::choose(3) == 0) { nf = sim::range(1, 3); sim_alloc_fail_nth(nf); } sim_note("op %u i %u j %u nf %u", op, i, j, nf);
    bool lost = false; // bad_alloc
    switch (op) {
      case 0: { std::unique_ptr<boost::promise<R> > np; bool own = false; try { np.reset(fresh<R>(&own)); } catch (std::bad_alloc&) { break; } sim_alloc_fail_nth(0); m.p[i] = std::move(np); brk(m.ps[i]); m.ps[i] = lazy && !own ? -1 : nst(); m.pret[i] = false; break; }
      case 1: sim_alloc_fail_nth(0); m.p[i].reset(); brk(m.ps[i]); m.ps[i] = -1; m.pret[i] = false; break;
      case 2: if (m.p[i] && m.p[j] && i != j) { sim_alloc_fail_nth(0); *m.p[i] = boost::move(*m.p[j]); brk(m.ps[i]); m.ps[i] = m.ps[j]; m.pret[i] = m.pret[j]; m.ps[j] = -1; m.pret[j] = false; if (!lazy && m.ps[i] == -1) m.ps[i] = -1; } break;
      case 3: if (m.p[i] && m.p[j]) { m.p[i]->swap(*m.p[j]); std::swap(m.ps[i], m.ps[j]); std::swap(m.pret[i], m.pret[j]); } break;
      case 4: case 5: if (m.p[i]) { Out o{Out::none, 0}; boost::future<R> nf2; try { nf2 = m.p[i]->get_future(); } catch (boost::future_already_retrieved&) { o.k = Out::other; } catch (boost::promise_moved&) { o.k = Out::moved; } catch (std::bad_alloc&) { lost = true; } sim_alloc_fail_nth(0); if (lost) { SIM_CHECK(m.ps[i] < 0 || m.pret[i], "alloc", "get_future failed to allocate although the state existed"); break; } int s = need(i);
          if (s < 0) SIM_CHECK(o.k == Out::moved, "misuse", "get_future of a promise without state: %d", o.k); else if (m.pret[i]) SIM_CHECK(o.k == Out::other, "misuse", "the future was retrieved twice"); else { SIM_CHECK(o.k == Out::none, "misuse", "get_future failed: %d", o.k); m.pret[i] = true; m.f[j] = boost::move(nf2); m.fs[j] = s; } } break;
      case 6: case 7: case 8: if (m.p[i]) { u32 how = sim::choose(4), form = sim::choose(3); if (sim::choose(5) == 0) Cp::armed() = 1; Out o{Out::none, 0}; try { switch (how) { case 0: V<R>::set(*m.p[i], id, form); break; case 1: m.p[i]->set_exception(Ex{id}); break; case 2: V<R>::defer(*m.p[i], id, form); break; default: m.p[i]->set_exception_deferred(Ex{id}); } } catch (boost::promise_already_satisfied&) { o.k = Out::other; } catch (boost::promise_moved&) { o.k = Out::moved; } catch (Boom&) { o.k = Out::boom; } catch (std::bad_alloc&) { lost = true; } sim_alloc_fail_nth(0); Cp::armed() = 0;
          if (lost) { if (m.ps[i] < 0 && lazy) { /* the state may or may not have been made */ bool made = false; try { boost::future<R> t = m.p[i]->get_future(); made = true; m.f[j] = boost::move(t); } catch (boost::future_error&) {} SIM_CHECK(made, "alloc", "a promise is unusable after bad_alloc"); m.ps[i] = nst(); m.pret[i] = true; m.fs[j] = m.ps[i]; } break; } // state unchanged: checked below
          int s = need(i); if (s < 0) { SIM_CHECK(o.k == Out::moved, "misuse", "setting a promise without state: %s", oname(o.k)); break; } if (o.k == Out::boom) break; // unchanged
          St& x = m.st[s]; if (x.done || x.deferred) SIM_CHECK(o.k == Out::other, "set-twice", "a second result was accepted: %d", o.k); else { SIM_CHECK(o.k == Out::none, "misuse", "the first result was refused: %s", oname(o.k)); x.res = how & 1 ? Out{Out::exc, id} : Out{Out::value, V<R>::ids ? id : -1}; if (how < 2) x.done = true; else x.deferred = true; } } break;
      case 9: if (m.p[i] && m.ps[i] >= 0 && m.st[m.ps[i]].deferred && !m.st[m.ps[i]].done) { m.p[i]->notify_deferred(); m.st[m.ps[i]].done = true; } break;
      case 10: sim_alloc_fail_nth(0); if (i != j) { m.f[i] = boost::move(m.f[j]); m.fs[i] = m.fs[j]; m.fs[j] = -1; } break;
      case 11: m.f[i].swap(m.f[j]); std::swap(m.fs[i], m.fs[j]); break;
      case 12: { sim_alloc_fail_nth(0); if (m.fs[i] >= 0 && !m.st[m.fs[i]].valid) break; m.s[j] = m.f[i].share(); m.ss[j] = m.fs[i]; m.fs[i] = -1; break; }
      case 13: sim_alloc_fail_nth(0); if (sim::flip()) { m.s[i] = m.s[j]; m.ss[i] = m.ss[j]; } else { boost::shared_future<R> c(m.s[j]); m.s[i] = boost::move(c); m.ss[i] = m.ss[j]; } break;
      case 14: case 15: { sim_alloc_fail_nth(0); St* x = m.fs[i] >= 0 ? &m.st[m.fs[i]] : 0; if (x && x->valid && !x->done) { SIM_CHECK(m.f[i].wait_for(nsd(0)) == boost::future_status::timeout, "state", "wait_for on a future that is not ready"); break; } if (x && x->taken) break; Out o = take<R>(m.f[i]); if (!x || !x->valid) SIM_CHECK(o.k == Out::uninit, "misuse", "get of an invalid future gave %s", oname(o.k)); else { SIM_CHECK(o == x->res, "value", "get gave %s %d instead of %s %d", oname(o.k), o.id, oname(x->res.k), x->res.id); x->taken = o.k == Out::value;
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
            x->valid = false;
#endif
          } break; }
      default: if constexpr (V<R>::copy) { sim_alloc_fail_nth(0); St* x = m.ss[i] >= 0 ? &m.st[m.ss[i]] : 0; if (x && !x->done) { SIM_CHECK(m.s[i].wait_for(nsd(0)) == boost::future_status::timeout, "state", "wait_for"); break; } if (x && x->taken) break; // moved out through a future
          if constexpr (!std::is_void<R>::value && !std::is_reference<R>::value) if (x && sim::flip()) { Out o = outcome([&] { return V<R>::of(m.s[i].get_or(V<R>::make(55))); }); SIM_CHECK(o.k == Out::value && o.id == (x->res.k == Out::value ? x->res.id : 55), "value", "shared_future::get_or gave %s %d", oname(o.k), o.id); break; }
          Out o = take<R>(m.s[i]); if (!x) SIM_CHECK(o.k == Out::uninit, "misuse", "get of an empty shared_future gave %s", oname(o.k)); else SIM_CHECK(o == x->res, "value", "shared get gave %s %d", oname(o.k), o.id); } }
    sim_alloc_fail_nth(0); (void)bad; for (u32 k = 0; k < 3; k++) chk(k); }
  // get_or on the remaining futures
  if constexpr (!std::is_void<R>::value && !std::is_reference<R>::value) for (u32 i = 0; i < 3; i++) { St* x = m.fs[i] >= 0 ? &m.st[m.fs[i]] : 0; if (!x || !x->done || !x->valid || x->taken) continue; Out o = outcome([&] { if constexpr (V<R>::copy) if (sim::flip()) { const R d = V<R>::make(55); return V<R>::of(m.f[i].get_or(d)); } return V<R>::of(m.f[i].get_or(V<R>::make(55))); }); SIM_CHECK(o.k == Out::value && o.id == (x->res.k == Out::value ? x->res.id : 55), "value", "get_or gave %s %d", oname(o.k), o.id); x->taken = true;
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
    x->valid = false;
#endif
    chk(i); }
  // without a state nothing can be had or waited for
  auto refuses = [](const char* what, auto&& fn) { bool threw = false; try { fn(); } catch (boost::future_uninitialized&) { threw = true; } SIM_CHECK(threw, "misuse", "%s without a state was accepted", what); };
  for (u32 i = 0; i < 3; i++) { if (m.fs[i] < 0) { refuses("wait of a future", [&] { m.f[i].wait(); }); refuses("wait_for of a future", [&] { m.f[i].wait_for(nsd(MS)); }); refuses("wait_until of a future", [&] { m.f[i].wait_until(st_at(sim_now() + MS)); }); refuses("get of a future", [&] { m.f[i].get(); });
#ifdef BOOST_THREAD_USES_DATETIME
      refuses("timed_wait of a future", [&] { m.f[i].timed_wait(pd_of(MS)); }); refuses("timed_wait_until of a future", [&] { m.f[i].timed_wait_until(pt_at(sim_now_real() + MS)); });
#endif
    }
    bool inval = m.fs[i] < 0 || !m.st[m.fs[i]].valid; (void)inval;
    if constexpr (!std::is_void<R>::value && !std::is_reference<R>::value) if (inval) { refuses("get_or of a future", [&] { m.f[i].get_or(V<R>::make(1)); }); if constexpr (V<R>::copy) { const R d = V<R>::make(1); refuses("get_or of a future", [&] { m.f[i].get_or(d); }); } }
    if (m.ss[i] < 0) { refuses("wait of a shared_future", [&] { m.s[i].wait(); }); refuses("wait_for of a shared_future", [&] { m.s[i].wait_for(nsd(MS)); }); if constexpr (!std::is_void<R>::value && !std::is_reference<R>::value && V<R>::copy) { refuses("get_or of a shared_future", [&] { m.s[i].get_or(V<R>::make(1)); }); const R d = V<R>::make(1); refuses("get_or of a shared_future", [&] { m.s[i].get_or(d); }); } } } }
SCENARIO(model_copyable, 2) { model_case<Cp>(); arena_empty(); }
SCENARIO(model_moveonly, 1) { model_case<Mv>(); arena_empty(); }
SCENARIO(model_ref, 1) { model_case<Cp&>(); arena_empty(); }
SCENARIO(model_void, 1) { model_case<void>(); arena_empty(); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(8, 32); bool exc = sim::choose(3) == 0; Flag back; boost::promise<Cp> p; boost::shared_future<Cp> sf(p.get_future()); sim::Threads th; for (u32 i = 0; i < n; i++) th.go([&, sf, i] { boost::shared_future<Cp> c(sf); if (i % 4 == 1) c.wait(); Out o = take<Cp>(c); SIM_CHECK((o == (exc ? Out{Out::exc, 8} : Out{Out::value, 8})), "value", "waiter %u got %s %d", i, oname(o.k), o.id); back.add(); }); if (sim::flip()) sim_settle(); SIM_CHECK(back.get() == 0, "early", "a waiter returned before the result"); if (exc) p.set_exception(Ex{8}); else p.set_value(Cp(8)); th.join(); SIM_CHECK(back.get() == n, "stuck", "%llu of %u waiters returned", (unsigned long long)back.get(), n); }

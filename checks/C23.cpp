// C23 wait_for_any/all and when_any/all: the right set of futures at the right moment.
#include "fut.h"

static void start() { targets_init(); sim::Quiet q; for (int i = 0; i < 64; i++) (&Cp::armed() - (sim_self() & 63))[i] = 0; }
template<class R> static Out val(int id) { return Out{Out::value, V<R>::ids ? id : -1}; }
static void expect(Out o, Out w, const char* what) { SIM_CHECK(o == w, "value", "%s: %s %d instead of %s %d", what, oname(o.k), o.id, oname(w.k), w.id); }
enum Kind { j_ready, j_soon, j_gated, j_async, j_deferred, j_chain, j_kinds };
// The source of one future: a gated one is only fulfilled when the scenario opens the gate.
struct Job { u32 effect; int by, id; Kind kind; Flag gate, runs; Out out; };
static Job jobs[16];
static bool gated(Job const& j) { return j.kind == j_gated; }
template<class R> static boost::future<R> make(Job* j, int id, Kind k, sim::Threads& th, boost::function<void(boost::promise<R>&)> const* cb = 0) {
  j->id = id; j->kind = k; j->effect = 0; bool exc = sim::choose(3) == 0, brk = exc && sim::flip() && k != j_async && k != j_deferred; j->out = brk ? Out{Out::broken, 0} : exc ? Out{Out::exc, id} : val<R>(id); bool after = k != j_ready && sim::choose(4) == 0;
  auto body = [=]() -> R { Tag g("task"); j->runs.add(); j->by = sim_self(); j->effect = 1; dwell(); j->effect = 11; if (exc) throw Ex{id}; return V<R>::make(id); };
  if (k == j_async) return boost::async(boost::launch::async, body); if (k == j_deferred) return boost::async(boost::launch::deferred, body);
  boost::promise<R>* p = new boost::promise<R>(); boost::future<R> f = p->get_future(); if (cb) p->set_wait_callback(*cb); if (k == j_chain) { boost::future<R> g = f.then(boost::launch::sync, [](boost::future<R> a) -> R { return a.get(); }); f = boost::move(g); }
  auto fill = [=] { Tag g("setter"); if (k == j_gated) j->gate.await(); if (after) nap(); j->effect = 11; if (brk) { boost::promise<R> mine(boost::move(*p)); } else if (exc) p->set_exception(Ex{id}); else V<R>::set(*p, id, 1); delete p; };
  if (k == j_ready) fill(); else th.go(fill); return f; }
static Kind any_kind(bool def) { for (;;) { Kind k = (Kind)sim::choose(j_kinds); if (k == j_deferred && !def) continue; return k; } }
static void open_all(u32 n) { for (u32 i = 0; i < n; i++) jobs[i].gate.set(); }
static void seen(Job const& j) { SIM_CHECK(j.effect == 11, "visibility", "a future is ready but the effects before it are missing (%u)", j.effect); }
template<class R, class F> static void consume(F& f, Job const& j) { expect(take<R>(f), j.out, "result"); seen(j); }
template<class F> static void ready(F& f, Job const& j, const char* what) { SIM_CHECK(f.valid(), "set", "%s: a future is not valid", what); SIM_CHECK(f.is_ready(), "moment", "%s: a future is not ready", what); seen(j); }

// ---- wait_for_all
template<class R> static void wait_all_case() { start(); u32 n = sim::range(1, 4); sim::Threads th; { std::vector<boost::future<R> > v; for (u32 i = 0; i < n; i++) v.push_back(make<R>(&jobs[i], (int)i + 1, any_kind(true), th)); Flag go; sim::Threads g; g.go([&] { nap(); open_all(n); });
    if (n == 3 && sim::flip()) boost::wait_for_all(v[0], v[1], v[2]); else if (n == 2 && sim::flip()) boost::wait_for_all(v[0], v[1]); else boost::wait_for_all(v.begin(), v.end()); for (u32 i = 0; i < n; i++) ready(v[i], jobs[i], "wait_for_all"); for (u32 i = 0; i < n; i++) { consume<R>(v[i], jobs[i]); if (jobs[i].kind == j_async || jobs[i].kind == j_deferred) SIM_CHECK(jobs[i].runs.get() == 1, "runs", "a task ran %llu times", (unsigned long long)jobs[i].runs.get()); } g.join(); th.join(); } sim_settle(); }
SCENARIO(wait_all, 2) { switch (sim::choose(3)) { case 0: wait_all_case<Cp>(); break; case 1: wait_all_case<Mv>(); break; default: wait_all_case<void>(); } }

// ---- wait_for_any: several threads look at shared futures in different orders; some are asked for twice, some are empty
template<class R> static void wait_any_case() { start(); u32 n = sim::range(1, 4), m = sim::range(1, 3); sim::Threads th; typedef boost::shared_future<R> S; S s[4]; { u32 free = sim::choose(n); for (u32 i = 0; i < n; i++) s[i] = make<R>(&jobs[i], (int)i + 1, i == free ? (Kind)(sim::choose(2) ? j_soon : sim::flip() ? j_async : j_ready) : any_kind(false), th).share(); Flag done; sim::Threads w;
    for (u32 t = 0; t < m; t++) w.go([&] { Tag g("waiter"); std::vector<S> v; u32 id[12]; for (u32 i = 0; i < n; i++) { u32 at = sim::choose((u32)v.size() + 1); v.insert(v.begin() + at, s[i]); for (u32 k = (u32)v.size() - 1; k > at; k--) id[k] = id[k - 1]; id[at] = i; } if (sim::choose(3) == 0) { u32 x = sim::choose(n); id[v.size()] = x; v.push_back(s[x]); } if (sim::choose(3) == 0) { u32 at = sim::choose((u32)v.size() + 1); v.insert(v.begin() + at, S()); for (u32 k = (u32)v.size() - 1; k > at; k--) id[k] = id[k - 1]; id[at] = 99; }
        bool first = true; for (;;) { bool left = false; for (S& f : v) left |= f.valid(); if (!left) break; u32 got; if (v.size() == 2 && sim::flip()) got = (u32)boost::wait_for_any(v[0], v[1]); else if (v.size() == 3 && sim::flip()) got = (u32)boost::wait_for_any(v[0], v[1], v[2]); else if (v.size() == 1 && sim::flip()) got = (u32)boost::wait_for_any(v[0]); else got = (u32)(boost::wait_for_any(v.begin(), v.end()) - v.begin());
          SIM_CHECK(got < v.size() && v[got].valid(), "set", "wait_for_any names future %u", got); ready(v[got], jobs[id[got]], "wait_for_any"); consume<R>(v[got], jobs[id[got]]); v[got] = S(); if (first) { done.add(); first = false; if (sim::flip()) nap(); } } });
    done.await(m); open_all(n); w.join(); for (u32 i = 0; i < n; i++) consume<R>(s[i], jobs[i]); th.join(); } sim_settle(); }
SCENARIO(wait_any, 6) { switch (sim::choose(2)) { case 0: wait_any_case<Cp>(); break; default: wait_any_case<void>(); } }
// futures of different types
SCENARIO(wait_any_mixed, 2) { start(); sim::Threads th; { u32 free = sim::choose(3); Kind k[3]; for (u32 i = 0; i < 3; i++) k[i] = i == free ? j_soon : any_kind(false); boost::future<Cp> a = make<Cp>(&jobs[0], 1, k[0], th); boost::future<void> b = make<void>(&jobs[1], 2, k[1], th); boost::shared_future<Cp> c = make<Cp>(&jobs[2], 3, k[2], th).share(); bool d[3] = {0, 0, 0}; for (u32 left = 3; left; left--) {
      u32 g; if (!d[0] && !d[1] && !d[2]) g = (u32)boost::wait_for_any(a, b, c); else if (!d[0] && !d[1]) g = (u32)boost::wait_for_any(a, b); else if (!d[0] && !d[2]) g = (u32)boost::wait_for_any(a, c) * 2; else if (!d[1] && !d[2]) g = 1 + (u32)boost::wait_for_any(b, c); else { g = d[0] ? d[1] ? 2 : 1 : 0; if (g == 0) boost::wait_for_any(a); else if (g == 1) boost::wait_for_any(b); else boost::wait_for_any(c); }
      SIM_CHECK(g < 3 && !d[g], "set", "wait_for_any names future %u", g); if (g == 0) { ready(a, jobs[0], "wait_for_any"); consume<Cp>(a, jobs[0]); } else if (g == 1) { ready(b, jobs[1], "wait_for_any"); consume<void>(b, jobs[1]); } else { ready(c, jobs[2], "wait_for_any"); consume<Cp>(c, jobs[2]); } d[g] = true; open_all(3); } th.join(); } sim_settle(); }

// ---- interrupted, or stopped by an exception of a wait callback: nothing stays registered
template<class R> static void wait_stop_case() { start(); u32 n = sim::range(1, 3), hits = 0, cut = 0; sim::Threads th; typedef boost::shared_future<R> S; { S s[3]; u32 cb = sim::flip() ? sim::choose(n) : 9; if (cb < 9) sim_faults(0); static Flag calls; boost::function<void(boost::promise<R>&)> fn = [](boost::promise<R>&) { calls.add(); if (calls.get() & 1) throw Boom(4); }; for (u32 i = 0; i < n; i++) s[i] = make<R>(&jobs[i], (int)i + 1, j_gated, th, i == cb ? &fn : 0).share();
    Flag in; bool all = sim::choose(3) == 0;
    boost::thread x([&] { Tag g("waiter"); std::vector<S> v(s, s + n); for (;;) { try { in.add(); if (all) { boost::wait_for_all(v.begin(), v.end()); break; } else { u32 g = n == 2 && sim::flip() ? (u32)boost::wait_for_any(v[0], v[1]) : (u32)(boost::wait_for_any(v.begin(), v.end()) - v.begin()); ready(v[g], jobs[g], "wait_for_any"); break; } } catch (boost::thread_interrupted&) { hits++; } catch (Boom&) { cut++; } } }); in.await(); u32 irq = sim::choose(3); for (u32 i = 0; i < irq; i++) { nap(); intr_thread(x); }
    nap(); bool dead = false; if (!all && sim::flip()) { jobs[sim::choose(n)].gate.set(); x.join(); dead = true; } open_all(n); if (!dead) x.join(); SIM_CHECK(hits <= irq, "interrupt", "%u interruptions of %u", hits, irq); th.join(); for (u32 i = 0; i < n; i++) consume<R>(s[i], jobs[i]); } sim_settle(); }
SCENARIO(wait_stopped, 3) { switch (sim::choose(2)) { case 0: wait_stop_case<Cp>(); break; default: wait_stop_case<void>(); } }
// a callback that fulfils the promise itself
SCENARIO(wait_lazy, 1) { start(); boost::promise<Cp> p[2]; boost::future<Cp> f[2]; static Flag calls; boost::function<void(boost::promise<Cp>&)> fn = [](boost::promise<Cp>& q) { calls.add(); try { q.set_value(Cp(9)); } catch (boost::promise_already_satisfied&) {} }; for (u32 i = 0; i < 2; i++) f[i] = p[i].get_future(); u32 l = sim::choose(2); p[l].set_wait_callback(fn); sim::Threads th; bool race = sim::flip(); if (race) th.go([&] { nap(); p[1 - l].set_value(Cp(3)); }); if (sim::flip()) { u32 g = (u32)boost::wait_for_any(f[0], f[1]); SIM_CHECK(g < 2 && f[g].is_ready(), "moment", "future %u is not ready", g); } else { boost::future<Cp>* g = boost::wait_for_any(f, f + 2); SIM_CHECK(g < f + 2 && g->is_ready(), "moment", "future %d is not ready", (int)(g - f)); } th.join(); expect(take<Cp>(f[l]), val<Cp>(9), "lazy"); if (race) expect(take<Cp>(f[1 - l]), val<Cp>(3), "other"); }

// ---- when_all
template<class F, class R> static void fin(F& f, Job const& j, bool all, bool& any) { SIM_CHECK(f.valid(), "set", "a delivered future is not valid"); bool r = f.is_ready(); if (r) { any = true; seen(j); } SIM_CHECK(r || !all, "moment", "when_all is ready before one of its futures"); }
static void deferred_done(u32 n, int me) { for (u32 i = 0; i < n; i++) if (jobs[i].kind == j_deferred) { SIM_CHECK(jobs[i].runs.get() == 1, "deferred", "a deferred task ran %llu times before when_all returned", (unsigned long long)jobs[i].runs.get()); SIM_CHECK(jobs[i].by == me, "deferred", "a deferred task did not run in the caller of when_all"); } }
// the rule for when_any: in order, up to the first ready or deferred one; returns the index of the deferred one that must have run, or -1
static int deferred_any(Kind const* k, u32 n) { for (u32 i = 0; i < n; i++) { if (k[i] == j_ready) return -1; if (k[i] == j_deferred) return (int)i; } return -1; }
static void deferred_rule(u32 n, int which, bool racy) { for (u32 i = 0; i < n; i++) if (jobs[i].kind == j_deferred) { u32 r = (u32)jobs[i].runs.get(); if ((int)i == which) { if (!racy) SIM_CHECK(r == 1, "deferred", "the first deferred task ran %u times in when_any", r); } else SIM_CHECK(r == 0, "deferred", "when_any ran a deferred task that is not its turn"); } }
template<class F> static void again(F& f) { if (sim::choose(3) == 0) nap(); if (sim::choose(3) == 0) (void)f.is_ready(); if (sim::choose(3) == 0) (void)f.wait_for(nsd((s64)sim::range(0, 4) * MS)); }
static bool racy_before(u32 n, int w) { u32 lim = w < 0 ? n : (u32)w; for (u32 i = 0; i < lim; i++) { Kind k = jobs[i].kind; if (k == j_soon || k == j_async || k == j_chain || k == j_gated) return true; } return false; }
// hands the result to its reader directly, through a continuation or through shared futures
template<class C, class FN> static void deliver(boost::future<C> r, FN fn) { again(r); switch (sim::choose(4)) { case 0: { boost::future<void> g = r.then(sim::flip() ? boost::launch::async : boost::launch::sync, [&](boost::future<C> a) { SIM_CHECK(a.is_ready(), "moment", "not ready in the continuation"); C c(a.get()); fn(c); }); g.get(); break; } case 1: { r.wait(); SIM_CHECK(r.is_ready() && r.valid(), "moment", "not ready after wait"); C c(r.get()); fn(c); break; } default: { C c(r.get()); SIM_CHECK(!r.valid(), "state", "valid after get"); fn(c); } } }
template<class R, class F> static F pass(boost::future<R>&& f);
template<> boost::future<Cp> pass<Cp, boost::future<Cp> >(boost::future<Cp>&& f) { return boost::move(f); } template<> boost::future<Mv> pass<Mv, boost::future<Mv> >(boost::future<Mv>&& f) { return boost::move(f); } template<> boost::future<void> pass<void, boost::future<void> >(boost::future<void>&& f) { return boost::move(f); } template<> boost::shared_future<Cp> pass<Cp, boost::shared_future<Cp> >(boost::future<Cp>&& f) { return f.share(); } template<> boost::shared_future<void> pass<void, boost::shared_future<void> >(boost::future<void>&& f) { return f.share(); }
template<class R, class F, bool ALL> static void when_seq() { static const bool SH = !std::is_same<F, boost::future<R> >::value; start(); u32 n = sim::range(0, 4); sim::Threads th; { std::vector<F> v; Kind k[4]; u32 free = sim::choose(n ? n : 1); for (u32 i = 0; i < n; i++) { k[i] = ALL || i != free ? any_kind(true) : sim::flip() ? j_soon : j_ready; v.push_back(pass<R, F>(make<R>(&jobs[i], (int)i + 1, k[i], th))); }
    u32 dup = 99; if (SH && n && n < 4 && sim::choose(3) == 0) { dup = sim::choose(n); if constexpr (SH) { if (k[dup] != j_deferred) v.push_back(v[dup]); else dup = 99; } }
    u32 total = (u32)v.size(); auto r = ALL ? boost::when_all(v.begin(), v.end()) : boost::when_any(v.begin(), v.end()); typedef decltype(r.get()) C; SIM_CHECK(r.valid(), "state", "the result is not valid"); if (n == 0) SIM_CHECK(r.is_ready(), "moment", "not ready for no futures"); for (u32 i = 0; i < total; i++) SIM_CHECK(v[i].valid() == SH, "state", "an input %s is %s after the call", SH ? "shared_future" : "future", v[i].valid() ? "valid" : "not valid");
    if (ALL) deferred_done(n, sim_self()); else { int w = deferred_any(k, n); deferred_rule(n, w, racy_before(n, w)); } bool g = false; for (u32 i = 0; i < n; i++) g |= gated(jobs[i]); if (ALL && g) { SIM_CHECK(!r.is_ready(), "moment", "when_all is ready although a future is not"); } if (ALL) open_all(n);
    deliver(boost::move(r), [&](C& c) { SIM_CHECK(c.size() == total, "set", "%u futures instead of %u", (u32)c.size(), total); bool any = false; for (u32 i = 0; i < total; i++) { u32 id = i < n ? i : dup; fin<F, R>(c[i], jobs[id], ALL, any); } SIM_CHECK(any || !n, "moment", "when_any is ready although no future is"); open_all(n); for (u32 i = 0; i < total; i++) { u32 id = i < n ? i : dup; consume<R>(c[i], jobs[id]); } }); if (SH && V<R>::copy) for (u32 i = 0; i < n; i++) consume<R>(v[i], jobs[i]); th.join(); for (u32 i = 0; i < n; i++) if (jobs[i].kind == j_async || jobs[i].kind == j_deferred) SIM_CHECK(jobs[i].runs.get() == 1, "runs", "a task ran %llu times", (unsigned long long)jobs[i].runs.get()); }
  sim_settle(); }
template<bool ALL> static void seq_pick() { switch (sim::choose(5)) { case 0: when_seq<Cp, boost::future<Cp>, ALL>(); break; case 1: when_seq<Mv, boost::future<Mv>, ALL>(); break; case 2: when_seq<void, boost::future<void>, ALL>(); break; case 3: when_seq<Cp, boost::shared_future<Cp>, ALL>(); break; default: when_seq<void, boost::shared_future<void>, ALL>(); } }
SCENARIO(when_all_seq, 4) { seq_pick<true>(); }
SCENARIO(when_any_seq, 5) { seq_pick<false>(); }
template<bool ALL> static void when_tuple() { start(); sim::Threads th; { Kind k[3]; u32 free = sim::choose(3); for (u32 i = 0; i < 3; i++) k[i] = ALL || i != free ? any_kind(true) : sim::flip() ? j_soon : j_ready; boost::future<Mv> a = make<Mv>(&jobs[0], 1, k[0], th); boost::future<void> b = make<void>(&jobs[1], 2, k[1], th); boost::shared_future<Cp> s = make<Cp>(&jobs[2], 3, k[2], th).share(); auto r = ALL ? boost::when_all(boost::move(a), boost::move(b), s) : boost::when_any(boost::move(a), boost::move(b), s); typedef decltype(r.get()) C;
    SIM_CHECK(r.valid() && !a.valid() && !b.valid() && s.valid(), "state", "validity after the call"); if (ALL) deferred_done(3, sim_self()); else { int w = deferred_any(k, 3); deferred_rule(3, w, racy_before(3, w)); } bool g = gated(jobs[0]) || gated(jobs[1]) || gated(jobs[2]); if (ALL && g) SIM_CHECK(!r.is_ready(), "moment", "when_all is ready although a future is not"); if (ALL) open_all(3);
    deliver(boost::move(r), [&](C& c) { bool any = false; auto& x = boost::csbl::get<0>(c); auto& y = boost::csbl::get<1>(c); auto& z = boost::csbl::get<2>(c); fin<boost::future<Mv>, Mv>(x, jobs[0], ALL, any); fin<boost::future<void>, void>(y, jobs[1], ALL, any); fin<boost::shared_future<Cp>, Cp>(z, jobs[2], ALL, any); SIM_CHECK(any, "moment", "when_any is ready although no future is"); open_all(3); consume<Mv>(x, jobs[0]); consume<void>(y, jobs[1]); consume<Cp>(z, jobs[2]); }); consume<Cp>(s, jobs[2]); th.join(); } sim_settle(); }
SCENARIO(when_all_tuple, 3) { when_tuple<true>(); }
SCENARIO(when_any_tuple, 4) { when_tuple<false>(); }
SCENARIO(when_nothing, 1) { start(); SIM_CHECK(boost::when_all().is_ready() && boost::when_any().is_ready(), "moment", "not ready for no futures"); std::vector<boost::future<Cp> > v; boost::future<Cp> f = boost::make_ready_future(Cp(3)); auto r = boost::when_any(boost::move(f)); auto c = r.get(); expect(take<Cp>(boost::csbl::get<0>(c)), val<Cp>(3), "one"); }

// ---- resources run out: the call reports it and the futures given by reference work as before; nothing leaks
template<class R> static void fail_case() { start(); bool cr = sim::flip(); sim_faults(cr ? 0 : 1u << SF_ALLOC); u32 n = sim::range(1, 3), how = cr ? 2 + sim::choose(2) : sim::choose(4); sim::Threads th; { std::vector<boost::shared_future<R> > v; for (u32 i = 0; i < n; i++) v.push_back(make<R>(&jobs[i], (int)i + 1, how == 0 && sim::flip() ? j_ready : j_gated, th).share()); bool one = how == 1; if (how < 2) { open_all(n); sim_settle(); } bool exc = false; { boost::future<std::vector<boost::shared_future<R> > > dummy; (void)dummy; }
    u32 nth = sim::range(1, cr ? 1 : 12); if (cr) sim_fail_create((int)nth); else sim_alloc_fail_nth((int)nth); auto got = [&](bool all) { auto r = all ? boost::when_all(v.begin(), v.end()) : boost::when_any(v.begin(), v.end()); sim_alloc_fail_nth(0); sim_fail_create(0); open_all(n); auto c = r.get(); SIM_CHECK(c.size() == n, "set", "%u futures instead of %u", (u32)c.size(), n); };
    try { if (how == 0) boost::wait_for_any(v.begin(), v.end()); else if (one) { if (n == 1) boost::wait_for_any(v[0]); else boost::wait_for_any(v[0], v[1]); } else got(how == 2); } catch (std::bad_alloc&) { exc = true; } catch (boost::thread_resource_error&) { exc = true; } catch (boost::unknown_exception&) { if (cr) throw; exc = true; } sim_alloc_fail_nth(0); sim_fail_create(0); if (cr) SIM_CHECK(exc, "failure", "a thread could not be created and nothing was reported"); open_all(n); for (u32 i = 0; i < n; i++) if (v[i].valid()) consume<R>(v[i], jobs[i]); th.join(); } sim_settle(); }
SCENARIO(fail, 2) { if (sim::flip()) fail_case<Cp>(); else fail_case<void>(); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 2) { if (sim::choose(3)) return; start(); u32 n = sim::range(6, 40), form = sim::choose(4), hit = sim::choose(n), more = form < 2 ? n : sim::choose(4); std::vector<boost::promise<Cp> > p(n); std::vector<boost::shared_future<Cp> > f; for (u32 i = 0; i < n; i++) f.push_back(p[i].get_future().share()); static Flag set[64]; for (Flag& s : set) s.set(0);
  sim::Threads th; u32 step = 1; for (u32 c : {7u, 11u, 13u}) if (n % c) { step = c; break; } auto fill = [&](u32 i) { set[i].set(); if (i % 5 == 2) p[i].set_exception(Ex{(int)i}); else p[i].set_value(Cp((int)i)); }; th.go([&] { Tag tg("setter"); nap(); if (form < 2) for (u32 i = 0; i < n; i++) fill((hit + i * step) % n); else for (u32 i = 0; i <= more && i < n; i++) fill((hit + i) % n); });
  auto right = [&](boost::shared_future<Cp>& x, u32 i) { Out o = take<Cp>(x); SIM_CHECK((o == (i % 5 == 2 ? Out{Out::exc, (int)i} : Out{Out::value, (int)i})), "value", "future %u has %s %d", i, oname(o.k), o.id); };
  switch (form) { case 0: boost::wait_for_all(f.begin(), f.end()); for (u32 i = 0; i < n; i++) { SIM_CHECK(f[i].is_ready(), "moment", "wait_for_all returned before future %u was ready", i); right(f[i], i); } break;
    case 1: { std::vector<boost::shared_future<Cp> > c(f); boost::future<std::vector<boost::shared_future<Cp> > > a = boost::when_all(c.begin(), c.end()); std::vector<boost::shared_future<Cp> > r = a.get(); SIM_CHECK(r.size() == n, "set", "%u futures of %u", (u32)r.size(), n); for (u32 i = 0; i < n; i++) { SIM_CHECK(r[i].is_ready(), "moment", "when_all was ready before future %u", i); right(r[i], i); } break; }
    case 2: { std::vector<boost::shared_future<Cp> >::iterator w = boost::wait_for_any(f.begin(), f.end()); SIM_CHECK(w != f.end(), "set", "wait_for_any found none"); u32 i = (u32)(w - f.begin()); SIM_CHECK(w->is_ready() && set[i].get(), "set", "wait_for_any names future %u, which is not ready", i); right(*w, i); break; }
    default: { std::vector<boost::shared_future<Cp> > c(f); boost::future<std::vector<boost::shared_future<Cp> > > a = boost::when_any(c.begin(), c.end()); std::vector<boost::shared_future<Cp> > r = a.get(); SIM_CHECK(r.size() == n, "set", "%u futures of %u", (u32)r.size(), n); bool any = false; for (u32 i = 0; i < n; i++) if (r[i].is_ready()) { any = true; right(r[i], i); } SIM_CHECK(any, "moment", "when_any is ready and no future is"); } }
  th.join(); for (u32 i = 0; i < n; i++) { bool done = set[i].get(); SIM_CHECK(f[i].is_ready() == done, "state", "future %u is %s", i, done ? "not ready" : "ready"); if (!done) p[i].set_value(Cp((int)i)); if (done) right(f[i], i); } }

// C22 Continuations run exactly once, after and with the ready antecedent.
#include "fut.h"
#if BOOST_THREAD_VERSION >= 5
#define V5 1
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#else
#define V5 0
#endif

static void start() { targets_init(); sim::Quiet q; for (int i = 0; i < 64; i++) (&Cp::armed() - (sim_self() & 63))[i] = 0; }
template<class R> static Out val(int id) { return Out{Out::value, V<R>::ids ? id : -1}; }
static void expect(Out o, Out w, const char* what) { SIM_CHECK(o == w, "value", "%s: %s %d instead of %s %d", what, oname(o.k), o.id, oname(w.k), w.id); }
template<class F> static bool poll(F& f) {
  switch (sim::choose(4)) {
    case 0: { DL d = DL::mono((s64)sim_now() + sim::range(0, 6) * MS); bool r = f.wait_until(st_at((u64)d.at)) == boost::future_status::ready; return r; }
    case 1: { DL d = DL::mono((s64)sim_now() + sim::range(0, 6) * MS); boost::future_status s = f.wait_for(nsd((s64)d.at - (s64)d.t0)); if (s == boost::future_status::timeout) check_timeout(d, "wait_for"); return s == boost::future_status::ready; }
    case 2: return f.is_ready();
    default: f.wait(); SIM_CHECK(f.is_ready(), "state", "not ready after wait"); return true; } }
template<class F> static void many(F& f) { for (u32 n = sim::choose(3); n; n--) if (poll(f)) break; }

enum Kind { k_default, k_async, k_deferred, k_sync, k_inherit, k_ex, k_expol, k_none };
enum Mode { m_pass, m_throw, m_handle };
struct Stage { u32 runs = 0, live = 0, effect = 0; int by = -1; Stage* prev = 0; Kind kind = k_async; Mode mode = m_pass; bool def = false; Out in{Out::none, 0}, out{Out::none, 0}; int id = 0; Flag left; u32 count() { sim::Quiet q; return runs; } };
static Stage stage_pool[16];
// runs a continuation: F is the antecedent's future type, R the result and value type
template<class R, class F> struct K { Stage* s; u32 magic;
  explicit K(Stage* s_) : s(s_), magic(0xF00D) { sim::Quiet q; s->live++; } K(K const& o) : s(o.s), magic(0xF00D) { o.ok(); sim::Quiet q; s->live++; } K(K&& o) noexcept : s(o.s), magic(0xF00D) { o.ok(); o.magic = 0xE11F; sim::Quiet q; s->live++; }
  ~K() { SIM_CHECK(magic == 0xF00D || magic == 0xE11F, "closure", "a continuation was destroyed twice"); magic = 0xDEAD; sim::Quiet q; s->live--; } void ok() const { SIM_CHECK(magic == 0xF00D, "closure", "a continuation was used after being moved from or destroyed"); }
  typedef R result_type;
  R operator()(F f) const { ok(); Tag g("continuation"); { sim::Quiet q; s->runs++; s->by = sim_self(); SIM_CHECK(s->runs == 1, "runs", "a continuation ran twice"); } SIM_CHECK(f.valid(), "antecedent", "the antecedent is not valid"); SIM_CHECK(f.is_ready(), "antecedent", "the antecedent is not ready");
    if (s->prev && (s->prev->effect != 11)) SIM_CHECK(false, "visibility", "effects of the antecedent are missing (%u)", s->prev->effect); s->effect++; dwell(); Out in = take<R>(f); expect(in, s->in, "antecedent"); s->effect += 10; ok(); s->left.add();
    if (s->mode == m_throw) throw Ex{s->out.id}; if (s->mode == m_handle) return V<R>::make(s->id); if (in.k == Out::value) return V<R>::make(in.id + 1); if (in.k == Out::exc) throw Ex{in.id}; throw boost::broken_promise(); } };
template<class R> static void model(Stage& s, Stage* prev, Out in, int id) { s.prev = prev; s.in = in; s.id = id; s.mode = (Mode)(sim::choose(4) % 3); s.out = s.mode == m_throw ? Out{Out::exc, id} : s.mode == m_handle ? val<R>(id) : in.k == Out::value ? Out{Out::value, V<R>::ids ? in.id + 1 : -1} : in; }
#if V5
struct Pools { boost::basic_thread_pool* p; Pools() : p(0) {} void need() { if (!p) p = new boost::basic_thread_pool(sim::range(1, 2)); } ~Pools() { if (p) delete p; } };
#else
struct Pools { void need() {} };
#endif
// attaches one stage; `pol` is the launch policy of the antecedent (-1: it is a deferred one not yet run)
template<class R, class F> static boost::future<R> attach(F& f, Stage* s, Kind k, Pools& ps) { (void)ps; switch (k) {
    case k_default: return f.then(K<R, F>(s)); case k_async: return f.then(boost::launch::async, K<R, F>(s)); case k_deferred: return f.then(boost::launch::deferred, K<R, F>(s)); case k_sync: return f.then(boost::launch::sync, K<R, F>(s)); case k_inherit: return f.then(boost::launch::inherit, K<R, F>(s));
#if V5
    case k_ex: { ps.need(); return f.then(*ps.p, K<R, F>(s)); } case k_expol: return f.then(boost::launch::executor, K<R, F>(s));
#endif
    default: return f.then(boost::launch::none, K<R, F>(s)); } }
// policies: what the policy of the antecedent becomes
struct Pol { bool def = false, ex = false, none = true; };
static Kind pick_kind(Pol p) { for (;;) { Kind k = (Kind)sim::choose(8); if (!V5 && (k == k_ex || k == k_expol)) continue; if (k == k_expol && !p.ex) continue; if (p.def && !(k == k_default || k == k_deferred || k == k_inherit)) continue; return k; } }
static Pol next(Pol p, Kind k) { Pol n; n.none = false; switch (k) { case k_deferred: n.def = true; break; case k_default: case k_inherit: n.def = p.def; n.ex = p.ex; break; case k_ex: case k_expol: n.ex = true; break; default: break; } return n; }

// the source of a chain
template<class R> struct Src { Stage* s; u32 kind; Out out; boost::promise<R>* p = 0; sim::Threads th; Pol pol;
  boost::future<R> open(bool def_ok) { s->id = 2; s->effect = 0; s->prev = 0; bool exc = sim::choose(3) == 0; kind = sim::choose(def_ok ? 7 : 6); out = kind == 2 ? Out{Out::broken, 0} : exc ? Out{Out::exc, 2} : val<R>(2); Stage* st = s;
    auto body = [st, exc]() -> R { { sim::Quiet q; st->runs++; } st->effect++; dwell(); st->effect += 10; if (exc) throw Ex{2}; return V<R>::make(2); };
    auto fill = [st, exc](boost::promise<R>& pr) { st->effect = 11; if (exc) pr.set_exception(Ex{2}); else V<R>::set(pr, 2, 1); };
    switch (kind) {
      case 0: case 2: { boost::promise<R>* pr; pr = new boost::promise<R>(); boost::future<R> f = pr->get_future(); bool brk = kind == 2; th.go([=] { Tag g("setter"); nap(); if (brk) { st->effect = 11; boost::promise<R> mine(boost::move(*pr)); } else fill(*pr); delete pr; }); return f; }
      case 1: { boost::promise<R> pr; boost::future<R> f = pr.get_future(); fill(pr); return f; }
      case 3: { boost::packaged_task<R()> t(body); boost::future<R> f = t.get_future(); boost::thread x(boost::move(t)); x.detach(); return f; }
      case 4: return boost::async(boost::launch::async, body);
      case 5: st->effect = 11; { boost::promise<R> pr; boost::future<R> f = pr.get_future(); boost::future<R> g(boost::move(f)); fill(pr); return g; }
      default: pol.def = true; return boost::async(boost::launch::deferred, body); } } };

// ---- one chain
template<class R> static void chain_case() {
  start(); sim_faults(SIM_DEFAULT_FAULTS); Stage* st = stage_pool; Src<R> src; src.s = &st[0]; u32 n = sim::range(1, 3); bool waiting[64]; { sim::Quiet q; for (bool& w : waiting) w = false; } u32 use = sim::choose(4); int me = sim_self();
  { Pools ps; boost::future<R> f = src.open(true); Pol pol = src.pol; Out o = src.out; if (src.kind == 6) st[0].def = true; if (src.kind == 4) pol.none = false;
    for (u32 i = 1; i <= n; i++) { model<R>(st[i], &st[i - 1], o, (int)(4 * i)); st[i].kind = pick_kind(pol); pol = next(pol, st[i].kind); st[i].def = pol.def; o = st[i].out; boost::future<R> g = attach<R>(f, &st[i], st[i].kind, ps); SIM_CHECK(!f.valid() && g.valid(), "state", "validity after then"); f = boost::move(g); if (sim::choose(3) == 0) nap(); }
    sim::Threads w; auto ask = [&](auto& c) { Tag g("waiter"); { sim::Quiet q; waiting[sim_self()] = true; } many(c); expect(take<R>(c), o, "result"); SIM_CHECK(st[n].effect == 11, "visibility", "effects of the last stage are missing (%u)", st[n].effect); };
    bool asked = use != 0; if (use == 1 || !V<R>::copy) { if (asked) ask(f); } else if (use > 1) { boost::shared_future<R> sf(f.share()); for (u32 i = 0; i < use; i++) w.go([&, sf] { boost::shared_future<R> c(sf); ask(c); }); if (sim::flip()) ask(sf); }
    else { boost::future<R> drop(boost::move(f)); }
    w.join(); src.th.join(); sim_settle(); for (u32 i = 1; i <= n; i++) if (!st[i].def) { st[i].left.await(); } sim_settle();
    for (u32 i = 1; i <= n; i++) { bool must = !st[i].def || asked; SIM_CHECK(st[i].count() == (must ? 1u : 0u), "runs", "stage %u ran %u times", i, st[i].count()); if (!must) continue;
      if (st[i].kind == k_async || st[i].kind == k_none) SIM_CHECK(st[i].by != me, "thread", "an async continuation ran in the attaching thread"); if (st[i].def) { sim::Quiet q; SIM_CHECK(waiting[st[i].by], "thread", "a deferred continuation ran in a thread that does not wait"); } } }
  sim_settle(); for (u32 i = 1; i <= n; i++) SIM_CHECK(st[i].live == 0, "closure", "%u copies of continuation %u are left", st[i].live, i); }
SCENARIO(chain_copyable, 4) { chain_case<Cp>(); }
SCENARIO(chain_moveonly, 2) { chain_case<Mv>(); }
SCENARIO(chain_void, 4) { chain_case<void>(); }

// ---- many continuations on one shared future, attached while it becomes ready
template<class R> static void shared_case() {
  start(); Stage* st = stage_pool; Src<R> src; src.s = &st[0]; u32 na = sim::range(1, 3), per = sim::range(1, 2), n = 0;
  { Pools ps; if (V5) ps.need(); boost::future<R> first = src.open(false); Out o = src.out; Pol pol; Stage* from = &st[0]; if (sim::flip()) { Stage& m = st[15]; model<R>(m, &st[0], o, 15); do m.kind = pick_kind(pol); while (m.kind == k_deferred); pol = next(pol, m.kind); boost::future<R> g = attach<R>(first, &m, m.kind, ps); first = boost::move(g); o = m.out; from = &m; }
    boost::shared_future<R> sf(first.share()); sim::Threads th;
    for (u32 a = 0; a < na; a++) { u32 b = 1 + a * per; for (u32 i = 0; i < per; i++) { model<R>(st[b + i], from, o, (int)(b + i)); st[b + i].kind = pick_kind(pol); st[b + i].def = st[b + i].kind == k_deferred; n = b + i; }
      th.go([&, sf, b] { Tag g("attacher"); boost::shared_future<R> c(sf); nap(); boost::future<R> g2[2]; for (u32 i = 0; i < per; i++) { g2[i] = attach<R>(c, &st[b + i], st[b + i].kind, ps); SIM_CHECK(c.valid() && g2[i].valid(), "state", "validity after then"); } for (u32 i = 0; i < per; i++) { bool drop = sim::choose(3) == 0; if (drop) { if (!st[b + i].def) continue; } many(g2[i]); expect(take<R>(g2[i]), st[b + i].out, "result"); SIM_CHECK(st[b + i].effect == 11, "visibility", "effects of the continuation are missing"); } }); }
    if (sim::flip()) { expect(take<R>(sf), o, "antecedent"); SIM_CHECK(from->effect == 11, "visibility", "effects of the source are missing"); } th.join(); src.th.join(); sim_settle(); for (u32 i = 1; i <= n; i++) st[i].left.await(); sim_settle(); for (u32 i = 1; i <= n; i++) SIM_CHECK(st[i].count() == 1, "runs", "continuation %u ran %u times", i, st[i].count()); expect(take<R>(sf), o, "antecedent afterwards"); }
  sim_settle(); SIM_CHECK(st[15].live == 0, "closure", "%u copies of continuation 15 are left", st[15].live); for (u32 i = 1; i <= n; i++) SIM_CHECK(st[i].live == 0, "closure", "%u copies of continuation %u are left", st[i].live, i); }
SCENARIO(shared_copyable, 4) { shared_case<Cp>(); }
SCENARIO(shared_void, 3) { shared_case<void>(); }

// ---- deferred continuation on an antecedent that is still running: timed looks stay timed, interruption loses nothing
template<class R> static void deferred_busy_case() {
  start(); sim_faults(0); Stage* st = stage_pool; boost::promise<R> p; bool intr = sim::flip(), sh = sim::flip(), second = sim::flip(), quit = second && sim::flip(); u32 hits = 0; { boost::future<R> f0 = p.get_future(); model<R>(st[1], &st[0], val<R>(2), 5); boost::shared_future<R> s0; boost::future<R> f; if (sh && V<R>::copy) { s0 = f0.share(); f = s0.then(boost::launch::deferred, K<R, boost::shared_future<R> >(&st[1])); } else f = f0.then(boost::launch::deferred, K<R, boost::future<R> >(&st[1])); boost::shared_future<R> sf(f.share()); Flag in;
    boost::thread th([&, sf] { Tag g("waiter"); boost::shared_future<R> c(sf); for (;;) { try { if (hits && quit) return; in.add(); if (sim::flip()) c.wait(); Out o = take<R>(c); if (o.k == Out::intr) { hits++; continue; } expect(o, st[1].out, "result"); return; } catch (boost::thread_interrupted&) { hits++; } } }); in.await(); sim_settle();
    DL d = DL::mono((s64)sim_now() + 5 * MS); SIM_CHECK(!sf.is_ready(), "state", "ready before the antecedent"); boost::future_status s = sf.wait_for(nsd(5 * MS)); SIM_CHECK(s != boost::future_status::ready, "deferred", "ready before the antecedent"); if (s == boost::future_status::timeout) check_timeout(d, "wait_for"); check_not_late(d, "wait_for");
    sim::Threads w; if (second) { w.go([&, sf] { Tag g("waiter 2"); boost::shared_future<R> c(sf); expect(take<R>(c), st[1].out, "result"); }); sim_settle(); }
    if (intr) { intr_thread(th); nap(); } SIM_CHECK(st[1].count() == 0, "runs", "a continuation ran before its antecedent was ready"); st[0].effect = 11; V<R>::set(p, 2, 1); th.join(); w.join(); SIM_CHECK(st[1].count() == 1, "runs", "the continuation ran %u times", st[1].count()); }
  SIM_CHECK(st[1].live == 0, "closure", "%u copies of the continuation are left", st[1].live); }
SCENARIO(deferred_busy, 3) { switch (sim::choose(3)) { case 0: deferred_busy_case<Cp>(); break; default: deferred_busy_case<void>(); } }

// ---- unwrap
template<class R> static void unwrap_case() {
  start(); Stage* st = stage_pool; Src<R> src; src.s = &st[0]; typedef boost::future<R> FR; u32 how = sim::choose(6); sim::Threads th; Out o;
  { Pools ps; FR inner = src.open(false); boost::future<FR> outer; auto go = [&](auto body) { th.go(body); };
    if (how == 5) { boost::promise<FR> pr; outer = pr.get_future(); pr.set_value(boost::move(inner)); o = src.out; }
    else if (how == 4) { FR* in; in = new FR(boost::move(inner)); outer = boost::async(boost::launch::async, [in]() -> FR { dwell(); FR r(boost::move(*in)); delete in; return r; }); o = src.out; }
    else { boost::promise<FR>* pr; FR* in; pr = new boost::promise<FR>(); in = new FR(boost::move(inner)); outer = pr->get_future(); go([pr, in, how] { Tag g("outer"); nap(); if (how < 2) pr->set_value(boost::move(*in)); else if (how == 2) pr->set_exception(Ex{19}); else pr->set_value(FR()); delete pr; delete in; }); o = how < 2 ? src.out : how == 2 ? Out{Out::exc, 19} : Out{Out::uninit, 0}; }
    if (sim::flip()) nap(); u32 form = sim::choose(3); FR f; if (form == 0) f = outer.unwrap(); else { FR g(boost::move(outer)); f = boost::move(g); } SIM_CHECK(f.valid() && !outer.valid(), "state", "validity after unwrap"); bool then = sim::flip();
    if (then && how != 3) { st[1].kind = pick_kind(Pol()); model<R>(st[1], how == 2 ? 0 : &st[0], o, 8); o = st[1].out; FR g = attach<R>(f, &st[1], st[1].kind, ps); f = boost::move(g); } else then = false;
    many(f); Out got = take<R>(f); if (how == 3 && got.k == Out::broken) got.k = Out::uninit, got.id = 0; expect(got, o, "unwrapped"); if (how != 2 && how != 3) SIM_CHECK(st[then ? 1 : 0].effect == 11, "visibility", "effects are missing"); th.join(); src.th.join(); sim_settle(); if (then) SIM_CHECK(st[1].count() == 1, "runs", "the continuation ran %u times", st[1].count()); }
  sim_settle(); SIM_CHECK(st[1].live == 0, "closure", "%u copies of the continuation are left", st[1].live); }
SCENARIO(unwrap_copyable, 2) { unwrap_case<Cp>(); }
SCENARIO(unwrap_moveonly, 2) { unwrap_case<Mv>(); }
SCENARIO(unwrap_void, 2) { unwrap_case<void>(); }
// continuations on the outer future of a nested one
template<class Fn> static boost::future<boost::future<Cp> > attach_nested(boost::future<boost::future<Cp> >& f, Fn const& fn, Kind k, Pools& ps) { (void)ps; switch (k) { case k_default: return f.then(Fn(fn)); case k_async: return f.then(boost::launch::async, Fn(fn)); case k_deferred: return f.then(boost::launch::deferred, Fn(fn)); case k_sync: return f.then(boost::launch::sync, Fn(fn)); case k_inherit: return f.then(boost::launch::inherit, Fn(fn));
#if V5
    case k_ex: ps.need(); return f.then(*ps.p, Fn(fn)); case k_expol: return f.then(boost::launch::executor, Fn(fn));
#endif
    default: return f.then(boost::launch::none, Fn(fn)); } }
SCENARIO(nested_then, 3) { start(); Stage* st = stage_pool; Src<Cp> src; src.s = &st[0]; typedef boost::future<Cp> FC; static Flag ran[4]; for (Flag& r : ran) r.set(0); static int by[4]; { Pools ps; FC inner = src.open(false); boost::promise<FC> pr; boost::future<FC> outer = pr.get_future(); sim::Threads th; FC* in = &inner; bool exc = sim::flip(); int me = sim_self(); th.go([&] { nap(); if (exc) pr.set_exception(Ex{4}); else pr.set_value(boost::move(*in)); });
    u32 n = sim::range(1, 3); Pol pol; Kind ks[4]; for (u32 i = 1; i <= n; i++) { auto fn = [i](boost::future<FC> o) -> FC { SIM_CHECK(o.valid() && o.is_ready(), "antecedent", "the antecedent is not ready"); SIM_CHECK(i == 1 || ran[i - 1].get() == 1, "antecedent", "the continuation ran before the previous one"); ran[i].add(); by[i] = sim_self(); return o.get(); };
      ks[i] = pick_kind(pol); pol = next(pol, ks[i]); boost::future<FC> r = attach_nested(outer, fn, ks[i], ps); SIM_CHECK(!outer.valid() && r.valid(), "state", "validity after then"); outer = boost::move(r); }
    Out o = outcome([&]() -> int { FC i = outer.get(); return V<Cp>::get(i); }); expect(o, exc ? Out{Out::exc, 4} : src.out, "nested"); th.join(); src.th.join(); sim_settle(); for (u32 i = 1; i <= n; i++) { SIM_CHECK(ran[i].get() == 1, "runs", "continuation %u ran %llu times", i, (unsigned long long)ran[i].get()); if (ks[i] == k_async || ks[i] == k_none || ks[i] == k_ex || ks[i] == k_expol) SIM_CHECK(by[i] != me, "thread", "an async continuation ran in the attaching thread"); } } sim_settle(); }

// ---- fallback_to
template<class R> static void fallback_case() { start(); Stage* st = stage_pool; Src<R> src; src.s = &st[0]; { boost::future<R> f = src.open(true), g; if constexpr (V<R>::copy) { R c(V<R>::make(21)); if (sim::flip()) g = f.fallback_to(c); else g = f.fallback_to(V<R>::make(21)); } else g = f.fallback_to(V<R>::make(21)); SIM_CHECK(g.valid() && !f.valid(), "state", "validity after fallback_to"); many(g); expect(take<R>(g), src.out.k == Out::value ? src.out : val<R>(21), "fallback"); src.th.join(); } sim_settle(); }
SCENARIO(fallback, 2) { if (sim::flip()) fallback_case<Cp>(); else fallback_case<Mv>(); }

// ---- misuse
SCENARIO(misuse, 1) { start(); boost::future<Cp> f; boost::shared_future<Cp> s; u32 n = 0, c = 0; try { n++; f.then([](boost::future<Cp>) { return 1; }); } catch (boost::future_uninitialized&) { c++; } try { n++; f.then(boost::launch::async, [](boost::future<Cp>) { return 1; }); } catch (boost::future_uninitialized&) { c++; } try { n++; s.then(boost::launch::sync, [](boost::shared_future<Cp>) { return 1; }); } catch (boost::future_uninitialized&) { c++; } 
#if BOOST_THREAD_VERSION >= 5
  { boost::inline_executor ex; boost::future<void> fv; boost::shared_future<void> sv; boost::executor_ref<boost::inline_executor> ref(ex); bool ran = false; try { n++; f.then(ex, [&](boost::future<Cp>) { ran = true; return 1; }); } catch (boost::future_uninitialized&) { c++; } try { n++; s.then(ex, [&](boost::shared_future<Cp>) { ran = true; return 1; }); } catch (boost::future_uninitialized&) { c++; } try { n++; fv.then(ref, [&](boost::future<void>) { ran = true; }); } catch (boost::future_uninitialized&) { c++; } try { n++; sv.then(ref, [&](boost::shared_future<void>) { ran = true; }); } catch (boost::future_uninitialized&) { c++; } boost::future<boost::future<Cp> > un; try { n++; un.then(ex, [&](boost::future<boost::future<Cp> >) { ran = true; return 1; }); } catch (boost::future_uninitialized&) { c++; } SIM_CHECK(!ran, "misuse", "a continuation of an empty future ran"); }
#endif
  { boost::future<boost::future<Cp> > un; try { n++; un.then(sim::flip() ? boost::launch::async : boost::launch::sync, [](boost::future<boost::future<Cp> >) { return 1; }); } catch (boost::future_uninitialized&) { c++; } try { n++; un.then([](boost::future<boost::future<Cp> >) { return 1; }); } catch (boost::future_uninitialized&) { c++; } }
  try { n++; s.then([](boost::shared_future<Cp>) { return 1; }); } catch (boost::future_uninitialized&) { c++; } try { n++; f.fallback_to(Cp(1)); } catch (boost::future_uninitialized&) { c++; }
  try { n++; boost::future<boost::future<Cp> > u; u.unwrap(); } catch (boost::future_uninitialized&) { c++; } SIM_CHECK(c == n, "misuse", "%u of %u uses of an empty future were reported", c, n); }

// ---- the launch fails: the stage is not left pending and the others run
template<class R> static void fail_case() {
  start(); Stage* st = stage_pool; bool cr = sim::flip(); sim_faults(cr ? 0 : 1u << SF_ALLOC); u32 n = sim::range(1, 3); bool exc = false; { boost::promise<R>* p = new boost::promise<R>(); boost::shared_future<R> sf(p->get_future().share()); boost::future<R> g[4]; for (u32 i = 1; i <= n; i++) { model<R>(st[i], &st[0], val<R>(2), (int)i); st[i].kind = sim::flip() ? k_async : k_sync; Pools ps; g[i] = attach<R>(sf, &st[i], st[i].kind, ps); }
    u32 nth = sim::range(1, cr ? n : 12); st[0].effect = 11; if (cr) sim_fail_create((int)nth); else sim_alloc_fail_nth((int)nth); try { V<R>::set(*p, 2, 1); } catch (std::bad_alloc&) { exc = true; } catch (boost::system::system_error&) { exc = true; } sim_alloc_fail_nth(0); sim_fail_create(0);
    if (exc && !sf.is_ready()) { try { V<R>::set(*p, 2, 1); } catch (boost::promise_already_satisfied&) {} } delete p; expect(take<R>(sf), val<R>(2), "antecedent"); u32 lost = 0;
    for (u32 i = 1; i <= n; i++) { Out o{Out::none, 0}; bool bad = false; try { o = take<R>(g[i]); } catch (std::bad_alloc&) { bad = true; } catch (boost::system::system_error&) { bad = true; } catch (boost::unknown_exception&) { if (cr) throw; bad = true; } if (bad) lost++; else { expect(o, st[i].out, "result"); SIM_CHECK(st[i].count() == 1, "runs", "continuation %u ran %u times", i, st[i].count()); } } if (cr) SIM_CHECK(lost <= 1, "runs", "%u continuations were lost by one failure", lost); sim_settle(); }
  sim_settle(); for (u32 i = 1; i <= n; i++) SIM_CHECK(st[i].live == 0, "closure", "%u copies of continuation %u are left", st[i].live, i); }
SCENARIO(fail_launch, 2) { if (sim::flip()) fail_case<Cp>(); else fail_case<void>(); }
// Larger numbers than elsewhere.
// the antecedent holds a reference (a continuation that returns one does not compile, nor does fallback_to)
template<class F> static int ref_of(F& f, int id, bool exc, Stage* st) { Tag g("continuation"); { sim::Quiet q; st->runs++; } SIM_CHECK(f.is_ready(), "antecedent", "the antecedent is not ready"); Out o = take<Cp&>(f); expect(o, exc ? Out{Out::exc, id} : Out{Out::value, id}, "antecedent"); SIM_CHECK(st->effect == 3, "visibility", "effects of the antecedent are missing"); dwell(); return id + 1; }
SCENARIO(of_reference, 2) { start(); Stage* st = &stage_pool[0]; *st = Stage(); bool exc = sim::choose(3) == 0, at_exit = sim::choose(3) == 0; int id = 1 + sim::choose(4); u32 how = sim::choose(4), pol = sim::choose(4); { boost::promise<Cp&> p; boost::future<Cp&> f = p.get_future(); boost::future<int> r; sim::Threads th; bool early = sim::flip(); auto set = [&] { if (!early) nap(); st->effect = 3; if (exc) { if (at_exit) p.set_exception_at_thread_exit(boost::copy_exception(Ex{id})); else p.set_exception(Ex{id}); } else if (at_exit) p.set_value_at_thread_exit(targets()[id]); else p.set_value(targets()[id]); }; th.go([&] { Tag g("setter"); set(); }); if (early) th.join();
  auto k = [=](boost::future<Cp&> x) { return ref_of(x, id, exc, st); }; auto ks = [=](boost::shared_future<Cp&> x) { return ref_of(x, id, exc, st); }; boost::launch l = pol == 0 ? boost::launch::async : pol == 1 ? boost::launch::deferred : boost::launch::sync;
  if (how < 2) r = pol == 3 ? f.then(decltype(k)(k)) : f.then(l, decltype(k)(k)); else if (how == 2) { boost::shared_future<Cp&> s = f.share(); r = pol == 3 ? s.then(decltype(ks)(ks)) : s.then(l, decltype(ks)(ks)); } else { boost::promise<boost::future<Cp&> > pp; boost::future<boost::future<Cp&> > ff = pp.get_future(); th.go([&] { nap(); pp.set_value(boost::move(f)); }); boost::future<Cp&> g = ff.unwrap(); r = g.then(boost::launch::sync, decltype(k)(k)); th.join(); }
  th.join(); SIM_CHECK(r.get() == id + 1, "value", "the result of the continuation is lost"); } { sim::Quiet q; SIM_CHECK(st->runs == 1, "runs", "the continuation ran %u times", st->runs); } }
SCENARIO(crowd, 1) { if (sim::choose(6)) return; start(); u32 n = sim::range(12, 60); bool exc = sim::choose(3) == 0; static Flag ran[64]; for (Flag& r : ran) r.set(0); boost::promise<Cp> p; sim::Threads th; { bool fan = sim::flip(); std::vector<boost::future<Cp> > out; boost::shared_future<Cp> sf; boost::future<Cp> f = p.get_future(); if (fan) sf = f.share(); th.go([&] { nap(); if (exc) p.set_exception(Ex{3}); else p.set_value(Cp(100)); });
    if (fan) { for (u32 i = 0; i < n; i++) out.push_back(sf.then(sim::choose(8) ? boost::launch::sync : boost::launch::deferred, [i](boost::shared_future<Cp> a) -> Cp { ran[i].add(); SIM_CHECK(a.is_ready(), "antecedent", "the antecedent is not ready"); return Cp(a.get().id + (int)i); })); for (u32 i = 0; i < n; i++) { Out o = take<Cp>(out[i]); SIM_CHECK((o == (exc ? Out{Out::exc, 3} : Out{Out::value, 100 + (int)i})), "value", "continuation %u gave %s %d", i, oname(o.k), o.id); } }
    else { for (u32 i = 0; i < n; i++) f = f.then(boost::launch::sync, [i](boost::future<Cp> a) -> Cp { ran[i].add(); SIM_CHECK(a.is_ready(), "antecedent", "the antecedent is not ready"); return Cp(a.get().id + 1); }); Out o = take<Cp>(f); SIM_CHECK((o == (exc ? Out{Out::exc, 3} : Out{Out::value, 100 + (int)n})), "value", "the end of the chain is %s %d", oname(o.k), o.id); } th.join(); } for (u32 i = 0; i < n; i++) SIM_CHECK(ran[i].get() == 1, "runs", "continuation %u ran %llu times", i, (unsigned long long)ran[i].get()); }

// C12 thread_specific_ptr: private per thread, each value cleaned up exactly once by its thread.
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <boost/optional.hpp>

static const u32 NP = 3, MAXV = 200;
struct Val; typedef boost::thread_specific_ptr<Val> TP;
enum St { LIVE = 1, CLEANED, RELEASED, DELETED };
struct Val { u32 id; int owner; int state; u32 script; int slot; Val(u32 i, u32 sc) : id(i), owner(sim_self()), state(LIVE), script(sc), slot(-1) {} };
struct World { Flag ended; TP* p[NP]; std::vector<Val*> all; Flag cleaned; u32 mode; bool custom; };
static World* W;
static Val* mk(u32 sc) { sim::Quiet q; Val* v = new Val((u32)W->all.size(), sc); W->all.push_back(v); return v; }
static void put(u32 i, Val* v) { W->p[i]->reset(v); sim::Quiet q; v->slot = (int)i; }
// In cleanups, too, a thread sees what it has stored and not taken back, as long as that is not cleaned up.
static void look(u32 i) { Val* g = W->p[i]->get(); sim::Quiet q; for (Val* v : W->all) if (v->owner == sim_self() && v->slot == (int)i && v->state == LIVE) SIM_CHECK(g == v, "get", "a cleanup function reads %s instead of value %u, which is still there", g ? "another value" : "nothing", v->id); }
static u32 made() { sim::Quiet q; return (u32)W->all.size(); }
static void act(Val* v, u32 k, bool nested);
// The cleanup function; it may itself use the pointers.
static void cleanup(Val* v) {
  SIM_CHECK(v != 0, "null-cleanup", "the cleanup function was called with a null pointer"); { sim::Quiet q;
  SIM_CHECK(v->owner == sim_self(), "wrong-thread", "value %u of thread %d was cleaned up by thread %d", v->id, v->owner, sim_self());
  SIM_CHECK(v->state != CLEANED, "cleaned-twice", "value %u was cleaned up twice", v->id); SIM_CHECK(v->state != RELEASED, "cleaned-released", "value %u was released and then cleaned up", v->id); v->state = CLEANED; W->cleaned.add(); }
  if (v->script && made() < MAXV - 1) act(v, v->script, true);
}
static void act(Val*, u32 sc, bool) {
  u32 i = (sc >> 4) % NP; TP* p = W->p[i];
  switch (sc & 15) { case 0: break; case 1: look(i); break; case 2: put(i, mk(0)); break; case 3: p->reset(); break; case 4: { Val* x = p->release(); if (x) { sim::Quiet q; if (x->state == LIVE) x->state = RELEASED; } break; } case 5: put(i, mk(0)); put(i, mk(0)); break; case 6: { TP local(&cleanup); local.reset(mk(0)); SIM_CHECK(local.get(), "get", "value lost"); break; } default: sim_yield(); }
}
static u32 script(bool wild) { if (!wild || sim::choose(3)) return 0; return 1 + sim::choose(6) + (sim::choose(NP) << 4); }
// One thread's private model.
struct Me {
  Val* v[NP]; bool wild; Me(bool w) : wild(w) { for (u32 i = 0; i < NP; i++) v[i] = 0; }
  void sync() { if (wild) for (u32 i = 0; i < NP; i++) v[i] = W->p[i]->get(); } // cleanups may have changed other slots
  void check(u32 i) { Val* g = W->p[i]->get(); SIM_CHECK(g == v[i], "get", "thread %d reads a value of %s through pointer %u instead of its own", sim_self(), g ? (g->owner == sim_self() ? "its own past" : "another thread") : "nobody", i); if (g) SIM_CHECK(g->state == LIVE && g->owner == sim_self(), "dead-value", "get() returned a value that was already cleaned up"); }
  void op() {
    u32 i = sim::choose(NP); check(i); u64 c0 = W->cleaned.get(); Val* old = v[i];
    switch (sim::choose(6)) {
      case 0: case 1: case 2: { Val* n = mk(script(wild)); put(i, n); v[i] = n; if (old) SIM_CHECK(W->custom ? old->state == CLEANED : old->state != CLEANED, "not-cleaned", "reset did not clean the former value up"); if (!wild) SIM_CHECK(W->cleaned.get() >= c0 + (old && W->custom ? 1 : 0), "count", "count"); break; }
      case 3: { W->p[i]->reset(); v[i] = 0; if (old && W->custom) SIM_CHECK(old->state == CLEANED, "not-cleaned", "reset() did not clean up"); break; }
      case 4: { if (v[i]) { W->p[i]->reset(v[i]); SIM_CHECK(old->state == LIVE, "self-reset", "reset to the same value cleaned it up"); } break; }
      default: { Val* r = W->p[i]->release(); SIM_CHECK(r == old, "release", "release returned another value"); SIM_CHECK(W->p[i]->get() == 0, "release", "a value is left after release"); if (r) { sim::Quiet q; r->state = RELEASED; } v[i] = 0; if (wild) break; break; }
    }
    sync(); for (u32 k = 0; k < NP; k++) check(k); nap();
  }
  // pointer objects that come and go, at reused addresses
  void locals() { alignas(TP) static thread_local char dummy; (void)dummy; u32 n = sim::range(1, 3); for (u32 k = 0; k < n; k++) { TP* p = new TP(&cleanup); SIM_CHECK(p->get() == 0, "stale", "a new pointer object has a value"); Val* x = mk(0); p->reset(x); SIM_CHECK(p->get() == x, "get", "local pointer"); if (sim::flip()) sim_yield(); u32 how = sim::choose(3); if (how == 1) { p->release(); sim::Quiet q; x->state = RELEASED; } if (how == 2) { p->reset(mk(0)); SIM_CHECK(x->state == CLEANED, "not-cleaned", "reset"); } Val* last = p->get(); delete p; if (last) SIM_CHECK(last->state == CLEANED, "not-cleaned", "destroying the pointer object did not clean its value up"); if (how == 0) SIM_CHECK(x->state == CLEANED, "not-cleaned", "destroying"); } }
};
static void finish(World& w, bool main_used) {
  (void)main_used; for (u32 i = 0; i < NP; i++) delete w.p[i];
  for (Val* v : w.all) { if (w.custom) SIM_CHECK(v->state != LIVE, "never-cleaned", "value %u of thread %d was never cleaned up", v->id, v->owner); else SIM_CHECK(v->state != CLEANED, "cleaned", "a value without cleanup function was cleaned up"); }
  sim::Quiet q; for (Val* v : w.all) delete v; w.all = std::vector<Val*>();
}
static void body(bool wild, u32 steps, u64* id) { { sim::Quiet q; *id = (u64)sim_self(); } Tag g("tss user"); Me me(wild); struct E { ~E() { W->ended.add(); } } en; for (u32 k = 0; k < steps; k++) { if (made() > MAXV - 20) break; if (W->custom && sim::choose(6) == 0) me.locals(); else me.op(); } }
static void run(bool wild, bool custom) {
  sim_faults(SIM_DEFAULT_FAULTS); World w; W = &w; w.custom = custom; w.all.reserve(MAXV + 8); for (u32 i = 0; i < NP; i++) w.p[i] = custom ? new TP(&cleanup) : new TP((void (*)(Val*))0);
  u32 n = sim::range(1, 3); boost::thread* th[3] = {0, 0, 0}; u64 ids[3]; sim::Threads raw; u32 steps[3]; bool intr = false;
  for (u32 i = 0; i < n; i++) { steps[i] = sim::range(1, 6); bool ex = sim::choose(4) == 0; u64* pi = &ids[i]; *pi = 0; if (ex) { u32 s = steps[i]; raw.go([wild, s, pi] { body(wild, s, pi); }); } else { u32 s = steps[i]; bool it = sim::choose(4) == 0; intr |= it; th[i] = new boost::thread([wild, s, it, pi] { body(wild, s, pi); if (it && CAN_INTR) throw boost::thread_interrupted(); }); } }
  if (sim::flip()) { Me me(false); for (u32 k = 0; k < 3; k++) me.op(); for (u32 i = 0; i < NP; i++) W->p[i]->reset(); }
  for (u32 i = 0; i < n; i++) if (th[i]) { if (sim::choose(4) == 0) { th[i]->detach(); delete th[i]; th[i] = 0; } else { th[i]->join(); delete th[i]; if (custom) { sim::Quiet q; for (Val* v : w.all) if (v->owner == (int)ids[i]) SIM_CHECK(v->state != LIVE, "not-cleaned", "a joined thread left value %u behind", v->id); } } } raw.join();
  while (W->ended.get() < n) sim_sleep_ns(20 * MS);
  for (int i = 0; i < 60; i++) { bool live = false; for (u32 k = 0; custom && k < made(); k++) { sim::Quiet q; if (w.all[k]->state == LIVE) live = true; } if (!live && custom) break; sim_sleep_ns(20 * MS); } sim_settle();
  finish(w, true);
}
SCENARIO(plain, 4) { run(false, true); }
SCENARIO(wild, 4) { run(true, true); }
SCENARIO(no_cleanup, 1) { run(false, false); }
// default cleanup: delete
struct D { Flag* n; int owner; D(Flag* n_) : n(n_), owner(sim_self()) { n->add(); } ~D() { SIM_CHECK(owner == sim_self(), "wrong-thread", "deleted by another thread"); n->add(-1); } };
SCENARIO(default_delete, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); boost::thread_specific_ptr<D> p; Flag live; u32 n = sim::range(1, 3); boost::thread* th[3];
  for (u32 i = 0; i < n; i++) th[i] = new boost::thread([&] { SIM_CHECK(!p.get(), "stale", "value of another thread"); u32 k = sim::range(1, 3); for (u32 j = 0; j < k; j++) { p.reset(new D(&live)); sim_yield(); SIM_CHECK(p->owner == sim_self() && (*p).owner == sim_self(), "get", "value of another thread"); } if (sim::choose(3) == 0) { D* d = p.release(); SIM_CHECK(!p.get(), "release", "value left"); delete d; } });
  p.reset(new D(&live)); for (u32 i = 0; i < n; i++) { th[i]->join(); delete th[i]; } SIM_CHECK(live.get() == 1, "never-cleaned", "%llu values left", (unsigned long long)live.get()); p.reset(); SIM_CHECK(live.get() == 0, "never-cleaned", "reset");
}
// The cleanup of a value uses the very pointer it is stored in: still once for each value.
static TP* selfp; static u32 selfk;
static void self_cleanup(Val* v) { cleanup(v); if (v->id > 2) return; switch (selfk) { case 0: selfp->get(); break; case 1: selfp->reset(); break; case 2: { Val* x = selfp->release(); (void)x; break; } case 3: selfp->reset(mk(0)); break; default: if (selfp->get() != v) selfp->reset(mk(0)); } }
SCENARIO(self_use, 2) {
  sim_faults(0); World w; W = &w; w.custom = true; w.all.reserve(MAXV); for (u32 i = 0; i < NP; i++) w.p[i] = new TP(&cleanup); selfk = sim::choose(5); TP sp(&self_cleanup); selfp = &sp; u32 how = sim::choose(4); bool raw = sim::flip();
  auto f = [&] { sp.reset(mk(0)); switch (how) { case 0: break; case 1: sp.reset(mk(0)); break; case 2: sp.reset(); break; default: sp.reset(mk(0)); sp.reset(); sp.reset(mk(0)); } };
  if (raw) { sim::Threads t; t.go(f); t.join(); } else { boost::thread t(f); t.join(); } finish(w, false);
}
// Larger numbers than elsewhere.
static u32 crowd_done[512];
static void crowd_clean(u32* v) { SIM_CHECK(v >= crowd_done && v < crowd_done + 512, "value", "a cleanup function got a value nobody stored"); sim::Quiet q; ++*v; }
SCENARIO(crowd, 1) { if (sim::choose(8)) return; typedef boost::thread_specific_ptr<u32> P; u32 n = sim::range(20, 120), nt = sim::range(1, 2); for (u32& d : crowd_done) d = 0; { std::vector<P*> v; for (u32 i = 0; i < n; i++) v.push_back(new P(&crowd_clean)); sim::Threads th; Flag ready; u32 cut = sim::choose(n); bool drop = sim::flip();
    for (u32 t = 0; t < nt; t++) th.go([&, t] { boost::thread me([&, t] { u32* base = crowd_done + t * 128; for (u32 i = 0; i < n; i++) { SIM_CHECK(v[i]->get() == 0, "private", "pointer %u starts with a value", i); v[i]->reset(base + i); } for (u32 i = n; i-- > 0;) SIM_CHECK(v[i]->get() == base + i, "private", "pointer %u has another value", i); for (u32 i = 0; i < n; i++) if (i % 3 == cut % 3) { u32* r = v[i]->release(); SIM_CHECK(r == base + i, "private", "release of %u", i); } for (u32 i = 0; i < n; i++) SIM_CHECK(v[i]->get() == (i % 3 == cut % 3 ? 0 : base + i), "private", "pointer %u has another value", i); ready.add(); }); me.join(); }); th.join();
    for (u32 t = 0; t < nt; t++) for (u32 i = 0; i < n; i++) { sim::Quiet q; SIM_CHECK(crowd_done[t * 128 + i] == (i % 3 == cut % 3 ? 0u : 1u), "cleanup", "value %u was cleaned up %u times", i, crowd_done[t * 128 + i]); } (void)drop; for (P* p : v) { SIM_CHECK(p->get() == 0, "private", "a value of another thread"); delete p; } } }

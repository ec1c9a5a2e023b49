// C29 synchronized_value and monitors: every access is under the lock.
#include "common.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/externally_locked_stream.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/null_mutex.hpp>

struct Fuse { u32 n[64]; static Fuse& get() { static Fuse f; return f; } };
static void arm(u32 n) { sim::Quiet q; Fuse::get().n[sim_self() & 63] = n; }
static void burn() { bool b; { sim::Quiet q; u32& n = Fuse::get().n[sim_self() & 63]; b = n && !--n; } if (b) { sim_count_fault(SF_USER); throw Boom(1); } }
static void pause_() { if (sim::choose(3) == 0) sim_yield(); }
// A value of two halves that agree whenever nobody is at work on it. Its accesses come in two steps.
struct Val {
  u64 a, b; 
  explicit Val(u64 x = 0) : a(x), b(x) {}
  void whole() const { u64 x = a; pause_(); u64 y = b; SIM_CHECK(x == y, "torn", "a value is seen half way through a change (%llu, %llu)", (unsigned long long)x, (unsigned long long)y); }
  Val(Val const& o) : a(0), b(0) { burn(); o.whole(); a = o.a; pause_(); b = o.b; }
  Val& operator=(Val const& o) { burn(); o.whole(); u64 x = o.a; a = x; pause_(); b = x; return *this; }
  void inc() { burn(); whole(); a = a + 1; pause_(); b = b + 1; }
  void set(u64 x) { a = x; pause_(); b = x; }
  u64 get() const { burn(); whole(); return a; }
  friend bool operator==(Val const& l, Val const& r) { return l.get() == r.get(); } friend bool operator!=(Val const& l, Val const& r) { return l.get() != r.get(); } friend bool operator<(Val const& l, Val const& r) { return l.get() < r.get(); } friend bool operator<=(Val const& l, Val const& r) { return l.get() <= r.get(); } friend bool operator>(Val const& l, Val const& r) { return l.get() > r.get(); } friend bool operator>=(Val const& l, Val const& r) { return l.get() >= r.get(); }
};
struct Str { u64 v[24]; u32 n, at; Str() : n(0), at(0) {} Str& operator<<(Val const& x) { u64 y = x.get(); v[n++] = y; return *this; } Str& operator>>(Val& x) { burn(); x.set(v[at++]); return *this; } Str& operator<<(u64 x) { u32 k = n; pause_(); v[k] = x; n = k + 1; return *this; } Str& operator<<(Str& (*f)(Str&)) { return f(*this); } Str& operator>>(u64& x) { u32 k = at; pause_(); x = v[k]; at = k + 1; return *this; } };
static Str& endl_(Str& s) { s << (u64)999; return s; }
// ---- one value: every way of changing it counts
template<class M> struct One { typedef boost::synchronized_value<Val, M> SV; SV s, other; Flag done; };
template<class M> static void bump(One<M>& o) { boost::synchronized_value<Val, M>& s = o.s; u32 mine = 0;
  try { switch (sim::choose(11)) {
    case 0: s->inc(); mine++; break; case 1: s([&](Val& v) { v.inc(); mine++; dwell(); v.whole(); burn(); }); break; case 2: { auto&& p = s.synchronize(); p->inc(); mine++; dwell(); p->whole(); burn(); break; } case 3: { auto p = s.synchronize(); auto q(boost::move(p)); (*q).inc(); mine++; dwell(); q->whole(); break; }
    case 4: { auto p = s.unique_synchronize(); SIM_CHECK(p.owns_lock(), "owns", "unique_synchronize does not own"); p->inc(); mine++; if (sim::flip()) { p.unlock(); nap(); p.lock(); p->inc(); mine++; } dwell(); p->whole(); burn(); break; } case 5: { auto p = sim::flip() ? s.defer_synchronize() : s.unique_synchronize(boost::defer_lock); SIM_CHECK(!p.owns_lock(), "owns", "defer_synchronize owns"); nap(); p.lock(); (*p).inc(); mine++; dwell(); p->whole(); break; }
    case 6: { auto p = s.try_to_synchronize(); if (!p.owns_lock()) break; p->inc(); mine++; dwell(); auto q(boost::move(p)); SIM_CHECK(q.owns_lock() && !p.owns_lock(), "owns", "moving a handle loses its lock"); dwell(); q->whole(); break; } case 7: { auto p = s.unique_synchronize(); p.release(); auto q = s.adopt_synchronize(); SIM_CHECK(q.owns_lock(), "owns", "adopt_synchronize does not own"); q->inc(); mine++; dwell(); q->whole(); break; }
    case 8: static_cast<Val&>(*s).inc(); mine++; break; case 9: { auto d = *s; Val& v = d; v.inc(); mine++; dwell(); v.whole(); auto e(boost::move(d)); Val& w = e; dwell(); w.whole(); break; } default: { auto t = boost::synchronize(s, o.other); std::get<0>(t)->inc(); mine++; dwell(); std::get<1>(t)->whole(); std::get<0>(t)->whole(); burn(); } } } catch (Boom&) {}
  o.done.add(mine); }
template<class M> static void look(One<M>& o) { boost::synchronized_value<Val, M>& s = o.s; boost::synchronized_value<Val, M> const& c = o.s; u64 lo = o.done.get(), v = ~0ull;
  try { switch (sim::choose(16)) { case 0: v = s.get().get(); break; case 1: v = static_cast<Val>(c).get(); break; case 2: v = c->get(); break; case 3: v = static_cast<const Val&>(*c).get(); break; case 4: { auto&& p = c.synchronize(); v = p->get(); dwell(); SIM_CHECK(p->get() == v, "changed", "a value changes under a handle"); break; }
    case 5: { auto p = c.unique_synchronize(); v = (*p).get(); dwell(); SIM_CHECK(p->get() == v, "changed", "a value changes under a handle"); break; } case 6: { auto p = c.try_to_synchronize(); if (p.owns_lock()) { v = p->get(); dwell(); SIM_CHECK(p->get() == v, "changed", "a value changes under a handle"); } break; } case 7: v = c([](Val const& x) { u64 r = x.get(); dwell(); SIM_CHECK(x.get() == r, "changed", "a value changes under a call"); return r; }); break;
    case 8: { boost::synchronized_value<Val, M> t(c); v = t.get().get(); break; } case 9: { boost::synchronized_value<Val, M> t; t = c; v = t.value().get(); break; } case 10: { Str st; if (sim::flip()) st << c; else c.save(st); if (st.n) v = st.v[0]; break; } case 11: { auto p = sim::flip() ? c.defer_synchronize() : c.unique_synchronize(boost::defer_lock); p.lock(); v = p->get(); break; } case 12: { auto t = boost::synchronize(o.other, c); v = std::get<1>(t)->get(); dwell(); SIM_CHECK(std::get<1>(t)->get() == v, "changed", "a value changes under a handle"); break; }
    case 13: { Val k(lo); bool lt = sim::flip() ? s < k : k > s; SIM_CHECK(!lt, "result", "a value below its past compares less"); break; } case 14: { Val k(o.done.get() + 100); switch (sim::choose(6)) { case 0: SIM_CHECK(s < k && k > s, "result", "<"); break; case 1: SIM_CHECK(s <= k && k >= s, "result", "<="); break; case 2: SIM_CHECK(!(s > k) && !(k < s), "result", ">"); break; case 3: SIM_CHECK(!(s >= k) && !(k <= s), "result", ">="); break; case 4: SIM_CHECK(!(s == k) && !(k == s), "result", "=="); break; default: SIM_CHECK(s != k && k != s, "result", "!="); } break; }
    default: { auto d = *c; const Val& r = d; v = r.get(); dwell(); SIM_CHECK(r.get() == v, "changed", "a value changes under a handle"); } } } catch (Boom&) { return; }
  if (v != ~0ull) SIM_CHECK(v >= lo && v < 1000, "stale", "read %llu after %llu changes were made", (unsigned long long)v, (unsigned long long)lo); }
template<class M> static void one(bool boom) { One<M>* o = new One<M>; u32 n = sim::range(2, 4); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([o, boom] { u32 ops = sim::range(1, 4); for (u32 k = 0; k < ops; k++) { arm(boom && sim::flip() ? sim::range(1, 5) : 0); if (sim::choose(3)) bump(*o); else look(*o); arm(0); if (sim::choose(3) == 0) nap(); } }); t.join(); auto p = o->s.try_to_synchronize(); SIM_CHECK(p.owns_lock(), "left-locked", "the value cannot be locked at the end"); SIM_CHECK(p->get() == o->done.get(), "lost", "the value is %llu after %llu increments", (unsigned long long)p->get(), (unsigned long long)o->done.get()); p.unlock(); delete o; }
SCENARIO(one_mutex, 3) { one<boost::mutex>(false); }
SCENARIO(one_timed, 1) { one<boost::timed_mutex>(false); }
SCENARIO(one_shared, 1) { one<boost::shared_mutex>(sim::flip()); }
SCENARIO(one_recursive, 1) { one<boost::recursive_mutex>(sim::flip()); }
SCENARIO(one_throwing, 3) { one<boost::mutex>(true); }
SCENARIO(one_testable, 1) { one<boost::testable_mutex<boost::mutex> >(sim::flip()); }
// ---- several values that are equal whenever nobody is at work on them
template<class M> static void two(bool boom) { typedef boost::synchronized_value<Val, M> SV; struct W { SV s[3]; }; W* w = new W; u32 n = sim::range(2, 4), of = sim::range(2, 3); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w, boom, of] { u32 ops = sim::range(1, 4); for (u32 k = 0; k < ops; k++) { u32 x = sim::choose(of), y = (x + 1 + sim::choose(of - 1)) % of, z = 3 - x - y; SV &a = w->s[x], &b = w->s[y], &c = w->s[z]; SV const& ca = a; SV const& cb = b; u32 what = sim::choose(14); if (boom && what >= 3 && sim::flip()) arm(sim::range(1, 4));
    try { switch (what) { case 0: case 1: { auto h = boost::synchronize(a, b, c); std::get<0>(h)->inc(); dwell(); (*std::get<1>(h)).inc(); pause_(); std::get<2>(h)->inc(); break; } case 2: if (sim::flip()) a.swap(b); else { using boost::swap; swap(a, b); } break;
      case 3: a = b; break; case 4: if (sim::flip()) { SIM_CHECK(a == b, "result", "== of equal values"); } else SIM_CHECK(!(a != b), "result", "!= of equal values"); break; case 5: if (sim::flip()) { SIM_CHECK(!(a < b), "result", "< of equal values"); } else SIM_CHECK(!(a > b), "result", "> of equal values"); break; case 6: if (sim::flip()) { SIM_CHECK(a <= b, "result", "<= of equal values"); } else SIM_CHECK(a >= b, "result", ">= of equal values"); break;
      case 7: { auto h = boost::synchronize(ca, cb); u64 v = std::get<0>(h)->get(); dwell(); SIM_CHECK(std::get<1>(h)->get() == v && std::get<0>(h)->get() == v, "changed", "two values differ under their locks"); break; } case 8: { auto h = boost::synchronize(a, cb); u64 v = std::get<0>(h)->get(); auto g(boost::move(std::get<0>(h))); dwell(); SIM_CHECK(std::get<1>(h)->get() == v && g->get() == v, "changed", "two values differ under their locks"); break; }
      case 9: switch (sim::choose(2)) { case 0: { SV& same = a; a = same; break; } default: a.swap(a); } break; case 10: switch (sim::choose(6)) { case 0: SIM_CHECK(a == ca, "result", "a == a"); break; case 1: SIM_CHECK(!(a < ca), "result", "a < a"); break; case 2: SIM_CHECK(a >= ca, "result", "a >= a"); break; case 3: SIM_CHECK(!(a > ca), "result", "a > a"); break; case 4: SIM_CHECK(a <= ca, "result", "a <= a"); break; default: SIM_CHECK(!(a != ca), "result", "a != a"); } break;
      case 11: { SV q(a); q.get(); break; } case 12: { auto h = boost::synchronize(c, a, b); SIM_CHECK(std::get<0>(h)->get() == std::get<1>(h)->get() && std::get<1>(h)->get() == std::get<2>(h)->get(), "changed", "three values differ under their locks"); burn(); break; } default: { auto h = a.defer_synchronize(); auto g = b.defer_synchronize(); boost::lock(h, g); SIM_CHECK(h->get() == g->get(), "changed", "two values differ under their locks"); burn(); } } } catch (Boom&) {} arm(0); if (sim::choose(3) == 0) nap(); } }); t.join(); for (u32 i = 0; i < 3; i++) { auto p = w->s[i].try_to_synchronize(); SIM_CHECK(p.owns_lock(), "left-locked", "value %u cannot be locked at the end", i); SIM_CHECK(i >= of || p->get() == w->s[0].value().get(), "lost", "the values differ at the end"); } delete w; }
SCENARIO(two_mutex, 4) { two<boost::mutex>(false); }
SCENARIO(two_throwing, 3) { two<boost::mutex>(true); }
SCENARIO(two_shared, 1) { two<boost::shared_mutex>(sim::flip()); }
SCENARIO(two_recursive, 1) { two<boost::recursive_mutex>(sim::flip()); }
// ---- swaps lose nothing, assignments leave one of the values
SCENARIO(tokens, 3) { typedef boost::synchronized_value<Val> SV; struct W { SV s[2]; }; W* w = new W; w->s[0] = Val(1); w->s[1] = Val(2); u32 n = sim::range(2, 4); struct Tok { Val v; }; Tok* tok = new Tok[4]; for (u32 i = 0; i < 4; i++) tok[i].v.set(3 + i); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w, tok, i] { u32 ops = sim::range(1, 5); for (u32 k = 0; k < ops; k++) { SV &a = w->s[sim::choose(2)], &b = w->s[sim::choose(2)]; using boost::swap; switch (sim::choose(5)) { case 0: a.swap(tok[i].v); break; case 1: swap(a, tok[i].v); break; case 2: swap(tok[i].v, a); break; case 3: a.swap(b); break; default: swap(a, b); } } }); t.join(); u32 seen = 0; for (u32 i = 0; i < 6; i++) seen |= 1u << (i < 2 ? w->s[i].get().get() : tok[i - 2].v.get()); SIM_CHECK(seen == 0x7e, "lost", "a swap loses or duplicates a value"); delete[] tok; delete w; }
SCENARIO(exchange, 1) { typedef boost::synchronized_value<Val> SV; struct W { SV s[2]; Val v[2]; }; W* w = new W; u64 is[2] = {1, 2}, iv[2] = {3, 4}; for (u32 i = 0; i < 2; i++) { w->s[i] = Val(is[i]); w->v[i].set(iv[i]); } u32 n = sim::range(1, 8); for (u32 k = 0; k < n; k++) { using boost::swap; u32 a = sim::choose(2), b = sim::choose(2); const char* what = "";
  switch (sim::choose(7)) { case 0: what = "swap(value)"; w->s[a].swap(w->v[b]); std::swap(is[a], iv[b]); break; case 1: what = "swap(synchronized, value)"; swap(w->s[a], w->v[b]); std::swap(is[a], iv[b]); break; case 2: what = "swap(value, synchronized)"; swap(w->v[b], w->s[a]); std::swap(is[a], iv[b]); break; case 3: what = "swap(synchronized)"; w->s[a].swap(w->s[b]); std::swap(is[a], is[b]); break; case 4: what = "swap of two synchronized values"; swap(w->s[a], w->s[b]); std::swap(is[a], is[b]); break; case 5: what = "assignment of a value"; w->s[a] = w->v[b]; is[a] = iv[b]; break; default: what = "assignment"; w->s[a] = static_cast<SV const&>(w->s[b]); is[a] = is[b]; }
  for (u32 i = 0; i < 2; i++) SIM_CHECK(w->s[i].get().get() == is[i] && w->v[i].get() == iv[i], "result", "after %s a value is not what it was set to", what); } delete w; }
SCENARIO(stores, 3) { typedef boost::synchronized_value<Val> SV; struct W { SV s[2]; }; W* w = new W; u32 n = sim::range(2, 4); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w, i] { u32 ops = sim::range(1, 5); for (u32 k = 0; k < ops; k++) { SV &a = w->s[sim::choose(2)], &b = w->s[sim::choose(2)]; if (sim::choose(3) == 0) arm(sim::range(1, 3)); try { switch (sim::choose(7)) { case 0: a = Val(i + 1); break; case 1: *a = Val(i + 1); break; case 2: { Str st; st.v[0] = i + 1; if (sim::flip()) st >> a; else a.load(st); break; } case 3: a = b; break; case 4: a.synchronize()->set(i + 1); break; case 5: { SV q(boost::move(a)); u64 v = q.value().get(); SIM_CHECK(v <= 4, "torn", "unknown value %llu", (unsigned long long)v); break; } default: { u64 v = a.get().get(); SIM_CHECK(v <= 4, "torn", "unknown value %llu", (unsigned long long)v); } } } catch (Boom&) {} arm(0); } }); t.join(); for (u32 i = 0; i < 2; i++) SIM_CHECK(w->s[i].try_to_synchronize().owns_lock(), "left-locked", "value %u cannot be locked at the end", i); delete w; }
// ---- monitors
struct Account : boost::lockable_adapter<boost::mutex> { Val v; };
SCENARIO(external, 3) { struct W { Account acc, acc2; boost::externally_locked<Val, Account> e; Val plain; boost::externally_locked<Val&, Account> r; Flag n; W() : e(acc), r(plain, acc) {} }; W* w = new W; u32 n = sim::range(2, 3); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w] { u32 ops = sim::range(1, 4); for (u32 k = 0; k < ops; k++) { switch (sim::choose(7)) { case 0: { boost::strict_lock<Account> g(w->acc); w->e.get(g).inc(); dwell(); w->r.get(g).inc(); w->n.add(); break; } case 1: { boost::unique_lock<Account> l(w->acc); boost::nested_strict_lock<boost::unique_lock<Account> > g(l); w->r.get(g).inc(); dwell(); w->e.get(g).inc(); w->n.add(); break; } case 2: { boost::unique_lock<Account> l(w->acc, boost::defer_lock); boost::nested_strict_lock<boost::unique_lock<Account> > g(l); w->e.get(g).inc(); w->r.get(g).inc(); dwell(); w->n.add(); break; }
      case 3: { boost::strict_lock<Account> g(w->acc2); bool threw = false; try { w->e.get(g); } catch (boost::lock_error&) { threw = true; } SIM_CHECK(threw, "lock_error", "a lock of another object gives access"); threw = false; try { w->r.get(g); } catch (boost::lock_error&) { threw = true; } SIM_CHECK(threw, "lock_error", "a lock of another object gives access"); break; } case 4: { boost::unique_lock<Account> l(w->acc2); boost::nested_strict_lock<boost::unique_lock<Account> > g(l); bool threw = false; try { w->e.get(g); } catch (boost::lock_error&) { threw = true; } SIM_CHECK(threw, "lock_error", "a lock of another object gives access"); threw = false; try { w->r.get(g); } catch (boost::lock_error&) { threw = true; } SIM_CHECK(threw, "lock_error", "a lock of another object gives access"); break; }
      case 5: { boost::strict_lock<boost::externally_locked<Val, Account> > g(w->e); w->plain.inc(); dwell(); w->plain.whole(); boost::externally_locked<Val, Account> const& ce = w->e; (void)ce; SIM_CHECK(w->e.mutex() == &w->acc && w->r.mutex() == &w->acc, "mutex", "mutex() is wrong"); w->plain.set(w->plain.get() - 1); break; } default: if (w->r.try_lock()) { boost::unique_lock<boost::externally_locked<Val&, Account> > g(w->r, boost::adopt_lock); w->plain.inc(); dwell(); w->plain.whole(); w->plain.set(w->plain.get() - 1); } } } }); t.join(); { boost::strict_lock<Account> g(w->acc); SIM_CHECK(w->e.get(g).get() == w->n.get() && w->r.get(g).get() == w->n.get(), "lost", "an update was lost"); } delete w; }
// What is externally locked keeps its own lock through copies, moves, assignments and swaps.
template<class T> static void ext_moved() {
  typedef boost::externally_locked<T, Account> E; static const bool REF = std::is_reference<T>::value; struct W { Account acc[3]; Val v[3]; Flag n[3]; }; W* w = new W; int mx[3], vx[3]; E* e[3];
  auto mk = [&](u32 i) { if constexpr (REF) return new E(w->v[i], w->acc[i]); else return new E(w->acc[i], Val(0)); };
  for (int i = 0; i < 3; i++) { e[i] = mk((u32)i); mx[i] = vx[i] = i; boost::strict_lock<Account> g(w->acc[i]); e[i]->get(g).set((u64)i * 1000); }
  u32 steps = sim::range(1, 6); for (u32 s = 0; s < steps; s++) { u32 i = sim::choose(3), j = sim::choose(3); switch (sim::choose(5)) { case 0: *e[i] = static_cast<E const&>(*e[j]); break; case 1: if (i == j) continue; { E t(*e[j]); *e[i] = boost::move(t); } break; case 2: e[i]->swap(*e[j]); std::swap(mx[i], mx[j]); std::swap(vx[i], vx[j]); continue; case 3: { E* x = new E(static_cast<E const&>(*e[j])); delete e[i] ; if (i == j) { e[i] = x; continue; } e[i] = x; break; } default: { E* x = new E(boost::move(*e[j])); E t(*x); if (i == j) { delete e[i]; e[i] = x; continue; } *e[j] = t; delete e[i]; e[i] = x; } } mx[i] = mx[j]; vx[i] = vx[j]; }
  for (u32 i = 0; i < 3; i++) { SIM_CHECK(e[i]->mutex() == &w->acc[mx[i]], "mutex", "an externally locked object has another object's lock"); for (int k = 0; k < 3; k++) { boost::strict_lock<Account> g(w->acc[k]); bool threw = false; try { u64 v = e[i]->get(g).get(); SIM_CHECK(v == (u64)vx[i] * 1000, "value", "an externally locked object has value %llu, not %d", (unsigned long long)v, vx[i] * 1000); } catch (boost::lock_error&) { threw = true; } SIM_CHECK(threw == (k != mx[i]), "lock_error", "the lock of another object gives access, or its own does not"); } }
  sim::Threads t; for (u32 q = 0; q < 2; q++) t.go([&] { for (u32 i = 0; i < 3; i++) { nap(); if (sim::flip()) { boost::strict_lock<Account> g(w->acc[mx[i]]); e[i]->get(g).inc(); } else { boost::unique_lock<E> l(*e[i]); boost::nested_strict_lock<boost::unique_lock<Account> >* no = 0; (void)no; l.unlock(); boost::unique_lock<Account> k(w->acc[mx[i]]); boost::nested_strict_lock<boost::unique_lock<Account> > g(k); e[i]->get(g).inc(); } } }); t.join();
  for (u32 i = 0; i < 3; i++) { u64 want = (u64)vx[i] * 1000 + 2; if (REF) for (u32 k = 0; k < 3; k++) if (k != i && vx[k] == vx[i]) want += 2; boost::strict_lock<Account> g(w->acc[mx[i]]); SIM_CHECK(e[i]->get(g).get() == want, "lost", "an update was lost"); }
  for (int i = 0; i < 3; i++) delete e[i]; delete w;
}
SCENARIO(external_moved, 2) { if (sim::flip()) ext_moved<Val>(); else ext_moved<Val&>(); }
typedef boost::externally_locked_stream<Str> XS;
SCENARIO(stream, 3) { struct W { boost::recursive_mutex m; Str str; XS x; W() : x(str, m) {} }; W* w = new W; u32 n = sim::range(2, 3), ops = sim::range(1, 2); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w, i, ops] { for (u32 k = 0; k < ops; k++) { u64 id = (i + 1) * 10; nap(); switch (sim::choose(4)) { case 0: w->x << id << id + 1 << id + 2; break; case 1: w->x << id << id + 1 << id + 2 << endl_; break; case 2: { boost::stream_guard<Str> g = w->x.hold(); g << id; dwell(); g << id + 1; w->x << id + 2; break; } default: { boost::stream_guard<Str> g(w->x); g << id; dwell(); boost::stream_guard<Str> h(boost::move(g)); h.get() << id + 1; dwell(); h << id + 2; bool threw = false; try { g.get(); } catch (boost::lock_error&) { threw = true; } SIM_CHECK(threw, "lock_error", "a moved-from guard gives access"); } } } }); t.join(); SIM_CHECK(w->m.try_lock(), "left-locked", "the stream is left locked"); w->m.unlock(); u32 groups = 0; for (u32 i = 0; i < w->str.n;) { if (w->str.v[i] == 999) { i++; continue; } SIM_CHECK(i + 2 < w->str.n && w->str.v[i] % 10 == 0 && w->str.v[i + 1] == w->str.v[i] + 1 && w->str.v[i + 2] == w->str.v[i] + 2, "torn", "outputs of different threads are mixed at %u: %llu %llu %llu", i, (unsigned long long)w->str.v[i], (unsigned long long)w->str.v[i + 1], (unsigned long long)w->str.v[i + 2]); i += 3; groups++; } SIM_CHECK(groups == n * ops, "lost", "%u outputs of %u", groups, n * ops); delete w; }
SCENARIO(stream_in, 1) { struct W { boost::recursive_mutex m; Str str; XS x; W() : x(str, m) {} }; W* w = new W; for (u32 i = 0; i < 12; i++) w->str.v[i] = i; u32 n = sim::range(2, 3); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w] { nap(); u64 a = 0, b = 0, c = 0; if (sim::flip()) w->x >> a >> b >> c; else { boost::stream_guard<Str> g(w->x); g >> a; dwell(); g >> b >> c; } SIM_CHECK(b == a + 1 && c == a + 2, "torn", "inputs of different threads are mixed: %llu %llu %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); }); t.join(); SIM_CHECK(w->str.at == 3 * n, "lost", "%u inputs", w->str.at); delete w; }
// lockable adapters: as the mutex inside
struct Shelf : boost::upgrade_lockable_adapter<boost::upgrade_mutex> { Val v; };
SCENARIO(adapters, 3) { struct W { Shelf s; Flag n; }; W* w = new W; u32 n = sim::range(2, 4); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w] { Shelf& s = w->s; u32 ops = sim::range(1, 4); for (u32 k = 0; k < ops; k++) { auto inc = [&] { s.v.inc(); w->n.add(); dwell(); s.v.whole(); }; auto see = [&] { u64 x = s.v.get(); dwell(); SIM_CHECK(s.v.get() == x, "changed", "a writer is at work beside a reader"); }; u64 d = sim::range(0, 30) * 100 * US; switch (sim::choose(18)) { case 0: { boost::unique_lock<Shelf> l(s); inc(); break; } case 1: { boost::shared_lock<Shelf> l(s); see(); break; } case 2: { boost::upgrade_lock<Shelf> l(s); see(); boost::upgrade_to_unique_lock<Shelf> u(l); inc(); break; } case 3: { boost::unique_lock<Shelf> l(s, boost::try_to_lock); if (l) inc(); break; } case 4: { boost::unique_lock<Shelf> l(s, nsd((s64)d)); if (l) inc(); break; } case 5: { boost::unique_lock<Shelf> l(s, st_at(sim_now() + d)); if (l) inc(); break; }
      case 6: { boost::shared_lock<Shelf> l(s, nsd((s64)d)); if (l) see(); break; } case 7: { boost::shared_lock<Shelf> l(s, st_at(sim_now() + d)); if (l) see(); break; } case 8: { boost::shared_lock<Shelf> l(s, boost::try_to_lock); if (l) see(); break; } case 9: { boost::upgrade_lock<Shelf> l(s, nsd((s64)d)); if (l) see(); break; } case 10: { boost::upgrade_lock<Shelf> l(s, st_at(sim_now() + d)); if (l) { see(); boost::unique_lock<Shelf> u(boost::move(l), boost::try_to_lock); if (u) inc(); } break; } case 11: { boost::upgrade_lock<Shelf> l(s, boost::try_to_lock); if (l) { see(); boost::unique_lock<Shelf> u(boost::move(l), nsd((s64)d)); if (u) inc(); } break; }
      case 12: { boost::unique_lock<Shelf> l(s); inc(); boost::shared_lock<Shelf> r(boost::move(l)); see(); break; } case 13: { boost::unique_lock<Shelf> l(s); inc(); boost::upgrade_lock<Shelf> g(boost::move(l)); see(); boost::shared_lock<Shelf> r(boost::move(g)); see(); break; } case 14: { boost::shared_lock<Shelf> l(s); see(); boost::unique_lock<Shelf> u(boost::move(l), boost::try_to_lock); if (u) inc(); break; } case 15: { boost::shared_lock<Shelf> l(s); see(); boost::unique_lock<Shelf> u(boost::move(l), nsd((s64)d)); if (u) inc(); break; } case 16: { boost::shared_lock<Shelf> l(s); see(); boost::upgrade_lock<Shelf> u(boost::move(l), sim::flip() ? nsd((s64)d) : nsd(0)); if (u) see(); break; } default: { boost::shared_lock<Shelf> l(s); see(); boost::upgrade_lock<Shelf> u(boost::move(l), boost::try_to_lock); if (u) { see(); boost::unique_lock<Shelf> x(boost::move(u), st_at(sim_now() + d)); if (x) inc(); } } } } }); t.join(); SIM_CHECK(w->s.try_lock(), "left-locked", "the adapter is left locked"); w->s.unlock(); SIM_CHECK(w->s.v.get() == w->n.get(), "lost", "an update was lost"); delete w; }
// a testable mutex knows its owner
SCENARIO(testable, 3) { typedef boost::testable_mutex<boost::timed_mutex> TM; struct W { TM m; Val v; Flag n; }; W* w = new W; u32 n = sim::range(2, 4); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([w] { TM& m = w->m; u32 ops = sim::range(1, 4); auto in = [&] { SIM_CHECK(m.is_locked_by_this_thread() && boost::is_locked_by_this_thread(m) && m.is_locked() && m.get_id() == boost::this_thread::get_id(), "owner", "a testable mutex does not know its owner"); w->v.inc(); w->n.add(); dwell(); SIM_CHECK(m.is_locked_by_this_thread() && m.is_locked(), "owner", "a testable mutex does not know its owner"); }; for (u32 k = 0; k < ops; k++) { u64 d = sim::range(0, 30) * 100 * US; SIM_CHECK(!m.is_locked_by_this_thread(), "owner", "a testable mutex claims this thread owns it"); switch (sim::choose(6)) { case 0: m.lock(); in(); m.unlock(); break; case 1: if (m.try_lock()) { in(); m.unlock(); } break; case 2: if (m.try_lock_for(nsd((s64)d))) { in(); m.unlock(); } break; case 3: if (m.try_lock_until(st_at(sim_now() + d))) { in(); m.unlock(); } break; case 4: { boost::unique_lock<TM> l(m); in(); l.unlock(); SIM_CHECK(!m.is_locked_by_this_thread(), "owner", "a testable mutex claims this thread owns it"); break; } default: { boost::lock_guard<TM> l(m); in(); } } SIM_CHECK(!m.is_locked_by_this_thread(), "owner", "a testable mutex claims this thread owns it"); } }); t.join(); SIM_CHECK(!w->m.is_locked(), "owner", "a free testable mutex claims to be locked"); SIM_CHECK(w->v.get() == w->n.get(), "lost", "an update was lost"); delete w; }

// C28 Lock objects own what they report and release it once, with the right operation, on every path.
// Every operation of a lock object is run over lockables that keep a log; the log, the reported state and the lockable's state are compared with a model.
#include "common.h"
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/xtime.hpp>

typedef uint8_t u8;
enum Op { LOCK = 1, TRY, FOR, UNTIL_ST, UNTIL_SY, TL_ABS, TL_REL, TL_XT, UNLOCK, CONV, TCONV, CFOR, CUNTIL_ST, CUNTIL_SY };
enum Mode { NONE, X, S, G };
static const char* mode_name[] = {"nothing", "exclusive", "shared", "upgrade"};
struct Ev { u8 op, from, to, lk; s64 arg; bool operator==(Ev const& o) const { return op == o.op && from == o.from && to == o.to && lk == o.lk && arg == o.arg; } };
// what one thread did to the lockables since the harness last asked, and what they will do next
struct Mine { Ev log[12]; u32 n; bool boom, last; u32 fails; int held[3][4]; };
static Mine& me() { static Mine m[64]; return m[sim_self() & 63]; }
static s64 ns_of(bc::nanoseconds d) { return d.count(); }
struct Lk {
  boost::upgrade_mutex m; u32 id; bool real; int own[4]; // own: all threads together
  Lk() : id(0), real(false) { for (int i = 0; i < 4; i++) own[i] = 0; }
  bool fits(Mode k) const { if (k == X) return !own[X] && !own[S] && !own[G]; if (k == G) return !own[X] && !own[G]; return !own[X]; }
  bool begin(Op op, Mode from, Mode to, s64 arg) { bool boom; { sim::Quiet q; Mine& i = me(); if (i.n < 12) i.log[i.n++] = Ev{(u8)op, (u8)from, (u8)to, (u8)id, arg}; boom = i.boom && to != NONE; if (boom) i.boom = false; if (from != NONE) SIM_CHECK(i.held[id][from] > 0, "not-owned", "a lock object calls an operation that needs %s ownership of lockable %u, which this thread does not have", mode_name[from], id); } if (boom) { sim_count_fault(SF_USER); throw Boom((int)id); } return true; }
  void move(Mode from, Mode to) { sim::Quiet q; Mine& i = me(); if (from) { own[from]--; i.held[id][from]--; } if (to) { SIM_CHECK(fits(to), "exclusion", "%s ownership of lockable %u conflicts with another owner", mode_name[to], id); own[to]++; i.held[id][to]++; } i.last = true; }
  void leave(Mode from) { sim::Quiet q; own[from]--; me().held[id][from]--; }
  bool solo_try(Mode from, Mode to) { sim::Quiet q; own[from]--; bool y = fits(to) && !(me().fails & 1); own[from]++; me().fails >>= 1; return y; }
  template<class F> bool attempt(Op op, Mode from, Mode to, s64 arg, F f) { begin(op, from, to, arg); { sim::Quiet q; me().last = false; } bool y = real ? f() : solo_try(from, to); if (y) move(from, to); else me().last = false; return y; }
  template<class F> void acquire(Mode from, Mode to, F f) { begin(from ? CONV : LOCK, from, to, 0); if (real) f(); move(from, to); }
  template<class F> void drop(Mode from, F f) { begin(UNLOCK, from, NONE, 0); leave(from); if (real) f(); }
  template<class F> void lower(Mode from, Mode to, F f) { begin(CONV, from, to, 0); { sim::Quiet q; own[from]--; me().held[id][from]--; own[to]++; me().held[id][to]++; } if (real) f(); } // nobody else can get in between
  // exclusive
  void lock() { acquire(NONE, X, [&] { m.lock(); }); }
  void unlock() { drop(X, [&] { m.unlock(); }); }
  bool try_lock() { return attempt(TRY, NONE, X, 0, [&] { return m.try_lock(); }); }
  template<class R, class P> bool try_lock_for(bc::duration<R, P> const& d) { return attempt(FOR, NONE, X, ns_of(bc::duration_cast<bc::nanoseconds>(d)), [&] { return m.try_lock_for(d); }); }
  template<class D> bool try_lock_until(bc::time_point<StC, D> const& t) { return attempt(UNTIL_ST, NONE, X, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.try_lock_until(t); }); }
  template<class D> bool try_lock_until(bc::time_point<SyC, D> const& t) { return attempt(UNTIL_SY, NONE, X, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.try_lock_until(t); }); }
  // shared
  void lock_shared() { acquire(NONE, S, [&] { m.lock_shared(); }); }
  void unlock_shared() { drop(S, [&] { m.unlock_shared(); }); }
  bool try_lock_shared() { return attempt(TRY, NONE, S, 0, [&] { return m.try_lock_shared(); }); }
  template<class R, class P> bool try_lock_shared_for(bc::duration<R, P> const& d) { return attempt(FOR, NONE, S, ns_of(bc::duration_cast<bc::nanoseconds>(d)), [&] { return m.try_lock_shared_for(d); }); }
  template<class D> bool try_lock_shared_until(bc::time_point<StC, D> const& t) { return attempt(UNTIL_ST, NONE, S, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.try_lock_shared_until(t); }); }
  template<class D> bool try_lock_shared_until(bc::time_point<SyC, D> const& t) { return attempt(UNTIL_SY, NONE, S, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.try_lock_shared_until(t); }); }
  // upgrade
  void lock_upgrade() { acquire(NONE, G, [&] { m.lock_upgrade(); }); }
  void unlock_upgrade() { drop(G, [&] { m.unlock_upgrade(); }); }
  bool try_lock_upgrade() { return attempt(TRY, NONE, G, 0, [&] { return m.try_lock_upgrade(); }); }
  template<class R, class P> bool try_lock_upgrade_for(bc::duration<R, P> const& d) { return attempt(FOR, NONE, G, ns_of(bc::duration_cast<bc::nanoseconds>(d)), [&] { return m.try_lock_upgrade_for(d); }); }
  template<class D> bool try_lock_upgrade_until(bc::time_point<StC, D> const& t) { return attempt(UNTIL_ST, NONE, G, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.try_lock_upgrade_until(t); }); }
  template<class D> bool try_lock_upgrade_until(bc::time_point<SyC, D> const& t) { return attempt(UNTIL_SY, NONE, G, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.try_lock_upgrade_until(t); }); }
  // conversions
  void unlock_and_lock_shared() { lower(X, S, [&] { m.unlock_and_lock_shared(); }); }
  void unlock_and_lock_upgrade() { lower(X, G, [&] { m.unlock_and_lock_upgrade(); }); }
  void unlock_upgrade_and_lock_shared() { lower(G, S, [&] { m.unlock_upgrade_and_lock_shared(); }); }
  void unlock_upgrade_and_lock() { acquire(G, X, [&] { m.unlock_upgrade_and_lock(); }); }
  bool try_unlock_upgrade_and_lock() { return attempt(TCONV, G, X, 0, [&] { return m.try_unlock_upgrade_and_lock(); }); }
  bool try_unlock_shared_and_lock() { return attempt(TCONV, S, X, 0, [&] { return m.try_unlock_shared_and_lock(); }); }
  bool try_unlock_shared_and_lock_upgrade() { return attempt(TCONV, S, G, 0, [&] { return m.try_unlock_shared_and_lock_upgrade(); }); }
#define TIMED_CONV(name, from, to) \
  template<class R, class P> bool name##_for(bc::duration<R, P> const& d) { return attempt(CFOR, from, to, ns_of(bc::duration_cast<bc::nanoseconds>(d)), [&] { return m.name##_for(d); }); } \
  template<class D> bool name##_until(bc::time_point<StC, D> const& t) { return attempt(CUNTIL_ST, from, to, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.name##_until(t); }); } \
  template<class D> bool name##_until(bc::time_point<SyC, D> const& t) { return attempt(CUNTIL_SY, from, to, ns_of(bc::duration_cast<bc::nanoseconds>(t.time_since_epoch())), [&] { return m.name##_until(t); }); }
  TIMED_CONV(try_unlock_upgrade_and_lock, G, X)
  TIMED_CONV(try_unlock_shared_and_lock, S, X)
  TIMED_CONV(try_unlock_shared_and_lock_upgrade, S, G)
#ifdef BOOST_THREAD_USES_DATETIME
  static s64 abs_us(boost::system_time const& t) { sim::Quiet q; return (t - boost::system_time(boost::gregorian::date(1970, 1, 1))).total_microseconds(); }
  bool timed_lock(boost::system_time const& t) { return attempt(TL_ABS, NONE, X, abs_us(t), [&] { return m.timed_lock(t); }); }
  bool timed_lock(boost::xtime const& t) { return attempt(TL_XT, NONE, X, (s64)t.sec * 1000000 + t.nsec / 1000, [&] { return m.timed_lock(boost::system_time(t)); }); }
  bool timed_lock(boost::posix_time::time_duration const& d) { return attempt(TL_REL, NONE, X, d.total_microseconds(), [&] { return m.timed_lock(d); }); }
  bool timed_lock_shared(boost::system_time const& t) { return attempt(TL_ABS, NONE, S, abs_us(t), [&] { return m.timed_lock_shared(t); }); }
  bool timed_lock_shared(boost::posix_time::time_duration const& d) { return attempt(TL_REL, NONE, S, d.total_microseconds(), [&] { return m.timed_lock_shared(d); }); }
#endif
};
typedef boost::unique_lock<Lk> UL; typedef boost::shared_lock<Lk> SL; typedef boost::upgrade_lock<Lk> GL; typedef boost::upgrade_to_unique_lock<Lk> TL; typedef boost::detail::try_lock_wrapper<Lk> WL;
template<class L> struct ModeOf; template<> struct ModeOf<UL> { static const Mode m = X; }; template<> struct ModeOf<SL> { static const Mode m = S; }; template<> struct ModeOf<GL> { static const Mode m = G; }; template<> struct ModeOf<WL> { static const Mode m = X; };

struct Want { Ev e[12]; u32 n; Want() : n(0) {} Want& add(Op op, Mode from, Mode to, Lk* l, s64 arg = 0) { e[n++] = Ev{(u8)op, (u8)from, (u8)to, (u8)l->id, arg}; return *this; } };
static void begin_op() { sim::Quiet q; Mine& i = me(); i.n = 0; }
static void logged(Want const& w, const char* what) { sim::Quiet q; Mine& i = me(); bool same = i.n == w.n; for (u32 k = 0; same && k < w.n; k++) same = i.log[k] == w.e[k];
  if (!same) { char b[400]; int p = 0; for (u32 k = 0; k < i.n && p < 330; k++) p += snprintf(b + p, sizeof b - p, " %u:%s->%s@%u(%lld)", i.log[k].op, mode_name[i.log[k].from], mode_name[i.log[k].to], i.log[k].lk, (long long)i.log[k].arg); b[p] = 0; char c[400]; p = 0; for (u32 k = 0; k < w.n && p < 330; k++) p += snprintf(c + p, sizeof c - p, " %u:%s->%s@%u(%lld)", w.e[k].op, mode_name[w.e[k].from], mode_name[w.e[k].to], w.e[k].lk, (long long)w.e[k].arg); c[p] = 0; sim_violation("lockable-ops", "%s does [%s ] to its lockable where [%s ] is right", what, b, c); } i.n = 0; }
template<class L> struct Slot { L l; Lk* m; bool own; Slot() : m(0), own(false) {} };
template<class L> static void state(Slot<L>& s, const char* what) { SIM_CHECK(s.l.owns_lock() == s.own, "owns_lock", "after %s: owns_lock() is %d", what, (int)s.l.owns_lock()); SIM_CHECK(!!s.l == s.own, "owns_lock", "after %s: operator bool disagrees", what); SIM_CHECK(s.l.mutex() == s.m, "mutex", "after %s: mutex() is wrong", what); }

struct World { Lk k[3]; bool real; World(bool r) : real(r) { for (u32 i = 0; i < 3; i++) { k[i].id = i; k[i].real = r; } } };
struct Hands { // one thread's lock objects
  World& w; Slot<UL> u[3]; Slot<SL> s[3]; Slot<GL> g[3]; Slot<WL> t[2]; bool threw; u32 faults;
  Hands(World& w_, u32 f) : w(w_), threw(false), faults(f) { begin_op(); sim::Quiet q; Mine& i = me(); i.boom = false; i.fails = 0; for (auto& h : i.held) for (int& x : h) x = 0; }
  Lk& lk() { return w.k[sim::choose(3)]; }
  u32 held() { sim::Quiet q; u32 n = 0; for (auto& h : me().held) for (int x : h) n += (u32)x; return n; }
  u32 held_on(Lk* m) { sim::Quiet q; u32 n = 0; for (int x : me().held[m->id]) n += (u32)x; return n; }
  // may this thread make a blocking acquisition? alone: only when it fits; among others: only with nothing else in its hands
  bool may_block(Lk* m, Mode from, Mode to) { sim::Quiet q; if (w.real) return held() == (from ? 1u : 0u); m->own[from]--; bool y = m->fits(to); m->own[from]++; return y; }
  void arm() { sim::Quiet q; Mine& i = me(); i.boom = faults && sim::choose(faults) == 0; i.fails = sim::choose(3) ? 0 : sim::choose(8); }
  bool disarm() { sim::Quiet q; Mine& i = me(); bool still = i.boom; i.boom = false; return still; }
  void all(const char* what) { for (auto& x : u) state(x, what); for (auto& x : s) state(x, what); for (auto& x : g) state(x, what); for (auto& x : t) state(x, what); int h[3][4] = {}; for (auto& x : u) if (x.own) h[x.m->id][X]++; for (auto& x : s) if (x.own) h[x.m->id][S]++; for (auto& x : g) if (x.own) h[x.m->id][G]++; for (auto& x : t) if (x.own) h[x.m->id][X]++; sim::Quiet q; for (int a = 0; a < 3; a++) for (int b = 1; b < 4; b++) SIM_CHECK(me().held[a][b] == h[a][b], "leak", "after %s: this thread has %d %s ownerships of lockable %d, its lock objects have %d", what, me().held[a][b], mode_name[b], a, h[a][b]); }
  bool last() { sim::Quiet q; return me().last; }
  // ---- operations every lock type has
  template<class F> bool errs(int code, F f, const char* what) { try { f(); } catch (boost::lock_error& e) { SIM_CHECK(e.native_error() == code && e.code().value() == code, "lock_error", "%s: lock_error carries %d, not %d", what, e.native_error(), code); return true; } SIM_CHECK(false, "lock_error", "%s is accepted", what); return false; }
  template<class L, class F> void acquiring(Slot<L>& x, Op op, s64 arg, F f, const char* what) { // a member that acquires x.m
    Want q; if (!x.m || x.own) { disarm(); int code = x.m ? EDEADLK : EPERM; errs(code, [&] { f(x.l); }, what); logged(q, what); return; }
    q.add(op, NONE, ModeOf<L>::m, x.m, arg); try { bool y = f(x.l); x.own = op == LOCK || last(); if (op != LOCK) SIM_CHECK(y == x.own, "result", "%s returned %d", what, (int)y); } catch (Boom&) { } disarm(); logged(q, what); }
  template<class L> void member_timed(Slot<L>& x, u32 k, u64 d);
  template<class L> void member(Slot<L>& x) { u64 d = sim::range(0, 40) * 100 * US; arm(); u32 k = sim::choose(9);
    if (k == 0) { if (x.m && !x.own && !may_block(x.m, NONE, ModeOf<L>::m)) k = 1; else { acquiring(x, LOCK, 0, [](L& l) { l.lock(); return true; }, "lock()"); return; } }
    if (k == 1) { acquiring(x, TRY, 0, [](L& l) { return l.try_lock(); }, "try_lock()"); return; }
    if (k == 2 || k == 3) { disarm(); if (!x.m || !x.own) { errs(EPERM, [&] { x.l.unlock(); }, "unlock()"); logged(Want(), "unlock()"); return; } x.l.unlock(); logged(Want().add(UNLOCK, ModeOf<L>::m, NONE, x.m), "unlock()"); x.own = false; return; }
    member_timed(x, k, d); }
  template<class L> void dropped(Want& q, Slot<L>& x) { if (x.own) q.add(UNLOCK, ModeOf<L>::m, NONE, x.m); }
  // x becomes the lock object that make() builds
  template<class L, class F> void constructed(Slot<L>& x, Lk& m, Op op, s64 arg, bool tries, F make, const char* what, bool owned = false) { Want q; if (op) q.add(op, NONE, ModeOf<L>::m, &m, arg);
    try { L n(make()); bool y = owned || (op && (tries ? last() : true)); SIM_CHECK(n.owns_lock() == y && n.mutex() == &m, "constructed", "%s: owns_lock() is %d where %d is right", what, (int)n.owns_lock(), (int)y); logged(q, what); disarm(); Want r; dropped(r, x); x.l = boost::move(n); SIM_CHECK(!n.owns_lock() && n.mutex() == 0, "moved-from", "after %s and a move: the source still has the lockable", what); x.m = &m; x.own = y; logged(r, "move assignment"); }
    catch (Boom&) { disarm(); logged(q, what); } }
  template<class L> void construct_timed(Slot<L>& x, Lk& m, u32 k, u64 d);
  template<class L> void raw_lock(Lk& m) { if (ModeOf<L>::m == X) m.lock(); else if (ModeOf<L>::m == S) m.lock_shared(); else m.lock_upgrade(); }
  template<class L> void construct(Slot<L>& x) { Lk& m = lk(); u64 d = sim::range(0, 40) * 100 * US; arm(); u32 k = sim::choose(8); bool block = may_block(&m, NONE, ModeOf<L>::m); if ((k == 0 || k == 1) && !block) k = 2;
    switch (k) { case 0: constructed(x, m, LOCK, 0, false, [&] { return L(m); }, "construction"); break; case 1: disarm(); raw_lock<L>(m); begin_op(); constructed(x, m, (Op)0, 0, false, [&] { return L(m, boost::adopt_lock); }, "construction with adopt_lock", true); break;
      case 2: constructed(x, m, TRY, 0, true, [&] { return L(m, boost::try_to_lock); }, "construction with try_to_lock"); break; case 3: constructed(x, m, (Op)0, 0, false, [&] { return L(m, boost::defer_lock); }, "construction with defer_lock"); break; default: construct_timed(x, m, k, d); } }
  template<class L> void reset(Slot<L>& x) { Want q; dropped(q, x); x.l = L(); x.m = 0; x.own = false; logged(q, "assignment of an empty lock"); }
  template<class L> void move(Slot<L>& a, Slot<L>& b) { Want q; if (&a == &b) { L n(boost::move(a.l)); SIM_CHECK(n.owns_lock() == a.own && n.mutex() == a.m && !a.l.owns_lock() && !a.l.mutex(), "moved-from", "move construction loses the lock"); a.l = boost::move(n); logged(q, "move construction"); return; } dropped(q, a); a.l = boost::move(b.l); a.m = b.m; a.own = b.own; b.m = 0; b.own = false; logged(q, "move assignment"); }
  template<class L> void swap_(Slot<L>& a, Slot<L>& b) { if (sim::flip()) a.l.swap(b.l); else { using boost::swap; swap(a.l, b.l); } std::swap(a.m, b.m); std::swap(a.own, b.own); logged(Want(), "swap"); }
  template<class L> void release(Slot<L>& x) { Lk* r = x.l.release(); SIM_CHECK(r == x.m, "release", "release() returned the wrong lockable"); logged(Want(), "release()"); bool own = x.own; x.m = 0; x.own = false; state(x, "release()"); if (!own) return; SIM_CHECK(held_on(r) > 0, "release", "release() gave the ownership up"); if (sim::flip()) { x.l = L(*r, boost::adopt_lock); x.m = r; x.own = true; logged(Want(), "adoption"); } else { if (ModeOf<L>::m == X) r->unlock(); else if (ModeOf<L>::m == S) r->unlock_shared(); else r->unlock_upgrade(); begin_op(); } }
  template<class L> void destroy(Slot<L>& x) { Want q; dropped(q, x); { L n(boost::move(x.l)); x.m = 0; x.own = false; bool boom = sim::flip(); if (boom) { try { L n2(boost::move(n)); throw Boom(); } catch (Boom&) {} } } logged(q, "destruction"); }
  template<class L, u32 N> void generic(Slot<L> (&x)[N]) { Slot<L>& a = x[sim::choose(N)]; Slot<L>& b = x[sim::choose(N)]; switch (sim::choose(9)) { case 0: case 1: case 2: member(a); break; case 3: case 4: construct(a); break; case 5: move(a, b); break; case 6: swap_(a, b); break; case 7: release(a); break; default: sim::flip() ? destroy(a) : reset(a); } }
  // ---- conversions: B from A
  template<class A, class B, class F> void convert(Slot<A>& a, Slot<B>& b, F make, const char* what) { arm(); bool block = ModeOf<A>::m == G && ModeOf<B>::m == X; if (block && a.own && !may_block(a.m, G, X)) { disarm(); return; } if (!block) disarm(); Want q; if (a.own) q.add(CONV, ModeOf<A>::m, ModeOf<B>::m, a.m);
    try { B n(make()); SIM_CHECK(n.owns_lock() == a.own && n.mutex() == a.m, "converted", "%s: the result does not own the lockable as the source did", what); logged(q, what); disarm(); Lk* m = a.m; bool own = a.own; a.m = 0; a.own = false; state(a, what); Want r; dropped(r, b); b.l = boost::move(n); b.m = m; b.own = own; logged(r, "move assignment"); } catch (Boom&) { disarm(); logged(q, what); state(a, what); } }
  template<class A, class B, class F> void try_convert(Slot<A>& a, Slot<B>& b, Op op, s64 arg, F make, const char* what) { arm(); Want q; if (a.own) q.add(op, ModeOf<A>::m, ModeOf<B>::m, a.m, arg); bool own = a.own;
    try { B n(make()); bool y = !own || last(); logged(q, what); disarm(); if (!y) { SIM_CHECK(!n.owns_lock() && !n.mutex(), "converted", "%s: a failed conversion leaves a lockable in the result", what); state(a, what); Want r; dropped(r, b); b.l = boost::move(n); b.m = 0; b.own = false; logged(r, "move assignment"); return; }
      SIM_CHECK(n.owns_lock() == own && n.mutex() == a.m, "converted", "%s: the result does not own the lockable as the source did", what); Lk* m = a.m; a.m = 0; a.own = false; state(a, what); Want r; dropped(r, b); b.l = boost::move(n); b.m = m; b.own = own; logged(r, "move assignment"); } catch (Boom&) { disarm(); logged(q, what); state(a, what); } }
  template<class A, class B> void converts(Slot<A>& a, Slot<B>& b, const char* what) { switch (sim::choose(3)) {
#ifndef BOOST_THREAD_PROVIDES_EXPLICIT_LOCK_CONVERSION
    case 0: { bool block = ModeOf<A>::m == G && ModeOf<B>::m == X; arm(); if (block && a.own && !may_block(a.m, G, X)) { disarm(); return; } if (!block) disarm(); Want q; if (a.own) q.add(CONV, ModeOf<A>::m, ModeOf<B>::m, a.m); try { Want r = q; dropped(r, b); b.l = boost::move(a.l); disarm(); b.m = a.m; b.own = a.own; a.m = 0; a.own = false; logged(r, "conversion by assignment"); } catch (Boom&) { disarm(); logged(q, "conversion by assignment"); state(a, what); state(b, what); } break; }
#endif
    default: convert(a, b, [&] { return B(boost::move(a.l)); }, what); } }
  template<class A, class B> void try_converts(Slot<A>& a, Slot<B>& b, const char* what) { u64 d = sim::range(0, 40) * 100 * US; u64 t = sim_now(), r = sim_now_real() / 1000 * 1000; switch (sim::choose(4)) { case 0: try_convert(a, b, TCONV, 0, [&] { return B(boost::move(a.l), boost::try_to_lock); }, what); break; case 1: try_convert(a, b, CFOR, (s64)d, [&] { return B(boost::move(a.l), nsd((s64)d)); }, what); break; case 2: try_convert(a, b, CUNTIL_ST, (s64)(t + d), [&] { return B(boost::move(a.l), st_at(t + d)); }, what); break; default: try_convert(a, b, CUNTIL_SY, (s64)(r + d), [&] { return B(boost::move(a.l), sy_at(r + d)); }, what); } }
  void conversion() { Slot<UL>& a = u[sim::choose(3)]; Slot<SL>& b = s[sim::choose(3)]; Slot<GL>& c = g[sim::choose(3)]; switch (sim::choose(7)) { case 0: converts(a, b, "unique to shared"); break; case 1: converts(a, c, "unique to upgrade"); break; case 2: converts(c, b, "upgrade to shared"); break; case 3: converts(c, a, "upgrade to unique"); break; case 4: try_converts(c, a, "trying upgrade to unique"); break;
#ifdef BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
      case 5: try_converts(b, a, "trying shared to unique"); break; default: try_converts(b, c, "trying shared to upgrade"); break;
#else
      default: break;
#endif
    } }
  // ---- scoped ones
  void body(bool& out) { if (sim::choose(3) == 0) sim_yield(); out = true; if (sim::choose(4) == 0) { throw Boom(77); } }
  void scoped() { Lk& m = lk(); u32 k = sim::choose(10); Mode md = k == 2 || k == 3 ? S : X; if (!may_block(&m, NONE, md)) return; arm(); bool adopt = k == 1 || k == 3 || k == 5; if (adopt) { disarm(); md == X ? m.lock() : m.lock_shared(); begin_op(); }
    bool in = false; const char* what = ""; try { switch (k) { case 0: { what = "lock_guard"; boost::lock_guard<Lk> l(m); body(in); break; } case 1: { what = "lock_guard with adopt_lock"; boost::lock_guard<Lk> l(m, boost::adopt_lock); body(in); break; } case 2: { what = "shared_lock_guard"; boost::shared_lock_guard<Lk> l(m); body(in); break; } case 3: { what = "shared_lock_guard with adopt_lock"; boost::shared_lock_guard<Lk> l(m, boost::adopt_lock); body(in); break; }
      case 4: { what = "make_lock_guard"; auto&& l = boost::make_lock_guard(m); (void)l; body(in); break; } case 5: { what = "make_lock_guard with adopt_lock"; auto&& l = boost::make_lock_guard(m, boost::adopt_lock); (void)l; body(in); break; } case 6: { what = "strict_lock"; boost::strict_lock<Lk> l(m); SIM_CHECK(l.owns_lock() && l.owns_lock(&m) && l.mutex() == &m && !l.owns_lock(&w.k[(m.id + 1) % 3]), "owns_lock", "strict_lock reports the wrong lockable"); body(in); break; }
      case 7: { what = "make_strict_lock"; auto&& l = boost::make_strict_lock(m); SIM_CHECK(l.owns_lock(&m), "owns_lock", "strict_lock reports the wrong lockable"); body(in); break; } case 8: { what = "with_lock_guard"; int r = boost::with_lock_guard(m, [&](int v) { body(in); return v + 1; }, 6); SIM_CHECK(r == 7, "result", "with_lock_guard returned %d", r); break; } default: { what = "with_lock_guard"; boost::with_lock_guard(m, [&] { body(in); }); break; } } } catch (Boom&) {}
    bool left = disarm(); (void)left; Want q; if (!adopt) q.add(LOCK, NONE, md, &m); if (in) q.add(UNLOCK, md, NONE, &m); if (adopt) SIM_CHECK(in, "threw", "%s threw", what); logged(q, what); }
  void factory() { Lk& m = lk(); Slot<UL>& x = u[sim::choose(3)]; arm(); switch (sim::choose(4)) { case 0: if (may_block(&m, NONE, X)) { constructed(x, m, LOCK, 0, false, [&] { return boost::make_unique_lock(m); }, "make_unique_lock"); return; } break; case 1: constructed(x, m, TRY, 0, true, [&] { return boost::make_unique_lock(m, boost::try_to_lock); }, "make_unique_lock with try_to_lock"); return; case 2: constructed(x, m, (Op)0, 0, false, [&] { return boost::make_unique_lock(m, boost::defer_lock); }, "make_unique_lock with defer_lock"); return; default: disarm(); if (x.own) { Lk* r = x.l.release(); x.l = boost::make_unique_lock(*r, boost::adopt_lock); logged(Want(), "make_unique_lock with adopt_lock"); return; } } disarm(); }
  template<class L> void nested(Slot<L>& x) { arm(); Want q; bool blocked = x.m && !x.own; if (blocked && !may_block(x.m, NONE, ModeOf<L>::m)) { disarm(); return; } if (blocked) q.add(LOCK, NONE, ModeOf<L>::m, x.m); else disarm(); bool in = false, err = false, make = sim::flip(); Lk* m = x.m;
    try { if (make) { auto&& n = boost::make_nested_strict_lock(x.l); nested_body(n, x, m, in); } else { boost::nested_strict_lock<L> n(x.l); nested_body(n, x, m, in); } } catch (Boom&) {} catch (boost::lock_error&) { err = true; }
    disarm(); SIM_CHECK(err == !m, "lock_error", "nested_strict_lock over a lock %s lockable: lock_error is %d", m ? "with a" : "without", (int)err); if (in) x.own = true; logged(q, "nested_strict_lock"); }
  template<class N, class L> void nested_body(N& n, Slot<L>& x, Lk* m, bool& in) { in = true; SIM_CHECK(n.owns_lock() && n.mutex() == m && n.owns_lock(m), "owns_lock", "nested_strict_lock reports the wrong lockable"); SIM_CHECK(!x.l.owns_lock() && !x.l.mutex(), "nested", "the nesting lock keeps the lockable"); SIM_CHECK(held_on(m) > 0, "nested", "nested_strict_lock does not hold the lockable"); if (sim::choose(3) == 0) throw Boom(78); }
  template<class L> void reverse(Slot<L>& x) { if (!x.m) { { boost::reverse_lock<L> r(x.l); } state(x, "reverse_lock"); logged(Want(), "reverse_lock"); return; }
    // at the end of its scope the lock is taken again: nothing else may be in the way
    if (x.own) { sim::Quiet q; if (w.real && held() != 1) return; } else if (!may_block(x.m, NONE, ModeOf<L>::m)) return;
    Want q; dropped(q, x); q.add(LOCK, NONE, ModeOf<L>::m, x.m); try { boost::reverse_lock<L> r(x.l); SIM_CHECK(!x.l.owns_lock() && !x.l.mutex(), "reverse", "within a reverse_lock the lock has its lockable"); if (w.real) dwell(); if (sim::flip()) throw Boom(79); } catch (Boom&) {} x.own = true; logged(q, "reverse_lock"); }
  void to_unique() { Slot<GL>& a = g[sim::choose(3)]; Slot<GL>& b = g[sim::choose(3)]; u32 how = sim::choose(5); if (&a == &b && how) how = 1; if (a.own && !may_block(a.m, G, X)) return; if ((how == 2 || how == 3) && b.own) return; arm(); Want q; if (!a.own) disarm(); if (a.own) q.add(CONV, G, X, a.m); Lk* m = a.m; bool own = a.own; bool in = false;
    try { TL l(a.l); in = true; SIM_CHECK(l.owns_lock() == own && l.mutex() == m && !!l == own, "owns_lock", "upgrade_to_unique_lock reports the wrong state"); SIM_CHECK(!a.l.owns_lock() && !a.l.mutex(), "source", "the upgrade_lock keeps its lockable while it is unique"); disarm(); logged(q, "upgrade_to_unique_lock"); q = Want(); if (own) q.add(CONV, X, G, m);
      switch (how) { case 0: break; case 1: { TL l2(boost::move(l)); SIM_CHECK(l2.owns_lock() == own && l2.mutex() == m && !l.owns_lock() && !l.mutex(), "moved-from", "moving an upgrade_to_unique_lock loses the lock"); logged(Want(), "move of upgrade_to_unique_lock"); if (sim::flip()) throw Boom(80); break; }
        case 2: { TL l2(b.l); l2.swap(l); SIM_CHECK(l2.owns_lock() == own && !l.owns_lock() && l.mutex() == b.m, "swap", "swapping upgrade_to_unique_locks loses the lock"); break; } case 3: { TL l2(b.l); l2 = boost::move(l); SIM_CHECK(l2.owns_lock() == own && l2.mutex() == m && !l.owns_lock(), "moved-from", "move assignment of upgrade_to_unique_lock loses the lock"); SIM_CHECK(b.l.mutex() == b.m && !b.l.owns_lock(), "source", "move assignment does not give the old lock back"); break; } default: if (sim::choose(3) == 0) throw Boom(81); } } catch (Boom&) {}
    disarm(); state(a, "upgrade_to_unique_lock"); logged(q, in ? "the end of upgrade_to_unique_lock" : "upgrade_to_unique_lock"); }
  void wrapper() { generic_w(t[sim::choose(2)], t[sim::choose(2)]); }
  void generic_w(Slot<WL>& a, Slot<WL>& b) { switch (sim::choose(8)) { case 0: arm(); if (a.m && !a.own && !may_block(a.m, NONE, X)) { disarm(); break; } acquiring(a, LOCK, 0, [](WL& l) { l.lock(); return true; }, "lock() of a try lock"); break; case 1: arm(); acquiring(a, TRY, 0, [](WL& l) { return l.try_lock(); }, "try_lock() of a try lock"); break;
      case 2: if (!a.own) { errs(EPERM, [&] { a.l.unlock(); }, "unlock()"); logged(Want(), "unlock()"); } else { a.l.unlock(); logged(Want().add(UNLOCK, X, NONE, a.m), "unlock()"); a.own = false; } break; case 3: { Lk& m = lk(); arm(); constructed(a, m, TRY, 0, true, [&] { return sim::flip() ? WL(m) : WL(m, boost::try_to_lock); }, "construction of a try lock"); break; } case 4: { Lk& m = lk(); constructed(a, m, (Op)0, 0, false, [&] { return WL(m, boost::defer_lock); }, "construction of a deferred try lock"); break; }
      case 5: move(a, b); break; case 6: { if (sim::flip()) a.l.swap(b.l); else swap(a.l, b.l); std::swap(a.m, b.m); std::swap(a.own, b.own); logged(Want(), "swap"); break; } default: { Lk* r = a.l.release(); SIM_CHECK(r == a.m, "release", "release() returned the wrong lockable"); bool own = a.own; a.m = 0; a.own = false; logged(Want(), "release()"); if (own) { a.l = WL(*r, boost::adopt_lock); a.m = r; a.own = true; logged(Want(), "adoption"); } } } }
  void step() { const char* what; switch (sim::choose(16)) { case 0: case 1: case 2: what = "an operation of unique_lock"; generic(u); break; case 3: case 4: what = "an operation of shared_lock"; generic(s); break; case 5: case 6: what = "an operation of upgrade_lock"; generic(g); break; case 7: case 8: case 9: what = "a conversion"; conversion(); break; case 10: what = "a scoped lock"; scoped(); break; case 11: what = "make_unique_lock"; factory(); break; case 12: what = "nested_strict_lock"; switch (sim::choose(3)) { case 0: nested(u[sim::choose(3)]); break; case 1: nested(s[sim::choose(3)]); break; default: nested(g[sim::choose(3)]); } break; case 13: what = "reverse_lock"; switch (sim::choose(4)) { case 0: reverse(s[sim::choose(3)]); break; case 1: reverse(g[sim::choose(3)]); break; default: reverse(u[sim::choose(3)]); } break; case 14: what = "upgrade_to_unique_lock"; to_unique(); break; default: what = "an operation of a try lock"; wrapper(); }
    { sim::Quiet q; me().fails = 0; } all(what); }
  void finish() { for (auto& x : u) { x.l = UL(); x.m = 0; x.own = false; } for (auto& x : s) { x.l = SL(); x.m = 0; x.own = false; } for (auto& x : g) { x.l = GL(); x.m = 0; x.own = false; } for (auto& x : t) { x.l = WL(); x.m = 0; x.own = false; } begin_op(); all("the end"); }
};
template<class L> void Hands::member_timed(Slot<L>& x, u32 k, u64 d) { u64 t = sim_now(), r = sim_now_real() / 1000 * 1000; switch (k) { case 4: acquiring(x, FOR, (s64)d, [&](L& l) { return l.try_lock_for(nsd((s64)d)); }, "try_lock_for()"); return; case 5: acquiring(x, UNTIL_ST, (s64)(t + d), [&](L& l) { return l.try_lock_until(st_at(t + d)); }, "try_lock_until(steady)"); return; case 6: acquiring(x, UNTIL_SY, (s64)(r + d), [&](L& l) { return l.try_lock_until(sy_at(r + d)); }, "try_lock_until(system)"); return;
#ifdef BOOST_THREAD_USES_DATETIME
  default: if constexpr (ModeOf<L>::m != G) { if (k == 7) { boost::system_time a = pt_at((s64)(r + d)); acquiring(x, TL_ABS, (s64)(r + d) / 1000, [&](L& l) { return l.timed_lock(a); }, "timed_lock(absolute)"); return; } if constexpr (ModeOf<L>::m == X) if (sim::choose(3) == 0) { boost::xtime xt; xt.sec = (s64)(r + d) / (s64)SEC; xt.nsec = (s64)(r + d) % (s64)SEC; acquiring(x, TL_XT, (s64)(r + d) / 1000, [&](L& l) { return l.timed_lock(xt); }, "timed_lock(xtime)"); return; } boost::posix_time::time_duration pd = pd_of((s64)d); acquiring(x, TL_REL, (s64)d / 1000, [&](L& l) { return l.timed_lock(pd); }, "timed_lock(relative)"); return; }
#endif
  } disarm(); }
template<class L> void Hands::construct_timed(Slot<L>& x, Lk& m, u32 k, u64 d) { u64 t = sim_now(), r = sim_now_real() / 1000 * 1000; switch (k) { case 4: constructed(x, m, FOR, (s64)d, true, [&] { return L(m, nsd((s64)d)); }, "construction with a duration"); return; case 5: constructed(x, m, UNTIL_ST, (s64)(t + d), true, [&] { return L(m, st_at(t + d)); }, "construction with a steady time point"); return; case 6: constructed(x, m, UNTIL_SY, (s64)(r + d), true, [&] { return L(m, sy_at(r + d)); }, "construction with a system time point"); return;
#ifdef BOOST_THREAD_USES_DATETIME
  default: if constexpr (ModeOf<L>::m != G) { if (ModeOf<L>::m == S || sim::flip()) { boost::system_time a = pt_at((s64)(r + d)); constructed(x, m, TL_ABS, (s64)(r + d) / 1000, true, [&] { return L(m, a); }, "construction with a system_time"); return; } if constexpr (ModeOf<L>::m == X) { boost::posix_time::time_duration pd = pd_of((s64)d); constructed(x, m, TL_REL, (s64)d / 1000, true, [&] { return L(m, pd); }, "construction with a time_duration"); return; } }
#endif
  } disarm(); }
static void run(bool real, u32 threads, u32 steps, u32 faults) { World w(real); sim::Threads t; for (u32 i = 0; i < threads; i++) t.go([&] { Hands h(w, faults); u32 n = sim::range(1, steps); for (u32 k = 0; k < n; k++) h.step(); if (sim::choose(4) == 0) h.finish(); }); t.join(); for (auto& l : w.k) { sim::Quiet q; for (int k = 1; k < 4; k++) SIM_CHECK(l.own[k] == 0, "leak", "lockable %u is left owned (%s) by destroyed lock objects", l.id, mode_name[k]); } if (real) for (auto& l : w.k) { SIM_CHECK(l.m.try_lock(), "leak", "lockable %u cannot be acquired at the end", l.id); l.m.unlock(); } }
SCENARIO(alone, 4) { run(false, 1, 60, 0); }
SCENARIO(alone_throwing, 4) { run(false, 1, 60, 4); }
SCENARIO(contended, 4) { run(true, sim::range(2, 3), 14, 0); }
SCENARIO(contended_throwing, 3) { run(true, sim::range(2, 3), 14, 6); }

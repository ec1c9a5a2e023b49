// C27 Multi-lock algorithms: all or nothing, without deadlock.
#include <list>
#include <vector>
#include "locks.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>

struct Mine { u32 throw_in, tries, locks, last_failed; bool only_try; };
struct Book { Mine mine[64]; u32 held[8]; static Book& get() { static Book b; return b; } Mine& me() { return mine[sim_self() & 63]; } };
// a lockable of one of several kinds that keeps a record; it throws when told to
struct Any {
  u32 id, kind; boost::mutex m; boost::timed_mutex t; boost::recursive_mutex r; boost::shared_mutex s; boost::recursive_timed_mutex rt; Flag owner; u32 data; Any() : id(0), kind(sim::choose(5)), data(0) {}
  void op() { Mine& me = Book::get().me(); bool boom; { sim::Quiet q; boom = me.throw_in && !--me.throw_in; } if (boom) { sim_count_fault(SF_USER); throw Boom((int)id); } }
  void got() { SIM_CHECK(owner.get() == 0, "exclusion", "lock %u is owned twice", id); owner.set(sim_self() + 1); }
  void lock() { { sim::Quiet q; Mine& me = Book::get().me(); SIM_CHECK(!me.only_try, "blocks", "try_lock calls lock"); me.locks++; } op(); switch (kind) { case 0: m.lock(); break; case 1: t.lock(); break; case 2: r.lock(); break; case 3: s.lock(); break; default: rt.lock(); } got(); }
  bool try_lock() { { sim::Quiet q; Book::get().me().tries++; } op(); bool y; switch (kind) { case 0: y = m.try_lock(); break; case 1: y = t.try_lock(); break; case 2: y = r.try_lock(); break; case 3: y = s.try_lock(); break; default: y = rt.try_lock(); } if (y) got(); else { sim::Quiet q; Book::get().me().last_failed = id; } return y; }
  void unlock() { SIM_CHECK(owner.get() == sim_self() + 1, "unlock", "lock %u is unlocked by a thread that does not own it", id); owner.set(0); switch (kind) { case 0: m.unlock(); break; case 1: t.unlock(); break; case 2: r.unlock(); break; case 3: s.unlock(); break; default: rt.unlock(); } }
  bool mine() const { return owner.get() == sim_self() + 1; }
};
struct Ref { Any* p; Ref(Any* x = 0) : p(x) {} void lock() { p->lock(); } bool try_lock() { return p->try_lock(); } void unlock() { p->unlock(); } };
struct Locks { Any a[6]; Locks() { for (u32 i = 0; i < 6; i++) a[i].id = i; } };
typedef boost::unique_lock<Any> U;
// the distinct locks a call is about, in its own order
struct Pick { u32 n; Any* p[5]; };
static Pick pick(Locks& L, u32 lo, u32 hi, u32 of) { sim::Quiet q; Pick k; k.n = sim::range(lo, hi); u32 left[6], m = of; for (u32 i = 0; i < of; i++) left[i] = i; if (k.n > of) k.n = of; for (u32 i = 0; i < k.n; i++) { u32 c = sim::choose(m); k.p[i] = &L.a[left[c]]; left[c] = left[--m]; } return k; }
static void holds(Pick const& k, bool all, const char* what) { for (u32 i = 0; i < k.n; i++) SIM_CHECK(k.p[i]->mine() == all, all ? "all" : "nothing", "%s: lock %u is %s", what, k.p[i]->id, all ? "not held" : "still held"); }
static void critical(Pick const& k) { for (u32 i = 0; i < k.n; i++) k.p[i]->data++; dwell(); for (u32 i = 0; i < k.n; i++) k.p[i]->data++; }
static void leave(Pick const& k) { u32 f = sim::choose(k.n); for (u32 i = 0; i < k.n; i++) k.p[(i + f) % k.n]->unlock(); }
// the forms: arguments, ranges over vector, list and array, deferred unique_locks
static const u32 FORMS = 6;
template<class F> static void adopt(Pick const& k, F cs) { U l[5]; for (u32 i = 0; i < k.n; i++) l[i] = U(*k.p[i], boost::adopt_lock); cs(); }
template<class F> static bool do_lock(Pick const& k, u32 form, F cs) {
  try {
    switch (form) {
      case 0: switch (k.n) { case 2: boost::lock(*k.p[0], *k.p[1]); break; case 3: boost::lock(*k.p[0], *k.p[1], *k.p[2]); break; case 4: boost::lock(*k.p[0], *k.p[1], *k.p[2], *k.p[3]); break; default: boost::lock(*k.p[0], *k.p[1], *k.p[2], *k.p[3], *k.p[4]); } holds(k, true, "lock"); if (sim::flip()) adopt(k, cs); else { cs(); leave(k); } return true;
      case 1: { std::vector<Ref> v(k.p, k.p + k.n); std::vector<Ref>::iterator b = v.begin(), e = v.end(); std::vector<Ref>::iterator const cb = b, ce = e; switch (sim::choose(5)) { case 0: boost::lock(v.begin(), v.end()); break; case 1: boost::lock(b, e); break; case 2: boost::lock(cb, e); break; case 3: boost::lock(b, ce); break; default: boost::lock(cb, ce); } holds(k, true, "lock(range)"); cs(); leave(k); return true; }
      case 2: { std::list<Ref> v(k.p, k.p + k.n); boost::lock(v.begin(), v.end()); holds(k, true, "lock(range)"); cs(); leave(k); return true; }
      case 3: { U l[5]; for (u32 i = 0; i < k.n; i++) l[i] = U(*k.p[i], boost::defer_lock); U *lb = l, *le = l + k.n; boost::lock(lb, le); holds(k, true, "lock(unique_locks)"); for (u32 i = 0; i < k.n; i++) OWN(l[i], true); cs(); return true; }
      case 4: { U l[5]; for (u32 i = 0; i < k.n; i++) l[i] = U(*k.p[i], boost::defer_lock); try { switch (k.n) { case 2: boost::lock(l[0], l[1]); break; case 3: boost::lock(l[0], l[1], l[2]); break; case 4: boost::lock(l[0], l[1], l[2], l[3]); break; default: boost::lock(l[0], l[1], l[2], l[3], l[4]); } } catch (...) { for (u32 i = 0; i < k.n; i++) OWN(l[i], false); throw; } holds(k, true, "lock(unique_locks)"); for (u32 i = 0; i < k.n; i++) OWN(l[i], true); cs(); return true; }
      default: switch (k.n) { case 2: { std::tuple<U, U> l = boost::make_unique_locks(*k.p[0], *k.p[1]); OWN(std::get<0>(l), true); OWN(std::get<1>(l), true); SIM_CHECK(std::get<0>(l).mutex() == k.p[0] && std::get<1>(l).mutex() == k.p[1], "locks", "make_unique_locks mixes its mutexes up"); holds(k, true, "make_unique_locks"); cs(); break; } case 3: { std::tuple<U, U, U> l = boost::make_unique_locks(*k.p[0], *k.p[1], *k.p[2]); holds(k, true, "make_unique_locks"); cs(); break; } case 4: { std::tuple<U, U, U, U> l = boost::make_unique_locks(*k.p[0], *k.p[1], *k.p[2], *k.p[3]); holds(k, true, "make_unique_locks"); cs(); break; } default: { std::tuple<U, U, U, U, U> l = boost::make_unique_locks(*k.p[0], *k.p[1], *k.p[2], *k.p[3], *k.p[4]); holds(k, true, "make_unique_locks"); cs(); break; } } return true;
    }
  } catch (Boom&) { holds(k, false, "a throwing lock"); return false; } }
// -1: all are held; otherwise the position that failed
static int do_try(Pick const& k, u32 form) { switch (form) {
  case 0: switch (k.n) { case 2: return boost::try_lock(*k.p[0], *k.p[1]); case 3: return boost::try_lock(*k.p[0], *k.p[1], *k.p[2]); case 4: return boost::try_lock(*k.p[0], *k.p[1], *k.p[2], *k.p[3]); default: return boost::try_lock(*k.p[0], *k.p[1], *k.p[2], *k.p[3], *k.p[4]); }
  case 1: { std::vector<Ref> v(k.p, k.p + k.n); std::vector<Ref>::iterator b = v.begin(), e = v.end(), r; std::vector<Ref>::iterator const cb = b, ce = e; switch (sim::choose(5)) { case 0: r = boost::try_lock(v.begin(), v.end()); break; case 1: r = boost::try_lock(b, e); break; case 2: r = boost::try_lock(cb, e); break; case 3: r = boost::try_lock(b, ce); break; default: r = boost::try_lock(cb, ce); } return r == v.end() ? -1 : (int)(r - v.begin()); }
  case 2: { std::list<Ref> v(k.p, k.p + k.n); std::list<Ref>::iterator r = boost::try_lock(v.begin(), v.end()); return r == v.end() ? -1 : (int)std::distance(v.begin(), r); }
  default: { U l[5]; for (u32 i = 0; i < k.n; i++) l[i] = U(*k.p[i], boost::defer_lock); int r; if (form == 3) { U *lb = l, *le = l + k.n; U* x = boost::try_lock(lb, le); r = x == le ? -1 : (int)(x - l); } else switch (k.n) { case 2: r = boost::try_lock(l[0], l[1]); break; case 3: r = boost::try_lock(l[0], l[1], l[2]); break; case 4: r = boost::try_lock(l[0], l[1], l[2], l[3]); break; default: r = boost::try_lock(l[0], l[1], l[2], l[3], l[4]); } for (u32 i = 0; i < k.n; i++) { OWN(l[i], r < 0); if (r < 0) l[i].release(); } return r; } } }
static int tried(Pick const& k, u32 form, bool& threw) { Mine& me = Book::get().me(); { sim::Quiet q; me.only_try = true; me.last_failed = 99; } int r; threw = false; try { r = do_try(k, form); } catch (Boom&) { threw = true; r = 99; } { sim::Quiet q; me.only_try = false; } if (threw) { holds(k, false, "a throwing try_lock"); return r; } SIM_CHECK(r >= -1 && r < (int)k.n, "result", "try_lock returned %d for %u locks", r, k.n); holds(k, r < 0, "try_lock"); if (r >= 0) SIM_CHECK(k.p[r]->id == me.last_failed, "result", "try_lock names lock %u, lock %u failed", k.p[r]->id, me.last_failed); return r; }
static void arm(bool boom) { sim::Quiet q; Book::get().me().throw_in = boom ? (sim::choose(3) ? 0 : sim::range(1, 6)) : 0; }
static void one_op(Locks& L, u32 of, u32 tries, bool boom) { u32 what = sim::choose(10);
  if (what == 0) { Any& x = L.a[sim::choose(of)]; arm(false); x.lock(); x.data++; dwell(); x.unlock(); return; }
  if (what <= tries) { u32 form = sim::choose(5); Pick k = pick(L, form == 0 || form == 4 ? 2 : 0, 5, of); arm(boom); bool threw; int r = tried(k, form, threw); arm(false); if (r == -1 && k.n) { critical(k); leave(k); } return; }
  u32 form = sim::choose(FORMS); Pick k = pick(L, form == 1 || form == 2 || form == 3 ? 1 : 2, 5, of); arm(boom); bool did = do_lock(k, form, [&] { critical(k); }); { sim::Quiet q; if (!did) SIM_CHECK(boom, "threw", "lock threw"); } arm(false); }
static void mixed(u32 tries, bool boom) { Locks L; u32 of = sim::range(2, 5), n = sim::range(2, 4); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([&] { u32 ops = sim::range(1, 4); for (u32 o = 0; o < ops; o++) { one_op(L, of, tries, boom); if (sim::choose(3) == 0) nap(); } }); t.join(); for (u32 i = 0; i < 6; i++) { SIM_CHECK(L.a[i].owner.get() == 0, "nothing", "lock %u is still held at the end", i); SIM_CHECK(L.a[i].try_lock(), "free", "lock %u cannot be acquired at the end", i); L.a[i].unlock(); } }
SCENARIO(lock_only, 4) { mixed(0, false); }
SCENARIO(lock_and_try, 4) { mixed(4, false); }
SCENARIO(throwing, 4) { mixed(3, true); }
// some are held for good: try_lock names one of those, and takes all when there are none
SCENARIO(try_held, 3) { Locks L; u32 held = 0; for (u32 i = 0; i < 5; i++) if (sim::choose(3) == 0) held |= 1u << i; Flag go; sim::Threads t; t.go([&] { for (u32 i = 0; i < 5; i++) if (held >> i & 1) L.a[i].lock(); go.await(); for (u32 i = 0; i < 5; i++) if (held >> i & 1) L.a[i].unlock(); }); sim_settle(); for (u32 o = 0; o < 3; o++) { u32 form = sim::choose(5); Pick k = pick(L, form == 0 || form == 4 ? 2 : 0, 5, 5); bool threw; int r = tried(k, form, threw); u32 in = 0; for (u32 i = 0; i < k.n; i++) in |= 1u << k.p[i]->id; if (r < 0) { SIM_CHECK(!(in & held), "all", "try_lock took a lock that is held"); if (k.n) leave(k); } else SIM_CHECK(held >> k.p[r]->id & 1, "result", "try_lock could not get a free lock"); } go.set(); t.join(); }
// different types in one call, exclusive and shared
template<class A, class B, class C, class D> static void kinds() { struct S { A a; B b; C c; D d; int n; S() : n(0) {} }; S* s = new S; sim::Threads t; u32 n = sim::range(2, 3); for (u32 i = 0; i < n; i++) t.go([s] { u32 ops = sim::range(1, 3); for (u32 o = 0; o < ops; o++) { nap(); switch (sim::choose(9)) { case 0: boost::lock(s->a, s->b, s->c, s->d); break; case 1: boost::lock(s->d, s->c, s->b, s->a); break; case 2: boost::lock(s->b, s->d, s->a, s->c); break;
      case 3: { boost::unique_lock<A> la(s->a, boost::defer_lock); boost::lock(s->c, la, s->b, s->d); la.release(); break; } case 4: if (boost::try_lock(s->a, s->c, s->b, s->d) != -1) continue; break; case 5: if (boost::try_lock(s->d, s->a, s->b, s->c) != -1) continue; break;
      case 6: { boost::lock(s->a, s->b); dwell(); s->b.unlock(); s->a.unlock(); continue; } case 7: { boost::lock(s->d, s->a, s->c); dwell(); s->c.unlock(); s->a.unlock(); s->d.unlock(); continue; } default: { std::tuple<boost::unique_lock<C>, boost::unique_lock<A>, boost::unique_lock<D> > l = boost::make_unique_locks(s->c, s->a, s->d); dwell(); continue; } }
      int v = s->n; dwell(); SIM_CHECK(s->n == v, "exclusion", "two threads hold all the locks"); s->n = v + 1; s->a.unlock(); s->b.unlock(); s->c.unlock(); s->d.unlock(); } }); t.join(); delete s; }
SCENARIO(kinds_1, 1) { kinds<boost::mutex, boost::timed_mutex, boost::recursive_mutex, boost::shared_mutex>(); }
SCENARIO(kinds_2, 1) { kinds<boost::shared_mutex, boost::recursive_timed_mutex, boost::mutex, boost::upgrade_mutex>(); }
// shared locks among them: readers of one share it, a writer of all excludes them
SCENARIO(shared, 2) { struct S { boost::shared_mutex a, b; int x, y; S() : x(0), y(0) {} }; S* s = new S; sim::Threads t; u32 n = sim::range(2, 4); for (u32 i = 0; i < n; i++) t.go([s] { u32 ops = sim::range(1, 3); for (u32 o = 0; o < ops; o++) { nap(); boost::shared_lock<boost::shared_mutex> ra(s->a, boost::defer_lock), rb(s->b, boost::defer_lock); boost::unique_lock<boost::shared_mutex> wa(s->a, boost::defer_lock), wb(s->b, boost::defer_lock);
      switch (sim::choose(4)) { case 0: boost::lock(ra, rb); SIM_CHECK(ra.owns_lock() && rb.owns_lock(), "all", "a lock is missing"); SIM_CHECK(s->x == s->y, "exclusion", "a writer is at work"); dwell(); SIM_CHECK(s->x == s->y, "exclusion", "a writer is at work"); break; case 1: boost::lock(wb, wa); SIM_CHECK(wa.owns_lock() && wb.owns_lock(), "all", "a lock is missing"); s->x++; dwell(); s->y++; break; case 2: { boost::lock(rb, wa); SIM_CHECK(wa.owns_lock() && rb.owns_lock(), "all", "a lock is missing"); int v = s->y; s->x++; dwell(); SIM_CHECK(s->y == v, "exclusion", "a writer is at work"); s->x--; break; } default: if (boost::try_lock(wa, rb) == -1) { SIM_CHECK(wa.owns_lock() && rb.owns_lock(), "all", "a lock is missing"); s->x++; dwell(); s->x--; } else SIM_CHECK(!wa.owns_lock() && !rb.owns_lock(), "nothing", "a lock is still held"); } } }); t.join(); delete s; }
// a call with mutexes that other calls name with them in a circle
SCENARIO(circle, 2) { Locks L; u32 n = sim::range(2, 5); sim::Threads t; for (u32 i = 0; i < n; i++) t.go([&L, i, n] { u32 ops = sim::range(1, 3); for (u32 o = 0; o < ops; o++) { Pick k; k.n = 2; k.p[0] = &L.a[i]; k.p[1] = &L.a[(i + 1) % n]; do_lock(k, sim::choose(FORMS), [&] { critical(k); }); } }); t.join(); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(6, 40); std::vector<boost::mutex> ms(n); u32 sum = 0; Flag inside; sim::Threads th; for (u32 t = 0; t < 3; t++) th.go([&, t] { for (u32 k = 0; k < 2; k++) { std::vector<boost::unique_lock<boost::mutex> > v; for (u32 i = 0; i < n; i++) v.push_back(boost::unique_lock<boost::mutex>(ms[t == 1 ? n - 1 - i : (i * (n % 3 ? 3 : 1) + t) % n], boost::defer_lock)); if (sim::flip()) boost::lock(v.begin(), v.end()); else { std::vector<boost::unique_lock<boost::mutex> >::iterator it = boost::try_lock(v.begin(), v.end()); if (it != v.end()) { for (u32 i = 0; i < n; i++) SIM_CHECK(!v[i].owns_lock(), "nothing", "lockable %u is held after a failed try_lock", i); continue; } } for (u32 i = 0; i < n; i++) SIM_CHECK(v[i].owns_lock(), "all", "lockable %u of %u is not held", i, n); inside.add(); SIM_CHECK(inside.get() == 1, "exclusion", "two threads hold the same locks"); sum++; dwell(); inside.add(-1); } }); th.join(); for (u32 i = 0; i < n; i++) { SIM_CHECK(ms[i].try_lock(), "all", "mutex %u is still locked", i); ms[i].unlock(); } }

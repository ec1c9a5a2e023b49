// C32 Lockable adapters, polymorphic lockables and testable_mutex: the guarantees of the wrapped mutex.
#include "shm.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/poly_lockable_adapter.hpp>
#include <boost/thread/poly_shared_lockable_adapter.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/v2/shared_mutex.hpp>

static u64 to32() { static const u64 t[] = {0, 1 * US, 50 * US, 1 * MS, 5 * MS, 30 * MS, 6 * SEC, 3600 * SEC, 86400 * 400 * SEC}; return t[sim::choose(9)]; }
// The operations of one kind of ownership on something with the interface of M (level 1: lock/try, 2: timed, 3: shared, 4: upgrade).
template<class M> struct KX { typedef boost::unique_lock<M> L; static const char* n() { return "exclusive"; } static void blk(M& m) { m.lock(); } static bool tr(M& m) { return m.try_lock(); } static void un(M& m) { m.unlock(); }
  template<class D> static bool fr(M& m, D d) { return m.try_lock_for(d); } template<class T> static bool un_til(M& m, T t) { return m.try_lock_until(t); } };
template<class M> struct KS { typedef boost::shared_lock<M> L; static void blk(M& m) { m.lock_shared(); } static bool tr(M& m) { return m.try_lock_shared(); } static void un(M& m) { m.unlock_shared(); }
  template<class D> static bool fr(M& m, D d) { return m.try_lock_shared_for(d); } template<class T> static bool un_til(M& m, T t) { return m.try_lock_shared_until(t); } };
template<class M> struct KU { typedef boost::upgrade_lock<M> L; static void blk(M& m) { m.lock_upgrade(); } static bool tr(M& m) { return m.try_lock_upgrade(); } static void un(M& m) { m.unlock_upgrade(); }
  template<class D> static bool fr(M& m, D d) { return m.try_lock_upgrade_for(d); } template<class T> static bool un_til(M& m, T t) { return m.try_lock_upgrade_until(t); } };

template<class M> static void own_told(M&, bool) {}
template<class M> static void own_told(boost::testable_mutex<M>& m, bool mine) { SIM_CHECK(m.is_locked_by_this_thread() == mine, "told", "is_locked_by_this_thread() is %d for a thread that does %sown the mutex", (int)!mine, mine ? "" : "not "); }
template<class M, int LV> struct Ad {
  M& m; RW o; bool nostall = false, probe = false;
  explicit Ad(M& x) : m(x) {}
  void idle_of(char k, bool& idle, u64& e0) { sim::Quiet q; idle = k == 'x' ? o.wall == 0 : k == 'u' ? o.wx == 0 && o.wu == 0 : o.wx == 0; o.want(k); e0 = k == 'x' ? o.eall : k == 'u' ? o.ex + o.eu : o.ex; }
  bool same(char k, u64 e0) { sim::Quiet q; return e0 == (k == 'x' ? o.eall : k == 'u' ? o.ex + o.eu : o.ex); }
  void failed(char k, bool idle, u64 e0, const char* w) { sim_probe("a try failed"); SIM_CHECK(!(idle && same(k, e0)), "try-fails", "%s (%c) failed though nobody incompatible owned or wanted the lockable", w, k); }
  template<class K> void timed(char k, std::true_type) {
    bool idle; u64 e0; idle_of(k, idle, e0); DL dl; u64 d = to32(), t = sim_now(), r = sim_now_real() / 1000 * 1000; bool ok; boost::chrono::nanoseconds ns = nsd(d); Tag g("timed");
    auto in = [&] { if (nostall) check_not_late(dl, "a timed acquisition"); body(k); };
    switch (sim::choose(6)) {
      case 0: dl = DL::mono(t + d); ok = K::fr(m, ns); if (ok) { in(); K::un(m); } break;
      case 1: dl = DL::mono(t + d); ok = K::un_til(m, st_at(t + d)); if (ok) { in(); K::un(m); } break;
      case 2: dl = DL::sys(r + d); ok = K::un_til(m, sy_at(r + d)); if (ok) { in(); K::un(m); } break;
      case 3: { dl = DL::mono(t + d); typename K::L l(m, st_at(t + d)); ok = l.owns_lock(); if (ok) in(); break; }
      case 4: { dl = DL::mono(t + d); typename K::L l(m, boost::defer_lock); ok = l.try_lock_for(ns); OWN(l, ok); if (ok) in(); break; }
      default: { dl = DL::sys(r + d); typename K::L l(m, boost::defer_lock); ok = l.try_lock_until(sy_at(r + d)); OWN(l, ok); if (ok) in(); } }
    if (!ok) { check_timeout(dl, "a timed acquisition"); failed(k, idle, e0, "a timed acquisition"); if (nostall) { check_not_late(dl, "a timed acquisition"); SIM_CHECK(d < 3600 * SEC, "missed-unlock", "a timed acquisition (%c) timed out although the lockable had been released long before", k); } }
    o.unwant(k); }
  template<class K> void timed(char k, std::false_type) { tryone<K>(k); }
  template<class K> void tryone(char k) { bool idle; u64 e0; idle_of(k, idle, e0); u64 t0 = sim_now(), t1; bool ok; Tag g("try");
    switch (sim::choose(3)) {
      case 0: ok = K::tr(m); t1 = sim_now(); if (ok) { body(k); K::un(m); } break;
      case 1: { typename K::L l(m, boost::try_to_lock); t1 = sim_now(); ok = l.owns_lock(); if (ok) body(k); break; }
      default: { typename K::L l(m, boost::defer_lock); ok = l.try_lock(); t1 = sim_now(); OWN(l, ok); if (ok) body(k); } }
    if (nostall) SIM_CHECK(t1 - t0 < 20 * MS, "try-blocks", "a try acquisition (%c) took %llu ns", k, (unsigned long long)(t1 - t0));
    if (!ok) failed(k, idle, e0, "a try acquisition"); o.unwant(k); }
  template<class K> void op(char k) { own_told(m, false); u32 w = sim::choose(5); if (w >= 2) { if (w == 2) tryone<K>(k); else timed<K>(k, std::integral_constant<bool, (LV >= 2)>()); return; }
    o.want(k); { Tag g(k == 'x' ? "lock" : k == 's' ? "lock_shared" : "lock_upgrade"); switch (sim::choose(3)) { case 0: K::blk(m); body(k); K::un(m); break; case 1: { typename K::L l(m); OWN(l, true); body(k); break; } default: { typename K::L l(m, boost::defer_lock); l.lock(); OWN(l, true); body(k); l.unlock(); OWN(l, false); } } } o.unwant(k); }
  void body(char k) { o.ent(k); own_told(m, true); if (sim::choose(12) == 0) sim_sleep_ns(10 * SEC); if (LV >= 4 && sim::choose(3) == 0) { char b = k; convert(b, std::integral_constant<bool, (LV >= 4)>()); return; } o.use(k); o.lea(k); }
  // keeps ownership `k`, gives it up for others and comes back to it
  void convert(char, std::false_type) {}
  u64 version() { sim::Quiet q; return o.ver; }
  void unchanged(u64 v, const char* w) { SIM_CHECK(v == version(), "conversion", "the data was changed by somebody else during %s", w); }
  template<class F, class T1, class T2> bool dated(F f, T1, T2, char from, char to) { u64 d = sim::range(0, 3) * MS, t = sim_now(), r = sim_now_real() / 1000 * 1000; DL dl; bool ok; o.lea(from); switch (sim::choose(3)) { case 0: dl = DL::mono(t + d); ok = f(0, nsd(d), st_at(0), sy_at(0)); break; case 1: dl = DL::mono(t + d); ok = f(1, nsd(0), st_at(t + d), sy_at(0)); break; default: dl = DL::sys(r + d); ok = f(2, nsd(0), st_at(0), sy_at(r + d)); } o.ent(ok ? to : from); if (!ok) check_timeout(dl, "a timed conversion"); if (nostall) check_not_late(dl, "a timed conversion"); return ok; }
  struct Want { RW& o; char k; Want(RW& a, char b) : o(a), k(b) { o.want(k); } ~Want() { o.unwant(k); } };
  void convert(char k, std::true_type) { Tag g("conversion"); u64 v = version(); Want w1(o, 'x'), w2(o, 'u');
    if (k == 'x') { o.use('x'); v = version(); o.lea('x'); if (sim::flip()) { m.unlock_and_lock_shared(); o.ent('s'); unchanged(v, "unlock_and_lock_shared"); o.use('s'); o.lea('s'); m.unlock_shared(); m.lock(); o.ent('x'); } else { m.unlock_and_lock_upgrade(); o.ent('u'); unchanged(v, "unlock_and_lock_upgrade"); o.use('u'); o.lea('u'); m.unlock_upgrade_and_lock(); o.ent('x'); unchanged(v, "unlock_upgrade_and_lock"); } o.use('x'); o.lea('x'); return; }
    if (k == 'u') { o.use('u'); switch (sim::choose(3)) {
        case 0: o.lea('u'); m.unlock_upgrade_and_lock_shared(); o.ent('s'); unchanged(v, "unlock_upgrade_and_lock_shared"); o.use('s'); o.lea('s'); m.unlock_shared(); m.lock_upgrade(); o.ent('u'); break;
        case 1: { o.lea('u'); bool ok = m.try_unlock_upgrade_and_lock(); o.ent(ok ? 'x' : 'u'); unchanged(v, "try_unlock_upgrade_and_lock"); if (ok) { o.use('x'); o.lea('x'); m.unlock_and_lock_upgrade(); o.ent('u'); } break; }
        default: { bool ok = dated([&](int w, boost::chrono::nanoseconds n, StC::time_point a, SyC::time_point b) { return w == 0 ? m.try_unlock_upgrade_and_lock_for(n) : w == 1 ? m.try_unlock_upgrade_and_lock_until(a) : m.try_unlock_upgrade_and_lock_until(b); }, 0, 0, 'u', 'x'); unchanged(v, "try_unlock_upgrade_and_lock_for/until"); if (ok) { o.use('x'); o.lea('x'); m.unlock_and_lock_upgrade(); o.ent('u'); } } }
      o.use('u'); o.lea('u'); return; }
    o.use('s'); char got = 's'; switch (sim::choose(4)) {
      case 0: { o.lea('s'); bool ok = m.try_unlock_shared_and_lock(); got = ok ? 'x' : 's'; o.ent(got); break; }
      case 1: { o.lea('s'); bool ok = m.try_unlock_shared_and_lock_upgrade(); got = ok ? 'u' : 's'; o.ent(got); break; }
      case 2: { bool ok = dated([&](int w, boost::chrono::nanoseconds n, StC::time_point a, SyC::time_point b) { return w == 0 ? m.try_unlock_shared_and_lock_for(n) : w == 1 ? m.try_unlock_shared_and_lock_until(a) : m.try_unlock_shared_and_lock_until(b); }, 0, 0, 's', 'x'); got = ok ? 'x' : 's'; break; }
      default: { bool ok = dated([&](int w, boost::chrono::nanoseconds n, StC::time_point a, SyC::time_point b) { return w == 0 ? m.try_unlock_shared_and_lock_upgrade_for(n) : w == 1 ? m.try_unlock_shared_and_lock_upgrade_until(a) : m.try_unlock_shared_and_lock_upgrade_until(b); }, 0, 0, 's', 'u'); got = ok ? 'u' : 's'; } }
    if (got != 's') unchanged(v, "a conversion from shared ownership"); o.use(got); o.lea(got);
    // back to shared ownership, which the caller gives up
    if (got == 'x') m.unlock_and_lock_shared(); else if (got == 'u') m.unlock_upgrade_and_lock_shared(); }
  template<int X> struct Lv {};
  template<class Q> void any(Q*, std::integral_constant<int, 1>) { op<KX<M> >('x'); }
  template<class Q> void any(Q*, std::integral_constant<int, 3>) { if (sim::flip()) op<KX<M> >('x'); else op<KS<M> >('s'); }
  template<class Q> void any(Q*, std::integral_constant<int, 4>) { switch (sim::choose(3)) { case 0: op<KX<M> >('x'); break; case 1: op<KS<M> >('s'); break; default: op<KU<M> >('u'); } }
  void run() { nostall = sim::flip(); sim_faults(nostall ? NOSTALL : SIM_DEFAULT_FAULTS); u32 nt = sim::range(2, 4), no = sim::range(1, 4); sim::Threads t;
    for (u32 i = 0; i < nt; i++) t.go([this, no] { for (u32 k = 0; k < no; k++) { any((int*)0, std::integral_constant<int, LV == 4 ? 4 : LV == 3 ? 3 : 1>()); if (sim::choose(3) == 0) nap(); } });
    t.join(); SIM_CHECK(m.try_lock(), "leftover", "the lockable is not free after everyone released it"); m.unlock(); }
};
template<class A, int LV> static void direct() { A a; Ad<A, LV> s(a); s.run(); }
template<class A, class B, int LV> static void through() { A a; B& b = a; Ad<B, LV> s(b); s.run(); }
typedef boost::thread_v2::upgrade_mutex UM;
struct LA : boost::lockable_adapter<boost::mutex> {}; struct TA : boost::timed_lockable_adapter<boost::timed_mutex> {}; struct SA : boost::shared_lockable_adapter<boost::shared_mutex> {}; struct UA : boost::upgrade_lockable_adapter<UM> {};
struct PL : boost::poly_lockable_adapter<boost::mutex> {}; struct PT : boost::poly_timed_lockable_adapter<boost::timed_mutex> {}; struct PS : boost::poly_shared_lockable_adapter<boost::shared_mutex> {}; struct PU : boost::poly_upgrade_lockable_adapter<UM, boost::poly_upgrade_lockable> {};
SCENARIO(adapter, 1) { direct<LA, 1>(); }
SCENARIO(timed_adapter, 2) { direct<TA, 2>(); }
SCENARIO(shared_adapter, 2) { direct<SA, 3>(); }
SCENARIO(upgrade_adapter, 5) { direct<UA, 4>(); }
SCENARIO(poly_adapter, 1) { through<PL, boost::poly_lockable, 1>(); }
SCENARIO(poly_timed, 2) { through<PT, boost::poly_timed_lockable, 2>(); }
SCENARIO(poly_shared, 2) { through<PS, boost::poly_shared_lockable, 3>(); }
SCENARIO(poly_upgrade, 5) { through<PU, boost::poly_upgrade_lockable, 4>(); }
SCENARIO(testable, 2) { if (sim::flip()) direct<boost::testable_mutex<boost::timed_mutex>, 2>(); else direct<boost::testable_mutex<boost::mutex>, 1>(); }

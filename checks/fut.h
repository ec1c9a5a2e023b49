// Value types and result bookkeeping shared by the future harnesses.
#ifndef CHECKS_FUT_H
#define CHECKS_FUT_H
#if !defined BOOST_THREAD_VERSION || BOOST_THREAD_VERSION < 3
#define BOOST_THREAD_PROVIDES_FUTURE
#endif
#include "common.h"
#include <memory>
#include <vector>
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/optional.hpp>

static const u32 NID = 24;
struct Ex { int id; };
// A value that knows whether it was moved from or destroyed; its copy constructor can throw.
struct Cp { int id; u32 magic; static int& armed() { static int a[64]; return a[sim_self() & 63]; } // per thread
  explicit Cp(int i = -1) : id(i), magic(0xC0FFEE) {} Cp(int a, int b) : id(a + b), magic(0xC0FFEE) {}
  Cp(Cp const& o) : id(o.id), magic(o.magic) { bool thr = false; { sim::Quiet q; if (armed() > 0 && --armed() == 0) thr = true; } o.live(); if (thr) { magic = 0; throw Boom(77); } }
  Cp(Cp&& o) : id(o.id), magic(o.magic) { o.live(); o.id = -2; }
  Cp& operator=(Cp const& o) { o.live(); id = o.id; return *this; } Cp& operator=(Cp&& o) { o.live(); id = o.id; o.id = -2; return *this; }
  ~Cp() { if (magic) live(); magic = 0xDEAD; } void live() const { SIM_CHECK(magic == 0xC0FFEE, "dead-value", "a destroyed value is used"); } };
struct Mv { int id; u32 magic; std::unique_ptr<int> p; explicit Mv(int i = -1) : id(i), magic(0xC0FFEE), p(new int(i)) {} Mv(int a, int b) : id(a + b), magic(0xC0FFEE), p(new int(a + b)) {}
  Mv(Mv&& o) noexcept : id(o.id), magic(o.magic), p(std::move(o.p)) { o.id = -2; } Mv& operator=(Mv&& o) noexcept { id = o.id; p = std::move(o.p); o.id = -2; return *this; } ~Mv() { magic = 0xDEAD; }
  void live() const { SIM_CHECK(magic == 0xC0FFEE && (id == -2 || (p && *p == id)), "dead-value", "a destroyed value is used"); } };
static Cp* targets() { static Cp t[NID]; return t; }
static void targets_init() { for (u32 i = 0; i < NID; i++) targets()[i].id = (int)i; }
template<class R> struct V;
template<> struct V<Cp> { static const bool ids = true, copy = true; static int of(Cp const& c) { c.live(); return c.id; }
  template<class P> static void set(P& p, int i, u32 form) { if (form == 0) { Cp c(i); p.set_value(c); } else if (form == 1) p.set_value(Cp(i)); else p.emplace(i - 1, 1); }
  template<class P> static void defer(P& p, int i, u32 form) { if (form & 1) { Cp c(i); p.set_value_deferred(c); } else p.set_value_deferred(Cp(i)); }
  template<class F> static int get(F& f) { Cp c(f.get()); return of(c); }
  static Cp make(int i) { return Cp(i); } };
template<> struct V<Mv> { static const bool ids = true, copy = false; static int of(Mv const& c) { c.live(); return c.id; }
  template<class P> static void set(P& p, int i, u32 form) { if (form < 2) p.set_value(Mv(i)); else p.emplace(i - 1, 1); }
  template<class P> static void defer(P& p, int i, u32) { p.set_value_deferred(Mv(i)); }
  template<class F> static int get(F& f) { return of(f.get()); }
  static Mv make(int i) { return Mv(i); } };
template<> struct V<Cp&> { static const bool ids = true, copy = true; static int of(Cp& c) { SIM_CHECK(&c >= targets() && &c < targets() + NID, "value", "a reference to something else"); return (int)(&c - targets()); }
  template<class P> static void set(P& p, int i, u32) { p.set_value(targets()[i]); }
  template<class P> static void defer(P& p, int i, u32) { p.set_value_deferred(targets()[i]); }
  template<class F> static int get(F& f) { return of(f.get()); }
  static Cp& make(int i) { return targets()[i]; } };
template<> struct V<void> { static const bool ids = false, copy = true;
  template<class P> static void set(P& p, int, u32) { p.set_value(); }
  template<class P> static void defer(P& p, int, u32) { p.set_value_deferred(); }
  template<class F> static int get(F& f) { f.get(); return -1; }
  static void make(int) {} };
// What a consumer got: a value id, an exception id, broken_promise, ...
struct Out { enum K { none, value, exc, broken, uninit, moved, other, boom, intr } k; int id; bool operator==(Out const& o) const { return k == o.k && id == o.id; } };
static const char* oname(Out::K k) { static const char* n[] = {"nothing", "value", "exception", "broken_promise", "future_uninitialized", "promise_moved", "another error", "Boom", "interrupted"}; return n[k]; }
template<class F> static Out outcome(F f) {
  try { return Out{Out::value, f()}; } catch (Ex& e) { return Out{Out::exc, e.id}; } catch (boost::broken_promise&) { return Out{Out::broken, 0}; } catch (boost::future_uninitialized&) { return Out{Out::uninit, 0}; } catch (boost::promise_moved&) { return Out{Out::moved, 0}; } catch (boost::thread_interrupted&) { return Out{Out::intr, 0}; } catch (Boom& b) { return Out{Out::boom, b.v}; } catch (boost::future_error&) { return Out{Out::other, 1}; } }
template<class R, class F> static Out take(F& f) { return outcome([&] { return V<R>::get(f); }); }
inline Out out_of(boost::exception_ptr const& e) { return outcome([&]() -> int { boost::rethrow_exception(e); return 0; }); }
// An allocator which counts the blocks it has handed out; its allocations can fail like any other.
#ifdef BOOST_THREAD_PROVIDES_FUTURE_CTOR_ALLOCATORS
static Flag arena;
template<class T> struct Arena { typedef T value_type; typedef T* pointer; typedef T const* const_pointer; typedef T& reference; typedef T const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; template<class U> struct rebind { typedef Arena<U> other; }; u32 magic;
  Arena() : magic(0xA11C) {} Arena(Arena const& o) : magic(o.magic) { ok(); } template<class U> Arena(Arena<U> const& o) : magic(o.magic) { ok(); } ~Arena() { ok(); magic = 0; } void ok() const { SIM_CHECK(magic == 0xA11C, "allocator", "a destroyed allocator is used"); }
  T* allocate(std::size_t n) { ok(); T* p = static_cast<T*>(::operator new(n * sizeof(T))); arena.add(); return p; } void deallocate(T* p, std::size_t) { ok(); arena.add(-1); ::operator delete(p); } std::size_t max_size() const { return 1u << 20; }
  template<class U> bool operator==(Arena<U> const&) const { return true; } template<class U> bool operator!=(Arena<U> const&) const { return false; } };
inline void arena_empty() { SIM_CHECK(arena.get() == 0, "allocator", "%llu blocks of the allocator given to a promise or task are left", (unsigned long long)arena.get()); }
#else
inline void arena_empty() {}
#endif
#endif

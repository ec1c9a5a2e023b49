// C18 sync_bounded_queue: linearizable, never over capacity, close wakes all.
#include "queue.h"
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/deque_views.hpp>

template<class E> struct Bounded : FormD<E, boost::sync_bounded_queue<E>, boost::sync_bounded_queue<E> > { // new and old names
  typedef boost::sync_bounded_queue<E> Q; typedef FormD<E, Q, Q> B; Q& q; Bounded(Q& x) : B(x, x), q(x) {} bool streams() const { return true; }
  int push(int k, E& e, bool rv) {
    if (k == SPUSH) { if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { q << (const E&)e; return OK; } } q << boost::move(e); return OK; }
    if (sim::flip()) return B::push(k, e, rv);
    bool ok = false; switch (k) { // the old names: closed is an exception, full or busy are false
      case PUSH: if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { q.push((const E&)e); return OK; } } q.push(boost::move(e)); return OK;
      case TPUSH: if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { ok = q.try_push((const E&)e); return ok ? OK : FULLR; } } ok = q.try_push(boost::move(e)); return ok ? OK : FULLR;
      case NPUSH: if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { ok = q.try_push(boost::no_block, (const E&)e); return ok ? OK : NOBLOCK; } } ok = q.try_push(boost::no_block, boost::move(e)); return ok ? OK : NOBLOCK;
    }
    return B::push(k, e, rv);
  }
  int pull(int k, E& e) {
    if (k == SPULL) { q >> e; return OK; } if (sim::flip()) return B::pull(k, e);
    switch (k) {
      case PULLR: if (!std::is_same<E, Co>::value && sim::flip()) { boost::shared_ptr<E> p = q.ptr_pull(); e = boost::move(*p); } else q.pull(e); return OK;
      case PULLV: if constexpr (!std::is_same<E, Co>::value) { e = q.pull(); return OK; } break;
      case TPULL: if (!std::is_same<E, Co>::value && sim::flip()) { boost::shared_ptr<E> p = q.try_pull(); if (!p) return EMPTYR; e = boost::move(*p); return OK; } return q.try_pull(e) ? OK : EMPTYR;
      case NPULL: return q.try_pull(boost::no_block, e) ? OK : NOBLOCK;
    }
    return B::pull(k, e);
  }
};
template<class E, class F> static void with_form(F f) {
  typedef boost::sync_bounded_queue<E> Q; u32 cap = sim::range(1, 4); QW<E> w; w.H.cap = (long)cap; Q q(cap); SIM_CHECK(q.capacity() == cap && q.empty() && !q.closed(), "new", "a new queue");
  auto go = [&] { u32 shift = sim::choose(5); for (u32 i = 0; i < shift; i++) { w.push(TPUSH, w.fresh()); w.pull(TPULL); } f(w); }; // start anywhere in the ring
  if (sim::choose(3)) { Bounded<E> b(q); w.q = &b; go(); } else { typedef boost::deque_back_view<Q> BV; typedef boost::deque_front_view<Q> FV; BV b(q); FV g(q); FormQ<E, BV, FV> d(b, g); w.q = &d; go(); }
  SIM_CHECK(q.capacity() == cap, "capacity", "the capacity changed");
}
SCENARIO(mixed, 5) { sim_faults(SIM_DEFAULT_FAULTS); if (sim::flip()) with_form<El>([](QW<El>& w) { q_mixed(w, 0); }); else with_form<Mo>([](QW<Mo>& w) { q_mixed(w, 0); }); }
SCENARIO(balanced, 4) { sim_faults(SIM_DEFAULT_FAULTS); if (sim::flip()) with_form<El>([](QW<El>& w) { q_balanced(w, 0); }); else with_form<Mo>([](QW<Mo>& w) { q_balanced(w, 0); }); }
SCENARIO(throwing, 4) { sim_faults(SIM_DEFAULT_FAULTS | 1u << SF_ALLOC); bool el = sim::flip(), bal = sim::flip(); if (el) with_form<El>([=](QW<El>& w) { if (bal) q_balanced(w, 1); else q_mixed(w, 2); }); else with_form<Co>([=](QW<Co>& w) { if (bal) q_balanced(w, 1); else q_mixed(w, 2); }); }
SCENARIO(interrupted, 5) { sim_faults(SIM_DEFAULT_FAULTS); bool pu = sim::flip(); u32 e = sim::choose(3); if (e == 0) with_form<El>([=](QW<El>& w) { q_interrupted(w, pu); }); else if (e == 1) with_form<Co>([=](QW<Co>& w) { q_interrupted(w, pu, true); }); else with_form<Mo>([=](QW<Mo>& w) { q_interrupted(w, pu); }); }
// Larger numbers than elsewhere.
static void crowd_got(u32 got, u32 want) { SIM_CHECK(got == want, "order", "element %u instead of %u", got, want); }
SCENARIO(crowd, 1) { if (sim::choose(8)) return; sim_faults(SIM_DEFAULT_FAULTS); sim_step_limit(HUGE_STEPS); u32 cap = many(false), pre = sim::choose(cap), n = cap + sim::choose(cap); boost::sync_bounded_queue<u32> q(cap); SIM_CHECK(q.capacity() == cap, "capacity", "capacity %u instead of %u", (u32)q.capacity(), cap); u32 in = 0, out = 0; for (; in < pre; in++) q.push_back(in); for (; out < pre; out++) crowd_got(q.pull_front(), out);
  for (u32 i = 0; i < cap; i++, in++) SIM_CHECK(q.try_push_back(in) == boost::queue_op_status::success, "status", "refused at %u of %u", i, cap); SIM_CHECK(q.full() && q.size() == cap, "capacity", "size %u of %u and not full", (u32)q.size(), cap); SIM_CHECK(q.try_push_back(in) == boost::queue_op_status::full, "capacity", "more than the capacity was accepted"); sim::Threads th; th.go([&] { for (u32 i = cap; i < n; i++) q.push_back(pre + i); }); for (u32 i = 0; i < n; i++) crowd_got(q.pull_front(), pre + i); th.join(); SIM_CHECK(q.empty(), "size", "not empty at the end"); }

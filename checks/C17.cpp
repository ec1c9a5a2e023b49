// C17 sync_queue, sync_deque, their adaptors and views: linearizable FIFO with close.
#include "queue.h"
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#undef BOOST_THREAD_QUEUE_VIEWS_HPP // both headers use this guard
#include <boost/thread/concurrent_queues/deque_views.hpp>

template<class E, class Q> struct Direct : FormQ<E, Q, Q> { // with the stream operators and underlying_queue
  Q& q; Direct(Q& x) : FormQ<E, Q, Q>(x, x), q(x) {} bool streams() const { return true; }
  int push(int k, E& e, bool rv) { if (k != SPUSH) return FormQ<E, Q, Q>::push(k, e, rv); if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { q << (const E&)e; return OK; } } q << boost::move(e); return OK; }
  int pull(int k, E& e) { if (k != SPULL) return FormQ<E, Q, Q>::pull(k, e); q >> e; return OK; }
  bool take(std::vector<int>& out) { typename Q::underlying_queue_type u = q.underlying_queue(); sim::Quiet qq; for (; !u.empty(); u.pop_front()) out.push_back(u.front().id()); return true; }
};
template<class E, class Q> struct DirectD : FormD<E, Q, Q> {
  Q& q; DirectD(Q& x) : FormD<E, Q, Q>(x, x), q(x) {} bool streams() const { return true; }
  int push(int k, E& e, bool rv) { if (k != SPUSH) return FormD<E, Q, Q>::push(k, e, rv); if constexpr (std::is_copy_constructible<E>::value) { if (!rv) { q << (const E&)e; return OK; } } q << boost::move(e); return OK; }
  int pull(int k, E& e) { if (k != SPULL) return FormD<E, Q, Q>::pull(k, e); q >> e; return OK; }
  bool take(std::vector<int>& out) { typename Q::underlying_queue_type u = q.underlying_queue(); sim::Quiet qq; for (; !u.empty(); u.pop_front()) out.push_back(u.front().id()); return true; }
};
// A view pushes and pulls through one end; make the pair look like one queue.
template<class V> struct Back { V v; template<class Q> explicit Back(Q& q) : v(q) {} bool empty() { return v.empty(); } bool full() { return v.full(); } size_t size() { return v.size(); } bool closed() { return v.closed(); } void close() { v.close(); } };
template<class E, class F> static void with_form(u32 form, F f) {
  typedef boost::sync_queue<E> SQ; typedef boost::sync_deque<E> SD; QW<E> w;
  switch (form) {
    case 0: { SQ q; Direct<E, SQ> d(q); w.q = &d; f(w); break; }
    case 1: { SD q; DirectD<E, SD> d(q); w.q = &d; f(w); break; }
    case 2: { boost::queue_adaptor<SQ> a; typedef boost::queue_base<E> QB; QB& b = a; FormQ<E, QB, QB> d(b, b); w.q = &d; f(w); break; }
    case 3: { boost::deque_adaptor<SD> a; typedef boost::deque_base<E> DB; DB& b = a; FormD<E, DB, DB> d(b, b); w.q = &d; f(w); break; }
    case 4: { SQ q; typedef boost::queue_back_view<SQ> BV; typedef boost::queue_front_view<SQ> FV; BV b(q); FV g(q); FormQ<E, BV, FV> d(b, g); w.q = &d; f(w); break; }
    case 5: { boost::queue_adaptor<SQ> a; boost::queue_back<E> b(a); boost::queue_front<E> g(a); FormQ<E, boost::queue_back<E>, boost::queue_front<E> > d(b, g); w.q = &d; f(w); break; }
    case 6: { SD q; typedef boost::deque_back_view<SD> BV; typedef boost::deque_front_view<SD> FV; BV b(q); FV g(q); FormQ<E, BV, FV> d(b, g); w.q = &d; f(w); break; }
    case 7: { boost::deque_adaptor<SD> a; boost::deque_back<E> b(a); boost::deque_front<E> g(a); FormQ<E, boost::deque_back<E>, boost::deque_front<E> > d(b, g); w.q = &d; f(w); break; }
    case 8: { typedef boost::sync_queue<E, std::deque<E> > SX; SX q; Direct<E, SX> d(q); w.q = &d; f(w); break; }
    default: { typedef boost::sync_deque<E, std::deque<E> > SX; SX q; DirectD<E, SX> d(q); w.q = &d; f(w); break; }
  }
}
SCENARIO(mixed, 5) { sim_faults(SIM_DEFAULT_FAULTS); u32 form = sim::choose(10); if (sim::flip()) with_form<El>(form, [](QW<El>& w) { q_mixed(w, 0); }); else with_form<Mo>(form, [](QW<Mo>& w) { q_mixed(w, 0); }); }
SCENARIO(balanced, 4) { sim_faults(SIM_DEFAULT_FAULTS); u32 form = sim::choose(10); if (sim::flip()) with_form<El>(form, [](QW<El>& w) { q_balanced(w, 0); }); else with_form<Mo>(form, [](QW<Mo>& w) { q_balanced(w, 0); }); }
SCENARIO(throwing, 4) { sim_faults(SIM_DEFAULT_FAULTS | 1u << SF_ALLOC); u32 form = sim::choose(10); bool el = sim::flip(), bal = sim::flip(); if (el) with_form<El>(form, [=](QW<El>& w) { if (bal) q_balanced(w, 1); else q_mixed(w, 2); }); else with_form<Co>(form, [=](QW<Co>& w) { if (bal) q_balanced(w, 1); else q_mixed(w, 2); }); }
SCENARIO(interrupted, 4) { sim_faults(SIM_DEFAULT_FAULTS); u32 form = sim::choose(10), e = sim::choose(3); if (e == 0) with_form<El>(form, [](QW<El>& w) { q_interrupted(w, false); }); else if (e == 1) with_form<Co>(form, [](QW<Co>& w) { q_interrupted(w, false, true); }); else with_form<Mo>(form, [](QW<Mo>& w) { q_interrupted(w, false); }); }
// underlying_queue hands over everything that is there; the queue goes on empty.
SCENARIO(taken, 2) {
  sim_faults(SIM_DEFAULT_FAULTS); static const u32 forms[] = {0, 1, 8, 9};
  with_form<El>(forms[sim::choose(4)], [](QW<El>& w) { sim::Threads t; u32 n = sim::range(1, 3);
    for (u32 i = 0; i < n; i++) t.go([&] { u32 ops = sim::range(1, 5); for (u32 o = 0; o < ops; o++) { u32 c = sim::choose(6); if (c == 0) w.take(); else if (c < 4) w.push(TPUSH, w.fresh()); else if (c == 4) w.look(sim::flip() ? SIZE : EMPTYQ); else w.pull(TPULL); } });
    u32 ops = sim::range(1, 6); for (u32 o = 0; o < ops; o++) { u32 c = sim::choose(4); if (c == 0) w.take(); else if (c < 3) w.push(TPUSH, w.fresh()); else w.pull(TPULL); }
    t.join(); w.close(); w.drain(); w.H.check(); });
}
// Larger numbers than elsewhere.
template<class Q, class PUSH, class PULL> static void crowd_run(Q& q, u32 n, PUSH push, PULL pull) { sim_step_limit(HUGE_STEPS); bool beside = sim::flip(); sim::Threads th; if (beside) th.go([&] { for (u32 i = 0; i < n; i++) push(q, i); }); else { for (u32 i = 0; i < n; i++) push(q, i); SIM_CHECK(q.size() == n, "size", "size %u after %u pushes", (u32)q.size(), n); } for (u32 i = 0; i < n; i++) pull(q, i); th.join(); SIM_CHECK(q.empty() && q.size() == 0, "size", "not empty at the end"); }
static void crowd_got(u32 got, u32 want) { SIM_CHECK(got == want, "order", "element %u instead of %u", got, want); }
SCENARIO(crowd, 1) { if (sim::choose(8)) return; sim_faults(SIM_DEFAULT_FAULTS); u32 n = many(false); switch (sim::choose(3)) { case 0: { boost::sync_queue<u32> qu; crowd_run(qu, n, [](boost::sync_queue<u32>& x, u32 i) { x.push(i); }, [](boost::sync_queue<u32>& x, u32 i) { crowd_got(x.pull(), i); }); break; } case 1: { boost::sync_deque<u32> qu; crowd_run(qu, n, [](boost::sync_deque<u32>& x, u32 i) { x.push_back(i); }, [](boost::sync_deque<u32>& x, u32 i) { crowd_got(x.pull_front(), i); }); break; } default: { boost::queue_adaptor<boost::sync_queue<u32> > qu; crowd_run(qu, n, [](boost::queue_adaptor<boost::sync_queue<u32> >& x, u32 i) { x.push(i); }, [](boost::queue_adaptor<boost::sync_queue<u32> >& x, u32 i) { u32 v; x.pull(v); crowd_got(v, i); }); } } }

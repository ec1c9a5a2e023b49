// C15 barrier: nobody passes early, everybody passes, one leader and one completion per round.
#include "common.h"
#include <memory>
#include <boost/thread/thread.hpp>
#include <boost/thread/barrier.hpp>

static const u32 MR = 8, MT = 5;
struct World { boost::barrier* b; u32 rounds, n; u32 size[MR + 1]; Flag entered[MR], returned[MR], leaders[MR], completed[MR]; Flag cround; int slot[MR][MT]; int comp[MR]; bool hasf; };
static World* W;
static void complete() { // the completion function of every form
  World& w = *W; u32 r = (u32)w.cround.get(); SIM_CHECK(r < w.rounds, "completion", "a completion function ran in a round that nobody entered");
  SIM_CHECK(w.entered[r].get() == w.size[r], "early-completion", "completion of round %u after %llu of %u arrivals", r, (unsigned long long)w.entered[r].get(), w.size[r]);
  SIM_CHECK(w.returned[r].get() == 0, "late-completion", "a thread was released before the completion function");
  for (u32 i = 0; i < w.size[r]; i++) SIM_CHECK(w.slot[r][i] == (int)(100 * r + i), "visible", "work done before the barrier is not visible in the completion function");
  dwell(); w.completed[r].add(); w.comp[r] = (int)r + 7; w.cround.add();
}
static unsigned int complete_size() { complete(); u32 r = (u32)W->cround.get(); return W->size[r < MR ? r : MR]; }
struct VF { std::shared_ptr<int> p; VF() : p(new int(4)) {} void operator()() { SIM_CHECK(*p == 4, "functor", "completion function damaged"); complete(); } };
struct SF { std::shared_ptr<int> p; SF() : p(new int(4)) {} unsigned int operator()() { SIM_CHECK(*p == 4, "functor", "completion function damaged"); return complete_size(); } };
static boost::barrier* make(u32 form, u32 n) {
  switch (form) {
    case 0: return new boost::barrier(n); case 1: return new boost::barrier(n, VF()); case 2: { VF f; return new boost::barrier(n, f); } case 3: return new boost::barrier(n, &complete);
    case 4: return new boost::barrier(n, (void (*)())0); case 5: return new boost::barrier(n, (unsigned int (*)())0);
    case 6: return new boost::barrier(n, SF()); case 7: { SF f; return new boost::barrier(n, f); } default: return new boost::barrier(n, &complete_size);
  }
}
static bool sized(u32 f) { return f >= 6; }
static void pass(u32 r, u32 i) {
  World& w = *W; w.slot[r][i] = (int)(100 * r + i); w.entered[r].add(); bool lead = false; u32 how = sim::choose(3);
  if (how == 0) w.b->count_down_and_wait(); else lead = w.b->wait();
  SIM_CHECK(w.entered[r].get() >= w.size[r], "early", "round %u released a thread after %llu of %u arrivals", r, (unsigned long long)w.entered[r].get(), w.size[r]);
  if (w.hasf) { SIM_CHECK(w.completed[r].get() == 1, "completion", "round %u: %llu completions at release", r, (unsigned long long)w.completed[r].get()); SIM_CHECK(w.comp[r] == (int)r + 7, "visible", "effects of the completion function not visible"); }
  for (u32 k = 0; k < w.size[r]; k++) SIM_CHECK(w.slot[r][k] == (int)(100 * r + k), "visible", "work done before the barrier is not visible after it");
  if (lead) w.leaders[r].add(); else if (how == 0) w.leaders[r].add(1000); w.returned[r].add();
}
static void check_rounds() { for (u32 r = 0; r < W->rounds; r++) { u64 l = W->leaders[r].get(); SIM_CHECK(l % 1000 <= 1, "leader", "round %u has several leaders", r); SIM_CHECK(l / 1000 > 0 || l == 1, "leader", "round %u has no leader", r); SIM_CHECK(W->returned[r].get() == W->size[r], "count", "round %u", r); if (W->hasf) SIM_CHECK(W->completed[r].get() == 1, "completion", "round %u completed %llu times", r, (unsigned long long)W->completed[r].get()); } }
SCENARIO(rounds, 5) {
  sim_faults(SIM_DEFAULT_FAULTS); World w = World(); W = &w; w.n = sim::range(1, MT); w.rounds = sim::range(1, MR); u32 form = sim::choose(9); w.hasf = form != 0 && form != 4 && form != 5;
  for (u32 r = 0; r <= MR; r++) w.size[r] = w.n; if (sized(form)) for (u32 r = 1; r <= MR; r++) w.size[r] = sim::range(1, w.n);
  std::unique_ptr<boost::barrier> b(make(form, w.size[0])); w.b = b.get(); sim::Threads t; bool lazy = sim::flip();
  for (u32 i = 0; i < w.n; i++) t.go([&, i] { for (u32 r = 0; r < w.rounds; r++) { if (i >= w.size[r]) continue; if (w.hasf && r && i >= w.size[r - 1]) w.cround.await(r); if (lazy) nap(); pass(r, i); } });
  t.join(); check_rounds();
}
// wait is an interruption point: an interrupted waiter has arrived (so it still counts), the others pass with it.
SCENARIO(interrupted, 2) { if (!CAN_INTR) return;
  sim_faults(NOSTALL); u32 n = sim::range(2, 4); boost::barrier b(n); Flag entered, left, thrown; std::vector<std::unique_ptr<boost::thread> > v; bool racing = sim::flip(); u32 asked = 0;
  for (u32 i = 0; i + 1 < n; i++) v.emplace_back(new boost::thread([&] { boost::this_thread::disable_interruption* di = 0; try { entered.add(); (void)di; bool l = b.wait(); SIM_CHECK(entered.get() == n, "early", "released before all had arrived"); SIM_CHECK(!l, "leader", "not the last to arrive"); left.add(); } catch (boost::thread_interrupted&) { thrown.add(); } }));
  while (entered.get() < n - 1) sim_sleep_ns(MS); sim_settle(); SIM_CHECK(left.get() == 0, "early", "released before all had arrived"); std::vector<bool> hit; for (auto& p : v) { hit.push_back(sim::choose(3) == 0); if (hit.back()) { intr_thread(*p); asked++; } }
  if (!racing) { for (size_t i = 0; i < v.size(); i++) if (hit[i]) v[i]->join(); SIM_CHECK(thrown.get() == asked && left.get() == 0, "interrupt", "an interrupted wait does not throw"); }
  entered.add(); SIM_CHECK(b.wait(), "leader", "the last to arrive is no leader"); for (auto& p : v) if (p->joinable()) p->join(); SIM_CHECK(thrown.get() <= asked && thrown.get() + left.get() == n - 1, "interrupt", "unrequested interruption");
  Flag in2, out2; sim::Threads t; for (u32 i = 0; i < n; i++) t.go([&] { in2.add(); b.wait(); SIM_CHECK(in2.get() == n, "early", "the round after an interruption released early"); out2.add(); }); t.join(); SIM_CHECK(out2.get() == n, "count", "x");
}
SCENARIO(zero, 1) { sim_faults(0); u32 got = 0; for (u32 f = 0; f < 9; f++) { World w = World(); W = &w; try { std::unique_ptr<boost::barrier> b(make(f, 0)); } catch (boost::thread_exception&) { got++; } } SIM_CHECK(got == 9, "zero", "a barrier for nobody was accepted"); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; u32 n = sim::range(8, 34), rounds = sim::range(1, 3); boost::barrier b(n); static Flag in[3], out[3], lead[3]; for (u32 i = 0; i < 3; i++) { in[i].set(0); out[i].set(0); lead[i].set(0); } sim::Threads th; for (u32 i = 0; i < n; i++) th.go([&] { for (u32 r = 0; r < rounds; r++) { in[r].add(); if (b.wait()) lead[r].add(); SIM_CHECK(in[r].get() == n, "early", "a thread passed when %llu of %u had arrived", (unsigned long long)in[r].get(), n); out[r].add(); } }); th.join(); for (u32 r = 0; r < rounds; r++) SIM_CHECK(out[r].get() == n && lead[r].get() == 1, "leader", "%llu passed with %llu leaders", (unsigned long long)out[r].get(), (unsigned long long)lead[r].get()); }

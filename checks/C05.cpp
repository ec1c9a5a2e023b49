// C05 thread_v2::upgrade_mutex (= boost::shared_mutex in this configuration) and thread_v2::shared_mutex.
#include "shm.h"
#include <boost/thread/v2/shared_mutex.hpp>
typedef boost::shared_mutex SM; typedef boost::thread_v2::shared_mutex S2;
template<class S> struct R2 : S { R2() { this->rel2 = true; } };
SCENARIO(mix, 4) { R2<ShmMix<SM, true> > s; s.mix(); }
SCENARIO(giveup, 2) { R2<ShmMix<SM, true> > s; s.giveup(); }
SCENARIO(convoy, 1) { R2<ShmMix<SM, true> > s; s.convoy(); }
SCENARIO(relay, 1) { R2<ShmMix<SM, true> > s; s.relay(); }
SCENARIO(s_relay, 1) { R2<ShmMix<S2, false> > s; s.relay(); }
SCENARIO(interrupted, 1) { R2<ShmMix<SM, true> > s; s.interrupted(); }
SCENARIO(last_user, 1) { R2<ShmMix<SM, true> > s; s.last_user(); }
SCENARIO(conv, 4) { R2<ShmConv<SM> > s; s.conv(); }
SCENARIO(temp, 1) { R2<ShmConv<SM> > s; s.temp(); }
SCENARIO(possible, 2) { R2<ShmConv<SM> > s; s.possible(); }
SCENARIO(duel, 2) { R2<ShmConv<SM> > s; s.duel(); }
SCENARIO(quiescent, 3) { R2<ShmConv<SM> > s; s.quiescent(); }
SCENARIO(lets_in, 1) { R2<ShmConv<SM> > s; s.lets_in(); }
SCENARIO(interrupted_conv, 1) { R2<ShmConv<SM> > s; s.interrupted_conv(); }
SCENARIO(s_mix, 4) { R2<ShmMix<S2, false> > s; s.mix(); }
SCENARIO(s_giveup, 2) { R2<ShmMix<S2, false> > s; s.giveup(); }
SCENARIO(s_convoy, 1) { R2<ShmMix<S2, false> > s; s.convoy(); }
SCENARIO(s_interrupted, 1) { R2<ShmMix<S2, false> > s; s.interrupted(); }
SCENARIO(s_last_user, 1) { R2<ShmMix<S2, false> > s; s.last_user(); }
SCENARIO(deep, 1) { deep_shared<SM, true>(); }
SCENARIO(s_deep, 1) { deep_shared<S2, false>(); }
SCENARIO(special, 1) { switch (sim::choose(5)) { case 0: special_excl<SM>(); break; case 1: special_shared<SM>(); break; case 2: special_upgrade<SM>(); break; case 3: special_excl<S2>(); break; default: special_shared<S2>(); } }

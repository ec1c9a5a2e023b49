// C03 boost::shared_mutex (pthread implementation).
#include "shm.h"
typedef boost::shared_mutex SM;
SCENARIO(mix, 6) { ShmMix<SM, true> s; s.mix(); }
SCENARIO(giveup, 2) { ShmMix<SM, true> s; s.giveup(); }
SCENARIO(convoy, 2) { ShmMix<SM, true> s; s.convoy(); }
SCENARIO(relay, 1) { ShmMix<SM, true> s; s.relay(); }
SCENARIO(interrupted, 1) { ShmMix<SM, true> s; s.interrupted(); }
SCENARIO(last_user, 1) { ShmMix<SM, true> s; s.last_user(); }
SCENARIO(deep, 1) { deep_shared<SM, true>(); }
SCENARIO(special, 1) { switch (sim::choose(3)) { case 0: special_excl<SM>(); break; case 1: special_shared<SM>(); break; default: special_upgrade<SM>(); } }

// C04 conversions of boost::shared_mutex (pthread implementation).
#include "shm.h"
typedef boost::shared_mutex SM;
SCENARIO(conv, 6) { ShmConv<SM> s; s.conv(); }
SCENARIO(temp, 1) { ShmConv<SM> s; s.temp(); }
SCENARIO(possible, 2) { ShmConv<SM> s; s.possible(); }
SCENARIO(duel, 2) { ShmConv<SM> s; s.duel(); }
SCENARIO(quiescent, 3) { ShmConv<SM> s; s.quiescent(); }
SCENARIO(lets_in, 2) { ShmConv<SM> s; s.lets_in(); }
SCENARIO(interrupted_conv, 1) { ShmConv<SM> s; s.interrupted_conv(); }

// C06 boost::condition_variable.
#include "cv.h"
typedef CvTest<boost::condition_variable, boost::mutex, boost::unique_lock<boost::mutex>, 'x'> T;
SCENARIO(broadcast, 2) { T t; t.broadcast(); }
SCENARIO(signals, 3) { T t; t.signals(); }
SCENARIO(pingpong, 2) { T t; t.pingpong(); }
SCENARIO(prodcons, 3) { T t; t.prodcons(); }
SCENARIO(timedpred, 3) { T t; t.timedpred(); }
SCENARIO(predthrow, 1) { T t; t.predthrow(); }
SCENARIO(interrupt, 3) { T t; t.interrupt(); }
SCENARIO(last_user, 1) { T::last_user(); }
// Larger numbers than elsewhere.
SCENARIO(crowd, 1) { if (sim::choose(6)) return; boost::mutex m; boost::condition_variable cv; u32 n = sim::range(8, 34), in = 0, turn = 0; bool all = sim::flip(); sim::Threads th; for (u32 i = 0; i < n; i++) th.go([&] { boost::unique_lock<boost::mutex> l(m); in++; while (turn == 0) cv.wait(l); if (!all) turn--; }); for (;;) { boost::unique_lock<boost::mutex> l(m); if (in == n) break; l.unlock(); sim_settle(); } if (all) { boost::unique_lock<boost::mutex> l(m); turn = 1; if (sim::flip()) l.unlock(); cv.notify_all(); } else for (u32 i = 0; i < n; i++) { { boost::unique_lock<boost::mutex> l(m); turn++; } cv.notify_one(); } th.join(); }

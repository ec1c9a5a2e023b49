// The configuration of systems whose condition variables cannot wait on the monotonic clock (older Android and macOS):
// timed waits use the system clock and poll, timed mutexes use pthread_mutex_timedlock.
#ifndef CHECKS_REALTIME_CLOCK_H
#define CHECKS_REALTIME_CLOCK_H
#include <boost/thread/detail/config.hpp>
#undef BOOST_THREAD_INTERNAL_CLOCK_IS_MONO
#define BOOST_THREAD_USES_PTHREAD_TIMEDLOCK
#endif

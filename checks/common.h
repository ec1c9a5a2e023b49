// Shared helpers of the harnesses.
#ifndef CHECKS_COMMON_H
#define CHECKS_COMMON_H
#include "sim.h"
#include <boost/thread/detail/config.hpp>
#include <boost/thread/thread_time.hpp>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>

// Without interruptions (BOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS) the programs are the same, and nobody is interrupted.
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
static const bool CAN_INTR = true;
template<class T> void intr_thread(T& t) { t.interrupt(); }
#else
static const bool CAN_INTR = false;
template<class T> void intr_thread(T&) { }
namespace boost { class thread_interrupted { }; namespace this_thread { struct disable_interruption { disable_interruption() { } ~disable_interruption() { } }; inline void interruption_point() { } inline bool interruption_requested() { return false; } } }
#endif

typedef uint64_t u64; typedef int64_t s64;
static const u64 US = 1000, MS = 1000000, SEC = 1000000000ull;
namespace bc = boost::chrono;
typedef bc::steady_clock StC; typedef bc::system_clock SyC;
inline bc::nanoseconds nsd(s64 n) { return bc::nanoseconds(n); }
inline StC::time_point st_at(u64 ns) { return StC::time_point(StC::duration((s64)ns)); }
inline SyC::time_point sy_at(u64 ns) { return SyC::time_point(bc::duration_cast<SyC::duration>(bc::nanoseconds((s64)ns))); }
// boost::system_time of a simulated realtime value (microseconds)
inline boost::system_time pt_at(s64 ns) {
  sim::Quiet q; static const boost::posix_time::ptime ep(boost::gregorian::date(1970, 1, 1));
  s64 us = ns / 1000; return ep + boost::posix_time::hours((long)(us / 3600000000ll)) + boost::posix_time::microseconds((long)(us % 3600000000ll));
}
inline boost::posix_time::time_duration pd_of(s64 ns) { s64 us = ns / 1000; return boost::posix_time::hours((long)(us / 3600000000ll)) + boost::posix_time::microseconds((long)(us % 3600000000ll)); }

inline s64 us_fl(s64 ns) { return ns / 1000 * 1000; } // what the microsecond types can express
// A deadline as the caller understands it: on one of the two simulated clocks.
struct DL {
  bool real; s64 at; u64 t0;
  DL() : real(false), at(0), t0(sim_now()) {}
  static DL mono(s64 at) { DL d; d.real = false; d.at = at; return d; }
  static DL sys(s64 at) { DL d; d.real = true; d.at = us_fl(at); sim_real_max_reset(); return d; }
  bool passed() const { return real ? (s64)sim_real_max() >= at : (s64)sim_now() >= at; }
  s64 missing() const { return at - (s64)(real ? sim_now_real() : sim_now()); }
};
inline void check_timeout(const DL& d, const char* what) {
  SIM_CHECK(d.passed(), "early-timeout", "%s reported a timeout %lld ns before its deadline", what, (long long)d.missing());
}
// No-stall runs only: an operation with this deadline must not come back much later than that.
inline void check_not_late(const DL& d, const char* what, u64 slack = 2 * SEC) {
  s64 now = (s64)(d.real ? sim_now_real() : sim_now()), start = d.real ? (s64)(sim_now_real() - (sim_now() - d.t0)) : (s64)d.t0;
  s64 due = d.at > start ? d.at : start;
  SIM_CHECK(now <= due + (s64)slack, "late", "%s returned %lld ns after its deadline", what, (long long)(now - due));
}

// How many, for the programs that look at sizes: past what eight and (rarely) sixteen bits can count.
inline u32 many(bool huge) { if (huge && sim::choose(400) == 0) return 65534 + sim::choose(5); return sim::flip() ? 254 + sim::choose(5) : sim::range(30, 300); }
static const u32 HUGE_STEPS = 20000000;
// Clocks a user brings along, at another epoch and another speed, and coarse or odd time types. Forms 0..NUT-1; until(time_point) or during(duration) makes the call.
template<int NUM, int DEN> struct UClk { typedef bc::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef bc::time_point<UClk> time_point; static const bool is_steady = false;
  static s64 off() { return 1000000000000000000ll / 7; } static time_point now() { return time_point(duration((s64)sim_now() * NUM / DEN + off())); } static time_point reached(s64 mono) { return time_point(duration((DEN == 2 ? mono >> 1 : mono * NUM) + off())); } };
// a clock that only moves when told
struct MClk { typedef bc::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef bc::time_point<MClk> time_point; static const bool is_steady = false; static s64& t() { static s64 v = 0; return v; } static time_point now() { sim::Quiet q; return time_point(duration(t())); } static void set(s64 x) { sim::Quiet q; t() = x; } static time_point at(s64 x) { return time_point(duration(x)); } };
static const u32 NUT = 6;
inline s64 fl_div(s64 a, s64 b) { return a / b - (a % b < 0); }
template<class U, class D> auto odd_time(u32 k, u64 d, DL& dl, U until, D during) -> decltype(until(StC::time_point())) {
  s64 at = (s64)(sim_now() + d), rel = (s64)d; bool near = at < 3000000000ll * (s64)SEC && at > -3000000000ll * (s64)SEC; if (!near && k < 3) k = 0; if (k == 4 && (rel > 1400000000ll * (s64)SEC || rel < -1400000000ll * (s64)SEC)) k = 3; // (the library may compute in the common type)
  switch (k) {
    case 0: dl = DL::mono(at); return until(UClk<1, 1>::reached(at));
    case 1: dl = DL::mono(at >> 1 << 1); return until(UClk<1, 2>::reached(at));
    case 2: dl = DL::mono(at); return until(UClk<2, 1>::reached(at));
    case 3: { typedef bc::duration<s64, boost::ratio<1, 50> > T; s64 n = fl_div(at, 20 * (s64)MS); dl = DL::mono(n * 20 * (s64)MS); return until(bc::time_point<StC, T>(T(n))); }
    case 4: { typedef bc::duration<s64, boost::ratio<1, 60> > T; s64 n = fl_div(rel, (s64)SEC) * 60 + (rel - fl_div(rel, (s64)SEC) * (s64)SEC) * 60 / (s64)SEC; dl = DL::mono((s64)sim_now() + fl_div(n, 60) * (s64)SEC + (n - fl_div(n, 60) * 60) * (s64)SEC / 60); return during(T(n)); }
    default: { typedef bc::duration<int, boost::milli> T; s64 n = fl_div(rel, (s64)MS); if (n > 2000000000) n = 2000000000; if (n < -2000000000) n = -2000000000; dl = DL::mono((s64)sim_now() + n * (s64)MS); return during(T((int)n)); }
  }
}
struct Tag { Tag(const char* t) { sim_set_tag(t); } ~Tag() { sim_set_tag(nullptr); } };
static const u32 NOSTALL = SIM_DEFAULT_FAULTS & ~(1u << SF_STALL);
// A harness-side flag or counter: not part of the program under test, invisible to the race detector, orders nothing.
struct Flag { u64 v = 0; void set(u64 x = 1) { sim::Quiet q; v = x; } void add(s64 d = 1) { sim::Quiet q; v += d; } u64 get() const { sim::Quiet q; return v; } operator bool() const { return get() != 0; }
  void await(u64 x = 1) const { while (get() < x) sim_sleep_ns(100 * US); } };
struct Boom { int v; Boom(int x = 0) : v(x) {} };
inline void dwell() { switch (sim::choose(6)) { case 0: break; case 1: case 2: sim_yield(); break; case 3: sim_yield(); sim_yield(); break; case 4: sim_sleep_ns(sim::range(1, 20) * 100 * US); break; default: break; } }
inline void nap() { switch (sim::choose(5)) { case 0: case 1: break; case 2: sim_yield(); break; case 3: sim_sleep_ns(sim::range(1, 30) * 100 * US); break; default: sim_sleep_ns(sim::range(1, 30) * MS); } }
#endif

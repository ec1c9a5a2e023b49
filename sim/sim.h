// Public interface of the simulator, included by the harnesses.
// Implementation: sim.cpp (libsim.so, not instrumented).
#ifndef SIM_H
#define SIM_H
#include <cstdint>
typedef uint32_t u32;
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>

// ---- fault kinds -------------------------------------------------------------------
enum SimFault {
  SF_SPURIOUS = 0,   // condition wait returns without a notification
  SF_EINTR,          // pthread function returns EINTR (handled by retry loops in the library)
  SF_CREATE,         // pthread_create fails with EAGAIN
  SF_MINIT,          // pthread_mutex_init fails with ENOMEM / EAGAIN
  SF_CINIT,          // pthread_cond_init fails with ENOMEM / EAGAIN
  SF_ALLOC,          // operator new throws bad_alloc / malloc returns 0 (inside AllocWindow only)
  SF_STALL,          // simulated time passes while threads are runnable
  SF_RJUMP,          // the realtime clock jumps forwards or backwards
  SF_WEAKCAS,        // compare_exchange_weak fails spuriously
  SF_SLEEPINTR,      // nanosleep returns early with EINTR
  SF_USER,           // a user callback throws / misbehaves (decided by the harness)
  SF_INTERRUPT,      // an interruption request (decided by the harness)
  SF_N
};
#define SIM_DEFAULT_FAULTS ((1u<<SF_SPURIOUS)|(1u<<SF_STALL)|(1u<<SF_WEAKCAS))

extern "C" {
uint32_t sim_choose(uint32_t n);                 // workload choice in [0,n); 0 is the simplest
int      sim_fault(int kind, int idx_hint, uint32_t num, uint32_t den); // harness-made fault decision
void     sim_yield(void);                        // a scheduling point
uint64_t sim_now(void);                          // simulated monotonic clock, ns
uint64_t sim_now_real(void);                     // simulated realtime clock, ns since epoch
void     sim_real_max_reset(void);                // start watching the realtime clock for this fiber
uint64_t sim_real_max(void);                      // largest realtime value since then
uint64_t sim_seq(void);                          // global event sequence number
int      sim_self(void);                         // fiber id
void     sim_quiet_begin(void);
void     sim_quiet_end(void);
void     sim_violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf,2,3)));
void     sim_probe(const char* name);
void     sim_faults(uint32_t mask);              // fault kinds this run may use
void     sim_count_fault(int kind);
int      sim_spawn(void (*fn)(void*), void* arg);// raw simulated thread
void     sim_join(int id);
int      sim_done(int id);
void     sim_alloc_window(int delta);            // this fiber: library allocations may fail
void     sim_alloc_fail_nth(int n);              // this fiber: n-th allocation from now fails (0 = off)
int      sim_alloc_failed(void);                 // this fiber: number of injected allocation failures
uint64_t sim_live_allocs(void);                  // live arena allocations
void     sim_ignore_leaks(void);
void     sim_allow_blocked(void);                // threads may stay blocked at the end of the run
void     sim_set_tag(const char* t);             // what this fiber is doing, for reports
void     sim_sleep_ns(uint64_t ns);              // raw simulated sleep
uint64_t sim_blocks(void);                       // how often this fiber has blocked so far
int      sim_is_blocked(int id);                 // fiber is blocked (not runnable, not done)
int      sim_settle(void);                       // let all others run until they are blocked/done; 1 if quiescent
void     sim_clock_jump(int64_t ns);             // jump the realtime clock
void     sim_note(const char* fmt, ...) __attribute__((format(printf,1,2))); // trace line (kept in replay report)
int      sim_thread_handles(void);               // created threads neither joined nor detached
void     sim_step_limit(uint64_t n);
int      sim_tracing(void);
size_t   sim_last_stack(void);                   // stack size asked for by the last pthread_create (0: default)
void     sim_set_processors(int n);               // what sysconf(_SC_NPROCESSORS_ONLN) tells, 2 at first
void     sim_fail_create(int nth);               // nth pthread_create from now fails (1 = next)
void     sim_fail_minit(int nth);                // nth pthread_mutex_init from now fails
void     sim_fail_cinit(int nth);                // nth pthread_cond_init from now fails
int      sim_live_prims(void);                   // mutexes and condition variables initialised and not destroyed in this run
int      sim_injected(int kind);                 // how often this fault kind fired so far in this run
void     sim_live_dump(void);                    // note the live allocations (trace only)
struct SimScenario { const char* name; void (*fn)(); int weight; SimScenario* next; };
void     sim_register(SimScenario*);
int      sim_main(int argc, char** argv, char* data_lo, char* data_hi);
}

namespace sim {
struct Quiet { Quiet() { sim_quiet_begin(); } ~Quiet() { sim_quiet_end(); } Quiet(const Quiet&) = delete; };
inline uint32_t choose(uint32_t n) { return sim_choose(n); }
inline bool flip() { return sim_choose(2) != 0; }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + sim_choose(hi - lo + 1); }
struct AllocWindow { AllocWindow() { sim_alloc_window(1); } ~AllocWindow() { sim_alloc_window(-1); } };

// A raw simulated thread running a callable.
class Thread {
  int id_ = -1;
  template<class F> static void tramp(void* p) { F* f = static_cast<F*>(p); (*f)(); { Quiet q; delete f; } }
public:
  Thread() {}
  template<class F> explicit Thread(F f) { F* p; { Quiet q; p = new F(std::move(f)); } id_ = sim_spawn(&tramp<F>, p); }
  Thread(Thread&& o) : id_(o.id_) { o.id_ = -1; }
  Thread& operator=(Thread&& o) { id_ = o.id_; o.id_ = -1; return *this; }
  void join() { if (id_ >= 0) sim_join(id_); id_ = -1; }
  ~Thread() { join(); }
  int id() const { return id_; }
};
struct Threads {
  std::vector<Thread> v;
  Threads() {}
  template<class F> void go(F f) { Thread t(std::move(f)); Quiet q; v.push_back(std::move(t)); }
  void join() { for (size_t i = 0; i < v.size(); ++i) v[i].join(); Quiet q; v.clear(); v.shrink_to_fit(); }
  ~Threads() { join(); }
};
}
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim_violation(cls, __VA_ARGS__); } while (0)
#define SCENARIO(nm, wt) static void scen_##nm(); \
  static SimScenario scen_obj_##nm = {#nm, &scen_##nm, wt, nullptr}; \
  struct scen_reg_##nm { scen_reg_##nm() { sim_register(&scen_obj_##nm); } } static scen_inst_##nm; \
  static void scen_##nm()
#endif

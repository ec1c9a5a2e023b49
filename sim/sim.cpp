// Deterministic simulator runtime (see DESIGN.md).  Built as libsim.so, not instrumented.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <new>
#include <algorithm>
#include <vector>
#include <string>
#include <map>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64; typedef uintptr_t up;
#define EXPORT extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------------- constants
static const int MAXF = 40;
static const up ARENA = 0x10000000000ull, ARENA_SZ = 48ull << 20;
static const up STK = 0x20000000000ull, STK_ONE = 256ull << 10, STK_SZ = STK_ONE * MAXF;
static const u64 FAIR = 20000;
static const u64 T0 = 1000ull * 1000000000ull;                 // simulated uptime at start
static const u64 REAL0 = 1700000000ull * 1000000000ull;        // simulated wall clock at start
static const u64 INF = ~0ull;
static const int MAXKEYS = 64;

enum { K_GEN='G', K_PRE='P', K_PICK='K', K_TIME='T', K_JUMP='J', K_SIG='W' };
static const char* fault_names[SF_N] = {"spurious_wakeup","eintr","thread_create_fails","mutex_init_fails","cond_init_fails",
  "allocation_fails","stall","realtime_jump","weak_cas_fails","sleep_eintr","user_callback_throws","interrupt_request"};

// ------------------------------------------------------------------------- rng
struct Rng { u64 s0, s1;
  static u64 mix(u64& x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void seed(u64 x) { s0 = mix(x); s1 = mix(x); if (!s0 && !s1) s1 = 1; }
  u64 next() { u64 a = s0, b = s1, r = a + b; b ^= a; s0 = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s1 = (b << 37) | (b >> 27); return r; }
  u32 below(u32 n) { return n <= 1 ? 0 : (u32)(((next() >> 32) * n) >> 32); }
  bool p16(u32 rate) { return (next() >> 48) < rate; }
};

// containers of the simulator itself never use the replaced operator new
template<class T> struct MA { typedef T value_type; MA() {} template<class U> MA(const MA<U>&) {}
  T* allocate(size_t n) { void* p = malloc(n * sizeof(T)); if (!p) _exit(3); return (T*)p; } void deallocate(T* p, size_t) { free(p); }
  template<class U> bool operator==(const MA<U>&) const { return true; } template<class U> bool operator!=(const MA<U>&) const { return false; } };
template<class T> using Vec = std::vector<T, MA<T> >; typedef std::basic_string<char, std::char_traits<char>, MA<char> > Str;

// ------------------------------------------------------------------------- shadow
struct Gran { u32 gen; u32 rr; u64 slot[7]; };      // 64 bytes per 8 bytes of memory
struct GranPc { u32 pc[8]; };
static Gran *sh_arena, *sh_stk, *sh_exe; static GranPc *pc_arena, *pc_stk, *pc_exe;
static up exe_lo, exe_sz; static char* exe_snap;

struct Alloc { u32 start, size; u8 live, fiber; u32 pcs[8]; u32 fpcs[8]; };
static u32* agran;              // granule -> alloc index + 1
static Vec<Alloc>* allocs; static size_t allocs_pre; static u32 bump, bump_pre; static char* pre_snap; static std::vector<u8>* pre_live;
static u64 live_count;

// ------------------------------------------------------------------------- state
struct VC { u32 c[MAXF]; };
struct Entry { u32 idx, val; };
enum { ST_FREE=0, ST_RUN, ST_BLOCK, ST_SETTLE, ST_DONE };
enum { W_NONE=0, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_ONCE, W_GUARD };
static const char* wnames[] = {"-","mutex","condition","join","sleep","once","static-guard"};
struct Fiber {
  int id, state, wait; up wobj; u64 dl; int dl_clk; int timed_out, woken;
  void* sp; void* (*fn)(void*); void* arg; void* ret; bool detached, joined, handle;
  u64 eh[2]; VC vc, acqp, relf; bool has_relf, has_acqp;
  u64 ev; u32 cnt[128]; u32 gcnt; u64 nblocks; u32 nyield; u32 prio;
  void* tls[MAXKEYS]; int window; int fail_nth; int nfail; const char* tag;
  u64 maxreal; u32 lastpc; int depth; u32 fs[256]; u64 settle;
  std::vector<Entry>* rep[128]; size_t cur[128];
};
static Fiber* fibers; static int nf; static Fiber* cur; static void* runner_sp;
static bool running; static int quiet; static u32 gen = 0;
static u64 now_ns, tot, since_switch, step_limit; static s64 real_off; static u64 next_dl; static s64 countdown;
static u64 fullhash, ihash; static u32 nsync, nswitch;
static bool replay, tracing; static int allow_blocked, ignore_leaks; static u32 fault_enabled, fault_allowed; static u32 rate[SF_N];
static Rng rw, rs, rf;
static int minit_nth, cinit_nth, create_nth; static u32 injected[SF_N];
struct Key { bool used; void (*dtor)(void*); }; static Key keys[MAXKEYS];
struct Rec { u8 kind, fiber; u32 idx, val; };
static Vec<Rec>* recs; static std::map<u32, std::vector<Entry> >* rep_map; // key = fiber<<8|kind
// strategy
static int st_type; static u32 st_gap, st_psync, st_park; static u64 st_cp[16]; static int st_ncp, st_cpi; static u32 lowprio;
static const char* cur_scen = "?"; static u64 cur_seed, cur_idx; static const char* out_path;
static u64 stat_faults[SF_N], stat_runs, stat_events, stat_syncs, stat_switches, stat_simtime, stat_threads, stat_rejumps; static u64 stat_maxev;
struct Probe { const char* n; u64 c; u64 runs; u32 lastgen; }; static Probe probes[256]; static int nprobes;
static Str* trace_buf; static SimScenario* scen_head;

struct Obj { up addr; u32 gen; int kind; int owner; int count; int type; int clk; bool destroyed, inited, dyn; VC vc; bool has; };
static const u32 OT = 1u << 14; static Obj* otab;

[[noreturn]] static void die(const char* m) { fprintf(stderr, "SIM-ERROR scenario=%s idx=%llu seed=%llu: %s\n", cur_scen, (unsigned long long)cur_idx, (unsigned long long)cur_seed, m); fflush(stderr); _exit(3); }
static void* xmap(size_t n) { void* p = mmap(0, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) die("mmap"); return p; }
static void early_init() {
  static bool done; if (done) return; done = true;
  if (mmap((void*)ARENA, ARENA_SZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0) != (void*)ARENA) die("arena");
  if (mmap((void*)STK, STK_SZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0) != (void*)STK) die("stacks");
  for (int i = 0; i < MAXF; i++) mprotect((void*)(STK + STK_ONE * i), 4096, PROT_NONE);
  sh_arena = (Gran*)xmap(ARENA_SZ / 8 * sizeof(Gran)); sh_stk = (Gran*)xmap(STK_SZ / 8 * sizeof(Gran));
  pc_arena = (GranPc*)xmap(ARENA_SZ / 8 * sizeof(GranPc)); pc_stk = (GranPc*)xmap(STK_SZ / 8 * sizeof(GranPc));
  agran = (u32*)xmap(ARENA_SZ / 8 * 4); otab = (Obj*)xmap(sizeof(Obj) * OT); fibers = (Fiber*)xmap(sizeof(Fiber) * MAXF);
    bump = 64;
}

// ------------------------------------------------------------------------- reporting
static void append_stack(std::string& s, Fiber* f) {
  char b[64]; snprintf(b, sizeof b, "stack %d %x", f->id, f->lastpc); s += b;
  for (int i = std::min(f->depth, 256) - 1, n = 0; i >= 0 && n < 24; i--, n++) { snprintf(b, sizeof b, " %x", f->fs[i]); s += b; }
  s += "\n";
}
static void append_choices(std::string& s) {
  char b[96];
  for (size_t i = 0; i < recs->size(); i++) { Rec& r = (*recs)[i]; snprintf(b, sizeof b, "c %c %u %u %u\n", r.kind, r.fiber, r.idx, r.val); s += b; }
}
static const char* kind_desc(Fiber* f) { return f->state == ST_RUN ? "runnable" : f->state == ST_DONE ? "done" : f->state == ST_SETTLE ? "settling" : wnames[f->wait]; }
static std::string desc_fibers() {
  std::string s; char b[256];
  for (int i = 0; i < nf; i++) { Fiber* f = &fibers[i]; snprintf(b, sizeof b, "fiber %d %s%s%s%s\n", i, f->state == ST_BLOCK ? "blocked-on-" : "", kind_desc(f), f->tag ? " in " : "", f->tag ? f->tag : ""); s += b; append_stack(s, f); }
  return s;
}
static void put_file(const char* path, const std::string& s) {
  FILE* fp = path ? fopen(path, "w") : stdout; if (!fp) fp = stderr; fwrite(s.data(), 1, s.size(), fp); fflush(fp); if (fp != stdout && fp != stderr) fclose(fp);
}
static void write_stats();
static std::vector<u64>* hashes; static const char* hash_path;
static bool reporting;
[[noreturn]] static void violation(const char* cls, const std::string& msg) {
  if (reporting) _exit(4);
  reporting = true; quiet++;
  std::string s; char b[256];
  snprintf(b, sizeof b, "scenario %s\nseed %llu\nidx %llu\nclass %s\nhash %llx\nevents %llu\n", cur_scen, (unsigned long long)cur_seed, (unsigned long long)cur_idx, cls, (unsigned long long)fullhash, (unsigned long long)tot); s += b;
  std::string m1 = msg; for (size_t i = 0; i < m1.size(); i++) if (m1[i] == '\n') m1[i] = '|';
  s += "message " + m1 + "\n";
  if (cur) { snprintf(b, sizeof b, "by %d\n", cur->id); s += b; }
  s += desc_fibers();
  append_choices(s);
  if (trace_buf && !trace_buf->empty()) { s += "trace-begin\n"; s += trace_buf->c_str(); s += "trace-end\n"; }
  put_file(out_path, s);
  write_stats();
  _exit(10);
}
EXPORT void sim_violation(const char* cls, const char* fmt, ...) {
  quiet++; char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation(cls, b);
}
static void tracef(const char* fmt, ...) {
  if (!tracing || !trace_buf || trace_buf->size() > (1u << 20)) return;
  char b[512]; int n = snprintf(b, sizeof b, "%8llu t=%.6fms f%d ", (unsigned long long)tot, (double)(s64)(now_ns - T0) / 1e6, cur ? cur->id : -1);
  va_list ap; va_start(ap, fmt); vsnprintf(b + n, sizeof b - n, fmt, ap); va_end(ap); *trace_buf += b; *trace_buf += "\n";
}
EXPORT void sim_note(const char* fmt, ...) { if (!tracing) return; quiet++; char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); tracef("note: %s", b); quiet--; }
EXPORT int sim_tracing(void) { return tracing; }

// ------------------------------------------------------------------------- recorded choices
static inline void record(int kind, u32 idx, u32 val) { Rec r; r.kind = (u8)kind; r.fiber = (u8)(cur ? cur->id : 0); r.idx = idx; r.val = val; recs->push_back(r); }
static u32 lookup(int kind, u32 idx) {
  std::vector<Entry>* v = cur->rep[kind]; if (!v) return 0; size_t& c = cur->cur[kind];
  while (c < v->size() && (*v)[c].idx < idx) c++;
  if (c < v->size() && (*v)[c].idx == idx) return (*v)[c].val;
  return 0;
}
EXPORT uint32_t sim_choose(uint32_t n) {
  if (n <= 1) return 0; u32 idx = cur->gcnt++; u32 v;
  if (replay) { v = lookup(K_GEN, idx); if (v >= n) v = n - 1; }
  else v = rw.below(n);
  if (v) record(K_GEN, idx, v);
  return v;
}
// returns 0 (no fault) or 1..nvals
static u32 fault_choice(int kind, u32 nvals) {
  u32 idx = cur->cnt[kind]++, v = 0;
  if (!((fault_allowed >> kind) & 1)) return 0;
  if (replay) { v = lookup('a' + kind, idx); if (v > nvals) v = nvals; }
  else if (((fault_enabled >> kind) & 1) && rf.p16(rate[kind])) v = 1 + rf.below(nvals);
  if (v) { record('a' + kind, idx, v); stat_faults[kind]++; injected[kind]++; tracef("FAULT %s %u", fault_names[kind], v); }
  return v;
}
EXPORT int sim_fault(int kind, int, uint32_t num, uint32_t den) {
  u32 idx = cur->cnt[kind]++, v = 0;
  if (replay) v = lookup('a' + kind, idx) ? 1 : 0; else v = rf.below(den) < num;
  if (v) { record('a' + kind, idx, 1); stat_faults[kind]++; injected[kind]++; tracef("FAULT %s", fault_names[kind]); }
  return (int)v;
}
EXPORT void sim_count_fault(int kind) { stat_faults[kind]++; injected[kind]++; }
static int nprims;
EXPORT int sim_live_prims(void) { return nprims; }
EXPORT int sim_injected(int kind) { return (int)injected[kind]; }
EXPORT void sim_faults(uint32_t mask) { fault_allowed = mask; }

// ------------------------------------------------------------------------- context switch
extern "C" void sim_switch_asm(void** save, void* to);
asm(R"(
.text
.globl sim_switch_asm
.hidden sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_asm,.-sim_switch_asm
.globl sim_fiber_boot
.hidden sim_fiber_boot
.type sim_fiber_boot,@function
sim_fiber_boot:
  .cfi_startproc
  .cfi_undefined rip
  call sim_fiber_entry
  ud2
  .cfi_endproc
.size sim_fiber_boot,.-sim_fiber_boot
)");
extern "C" void sim_fiber_boot();
static u64* eh_globals() { return (u64*)(void*)abi::__cxa_get_globals(); }

static void reset_countdown();
static void switch_to(Fiber* t) {
  if (t == cur) { since_switch = 0; reset_countdown(); return; }
  Fiber* me = cur; u64* g = eh_globals(); me->eh[0] = g[0]; me->eh[1] = (u32)g[1];
  g[0] = t->eh[0]; *(u32*)&g[1] = (u32)t->eh[1];
  cur = t; since_switch = 0; nswitch++;
  ihash = (ihash ^ (u64)(t->id + 1)) * 0x100000001b3ull + nsync;
  fullhash = (fullhash ^ (0xabcdull << 32 | (u64)t->id)) * 0x100000001b3ull;
  reset_countdown();
  sim_switch_asm(&me->sp, t->sp);
}
static void to_runner() { void* dummy; u64* g = eh_globals(); g[0] = 0; *(u32*)&g[1] = 0; running = false; sim_switch_asm(&dummy, runner_sp); }

// ------------------------------------------------------------------------- time
static u64 eff_dl(Fiber* f) { return f->dl == INF ? INF : f->dl_clk == CLOCK_REALTIME ? (u64)std::max<s64>(0, (s64)(f->dl - (u64)real_off)) : f->dl; }
static void recompute_dl() { next_dl = INF; for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK) { u64 d = eff_dl(&fibers[i]); if (d < next_dl) next_dl = d; } }
static void make_run(Fiber* f) { f->state = ST_RUN; f->wait = W_NONE; f->wobj = 0; f->dl = INF; }
static void fire_timers() {
  for (int i = 0; i < nf; i++) { Fiber* f = &fibers[i]; if (f->state == ST_BLOCK && eff_dl(f) <= now_ns) { f->timed_out = 1; tracef("timer fires for f%d", i); make_run(f); } }
  recompute_dl();
}
static void advance(u64 t) { if (t > now_ns) now_ns = t; if (now_ns >= next_dl) fire_timers(); }
static void tick(u64 d) { now_ns += d; if (now_ns >= next_dl) fire_timers(); }

// ------------------------------------------------------------------------- scheduler
static int runnable(Fiber** out) { // RR order starting after cur; cur last
  int n = 0; int base = cur ? cur->id : 0;
  for (int k = 1; k <= nf; k++) { Fiber* f = &fibers[(base + k) % nf]; if (f->state == ST_RUN) out[n++] = f; }
  return n;
}
[[noreturn]] static void deadlock() {
  std::string m = "no thread can run and no deadline is pending:"; char b[160];
  for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK) { snprintf(b, sizeof b, " [thread %d blocked on %s%s%s]", i, wnames[fibers[i].wait], fibers[i].tag ? " in " : "", fibers[i].tag ? fibers[i].tag : ""); m += b; }
  violation("stuck", m);
}
static Fiber* strat_pick(Fiber** r, int n) {
  if (st_type == 1) { Fiber* b = r[0]; for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i]; return b; }
  return r[rs.below(n)];
}
static Fiber* pick_next() { // cur may or may not be runnable
  Fiber* r[MAXF];
  for (;;) {
    int n = runnable(r);
    if (n == 0) {
      Fiber* s = 0; for (int i = 0; i < nf && !s; i++) if (fibers[i].state == ST_SETTLE) s = &fibers[i];
      if (s) { s->state = ST_RUN; s->settle = 1; return s; }
      if (next_dl == INF) {
        bool any = false; for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK) any = true;
        if (!any) return 0;
        if (fibers[0].state == ST_DONE && allow_blocked) return 0;
        deadlock();
      }
      if (++stat_rejumps, next_dl > T0 + 400ull * 365 * 86400 * 1000000000ull) deadlock();
      advance(next_dl); continue;
    }
    u32 idx = cur->cnt[K_PICK]++;
    if (n == 1) return r[0];
    Fiber* t = r[0];
    if (replay) { u32 v = lookup(K_PICK, idx); if (v) for (int i = 0; i < n; i++) if ((u32)r[i]->id + 1 == v) t = r[i]; }
    else t = strat_pick(r, n);
    if (t != r[0]) record(K_PICK, idx, t->id + 1);
    return t;
  }
}
static void block_cur() { // state set by caller
  if (quiet) die("blocking operation in a quiet section");
  cur->nblocks++; cur->nyield = 0;
  if (cur->state == ST_BLOCK && cur->dl != INF) recompute_dl();
  Fiber* t = pick_next();
  if (!t) { to_runner(); return; }
  switch_to(t);
}
static u64 strat_gap() {
  if (st_type == 1) { while (st_cpi < st_ncp && st_cp[st_cpi] <= tot) st_cpi++; return st_cpi < st_ncp ? st_cp[st_cpi] - tot : INF / 4; }
  u32 g = st_gap; u64 k = 1; // geometric-ish: uniform in [1, 2g)
  k = 1 + rs.below(2 * g); return k;
}
static u64 next_p(Fiber* f) { std::vector<Entry>* v = f->rep[K_PRE]; if (!v) return INF / 4; size_t& c = f->cur[K_PRE]; while (c < v->size() && (*v)[c].idx <= f->ev) c++; return c < v->size() ? (*v)[c].idx - f->ev : INF / 4; }
static void reset_countdown() {
  u64 g = replay ? next_p(cur) : strat_gap();
  u64 fair = since_switch < FAIR ? FAIR - since_switch : 1;
  u64 lim = step_limit >= tot ? step_limit - tot + 1 : 1;
  countdown = (s64)std::min(std::min(g, fair), lim); if (countdown < 1) countdown = 1;
}
static void do_preempt(Fiber* t) { if (t == cur) { return; } tracef("preempted -> f%d", t->id); switch_to(t); }
static u64 last_reset; // tot at last reset_countdown (to maintain since_switch)
static void preempt_slow() {
  if (quiet || !running) { countdown = 1; return; }
  if (tot > step_limit) { quiet++; char b[128]; snprintf(b, sizeof b, "no progress: step limit of %llu events exceeded", (unsigned long long)step_limit); violation("livelock", b); }
  Fiber* r[MAXF];
  if (since_switch >= FAIR) {
    int n = runnable(r);
    if (n > 1) { Fiber* t = r[0]; if (st_type == 1 && !replay) cur->prio = --lowprio; do_preempt(t); since_switch = 0; reset_countdown(); return; }
    since_switch = 0; reset_countdown(); return;
  }
  if (replay) {
    std::vector<Entry>* v = cur->rep[K_PRE];
    if (v) { size_t& c = cur->cur[K_PRE]; while (c < v->size() && (*v)[c].idx < cur->ev) c++;
      if (c < v->size() && (*v)[c].idx == cur->ev) { u32 val = (*v)[c].val; c++; if (val >= 1 && (int)val <= nf && fibers[val - 1].state == ST_RUN && val - 1 != (u32)cur->id) { record(K_PRE, (u32)cur->ev, val); do_preempt(&fibers[val - 1]); reset_countdown(); return; } } }
    reset_countdown(); return;
  }
  int n = runnable(r);
  if (n > 1) {
    if (st_type == 1) cur->prio = --lowprio;
    Fiber* t = strat_pick(r, n);
    if (t != cur) { record(K_PRE, (u32)cur->ev, t->id + 1); do_preempt(t); }
  }
  reset_countdown();
}
static inline void event() { cur->ev++; tot++; since_switch++; now_ns += 2; if (--countdown <= 0) preempt_slow(); }

static void note_real() { for (int i = 0; i < nf; i++) fibers[i].maxreal = std::max(fibers[i].maxreal, now_ns + (u64)real_off); }
EXPORT void sim_real_max_reset(void) { cur->maxreal = 0; }
EXPORT uint64_t sim_real_max(void) { return std::max(cur->maxreal, now_ns + (u64)real_off); }
static void sync_event(int code, up obj) {
  if (!running) return;
  if (quiet) return;
  cur->ev++; tot++; since_switch++; nsync++;
  fullhash = (fullhash ^ (u64)(code << 8 | cur->id) ^ (obj << 16)) * 0x100000001b3ull;
  ihash = (ihash ^ (u64)(code << 8 | cur->id)) * 0x100000001b3ull;
  tick(20);
  if (fault_allowed & (1u << SF_STALL)) {
    u32 idx = (u32)cur->ev, v = 0;
    if (replay) v = lookup(K_TIME, idx);
    else if (((fault_enabled >> SF_STALL) & 1) && rf.p16(rate[SF_STALL])) { u32 k = rf.below(10); v = k < 5 && next_dl != INF ? 1 + rf.below(3) : 4 + rf.below(5); }
    if (v) {
      record(K_TIME, idx, v); stat_faults[SF_STALL]++; injected[SF_STALL]++; tracef("FAULT stall %u", v);
      switch (v) {
        case 1: if (next_dl != INF && next_dl < now_ns + 1000000000000ull) advance(next_dl); break;
        case 2: if (next_dl != INF && next_dl < now_ns + 1000000000000ull) advance(next_dl + 1); break;
        case 3: if (next_dl != INF && next_dl < now_ns + 1000000000000ull && next_dl > now_ns + 40) { now_ns = next_dl - 30; } break;
        case 4: tick(1000); break; case 5: tick(100000); break; case 6: tick(3000000); break; case 7: tick(150000000); break; default: tick(2000000000ull);
      }
    }
  }
  if (fault_allowed & (1u << SF_RJUMP)) {
    u32 idx = (u32)cur->ev, v = 0;
    if (replay) v = lookup(K_JUMP, idx);
    else if (((fault_enabled >> SF_RJUMP) & 1) && rf.p16(rate[SF_RJUMP])) v = 1 + rf.below(8);
    if (v) {
      static const s64 d[] = {0, 1000000, -1000000, 1000000000, -1000000000, 60000000000ll, -60000000000ll, 86400000000000ll, -600000000000ll};
      record(K_JUMP, idx, v); note_real(); stat_faults[SF_RJUMP]++; injected[SF_RJUMP]++; real_off += d[v > 8 ? 8 : v]; tracef("FAULT realtime jump %lld ns", (long long)d[v > 8 ? 8 : v]); recompute_dl(); if (now_ns >= next_dl) fire_timers();
    }
  }
  if (!replay) {
    bool p = false;
    if (st_type == 1) { Fiber* r[MAXF]; int n = runnable(r); if (n > 1) { Fiber* b = strat_pick(r, n); if (b != cur && b->prio > cur->prio) { record(K_PRE, (u32)cur->ev, b->id + 1); do_preempt(b); return; } } }
    else if (st_psync && rs.p16(st_psync)) p = true;
    if (p) { Fiber* r[MAXF]; int n = runnable(r); if (n > 1) { Fiber* t = r[rs.below(n)]; if (t != cur) { record(K_PRE, (u32)cur->ev, t->id + 1); do_preempt(t); return; } } --countdown; return; }
  }
  if (--countdown <= 0) preempt_slow();
}
EXPORT void sim_clock_jump(int64_t ns) { note_real(); real_off += ns; recompute_dl(); if (now_ns >= next_dl) fire_timers(); }

static void yield_now(u64 t) {
  cur->nyield++; u32 k = cur->nyield / 4; if (k > 14) k = 14; tick(t << k);
  if (st_type == 1 && !replay) cur->prio = --lowprio;
  Fiber* n = pick_next(); if (n) switch_to(n);
}
EXPORT void sim_yield(void) { if (!running || quiet) return; sync_event(1, 0); Fiber* n = pick_next(); if (n) switch_to(n); }

// ------------------------------------------------------------------------- objects and vector clocks
static void vc_join(VC& a, const VC& b) { for (int i = 0; i < nf; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static Obj* obj(up addr, int kind) {
  u32 h = (u32)((addr >> 2) * 0x9e3779b1u) >> (32 - 14);
  for (u32 k = 0; k < OT; k++) { Obj* o = &otab[(h + k) & (OT - 1)];
    if (o->gen != gen) { memset(o, 0, sizeof *o); o->gen = gen; o->addr = addr; o->kind = kind; o->owner = -1; o->clk = CLOCK_REALTIME; return o; }
    if (o->addr == addr && o->kind == kind) return o; }
  die("object table full");
}
static void acquire(Obj* o) { if (o->has) vc_join(cur->vc, o->vc); }
static void release_join(Obj* o) { if (!o->has) { memset(&o->vc, 0, sizeof(VC)); o->has = true; } vc_join(o->vc, cur->vc); cur->vc.c[cur->id]++; }
static void release_set(Obj* o) { o->vc = cur->vc; o->has = true; cur->vc.c[cur->id]++; }

// ------------------------------------------------------------------------- race detection
static inline Gran* gran_of(up a, GranPc** pc) {
  if (a - ARENA < ARENA_SZ) { up i = (a - ARENA) >> 3; *pc = &pc_arena[i]; return &sh_arena[i]; }
  if (a - STK < STK_SZ) { up i = (a - STK) >> 3; *pc = &pc_stk[i]; return &sh_stk[i]; }
  if (a - exe_lo < exe_sz) { up i = (a - exe_lo) >> 3; *pc = &pc_exe[i]; return &sh_exe[i]; }
  return 0;
}
static const u64 FW = 1ull << 48, FA = 1ull << 49;
[[noreturn]] static void race(up a, int size, bool w, bool at, u64 s, u32 oldpc, const char* what) {
  char b[400]; snprintf(b, sizeof b, "%s: %s%s of %d bytes at %llx by thread %d pc %x is not ordered with the earlier %s%s by thread %d pc %x", what,
    at ? "atomic " : "", w ? "write" : "read", size, (unsigned long long)a, cur->id, cur->lastpc, s & FA ? "atomic " : "", s & FW ? "write" : "read", (int)((s >> 40) & 0xff) - 1, oldpc);
  violation("race", b);
}
[[noreturn]] static void bad_heap(up a, int size, bool w) {
  up gi = (a - ARENA) >> 3; u32 ai = agran[gi]; char b[300]; std::string m;
  if (!ai) snprintf(b, sizeof b, "heap access out of bounds: %s of %d bytes at %llx", w ? "write" : "read", size, (unsigned long long)a);
  else { Alloc& al = (*allocs)[ai - 1]; snprintf(b, sizeof b, "use after free: %s of %d bytes at offset %lld of a block of %u bytes, thread %d pc %x, freed at pcs %x %x %x %x %x %x", w ? "write" : "read", size, (long long)(a - ARENA - al.start), al.size, cur->id, cur->lastpc, al.fpcs[0], al.fpcs[1], al.fpcs[2], al.fpcs[3], al.fpcs[4], al.fpcs[5]); }
  m = b; violation(ai ? "use-after-free" : "out-of-bounds", m);
}
static inline void check_gran(Gran* g, GranPc* gp, u32 mask, bool w, bool at, up a, int size, const char* what) {
  if (g->gen != gen) { g->gen = gen; g->rr = 0; memset(g->slot, 0, sizeof g->slot); }
  const u64 me = (u64)cur->id + 1; const u64 ns = (u64)cur->vc.c[cur->id] | (u64)mask << 32 | me << 40 | (w ? FW : 0) | (at ? FA : 0);
  int fr = -1;
  for (int i = 0; i < 7; i++) {
    u64 s = g->slot[i]; if (!s) { if (fr < 0) fr = i; break; }
    if (s == ns) return;
    u32 sm = (u32)(s >> 32) & 0xff; u32 st = (u32)(s >> 40) & 0xff;
    if (st == me) { if ((sm & ~mask) == 0 && (w || !(s & FW)) && (!at || (s & FA))) { g->slot[i] = ns; gp->pc[i] = cur->lastpc; return; } }
    else if (sm & mask) {
      bool conflict = (w || (s & FW)) && !(at && (s & FA));
      bool ordered = (u32)s <= cur->vc.c[st - 1];
      if (conflict && !ordered) race(a, size, w, at, s, gp->pc[i], what);
      if (ordered && w && !at && (sm & ~mask) == 0 && fr < 0) fr = i;
    }
  }
  if (fr < 0) { fr = g->rr++ % 7; }
  g->slot[fr] = ns; gp->pc[fr] = cur->lastpc;
}
static inline void touch(up a, int size, bool w, bool at) { // no event
  while (size > 0) {
    GranPc* gp; Gran* g = gran_of(a, &gp); if (!g) return;
    int off = (int)(a & 7), n = std::min(8 - off, size); u32 mask = ((1u << n) - 1) << off;
    if (a - ARENA < ARENA_SZ) { u32 ai = agran[(a - ARENA) >> 3]; if (!ai || !(*allocs)[ai - 1].live) bad_heap(a, size, w); }
    check_gran(g, gp, mask, w, at, a, n, "data race");
    a += n; size -= n;
  }
}
static inline void access(void* p, int size, bool w, up pc) {
  if (!running || quiet) return;
  cur->lastpc = (u32)pc;
  up a = (up)p; if (a - ARENA < ARENA_SZ || a - STK < STK_SZ || a - exe_lo < exe_sz) fullhash = (fullhash ^ a) * 0x100000001b3ull;
  event(); cur->lastpc = (u32)pc;
  touch(a, size, w, false);
}
#define RA ((up)__builtin_return_address(0))
#define RW(n) \
  EXPORT void __tsan_read##n(void* p) { access(p, n, false, RA); } EXPORT void __tsan_write##n(void* p) { access(p, n, true, RA); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); } EXPORT void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { access(p, (int)n, false, RA); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { access(p, (int)n, true, RA); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p == v) access(p, 8, false, RA); else access(p, 8, true, RA); }
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void* pc) { if (cur && running) { if (cur->depth < 256) cur->fs[cur->depth] = (u32)(up)pc; cur->depth++; } }
EXPORT void __tsan_func_exit(void) { if (cur && running && cur->depth > 0) cur->depth--; }
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) { if (running && !quiet && n) { access((void*)s, (int)n, false, RA); touch((up)d, (int)n, true, false); } return memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) { if (running && !quiet && n) { access((void*)s, (int)n, false, RA); touch((up)d, (int)n, true, false); } return memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n) { if (running && !quiet && n) access(d, (int)n, true, RA); return memset(d, c, n); }

// atomics
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(volatile void* p, int size, bool w, up pc) {
  cur->lastpc = (u32)pc; sync_event(2, (up)p); cur->lastpc = (u32)pc; touch((up)p, size, w, true);
}
static void at_acq(Obj* o, int mo) { if (!o->has) return; if (acq(mo)) vc_join(cur->vc, o->vc); else { if (!cur->has_acqp) { memset(&cur->acqp, 0, sizeof(VC)); cur->has_acqp = true; } vc_join(cur->acqp, o->vc); } }
static void at_rel(Obj* o, int mo, bool rmw) {
  if (!rmw) { memset(&o->vc, 0, sizeof(VC)); o->has = false; }
  if (rel(mo)) release_join(o);
  else if (cur->has_relf) { if (!o->has) { memset(&o->vc, 0, sizeof(VC)); o->has = true; } vc_join(o->vc, cur->relf); }
}
#define ON (running && !quiet)
// volatile accesses count as relaxed atomics (the epoch based call_once relies on that)
#define VRW(n) \
  EXPORT void __tsan_volatile_read##n(void* p) { if (ON) { at_pre(p, n, false, RA); at_acq(obj((up)p, 9), __ATOMIC_RELAXED); } } \
  EXPORT void __tsan_volatile_write##n(void* p) { if (ON) { at_pre(p, n, true, RA); at_rel(obj((up)p, 9), __ATOMIC_RELAXED, false); } }
VRW(1) VRW(2) VRW(4) VRW(8) VRW(16)
#define ATOMICS(N, T) \
EXPORT T __tsan_atomic##N##_load(const volatile T* p, int mo) { if (ON) { at_pre((volatile void*)p, sizeof(T), false, RA); at_acq(obj((up)p, 9), mo); } return *p; } \
EXPORT void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { if (ON) { at_pre((volatile void*)p, sizeof(T), true, RA); at_rel(obj((up)p, 9), mo, false); } *p = v; } \
EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { \
  if (ON) { at_pre(p, sizeof(T), true, RA); Obj* o = obj((up)p, 9); T c = *p; if (c == *e) { at_acq(o, mo); at_rel(o, mo, true); *p = d; return 1; } at_acq(o, fmo); *e = c; return 0; } \
  T c = *p; if (c == *e) { *p = d; return 1; } *e = c; return 0; } \
EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { \
  if (ON) { at_pre(p, sizeof(T), true, RA); Obj* o = obj((up)p, 9); T c = *p; if (c == *e && !fault_choice(SF_WEAKCAS, 1)) { at_acq(o, mo); at_rel(o, mo, true); *p = d; return 1; } at_acq(o, fmo); *e = c; return 0; } \
  T c = *p; if (c == *e) { *p = d; return 1; } *e = c; return 0; } \
EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { \
  if (ON) { at_pre(p, sizeof(T), true, RA); Obj* o = obj((up)p, 9); T c = *p; if (c == e) { at_acq(o, mo); at_rel(o, mo, true); *p = d; } else at_acq(o, fmo); return c; } \
  T c = *p; if (c == e) *p = d; return c; }
#define RMW1(N, T, NAME, EXPR) EXPORT T __tsan_atomic##N##_##NAME(volatile T* p, T v, int mo) { if (ON) { at_pre(p, sizeof(T), true, RA); Obj* o = obj((up)p, 9); at_acq(o, mo); at_rel(o, mo, true); } T c = *p; *p = (T)(EXPR); return c; }
#define RMWS(N, T) RMW1(N,T,exchange,v) RMW1(N,T,fetch_add,c+v) RMW1(N,T,fetch_sub,c-v) RMW1(N,T,fetch_and,c&v) RMW1(N,T,fetch_or,c|v) RMW1(N,T,fetch_xor,c^v) RMW1(N,T,fetch_nand,~(c&v))
ATOMICS(8,u8) ATOMICS(16,uint16_t) ATOMICS(32,u32) ATOMICS(64,u64)
RMWS(8,u8) RMWS(16,uint16_t) RMWS(32,u32) RMWS(64,u64)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  if (!ON) return; cur->lastpc = (u32)RA; sync_event(3, 0);
  if (acq(mo) && cur->has_acqp) vc_join(cur->vc, cur->acqp);
  if (rel(mo)) { cur->relf = cur->vc; cur->has_relf = true; cur->vc.c[cur->id]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------- heap
static void grab_pcs(u32* p) { memset(p, 0, 8 * 4); if (!cur || !running) return; p[0] = cur->lastpc; int d = std::min(cur->depth, 256); for (int i = 1; i < 8 && d - i >= 0; i++) p[i] = cur->fs[d - i]; }
static void* arena_alloc(size_t n, size_t align) {
  early_init();
  if (!allocs) allocs = new (malloc(sizeof(Vec<Alloc>))) Vec<Alloc>();
  if (align < 16) align = 16;
  up st = ((up)bump + 16 + align - 1) & ~(up)(align - 1); size_t sz = (std::max<size_t>(n, 1) + 7) & ~(size_t)7;
  if (st + sz + 64 > ARENA_SZ) die("arena exhausted");
  bump = (u32)(st + sz);
  Alloc a; a.start = (u32)st; a.size = (u32)n; a.live = 1; a.fiber = (u8)(cur ? cur->id : 0); grab_pcs(a.pcs); memset(a.fpcs, 0, sizeof a.fpcs);
  allocs->push_back(a); u32 ai = (u32)allocs->size(); live_count++;
  for (up g = st >> 3; g < (st + sz) >> 3; g++) { agran[g] = ai; sh_arena[g].gen = 0; }
  memset((void*)(ARENA + st), 0xCD, sz);
  return (void*)(ARENA + st);
}
static void arena_free(void* p) {
  if (!running) return;
  up o = (up)p - ARENA; u32 ai = agran[o >> 3]; char b[200];
  if (!ai || (*allocs)[ai - 1].start != o) { snprintf(b, sizeof b, "free of an address that is not the start of a block: %p", p); violation("bad-free", b); }
  Alloc& a = (*allocs)[ai - 1];
  if (!a.live) { snprintf(b, sizeof b, "double free of a block of %u bytes (first freed at pcs %x %x %x %x)", a.size, a.fpcs[0], a.fpcs[1], a.fpcs[2], a.fpcs[3]); violation("double-free", b); }
  if (!quiet) { size_t sz = (std::max<u32>(a.size, 1) + 7) & ~7u; size_t lim = std::min<size_t>(sz, 4096);
    for (up g = o >> 3; g < (o + lim) >> 3; g++) check_gran(&sh_arena[g], &pc_arena[g], 0xff, true, false, ARENA + g * 8, 8, "data race (memory freed)"); }
  a.live = 0; live_count--; grab_pcs(a.fpcs);
}
static bool alloc_fault() {
  if (!cur->window && !cur->fail_nth) return false;
  bool f = false;
  if (cur->fail_nth > 0 && --cur->fail_nth == 0) { f = true; stat_faults[SF_ALLOC]++; injected[SF_ALLOC]++; tracef("FAULT nth allocation fails"); }
  else if (cur->window > 0 && fault_choice(SF_ALLOC, 1)) f = true;
  if (f) cur->nfail++;
  return f;
}
static bool phase_started;
static void* do_new(size_t n, size_t al, bool nothrow) {
  if (!phase_started) return arena_alloc(n, al);
  if (running && !quiet) { sync_event(4, 0); if (alloc_fault()) { if (nothrow) return 0; throw std::bad_alloc(); } return arena_alloc(n, al); }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); if (!p) die("out of memory"); return p;
}
static void do_delete(void* p) { if (!p) return; if ((up)p - ARENA < ARENA_SZ) { if (running && !quiet) { sync_event(5, 0); } arena_free(p); } else free(p); }
#define VIS __attribute__((visibility("default")))
VIS void* operator new(size_t n) { if (cur) cur->lastpc = (u32)RA; return do_new(n, 16, false); }
VIS void* operator new[](size_t n) { if (cur) cur->lastpc = (u32)RA; return do_new(n, 16, false); }
VIS void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
VIS void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
VIS void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
VIS void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
VIS void operator delete(void* p) noexcept { do_delete(p); }
VIS void operator delete[](void* p) noexcept { do_delete(p); }
VIS void operator delete(void* p, size_t) noexcept { do_delete(p); }
VIS void operator delete[](void* p, size_t) noexcept { do_delete(p); }
VIS void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
VIS void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
VIS void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
VIS void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
VIS void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
EXPORT void* __wrap_malloc(size_t n) { if (!phase_started) return arena_alloc(n, 16); if (ON) { sync_event(4, 0); if (alloc_fault()) return 0; return arena_alloc(n, 16); } return malloc(n); }
EXPORT void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
EXPORT void __wrap_free(void* p) { do_delete(p); }
EXPORT void* __wrap_realloc(void* p, size_t n) {
  if (!p) return __wrap_malloc(n); if ((up)p - ARENA >= ARENA_SZ) return realloc(p, n);
  u32 ai = agran[((up)p - ARENA) >> 3]; u32 old = ai ? (*allocs)[ai - 1].size : 0; void* q = __wrap_malloc(n); if (q) { memcpy(q, p, std::min<size_t>(old, n)); __wrap_free(p); } return q; }
EXPORT uint64_t sim_live_allocs(void) { return live_count; }
EXPORT void sim_alloc_window(int d) { cur->window += d; }
EXPORT void sim_alloc_fail_nth(int n) { cur->fail_nth = n; }
EXPORT int sim_alloc_failed(void) { return cur->nfail; }
EXPORT void sim_ignore_leaks(void) { ignore_leaks = 1; }
EXPORT void sim_live_dump(void) { quiet++; for (size_t i = allocs_pre; i < allocs->size(); i++) { Alloc& a = (*allocs)[i]; if (a.live) tracef("live block %u bytes allocated at %x %x %x %x %x", a.size, a.pcs[0], a.pcs[1], a.pcs[2], a.pcs[3], a.pcs[4]); } quiet--; }

// ------------------------------------------------------------------------- threads
static void run_tls_dtors() {
  for (int it = 0; it < 4; it++) { bool any = false;
    for (int k = 0; k < MAXKEYS; k++) if (keys[k].used && cur->tls[k]) { void* v = cur->tls[k]; cur->tls[k] = 0; if (keys[k].dtor) { any = true; keys[k].dtor(v); } }
    if (!any) break; }
}
static void finish_fiber() {
  sync_event(6, 0);
  cur->state = ST_DONE; cur->tag = 0;
  for (int i = 0; i < nf; i++) { Fiber* f = &fibers[i]; if (f->state == ST_BLOCK && f->wait == W_JOIN && f->wobj == (up)cur) make_run(f); }
  block_cur();
  die("finished fiber resumed");
}
extern "C" __attribute__((visibility("hidden"), used)) void sim_fiber_entry() {
  const char* what = 0; std::string tn;
  try { cur->ret = cur->fn(cur->arg); run_tls_dtors(); }
  catch (std::exception& e) { quiet++; tn = typeid(e).name(); tn += ": "; tn += e.what(); what = tn.c_str(); }
  catch (...) { quiet++; std::type_info* t = abi::__cxa_current_exception_type(); tn = t ? t->name() : "?"; what = tn.c_str(); }
  if (what) { std::string m = "exception left the thread function: "; m += what; violation("uncaught-exception", m); }
  finish_fiber();
}
static Fiber* new_fiber(void* (*fn)(void*), void* arg) {
  if (nf >= MAXF) die("too many threads in one run");
  Fiber* f = &fibers[nf]; Fiber* keep = f; (void)keep; memset((void*)f, 0, sizeof *f); f->id = nf; nf++;
  f->state = ST_RUN; f->dl = INF; f->fn = fn; f->arg = arg; f->prio = st_type == 1 && !replay ? 1000000 + rs.below(1000000) : 0;
  f->vc.c[f->id] = 1;
  if (cur) { vc_join(f->vc, cur->vc); cur->vc.c[cur->id]++; f->vc.c[f->id] = 1; }
  if (rep_map) for (std::map<u32, std::vector<Entry> >::iterator it = rep_map->begin(); it != rep_map->end(); ++it) if ((int)(it->first >> 8) == f->id) f->rep[it->first & 0x7f] = &it->second;
  up top = STK + STK_ONE * (f->id + 1) - 64; u64* sp = (u64*)top; *--sp = 0; *--sp = 0; *--sp = (u64)&sim_fiber_boot; for (int i = 0; i < 6; i++) *--sp = 0; f->sp = sp;
  stat_threads++;
  return f;
}
static pthread_t id_of(Fiber* f) { return (pthread_t)(f->id + 1); }
static Fiber* fiber_of(pthread_t t) { u64 v = (u64)t; if (v < 1 || v > (u64)nf) sim_violation("bad-handle", "pthread call with an invalid thread handle %llu", (unsigned long long)v); return &fibers[v - 1]; }

static long sim_processors = 2; static size_t last_stack;
// pthread interface reached through --wrap
#define ENTER(code, o) do { cur->lastpc = (u32)RA; sync_event(code, (up)(o)); cur->lastpc = (u32)RA; } while (0)
static void chk_mem(const void* p, int size) { up a = (up)p; if (a - ARENA < ARENA_SZ) { u32 ai = agran[(a - ARENA) >> 3]; if (!ai || !(*allocs)[ai - 1].live) bad_heap(a, size, true); } }
EXPORT int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!running) die("pthread_create outside a run"); ENTER(10, 0);
  if (create_nth > 0 && --create_nth == 0) { stat_faults[SF_CREATE]++; injected[SF_CREATE]++; tracef("FAULT nth thread creation fails"); return EAGAIN; }
  if (fault_choice(SF_CREATE, 1)) return EAGAIN;
  Fiber* f = new_fiber(fn, arg); f->handle = true; int ds = PTHREAD_CREATE_JOINABLE; if (at) pthread_attr_getdetachstate(at, &ds); f->detached = ds == PTHREAD_CREATE_DETACHED; last_stack = 0; if (at) pthread_attr_getstacksize(at, &last_stack);
  *t = id_of(f); tracef("pthread_create -> f%d", f->id); return 0;
}
EXPORT int __wrap_pthread_join(pthread_t t, void** ret) {
  ENTER(11, 0); Fiber* f = fiber_of(t); if (f == cur) return EDEADLK; if (f->joined || f->detached) sim_violation("bad-handle", "pthread_join on thread %d which was already joined or detached", f->id);
  tracef("pthread_join f%d", f->id);
  while (f->state != ST_DONE) { cur->state = ST_BLOCK; cur->wait = W_JOIN; cur->wobj = (up)f; cur->dl = INF; block_cur(); }
  f->joined = true; vc_join(cur->vc, f->vc); if (ret) *ret = f->ret; return 0;
}
EXPORT int __wrap_pthread_detach(pthread_t t) { ENTER(12, 0); Fiber* f = fiber_of(t); if (f->joined || f->detached) sim_violation("bad-handle", "pthread_detach on thread %d which was already joined or detached", f->id); f->detached = true; tracef("pthread_detach f%d", f->id); return 0; }
EXPORT long __wrap_sysconf(int n) { return running && n == _SC_NPROCESSORS_ONLN ? sim_processors : sysconf(n); }
EXPORT pthread_t __wrap_pthread_self(void) { return running ? id_of(cur) : pthread_self(); }
EXPORT int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
// pthread_mutex
static Obj* mtx(pthread_mutex_t* m) { chk_mem(m, 8); Obj* o = obj((up)m, W_MUTEX); if (o->destroyed) sim_violation("primitive-misuse", "use of a destroyed mutex %p", (void*)m); if (!o->inited) { o->inited = true; o->owner = -1; } return o; }
EXPORT int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
  if (!running || quiet) return pthread_mutex_init(m, at); ENTER(20, m); chk_mem(m, 8);
  if (minit_nth > 0 && --minit_nth == 0) { stat_faults[SF_MINIT]++; injected[SF_MINIT]++; tracef("FAULT nth mutex init fails"); return ENOMEM; }
  u32 f = fault_choice(SF_MINIT, 2); if (f) return f == 1 ? ENOMEM : EAGAIN;
  Obj* o = obj((up)m, W_MUTEX); if (o->inited && !o->destroyed && o->owner >= 0) sim_violation("primitive-misuse", "init of a locked mutex %p", (void*)m);
  nprims++; o->dyn = true; o->destroyed = false; o->inited = true; o->owner = -1; o->count = 0; o->has = false; int ty = PTHREAD_MUTEX_NORMAL; if (at) pthread_mutexattr_gettype(at, &ty); o->type = ty; memset((void*)m, 0, sizeof *m); return 0; }
EXPORT int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!running || quiet) return 0; ENTER(21, m); Obj* o = mtx(m); if (fault_choice(SF_EINTR, 1)) return EINTR;
  if (o->owner >= 0) sim_violation("primitive-misuse", "mutex %p destroyed while locked by thread %d", (void*)m, o->owner);
  for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK && fibers[i].wait == W_MUTEX && fibers[i].wobj == (up)o) sim_violation("primitive-misuse", "mutex %p destroyed while thread %d waits for it", (void*)m, i);
  touch((up)m, (int)sizeof *m, true, false);
  o->destroyed = true; if (o->dyn) { o->dyn = false; nprims--; } return 0; }
static void m_lock(Obj* o) { while (o->owner >= 0) { cur->state = ST_BLOCK; cur->wait = W_MUTEX; cur->wobj = (up)o; cur->dl = INF; block_cur(); } o->owner = cur->id; o->count = 1; acquire(o); }
static void m_unlock(Obj* o) { release_set(o); o->owner = -1; o->count = 0; for (int i = 0; i < nf; i++) { Fiber* f = &fibers[i]; if (f->state == ST_BLOCK && f->wait == W_MUTEX && f->wobj == (up)o) make_run(f); } }
// A lock or unlock reads the mutex object itself: like an atomic access, it must not race with its construction or destruction.
static inline void m_touch(void* m) { touch((up)m, 8, true, true); }
EXPORT int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!running || quiet) return 0; ENTER(22, m); Obj* o = mtx(m); m_touch(m); if (fault_choice(SF_EINTR, 1)) return EINTR;
  if (o->owner == cur->id) { if (o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; } tracef("self deadlock"); }
  tracef("mutex_lock %p%s", (void*)m, o->owner >= 0 ? " (contended)" : ""); m_lock(o); mtx(m); return 0; }
EXPORT int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!running || quiet) return 0; ENTER(23, m); Obj* o = mtx(m); m_touch(m); if (fault_choice(SF_EINTR, 1)) return EINTR;
  if (o->owner >= 0) { if (o->owner == cur->id && o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; } tracef("mutex_trylock %p busy", (void*)m); return EBUSY; }
  o->owner = cur->id; o->count = 1; acquire(o); tracef("mutex_trylock %p ok", (void*)m); return 0; }
EXPORT int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!running || quiet) return 0; ENTER(24, m); Obj* o = mtx(m); m_touch(m); if (fault_choice(SF_EINTR, 1)) return EINTR;
  if (o->owner != cur->id) sim_violation("primitive-misuse", "thread %d unlocks mutex %p owned by %d", cur->id, (void*)m, o->owner);
  if (--o->count > 0) return 0; tracef("mutex_unlock %p", (void*)m); m_unlock(o); return 0; }
static bool ts_ok(const timespec* t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000l; }
static u64 ts_ns(const timespec* t) { if (t->tv_sec < 0) return 0; if ((u64)t->tv_sec > 9000000000ull) return 9000000000ull * 1000000000ull; return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
EXPORT int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
  if (!running || quiet) return 0; ENTER(25, m); Obj* o = mtx(m); m_touch(m);
  if (o->owner == cur->id && o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
  if (o->owner >= 0 && !ts_ok(ts)) return EINVAL; u64 dl = ts_ns(ts);
  while (o->owner >= 0) { cur->timed_out = 0; cur->state = ST_BLOCK; cur->wait = W_MUTEX; cur->wobj = (up)o; cur->dl = dl; cur->dl_clk = CLOCK_REALTIME; recompute_dl(); if (now_ns >= next_dl) fire_timers(); block_cur(); if (cur->timed_out) { cur->timed_out = 0; if (o->owner >= 0) return ETIMEDOUT; } }
  o->owner = cur->id; o->count = 1; acquire(o); return 0; }
// pthread_cond
static Obj* cnd(pthread_cond_t* c) { chk_mem(c, 8); Obj* o = obj((up)c, W_COND); if (o->destroyed) sim_violation("primitive-misuse", "use of a destroyed condition variable %p", (void*)c); o->inited = true; return o; }
EXPORT int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at) {
  if (!running || quiet) return pthread_cond_init(c, at); ENTER(30, c); chk_mem(c, 8);
  if (cinit_nth > 0 && --cinit_nth == 0) { stat_faults[SF_CINIT]++; injected[SF_CINIT]++; tracef("FAULT nth cond init fails"); return ENOMEM; }
  u32 f = fault_choice(SF_CINIT, 2); if (f) return f == 1 ? ENOMEM : EAGAIN;
  Obj* o = obj((up)c, W_COND); nprims++; o->dyn = true; o->destroyed = false; o->inited = true; clockid_t k = CLOCK_REALTIME; if (at) pthread_condattr_getclock(at, &k); o->clk = k; memset((void*)c, 0, sizeof *c); return 0; }
EXPORT int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
  if (!running || quiet) return 0; ENTER(31, c); Obj* o = cnd(c); if (fault_choice(SF_EINTR, 1)) return EINTR;
  for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK && fibers[i].wait == W_COND && fibers[i].wobj == (up)o) sim_violation("primitive-misuse", "condition variable %p destroyed while thread %d waits on it", (void*)c, i);
  touch((up)c, (int)sizeof *c, true, false);
  o->destroyed = true; if (o->dyn) { o->dyn = false; nprims--; } return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts, int clk) {
  Obj* o = cnd(c); Obj* mo = mtx(m); m_touch(c); if (clk < 0) clk = o->clk;
  if (fault_choice(SF_EINTR, 1)) return EINTR;
  if (ts && !ts_ok(ts)) return EINVAL;
  if (mo->owner != cur->id) sim_violation("primitive-misuse", "condition wait with a mutex that is not owned by the caller (owner %d)", mo->owner);
  int spur = fault_choice(SF_SPURIOUS, 1) != 0; int cnt = mo->count;
  m_unlock(mo); tracef("cond_wait %p%s", (void*)c, ts ? " timed" : "");
  cur->timed_out = 0; cur->woken = 0;
  if (spur) { Fiber* t = pick_next(); if (t) switch_to(t); }
  else { cur->state = ST_BLOCK; cur->wait = W_COND; cur->wobj = (up)o; cur->dl = ts ? ts_ns(ts) : INF; cur->dl_clk = clk; recompute_dl(); if (now_ns >= next_dl) fire_timers(); block_cur(); }
  int to = cur->timed_out; cur->timed_out = 0;
  tracef("cond_wait %p wakes%s", (void*)c, to ? " (timeout)" : spur ? " (spurious)" : "");
  m_lock(mo); mo->count = cnt;
  chk_mem(c, 8);
  return to ? ETIMEDOUT : 0;
}
EXPORT int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!running || quiet) die("cond_wait in quiet"); ENTER(32, c); return cond_wait(c, m, 0, -1); }
EXPORT int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (!running || quiet) die("cond_timedwait in quiet"); ENTER(33, c); return cond_wait(c, m, ts, -1); }
EXPORT int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { if (!running || quiet) die("cond_clockwait in quiet"); ENTER(33, c); return cond_wait(c, m, ts, k); }
static int signal_cond(pthread_cond_t* c, bool all) {
  Obj* o = cnd(c); m_touch(c);
  Fiber* w[MAXF]; int n = 0; for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK && fibers[i].wait == W_COND && fibers[i].wobj == (up)o) w[n++] = &fibers[i];
  tracef("cond_%s %p waiters=%d", all ? "broadcast" : "signal", (void*)c, n);
  if (!n) return 0;
  if (all) { for (int i = 0; i < n; i++) make_run(w[i]); }
  else { u32 k = 0; if (n > 1) { u32 idx = cur->cnt[K_SIG]++; if (replay) { k = lookup(K_SIG, idx); if (k >= (u32)n) k = 0; } else k = rs.below(n); if (k) record(K_SIG, idx, k); } make_run(w[k]); }
  recompute_dl(); return 0;
}
EXPORT int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!running || quiet) return 0; ENTER(34, c); return signal_cond(c, false); }
EXPORT int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!running || quiet) return 0; ENTER(35, c); return signal_cond(c, true); }
// keys, once, guards
EXPORT int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { if (running) ENTER(40, k); for (int i = 0; i < MAXKEYS; i++) if (!keys[i].used) { keys[i].used = true; keys[i].dtor = d; for (int j = 0; j < nf; j++) fibers[j].tls[i] = 0; *k = (pthread_key_t)(i + 1); return 0; } return EAGAIN; }
EXPORT int __wrap_pthread_key_delete(pthread_key_t k) { if (k < 1 || k > (unsigned)MAXKEYS || !keys[k - 1].used) return EINVAL; keys[k - 1].used = false; return 0; }
EXPORT void* __wrap_pthread_getspecific(pthread_key_t k) { if (!cur || k < 1 || k > (unsigned)MAXKEYS) return 0; return keys[k - 1].used ? cur->tls[k - 1] : 0; }
EXPORT int __wrap_pthread_setspecific(pthread_key_t k, const void* v) { if (!cur) die("setspecific outside a run"); if (k < 1 || k > (unsigned)MAXKEYS || !keys[k - 1].used) return EINVAL; cur->tls[k - 1] = (void*)v; return 0; }
EXPORT int __wrap_pthread_once(pthread_once_t* p, void (*fn)(void)) {
  if (!running) die("pthread_once outside a run"); ENTER(41, p); Obj* o = obj((up)p, W_ONCE);
  while (o->count == 1) { cur->state = ST_BLOCK; cur->wait = W_ONCE; cur->wobj = (up)o; cur->dl = INF; block_cur(); }
  if (o->count == 2) { acquire(o); return 0; }
  o->count = 1; try { fn(); } catch (...) { o->count = 0; for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK && fibers[i].wobj == (up)o) make_run(&fibers[i]); throw; }
  o->count = 2; release_join(o); for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK && fibers[i].wobj == (up)o) make_run(&fibers[i]); return 0;
}
EXPORT int __wrap___cxa_guard_acquire(u8* g) {
  if (!running || quiet) { return !g[0]; } ENTER(42, g); Obj* o = obj((up)g, W_GUARD);
  while (!g[0] && o->count == 1) { cur->state = ST_BLOCK; cur->wait = W_GUARD; cur->wobj = (up)o; cur->dl = INF; block_cur(); }
  if (g[0]) { acquire(o); Obj* a = obj((up)g, 9); if (a->has) vc_join(cur->vc, a->vc); return 0; } o->count = 1; return 1;
}
static void guard_end(u8* g, bool ok) { Obj* o = obj((up)g, W_GUARD); o->count = 0; if (ok) { Obj* a = obj((up)g, 9); at_rel(a, __ATOMIC_RELEASE, false); release_join(o); g[0] = 1; } for (int i = 0; i < nf; i++) if (fibers[i].state == ST_BLOCK && fibers[i].wait == W_GUARD && fibers[i].wobj == (up)o) make_run(&fibers[i]); }
EXPORT void __wrap___cxa_guard_release(u8* g) { if (!running || quiet) { g[0] = 1; return; } ENTER(43, g); guard_end(g, true); }
EXPORT void __wrap___cxa_guard_abort(u8* g) { if (!running || quiet) return; ENTER(44, g); guard_end(g, false); }
extern "C" int __cxa_atexit(void (*)(void*), void*, void*);
EXPORT int __wrap___cxa_atexit(void (*f)(void*), void* a, void* d) { if (running) return 0; return __cxa_atexit(f, a, d); }
EXPORT int __wrap_atexit(void (*f)(void)) { (void)f; return 0; }
// clocks
EXPORT int __wrap_clock_gettime(clockid_t k, timespec* t) {
  if (!running) return clock_gettime(k, t); if (!quiet) { ENTER(50, 0); tick(30); }
  u64 v = now_ns; if (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) v = now_ns + (u64)real_off; else if (k != CLOCK_MONOTONIC && k != CLOCK_MONOTONIC_COARSE && k != CLOCK_BOOTTIME) v = now_ns - T0;
  t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull); return 0; }
EXPORT int __wrap_gettimeofday(timeval* tv, void* tz) { if (!running) return gettimeofday(tv, (struct timezone*)tz); if (!quiet) { ENTER(51, 0); tick(30); } u64 v = now_ns + (u64)real_off; tv->tv_sec = (time_t)(v / 1000000000ull); tv->tv_usec = (long)(v % 1000000000ull / 1000); return 0; }
EXPORT time_t __wrap_time(time_t* p) { if (!running) return time(p); time_t t = (time_t)((now_ns + (u64)real_off) / 1000000000ull); if (p) *p = t; return t; }
static void sleep_until(u64 dl, int clk) { cur->timed_out = 0; cur->state = ST_BLOCK; cur->wait = W_SLEEP; cur->wobj = 0; cur->dl = dl; cur->dl_clk = clk; recompute_dl(); if (now_ns >= next_dl) fire_timers(); block_cur(); cur->timed_out = 0; }
EXPORT int __wrap_nanosleep(const timespec* ts, timespec* rem) {
  if (!running || quiet) return 0; ENTER(52, 0); if (!ts_ok(ts) || ts->tv_sec < 0) { errno = EINVAL; return -1; }
  u64 d = ts_ns(ts); u32 f = fault_choice(SF_SLEEPINTR, 3);
  if (f) { u64 part = f == 1 ? 0 : f == 2 ? d / 2 : d > 10 ? d - 10 : 0; u64 t0 = now_ns; if (part) sleep_until(now_ns + part, CLOCK_MONOTONIC); u64 el = now_ns - t0; u64 left = el < d ? d - el : 1; if (rem) { rem->tv_sec = (time_t)(left / 1000000000ull); rem->tv_nsec = (long)(left % 1000000000ull); } errno = EINTR; return -1; }
  tracef("nanosleep %llu ns", (unsigned long long)d);
  cur->nyield++; sleep_until(now_ns + std::max<u64>(d, 1), CLOCK_MONOTONIC); return 0; }
EXPORT int __wrap_clock_nanosleep(clockid_t k, int flags, const timespec* ts, timespec*) { if (!running || quiet) return 0; ENTER(52, 0); if (!ts_ok(ts)) return EINVAL; u64 d = ts_ns(ts); sleep_until(flags & TIMER_ABSTIME ? d : now_ns + d, flags & TIMER_ABSTIME && k == CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC); return 0; }
EXPORT int __wrap_usleep(unsigned us) { if (!running || quiet) return 0; ENTER(52, 0); sleep_until(now_ns + us * 1000ull, CLOCK_MONOTONIC); return 0; }
EXPORT unsigned __wrap_sleep(unsigned s) { if (!running || quiet) return 0; ENTER(52, 0); sleep_until(now_ns + s * 1000000000ull, CLOCK_MONOTONIC); return 0; }
EXPORT int __wrap_sched_yield(void) { if (!running || quiet) return 0; ENTER(53, 0); yield_now(1000); return 0; }
EXPORT int __wrap_pthread_yield(void) { return __wrap_sched_yield(); }
EXPORT void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) { if (!running) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(3); } quiet++; if (cur) cur->lastpc = (u32)RA; const char* s = strstr(f, "boost/"); char b[600]; snprintf(b, sizeof b, "assertion failed: %s in %s (%s)", e, fn, s ? s : f); violation("assertion", b); }
EXPORT void __wrap_abort(void) { if (!running) _exit(3); quiet++; if (cur) cur->lastpc = (u32)RA; violation("abort", "abort() called"); }

// ------------------------------------------------------------------------- harness services
EXPORT uint64_t sim_now(void) { return now_ns; }
EXPORT uint64_t sim_now_real(void) { return now_ns + (u64)real_off; }
EXPORT uint64_t sim_seq(void) { return ++tot; }
EXPORT int sim_self(void) { return cur ? cur->id : -1; }
EXPORT void sim_quiet_begin(void) { quiet++; }
EXPORT void sim_quiet_end(void) { quiet--; }
EXPORT void sim_probe(const char* n) { for (int i = 0; i < nprobes; i++) if (probes[i].n == n || !strcmp(probes[i].n, n)) { probes[i].c++; if (probes[i].lastgen != gen) { probes[i].lastgen = gen; probes[i].runs++; } return; } if (nprobes < 256) { probes[nprobes].n = n; probes[nprobes].c = 1; probes[nprobes].runs = 1; probes[nprobes].lastgen = gen; nprobes++; } }
struct Raw { void (*fn)(void*); void* arg; }; static Raw raws[MAXF];
static void* raw_tramp(void* p) { Raw* r = (Raw*)p; r->fn(r->arg); return 0; }
EXPORT int sim_spawn(void (*fn)(void*), void* arg) { sync_event(10, 0); Raw* r = &raws[nf < MAXF ? nf : 0]; r->fn = fn; r->arg = arg; Fiber* f = new_fiber(raw_tramp, r); return f->id; }
EXPORT void sim_join(int id) { sync_event(11, 0); Fiber* f = &fibers[id]; while (f->state != ST_DONE) { cur->state = ST_BLOCK; cur->wait = W_JOIN; cur->wobj = (up)f; cur->dl = INF; block_cur(); } f->joined = true; vc_join(cur->vc, f->vc); }
EXPORT int sim_done(int id) { return fibers[id].state == ST_DONE; }
EXPORT int sim_is_blocked(int id) { return fibers[id].state == ST_BLOCK; }
EXPORT void sim_allow_blocked(void) { allow_blocked = 1; }
EXPORT void sim_set_tag(const char* t) { cur->tag = t; }
EXPORT void sim_sleep_ns(uint64_t ns) { if (!running || quiet) return; sync_event(54, 0); sleep_until(now_ns + ns, CLOCK_MONOTONIC); }
EXPORT uint64_t sim_blocks(void) { return cur->nblocks; }
EXPORT int sim_settle(void) { sync_event(55, 0); cur->state = ST_SETTLE; block_cur(); return 1; }
EXPORT int sim_thread_handles(void) { int n = 0; for (int i = 0; i < nf; i++) if (fibers[i].handle && !fibers[i].joined && !fibers[i].detached) n++; return n; }
EXPORT void sim_step_limit(uint64_t n) { step_limit = n; }
EXPORT void sim_set_processors(int n) { sim_processors = n; }
EXPORT size_t sim_last_stack(void) { return last_stack; }
EXPORT void sim_fail_create(int n) { create_nth = n; }
EXPORT void sim_fail_minit(int n) { minit_nth = n; }
EXPORT void sim_fail_cinit(int n) { cinit_nth = n; }
EXPORT void sim_register(SimScenario* s) { s->next = scen_head; scen_head = s; }

// ------------------------------------------------------------------------- runs
static void on_signal(int sig, siginfo_t* si, void* uc) {
  if (reporting) _exit(4);
  (void)uc; if (!running) { fprintf(stderr, "SIM-ERROR signal %d outside a run\n", sig); _exit(3); }
  char b[160]; up a = (up)si->si_addr; bool so = a - STK < STK_SZ && (a - STK) % STK_ONE < 4096;
  snprintf(b, sizeof b, sig == SIGALRM ? "run does not end (real-time watchdog)" : so ? "stack overflow" : "signal %d, address %llx", sig, (unsigned long long)a);
  quiet++; violation(sig == SIGALRM ? "hang" : sig == SIGABRT ? "abort" : "crash", b);
}
static void on_terminate() {
  if (reporting) _exit(4);
  if (!running) { fprintf(stderr, "SIM-ERROR terminate outside a run\n"); _exit(3); }
  quiet++; std::string m = "std::terminate called"; std::type_info* t = abi::__cxa_current_exception_type(); if (t) { m += ", exception "; m += t->name(); }
  violation("terminate", m);
}
static void setup_strategy() {
  memset(rate, 0, sizeof rate); fault_enabled = 0;
  u32 k = rs.below(16); st_ncp = st_cpi = 0; lowprio = 1000000; st_psync = 0; st_gap = 1u << 30;
  if (k < 5) { st_type = 1; u32 lg = 5 + rs.below(11); u64 L = (1ull << lg) + rs.below(1u << lg); st_ncp = (int)rs.below(6); for (int i = 0; i < st_ncp; i++) st_cp[i] = 1 + rs.next() % L; std::sort(st_cp, st_cp + st_ncp); }
  else if (k < 13) { st_type = 0; static const u32 gaps[] = {2, 4, 8, 20, 50, 120, 300, 1000, 4000}; st_gap = gaps[rs.below(9)]; static const u32 ps[] = {0, 0, 3000, 10000, 25000, 40000}; st_psync = ps[rs.below(6)]; }
  else { st_type = 0; st_gap = 1u << 29; static const u32 ps[] = {600, 3000, 10000, 25000, 50000}; st_psync = ps[rs.below(5)]; }
  // swarm: a random subset of the fault kinds, each at a random rate
  if (rf.below(4)) for (int i = 0; i < SF_N; i++) if (rf.below(2)) { fault_enabled |= 1u << i; static const u32 rt[] = {300, 1500, 6000, 16000}; rate[i] = rt[rf.below(4)]; }
  rate[SF_STALL] /= 4; rate[SF_RJUMP] /= 3; rate[SF_EINTR] /= 2; if (rate[SF_CREATE]) rate[SF_CREATE] = std::max(rate[SF_CREATE], 6000u); if (rate[SF_MINIT]) rate[SF_MINIT] = std::max(rate[SF_MINIT] / 2, 1000u); if (rate[SF_CINIT]) rate[SF_CINIT] = std::max(rate[SF_CINIT] / 2, 1000u);
}
static void (*main_fn)();
static void* main_tramp(void*) { main_fn(); return 0; }
static void clean_stacks(int n) {
  for (int i = 0; i < n; i++) { up lo = STK + STK_ONE * i + 4096, hi = STK + STK_ONE * (i + 1); u64* p = (u64*)lo; // pages untouched so far read as zero: probe by page from the top
    up q = hi; int zero = 0; while (q > lo && zero < 3) { q -= 4096; bool z = true; for (u64* w = (u64*)q; w < (u64*)(q + 4096); w++) if (*w) { z = false; break; } if (z) zero++; else { zero = 0; memset((void*)q, 0, 4096); } } (void)p; }
}
static void end_checks() {
  quiet++;
  for (int i = 0; i < nf; i++) { Fiber* f = &fibers[i]; if (f->handle && !f->joined && !f->detached && !(allow_blocked && f->state != ST_DONE)) { char b[100]; snprintf(b, sizeof b, "thread %d was neither joined nor detached: its handle leaks", i); violation("leak", b); } }
  if (!ignore_leaks && !allow_blocked) {
    std::string m; int n = 0; char b[160];
    for (size_t i = allocs_pre; i < allocs->size(); i++) { Alloc& a = (*allocs)[i]; if (a.live) { if (n++ < 4) { snprintf(b, sizeof b, " [%u bytes from pcs %x %x %x %x %x %x]", a.size, a.pcs[0], a.pcs[1], a.pcs[2], a.pcs[3], a.pcs[4], a.pcs[5]); m += b; } } }
    if (n) { snprintf(b, sizeof b, "memory leak: %d block(s) never freed:", n); violation("leak", b + m); }
  }
  quiet--;
}
static std::string run_summary;
static void run_one(SimScenario* sc, u64 seed) {
  cur_scen = sc->name; cur_seed = seed; gen++;
  rw.seed(seed ^ 0x1111); rs.seed(seed ^ 0x2222222); rf.seed(seed ^ 0x33333333333ull);
  memcpy((void*)exe_lo, exe_snap, exe_sz);
  memset(agran + bump_pre / 8, 0, (bump > bump_pre ? (bump - bump_pre) / 8 + 8 : 8) * 4); bump = bump_pre; allocs->resize(allocs_pre); memcpy((void*)ARENA, pre_snap, bump_pre); for (size_t i = 0; i < allocs_pre; i++) { (*allocs)[i].live = (*pre_live)[i]; }
  live_count = 0; memset(keys, 0, sizeof keys); recs->clear(); memset(injected, 0, sizeof injected);
  nf = 0; cur = 0; now_ns = T0; real_off = (s64)(REAL0 - T0); next_dl = INF; tot = since_switch = 0; step_limit = 4000000; fullhash = ihash = 0xcbf29ce484222325ull; nsync = nswitch = 0; quiet = 0; allow_blocked = ignore_leaks = 0;
  create_nth = minit_nth = cinit_nth = nprims = 0; fault_allowed = SIM_DEFAULT_FAULTS; if (trace_buf) trace_buf->clear();
  setup_strategy();
  main_fn = sc->fn; Fiber* m = new_fiber(main_tramp, 0); stat_threads--; cur = m; m->tag = 0;
  reset_countdown();
  u64* g = eh_globals(); g[0] = 0; *(u32*)&g[1] = 0;
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 40; setitimer(ITIMER_REAL, &it, 0);
  running = true; sim_switch_asm(&runner_sp, m->sp); running = false;
  memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0);
  running = true; end_checks(); running = false;
  clean_stacks(nf); cur = 0;
  stat_runs++; stat_events += tot; stat_syncs += nsync; stat_switches += nswitch; stat_simtime += now_ns - T0; if (tot > stat_maxev) stat_maxev = tot;
}
static std::string stats_path; static std::map<std::string, u64>* scen_runs; static u64 nondet; static u64 next_idx; static std::string* samples;
static void write_stats() {
  if (stats_path.empty()) return; quiet++; bool r = running; running = false;
  std::string s = "{"; char b[512];
  snprintf(b, sizeof b, "\"runs\":%llu,\"events\":%llu,\"syncs\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"threads\":%llu,\"max_events\":%llu,\"next_idx\":%llu,\"nondet\":%llu,\"faults\":{", (unsigned long long)stat_runs, (unsigned long long)stat_events, (unsigned long long)stat_syncs, (unsigned long long)stat_switches, (unsigned long long)stat_simtime, (unsigned long long)stat_threads, (unsigned long long)stat_maxev, (unsigned long long)next_idx, (unsigned long long)nondet); s += b;
  for (int i = 0; i < SF_N; i++) { snprintf(b, sizeof b, "%s\"%s\":%llu", i ? "," : "", fault_names[i], (unsigned long long)stat_faults[i]); s += b; }
  s += "},\"probes\":{"; for (int i = 0; i < nprobes; i++) { snprintf(b, sizeof b, "%s\"%s\":[%llu,%llu]", i ? "," : "", probes[i].n, (unsigned long long)probes[i].c, (unsigned long long)probes[i].runs); s += b; }
  s += "},\"scenarios\":{"; bool f = true; for (std::map<std::string, u64>::iterator it = scen_runs->begin(); it != scen_runs->end(); ++it) { snprintf(b, sizeof b, "%s\"%s\":%llu", f ? "" : ",", it->first.c_str(), (unsigned long long)it->second); f = false; s += b; }
  s += "},\"samples\":["; s += *samples; s += "]}\n";
  put_file(stats_path.c_str(), s);
  if (hash_path && hashes) { FILE* fp = fopen(hash_path, "ab"); if (fp) { fwrite(hashes->data(), 8, hashes->size(), fp); fclose(fp); hashes->clear(); } }
  running = r; quiet--;
}
static double rt_now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static SimScenario* find_scen(const char* n) { for (SimScenario* s = scen_head; s; s = s->next) if (!strcmp(s->name, n)) return s; return 0; }

EXPORT int sim_main(int argc, char** argv, char* lo, char* hi) {
  early_init();
  exe_lo = (up)lo & ~7ull; exe_sz = ((up)hi - exe_lo + 7) & ~7ull; 
  sh_exe = (Gran*)xmap(exe_sz / 8 * sizeof(Gran)); pc_exe = (GranPc*)xmap(exe_sz / 8 * sizeof(GranPc));
  phase_started = true;
  if (!allocs) allocs = new (malloc(sizeof(Vec<Alloc>))) Vec<Alloc>();
  allocs_pre = allocs->size(); bump_pre = (bump + 63) & ~63u; pre_snap = (char*)malloc(bump_pre); memcpy(pre_snap, (void*)ARENA, bump_pre); pre_live = new std::vector<u8>(); for (size_t i = 0; i < allocs_pre; i++) pre_live->push_back((*allocs)[i].live);
  recs = new Vec<Rec>(); trace_buf = new Str(); scen_runs = new std::map<std::string, u64>(); samples = new std::string(); hashes = new std::vector<u64>();
  stack_t ss; ss.ss_sp = malloc(64 << 10); ss.ss_size = 64 << 10; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP}; for (int s : sg) sigaction(s, &sa, 0);
  std::set_terminate(on_terminate);
  const char* mode = "batch"; u64 seed = 1, start = 0, stride = 1, count = 1000; double tlimit = 1e9; const char* scen = 0; const char* rep = 0; bool list = false; int twice = 64; bool verbose = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--seed") seed = strtoull(v, 0, 10), i++; else if (a == "--start") start = strtoull(v, 0, 10), i++; else if (a == "--stride") stride = strtoull(v, 0, 10), i++; else if (a == "--count") count = strtoull(v, 0, 10), i++;
    else if (a == "--time") tlimit = atof(v), i++; else if (a == "--scen") scen = v, i++; else if (a == "--replay") { mode = "replay"; rep = v; i++; } else if (a == "--out") out_path = v, i++; else if (a == "--stats") stats_path = v, i++; else if (a == "--hashes") hash_path = v, i++;
    else if (a == "--trace") tracing = true; else if (a == "--list") list = true; else if (a == "--twice") twice = atoi(v), i++; else if (a == "--verbose") verbose = true; else die("bad argument"); }
  std::vector<SimScenario*> sc; for (SimScenario* s = scen_head; s; s = s->next) sc.push_back(s); std::sort(sc.begin(), sc.end(), [](SimScenario* a, SimScenario* b) { return strcmp(a->name, b->name) < 0; });
  if (list) { for (auto s : sc) printf("%s %d\n", s->name, s->weight); fflush(stdout); _exit(0); }
  exe_snap = (char*)malloc(exe_sz); memcpy(exe_snap, (void*)exe_lo, exe_sz);
  if (!strcmp(mode, "replay")) {
    FILE* fp = fopen(rep, "r"); if (!fp) die("cannot open replay file"); char line[4096]; std::string name; rep_map = new std::map<u32, std::vector<Entry> >();
    while (fgets(line, sizeof line, fp)) { char k; unsigned f, x, v; char nm[256]; if (sscanf(line, "scenario %255s", nm) == 1) name = nm; else if (sscanf(line, "c %c %u %u %u", &k, &f, &x, &v) == 4) { Entry e = {x, v}; (*rep_map)[f << 8 | (u8)k].push_back(e); } }
    fclose(fp); for (auto& p : *rep_map) std::stable_sort(p.second.begin(), p.second.end(), [](const Entry& a, const Entry& b) { return a.idx < b.idx; });
    SimScenario* s = find_scen(name.c_str()); if (!s) die("no such scenario"); replay = true; run_one(s, 0); printf("ok hash=%llx events=%llu\n", (unsigned long long)fullhash, (unsigned long long)tot); if (tracing) fwrite(trace_buf->data(), 1, trace_buf->size(), stdout); fflush(stdout); _exit(0);
  }
  int wsum = 0; for (auto s : sc) wsum += s->weight;
  double t0 = rt_now(); u64 i = start; u64 done = 0;
  for (; done < count; i += stride, done++) {
    if ((done & 15) == 0 && rt_now() - t0 > tlimit) break;
    u64 x = seed * 0x9e3779b97f4a7c15ull + i * 0xbf58476d1ce4e5b9ull; u64 sd = Rng::mix(x); SimScenario* s = 0;
    if (scen) { s = find_scen(scen); if (!s) die("no such scenario"); } else { u64 y = sd ^ 0x5555; int w = (int)(Rng::mix(y) % (u64)wsum); for (auto c : sc) { w -= c->weight; if (w < 0) { s = c; break; } } }
    cur_idx = i; next_idx = i + stride;
    run_one(s, sd);
    if (verbose) printf("%llu %s hash=%llx events=%llu\n", (unsigned long long)i, s->name, (unsigned long long)fullhash, (unsigned long long)tot);
    (*scen_runs)[s->name]++; u64 sh = 0; for (const char* c = s->name; *c; c++) sh = sh * 131 + (u8)*c; hashes->push_back(ihash ^ sh * 0x9e3779b97f4a7c15ull);
    if (done < 2) { char b[300]; snprintf(b, sizeof b, "%s{\"scenario\":\"%s\",\"index\":%llu,\"run_seed\":%llu,\"threads\":%d,\"events\":%llu,\"sync_ops\":%u,\"switches\":%u,\"recorded_decisions\":%zu,\"simulated_ms\":%.3f,\"hash\":\"%llx\"}", samples->empty() ? "" : ",", s->name, (unsigned long long)i, (unsigned long long)sd, nf, (unsigned long long)tot, nsync, nswitch, recs->size(), (now_ns - T0) / 1e6, (unsigned long long)fullhash); *samples += b; }
    if (twice && done % twice == 1) { u64 h = fullhash; run_one(s, sd); stat_runs--; if (h != fullhash) { nondet++; fprintf(stderr, "SIM-NONDET %s idx %llu\n", s->name, (unsigned long long)i); } }
    if (hashes->size() > 100000) write_stats();
  }
  next_idx = i;
  write_stats();
  if (verbose) fflush(stdout);
  _exit(nondet ? 5 : 0);
}

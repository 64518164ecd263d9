// Engine 2: controlled scheduler.  Compiled without instrumentation; harness and library code are compiled with
// -fsanitize=thread (compiler instrumentation only) and call the __tsan_* entry points defined here.
//   * every thread is a fiber of one process: exactly one runs, switches happen only at visible operations
//   * all scheduling alternatives within the bounds are explored; a happens-before hash of the execution so far
//     identifies states that were reached before, which are not explored twice
//   * each execution checks: data races (vector clocks), use of freed or out-of-range heap memory, misuse of
//     mutexes and condition variables, deadlock, lack of progress, threads left behind, and the harness' oracle
#include "../inter.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <sched.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <typeinfo>

namespace sched {
Ctx C;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uintptr_t uptr;

// ------------------------------------------------------------------------------------------- memory
static const uptr ARENA = 0x100000000000ull, SLOT = 1ull << 26, NSLOT = 64, SHADOW = 0x200000000000ull;
static const uptr ARENA_END = ARENA + SLOT * NSLOT;
static uptr g_top[NSLOT];
static bool g_meminit = false;
static bool g_on = false;                 // an execution is under control of the scheduler
static int g_cur = 0;                     // current fiber

static void mem_init() {
  g_meminit = true;
  void* a = mmap((void*)ARENA, SLOT * NSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* s = mmap((void*)SHADOW, SLOT * NSLOT / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)ARENA || s != (void*)SHADOW) { const char m[] = "arena mmap failed\n"; if (write(2, m, sizeof m)) {} _exit(99); }
  for (uptr i = 0; i < NSLOT; ++i) g_top[i] = ARENA + i * SLOT;
}
static inline u8* shad(uptr a) { return (u8*)(SHADOW + ((a - ARENA) >> 3)); }
static inline bool in_arena(uptr a) { return a - ARENA < SLOT * NSLOT; }
[[noreturn]] static void violation(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] static void vviolation(const char* key, const char* fmt, va_list a);

static void rawset(void* p, u8 v, size_t n) { __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); }
static void rawcpy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

struct Hdr { u64 magic; u64 size; };
static void* amalloc(size_t n, size_t al = 16) {
  if (!g_meminit) mem_init();
  int slot = g_on ? g_cur : (int)NSLOT - 1;
  uptr p = g_top[slot] + sizeof(Hdr) + 16;
  if (al < 16) al = 16;
  p = (p + al - 1) & ~(uptr)(al - 1);
  uptr e = p + n;
  if (e + 64 > ARENA + (slot + 1) * SLOT) { if (g_on) { errno = ENOMEM; return nullptr; } const char m[] = "arena exhausted\n"; if (write(2, m, sizeof m)) {} _exit(99); }
  g_top[slot] = (e + 15) & ~(uptr)15;
  Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->magic = 0xA110CA7EDull; h->size = n;
  rawset(shad(p), 8, n >> 3); if (n & 7) *shad(p + (n & ~(size_t)7)) = n & 7;
  if (g_on && n <= 65536) rawset((void*)p, 0xA5, n);
  return (void*)p;
}
static void afree(void* v) {
  if (!v) return;
  uptr p = (uptr)v;
  if (!in_arena(p)) return;
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  if (h->magic == 0xF4EEDull) { if (g_on) violation("double-free", "block %p freed twice", v); return; }
  if (h->magic != 0xA110CA7EDull) { if (g_on) violation("bad-free", "free of %p, which is not the start of a block", v); return; }
  h->magic = 0xF4EEDull;
  size_t n = h->size;
  rawset(shad(p), 0xFD, (n + 7) >> 3);
  if (g_on && n <= 65536) rawset(v, 0xEB, n);
}

// ------------------------------------------------------------------------------------------- results shared with the parent
static const int MAXP = 6000, MAXALT = 12000;
struct Viol { char scen[64], key[96], msg[2400], path[3000]; int depth; u8 ch[MAXP]; };
struct Alt { u32 depth; u8 choice, n; u8 level; };
struct W_ {                               // one per worker, shared
  int depth; u8 ch[MAXP], ar[MAXP]; const char* label[MAXP];
  u8 tr_t[MAXP], tr_o[MAXP]; int ntr;     // the schedule: thread and operation of every step
  int plen; u8 pch[MAXP], par[MAXP];
  int nalt; Alt alt[MAXALT];
  volatile int endst;                     // 0 running 1 ok 2 violation 3 pruned(seen) 4 outside domain 5 harness error
  Viol v; u64 steps; int preempts; char err[300];
  u32 stk[48]; int nstk; u32 stk2[4];
};
static W_* W;
static bool g_thorough = false, g_trace = false;
static Opts g_o; static int g_bound;
static const char* g_scen = "";

static inline u64 mix(u64 a, u64 b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a ^= a >> 33; a *= 0xff51afd7ed558ccdull; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 33; return a;
}

// ------------------------------------------------------------------------------------------- threads and objects
enum Op : u8 { O_START, O_LOCK, O_RELOCK, O_WAIT, O_SIGNAL, O_BCAST, O_JOIN, O_YIELD, O_SLEEP, O_GUARD, O_ONCE, O_VOL, O_ATOM, O_EVENT, O_QUIESCE, O_CREATE, O_EXIT, O_POINT, O_INPUT, O_TRYLOCK, O_NOPS };
static const char* OPN[] = {"start", "lock", "relock", "wait", "notify_one", "notify_all", "join", "yield", "sleep", "static-init", "once", "volatile", "atomic", "event", "quiesce", "create", "exit", "point", "input", "trylock"};
static const int MAXT = 24;
enum St : u8 { UNUSED, READY, COND, DONE };   // COND: waiting in a condition variable
struct Fiber {
  void* sp; void* stack; St st; Op op; uptr obj; uptr mtx; int target; bool timed, timedout, detached, joined, spur;
  long deadline; void* (*fn)(void*); void* arg; void* ret; u64 th; int locks; void* tls[128];
  void* eh_caught; unsigned eh_unc; u32 stk[256]; int nstk; u32 clk;
};
static Fiber F[MAXT]; static int g_nf;
static u32 VC[MAXT][MAXT];
struct Obj { uptr a; u64 h, hr; u32 vc[MAXT]; int owner, count; bool rec, destroyed, init; };
static const int MAXO = 1 << 14;
static Obj* OB; static int g_no; static u32* OI;     // index table
static u64 g_hash; static long g_now; static int g_steps, g_pre, g_tmo, g_spu; static bool g_mainDone, g_bodyDone;
static u64 g_timeh;

static Obj& obj(uptr a) {
  u32 i = (u32)(mix(a, 77) & (2 * MAXO - 1));
  while (OI[i]) { if (OB[OI[i]].a == a) return OB[OI[i]]; i = (i + 1) & (2 * MAXO - 1); }
  if (g_no + 2 >= MAXO) violation("harness-objects", "too many synchronisation objects");
  OI[i] = ++g_no; Obj& o = OB[g_no]; o.a = a; o.owner = -1; o.h = mix(a, 1); return o;
}
static void ev(Obj& o, u64 op, u64 arg, bool ro = false) {
  Fiber& f = F[g_cur]; u64 n;
  if (ro) { n = mix(mix(f.th, o.h), mix(op, arg)); o.hr += mix(n, 5); }
  else { n = mix(mix(f.th, mix(o.h, o.hr)), mix(op, arg)); o.h = n; o.hr = 0; }
  f.th = n; g_hash += mix(n, 0xABCDEF);
}
static void acquire(const u32* v) { for (int i = 0; i < g_nf; ++i) if (VC[g_cur][i] < v[i]) VC[g_cur][i] = v[i]; }
static void release(u32* v) { for (int i = 0; i < g_nf; ++i) if (v[i] < VC[g_cur][i]) v[i] = VC[g_cur][i]; VC[g_cur][g_cur]++; }
static void release_set(u32* v) { for (int i = 0; i < MAXT; ++i) v[i] = VC[g_cur][i]; VC[g_cur][g_cur]++; }

// ------------------------------------------------------------------------------------------- heap and race checks
static std::string* g_dummy;
static const char* shname(uptr a) { u8 s = *shad(a); return s == 0xFD ? "freed memory" : "memory outside any block"; }
static void report_stack(u32 pc) {
  Fiber& f = F[g_cur]; int n = 0;
  if (pc) W->stk[n++] = pc;
  for (int i = std::min(f.nstk, 255) - 1; i >= 0 && n < 30; --i) W->stk[n++] = f.stk[i];
  W->nstk = n;
}
static void addr_check(uptr a, size_t n, bool w, u32 pc) {
  if (!in_arena(a)) return;
  uptr e = a + n;
  for (uptr g = a & ~7ull; g < e; g += 8) {
    u8 s = *shad(g);
    uptr lo = g < a ? a - g : 0, hi = e - g < 8 ? e - g : 8; (void)lo;
    if (__builtin_expect(s == 8 || (s && s < 8 && hi <= s), 1)) continue;
    report_stack(pc);
    violation(s == 0xFD ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at %p by thread %d touches %s", w ? "write" : "read", n, (void*)a, g_cur, shname(g));
  }
}
struct Cell { u32 clk, pc; u8 tid, mask, fl, pad; };   // fl: 1 write, 2 atomic/volatile
struct G { u8 n; Cell c[7]; };
struct PageG { G g[512]; };
static const int NPG = 8192; static const uptr PGMEM = 0x300000000000ull;
static uptr* g_pk; static u32* g_pi; static u32 g_npg;
static G& granule(uptr gi) {
  uptr pk = (gi >> 9) + 1; u32 i = (u32)(mix(pk, 3) & (NPG - 1));
  while (g_pk[i] && g_pk[i] != pk) i = (i + 1) & (NPG - 1);
  if (!g_pk[i]) { g_pk[i] = pk; g_pi[i] = g_npg++; if (g_npg > NPG - 16) violation("harness-shadow", "shadow table full"); }
  return ((PageG*)PGMEM)[g_pi[i]].g[gi & 511];
}
static void race_granule(uptr gi, u8 mask, u8 fl, u32 pc) {
  G& g = granule(gi);
  const u32* vc = VC[g_cur]; int same = -1, old = -1;
  for (int i = 0; i < g.n; ++i) {
    Cell& c = g.c[i];
    if (c.tid == g_cur) { if (c.fl == fl && (c.mask & ~mask) == 0) same = i; continue; }
    bool before = c.clk <= vc[c.tid];
    if (before) { if ((fl & 1) && (c.mask & ~mask) == 0) old = i; continue; }
    if (!(c.mask & mask) || !((fl | c.fl) & 1) || ((fl & c.fl) & 2)) continue;
    report_stack(pc); W->stk2[0] = c.pc;
    violation("data-race", "unsynchronised %s%s of %#lx by thread %d and %s%s by thread %d", fl & 2 ? "atomic " : "", fl & 1 ? "write" : "read", (unsigned long)(gi << 3), g_cur, c.fl & 2 ? "atomic " : "", c.fl & 1 ? "write" : "read", c.tid);
  }
  int at = same >= 0 ? same : old;
  if (at < 0) {
    if (g.n < 7) at = g.n++;
    else { for (int i = 0; i < g.n; ++i) if (g.c[i].clk <= vc[g.c[i].tid]) { at = i; break; } if (at < 0) at = g.n - 1; }
  }
  Cell& c = g.c[at]; c.tid = g_cur; c.mask = mask; c.fl = fl; c.clk = vc[g_cur]; c.pc = pc;
}
static inline void race_check(uptr a, size_t n, u8 fl, u32 pc) {
  if (g_nf < 2 || !g_o.races) return;
  uptr e = a + n;
  for (uptr g = a >> 3; (g << 3) < e; ++g) {
    uptr lo = (g << 3) < a ? a - (g << 3) : 0, hi = e - (g << 3) < 8 ? e - (g << 3) : 8;
    race_granule(g, (u8)(((1u << hi) - 1) & ~((1u << lo) - 1)), fl, pc);
  }
}
static inline void access(uptr a, size_t n, u8 fl, void* pc) {
  if (!g_on) return;
  addr_check(a, n, fl & 1, (u32)(uptr)pc);
  race_check(a, n, fl, (u32)(uptr)pc);
}

// ------------------------------------------------------------------------------------------- violations
static std::string sched_text() {
  std::string s; int i = 0;
  int from = W->ntr > 900 ? W->ntr - 900 : 0; i = from; if (from) s = "... ";
  while (i < W->ntr) {
    int t = W->tr_t[i]; char b[40]; snprintf(b, sizeof b, "T%d:", t); s += b;
    int last = -1, rep = 0; bool f = true;
    for (; i < W->ntr && W->tr_t[i] == t; ++i) {
      if (W->tr_o[i] == last) { ++rep; continue; }
      if (rep) { s += "*" + std::to_string(rep + 1); rep = 0; }
      s += (f ? "" : ",") + std::string(OPN[W->tr_o[i]]); f = false; last = W->tr_o[i];
    }
    if (rep) s += "*" + std::to_string(rep + 1);
    s += " ";
  }
  if (s.size() > 2900) s = "..." + s.substr(s.size() - 2890);
  return s;
}
static std::string inputs_text() {
  std::string s;
  for (int i = 0; i < W->depth; ++i) if (W->label[i]) { char b[120]; snprintf(b, sizeof b, "%s#%d ", W->label[i], W->ch[i]); s += b; }
  return s;
}
static void vviolation(const char* key, const char* fmt, va_list a) {
  g_on = false;
  Viol& v = W->v;
  snprintf(v.scen, sizeof v.scen, "%s", g_scen); snprintf(v.key, sizeof v.key, "%s", key);
  int n = snprintf(v.msg, sizeof v.msg, "%s", ""); n = vsnprintf(v.msg, sizeof v.msg, fmt, a);
  (void)n;
  snprintf(v.path, sizeof v.path, "%s| %s", inputs_text().c_str(), sched_text().c_str());
  v.depth = W->depth; memcpy(v.ch, W->ch, sizeof v.ch);
  W->endst = 2;
  fflush(stdout); _exit(0);
}
static void violation(const char* key, const char* fmt, ...) { va_list a; va_start(a, fmt); if (!W->nstk) report_stack(0); vviolation(key, fmt, a); }
static volatile int* g_restart;
static void hard(const char* fmt, ...) { if (*g_restart) { W->endst = 3; _exit(0); } va_list a; va_start(a, fmt); vsnprintf(W->err, sizeof W->err, fmt, a); W->endst = 5; _exit(3); }

// ------------------------------------------------------------------------------------------- state cache (shared by all workers)
static u64* g_cache; static u64 g_cacheMask; static volatile u64* g_ncache;
// returns true if this state was reached before with at most as many preemptions
static bool seen(u64 key, unsigned pre) {
  key &= ~15ull; if (!key) key = 16;
  for (u64 i = (key >> 20) & g_cacheMask, k = 0; k < 256; i = (i + 1) & g_cacheMask, ++k) {
    u64 c = __atomic_load_n(&g_cache[i], __ATOMIC_RELAXED);
    if (!c) {
      u64 z = 0;
      if (__atomic_compare_exchange_n(&g_cache[i], &z, key | pre, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(g_ncache, 1, __ATOMIC_RELAXED); return false; }
      c = z;
    }
    if ((c & ~15ull) == key) {
      for (;;) {
        if ((c & 15) <= pre) return true;
        if (__atomic_compare_exchange_n(&g_cache[i], &c, key | pre, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return false;
      }
    }
  }
  return false;   // table crowded here: explore again rather than prune
}

// mutexes that only one thread ever uses are not scheduling points; when a second thread turns up, the exploration of
// the scenario starts over with that mutex counted as shared
static u64* g_own; static const u32 NOWN = 1 << 16;   // address << 8 | (owner tid + 1, 255 shared)
static bool shared_mutex(uptr a, int t) {
  for (u32 i = (u32)(mix(a, 11) & (NOWN - 1)), k = 0; k < 64; i = (i + 1) & (NOWN - 1), ++k) {
    u64 c = __atomic_load_n(&g_own[i], __ATOMIC_RELAXED);
    if (!c) { u64 z = 0; if (__atomic_compare_exchange_n(&g_own[i], &z, (u64)a << 8 | (t + 1), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return false; c = z; }
    if (c >> 8 == a) {
      if ((c & 255) == 255) return true;
      if ((c & 255) == (u64)(t + 1)) return false;
      __atomic_store_n(&g_own[i], (u64)a << 8 | 255, __ATOMIC_RELAXED); if (!g_trace) *g_restart = 1; return true;
    }
  }
  return true;
}
// ------------------------------------------------------------------------------------------- choices
static int choose(const char* label, int n, const u8* levels) {   // levels: preemption level of each alternative (nullptr: current)
  int d = W->depth;
  if (d >= MAXP) violation("no-progress", "more than %d scheduling choices in one execution", MAXP);
  int ch = 0;
  if (d < W->plen) {
    ch = W->pch[d];
    if (W->par[d] && W->par[d] != n) hard("replay diverged in %s at choice %d: %d alternatives, was %d", g_scen, d, n, W->par[d]);
    if (ch >= n) hard("replayed choice out of range in %s at %d", g_scen, d);
  } else {
    for (int i = 1; i < n; ++i) {
      if (W->nalt >= MAXALT) hard("too many alternatives");
      Alt& a = W->alt[W->nalt++]; a.depth = d; a.choice = i; a.n = n; a.level = levels ? levels[i] : g_pre;
    }
  }
  W->ch[d] = ch; W->ar[d] = n; W->label[d] = label; W->depth = d + 1;
  return ch;
}

// ------------------------------------------------------------------------------------------- switching
extern "C" void sched_switch(void** from, void* to);
asm(".text\n.globl sched_switch\nsched_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
struct EhG { void* caught; unsigned unc; };
static void switch_to(int t) {
  if (t == g_cur) return;
  EhG* e = (EhG*)abi::__cxa_get_globals();
  Fiber& a = F[g_cur]; Fiber& b = F[t];
  a.eh_caught = e->caught; a.eh_unc = e->unc; e->caught = b.eh_caught; e->unc = b.eh_unc;
  g_cur = t; sched_switch(&a.sp, b.sp);
}
static bool enabled(const Fiber& f) {
  if (f.st != READY) return false;
  switch (f.op) {
    case O_LOCK: case O_RELOCK: { Obj& o = obj(f.op == O_RELOCK ? f.mtx : f.obj); return o.owner < 0 || (o.rec && o.owner == &f - F); }
    case O_JOIN: return F[f.target].st == DONE;
    case O_GUARD: { Obj& o = obj(f.obj); return o.owner < 0; }
    case O_SLEEP: return g_now >= f.deadline;
    case O_QUIESCE: return false;          // handled separately
    default: return true;
  }
}
static const char* describe() {
  static char b[1500]; int n = 0;
  for (int i = 0; i < g_nf && n < 1300; ++i) {
    Fiber& f = F[i]; if (f.st == DONE) continue;
    n += snprintf(b + n, sizeof b - n, "%sthread %d ", n ? "; " : "", i);
    if (f.st == COND) n += snprintf(b + n, sizeof b - n, "waits on condition %#lx%s", (long)f.obj, f.timed ? " (timed)" : "");
    else if (f.op == O_LOCK || f.op == O_RELOCK) { uptr m = f.op == O_LOCK ? f.obj : f.mtx; n += snprintf(b + n, sizeof b - n, "waits for mutex %#lx held by thread %d", (long)m, obj(m).owner); }
    else if (f.op == O_JOIN) n += snprintf(b + n, sizeof b - n, "joins thread %d", f.target);
    else n += snprintf(b + n, sizeof b - n, "at %s", OPN[f.op]);
  }
  return b;
}
[[noreturn]] static void finish(int st) { W->endst = st; W->steps = g_steps; W->preempts = g_pre; g_on = false; fflush(stdout); _exit(0); }
static int g_quiet = -1; static bool g_calm;
struct A_ { u8 t, how; };
static void pick_next() {                 // the current fiber has published its pending operation
  Fiber& me = F[g_cur];
  if (++g_steps > 20000) violation("no-progress", "20000 scheduling points without finishing: %s", describe());
  A_ al[MAXT * 3]; u8 lv[MAXT * 3]; int n = 0;
  bool ce = enabled(me) && me.op != O_YIELD;
  if (ce) { al[n] = A_{(u8)g_cur, 0}; lv[n++] = g_pre; }
  for (int i = 0; i < g_nf; ++i) if (i != g_cur && enabled(F[i])) { int l = g_pre + (ce ? 1 : 0); if (l <= g_bound) { al[n] = A_{(u8)i, 0}; lv[n++] = l; } }
  if (n == 0 && me.op == O_YIELD && me.st == READY) { al[n] = A_{(u8)g_cur, 0}; lv[n++] = g_pre; }
  int nn = n;
  if (n == 0) for (int i = 0; i < g_nf; ++i) if (F[i].st == READY && F[i].op == O_QUIESCE) { al[n] = A_{(u8)i, 0}; lv[n++] = g_pre; break; }
  bool forced = n == 0;
  for (int i = 0; i < g_nf; ++i) {        // expiries
    Fiber& f = F[i];
    bool can = (f.st == COND && f.timed) || (f.st == READY && f.op == O_SLEEP && g_now < f.deadline);
    if (can && (forced || (g_tmo < g_o.timeouts && nn > 0))) { al[n] = A_{(u8)i, 1}; lv[n++] = g_pre; }
  }
  int spb = g_thorough ? std::max(g_o.spurious_t, g_o.spurious) : g_o.spurious;
  if (nn > 0 && g_spu < spb) for (int i = 0; i < g_nf; ++i) if (F[i].st == COND) { al[n] = A_{(u8)i, 2}; lv[n++] = g_pre; }
  if (n == 0) {
    if (!g_bodyDone) violation("deadlock", "no thread can run: %s", describe());
    bool all = true; for (int i = 1; i < g_nf; ++i) all = all && F[i].st == DONE;
    if (!all && !g_o.leak_ok) violation("thread-left-behind", "the scenario ended but %s", describe());
    finish(1);
  }
  int ch = 0;
  if (n > 1 && !g_calm) {
    if (W->depth >= W->plen && !g_trace) {
      u64 k = mix(mix(g_hash, g_timeh + g_now), (ce ? g_cur : 99) | (me.op == O_YIELD && me.st == READY ? g_cur + 200 : 0) * 256 | (u64)g_tmo << 20 | (u64)g_spu << 28 | (u64)W->depth * 0);
      if (seen(k, g_pre)) finish(3);
    }
    ch = choose(nullptr, n, lv);
  }
  A_ c = al[ch];
  if (c.how == 0 && ce && c.t != g_cur) ++g_pre;
  Fiber& f = F[c.t];
  if (c.how == 1) {
    if (!forced) ++g_tmo;
    g_now = std::max(g_now, f.deadline);
    if (f.st == COND) { f.st = READY; f.op = O_RELOCK; f.timedout = true; }
    g_timeh = mix(g_timeh, c.t);
  } else if (c.how == 2) { ++g_spu; f.st = READY; f.op = O_RELOCK; f.timedout = false; g_timeh = mix(g_timeh, c.t + 100); }
  if (c.how && !enabled(f)) { pick_next(); return; }
  if (W->ntr < MAXP) { W->tr_t[W->ntr] = c.t; W->tr_o[W->ntr] = f.op; ++W->ntr; }
  if (g_trace) { bool on = g_on; g_on = false; printf("  %4d T%d %s%s obj=%#lx\n", g_steps, c.t, OPN[f.op], c.how == 1 ? " (time-out)" : c.how == 2 ? " (spurious)" : c.t != g_cur && ce ? " (preempting)" : "", (long)f.obj); fflush(stdout); g_on = on; }
  switch_to(c.t);
}
static void sp(Op op, uptr o) { Fiber& f = F[g_cur]; f.op = op; f.obj = o; f.st = READY; pick_next(); }

// ------------------------------------------------------------------------------------------- fibers
static uptr g_stk = 0x400000000000ull;
static const size_t STK = 1 << 19;
static void fiber_exit(void* ret);
static void tls_cleanup();
static void run_body();
static void fiber_main() noexcept {
  Fiber& f = F[g_cur];
  if (g_cur == 0) { run_body(); }
  else { void* r = f.fn(f.arg); fiber_exit(r); }
  __builtin_trap();
}
static void fiber_exit(void* ret) {
  Fiber& f = F[g_cur]; f.ret = ret; if (g_o.exits) sp(O_POINT, 0);
  tls_cleanup(); if (g_o.exits) ev(obj((uptr)&g_nf), O_EXIT, 0);
  Obj& o = obj((uptr)&F[g_cur]); ev(o, O_EXIT, 0); release(o.vc);
  f.st = DONE; f.op = O_EXIT; pick_next(); __builtin_trap();
}
static int new_fiber(void* (*fn)(void*), void* arg) {
  if (g_nf >= MAXT) violation("harness-threads", "more than %d threads", MAXT);
  int t = g_nf++; Fiber& f = F[t];
  f.stack = mmap((void*)(g_stk + (uptr)t * 4 * STK), STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (f.stack == MAP_FAILED) hard("stack mmap failed");
  uptr top = (uptr)f.stack + STK - 64; top &= ~15ull;
  uptr* s = (uptr*)top; *--s = 0; *--s = (uptr)fiber_main; for (int i = 0; i < 6; ++i) *--s = 0;
  f.sp = s; f.st = READY; f.op = O_START; f.obj = 0; f.fn = fn; f.arg = arg; f.th = mix(t ? F[g_cur].th : 1, 0x51 + t); f.nstk = 0;
  if (t) { for (int i = 0; i < MAXT; ++i) VC[t][i] = VC[g_cur][i]; VC[t][t] = 1; VC[g_cur][g_cur]++; }
  else VC[0][0] = 1;
  return t;
}

// ------------------------------------------------------------------------------------------- real functions
template <class T> static T real(const char* n, T& cache) { if (!cache) cache = (T)dlsym(RTLD_NEXT, n); return cache; }
#define REAL(name) ({ static decltype(&::name) r_; real(#name, r_); })

// ------------------------------------------------------------------------------------------- mutexes
static void mtouch(uptr a, size_t n, const char* what) {
  if (in_arena(a)) addr_check(a, n, true, 0);
  Obj& o = obj(a);
  if (o.destroyed) violation("destroyed-sync", "%s of destroyed object %#lx by thread %d", what, (long)a, g_cur);
}
static void minit(Obj& o, pthread_mutex_t* m) { if (!o.init) { o.init = true; o.rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; } }
static int do_lock(pthread_mutex_t* m, Op op) {
  Obj& o = obj((uptr)m);
  if (op == O_LOCK) { mtouch((uptr)m, sizeof *m, "lock"); minit(o, m); if (o.rec && o.owner == g_cur) { o.count++; return 0; } if (o.owner >= 0 || shared_mutex((uptr)m, g_cur)) sp(O_LOCK, (uptr)m); mtouch((uptr)m, sizeof *m, "lock"); }
  if (o.owner >= 0) { if (o.owner == g_cur && !o.rec) violation("self-deadlock", "thread %d locks a mutex it holds", g_cur); }
  o.owner = g_cur; o.count = 1; F[g_cur].locks++; acquire(o.vc); ev(o, O_LOCK, 0); return 0;
}
static void do_unlock(pthread_mutex_t* m) {
  mtouch((uptr)m, sizeof *m, "unlock");
  Obj& o = obj((uptr)m);
  if (o.owner != g_cur) violation("bad-unlock", "thread %d unlocks a mutex held by %d", g_cur, o.owner);
  if (--o.count) return;
  release_set(o.vc); o.owner = -1; F[g_cur].locks--; ev(o, O_TRYLOCK, 1);
}
static int do_wait(pthread_cond_t* c, pthread_mutex_t* m, long deadline) {
  mtouch((uptr)c, sizeof *c, "wait on"); mtouch((uptr)m, sizeof *m, "wait with");
  Fiber& f = F[g_cur]; Obj& om = obj((uptr)m);
  if (om.owner != g_cur) violation("bad-wait", "condition wait without holding the mutex");
  if (om.count != 1) violation("bad-wait", "condition wait with a recursively held mutex");
  Obj& oc = obj((uptr)c); ev(oc, O_WAIT, 0);
  om.count = 0; release_set(om.vc); om.owner = -1; f.locks--; ev(om, O_TRYLOCK, 2);
  f.st = COND; f.op = O_WAIT; f.obj = (uptr)c; f.mtx = (uptr)m; f.timed = deadline >= 0; f.deadline = deadline; f.timedout = false;
  pick_next();
  f.timed = false;
  mtouch((uptr)c, sizeof *c, "return from waiting on"); mtouch((uptr)m, sizeof *m, "relock of");
  do_lock(m, O_RELOCK);
  if (f.timedout) { ev(oc, O_WAIT, 1); return ETIMEDOUT; }
  return 0;
}
static int do_signal(pthread_cond_t* c, bool all) {
  if (!F[g_cur].locks) sp(all ? O_BCAST : O_SIGNAL, (uptr)c);
  mtouch((uptr)c, sizeof *c, "notification");
  Obj& o = obj((uptr)c); int w[MAXT], n = 0;
  for (int i = 0; i < g_nf; ++i) if (F[i].st == COND && F[i].obj == (uptr)c) w[n++] = i;
  if (!n) { ev(o, O_SIGNAL, 99); return 0; }
  if (all) { for (int i = 0; i < n; ++i) { F[w[i]].st = READY; F[w[i]].op = O_RELOCK; F[w[i]].timed = false; } ev(o, O_BCAST, 0); return 0; }
  int k = n > 1 && !g_calm ? choose(nullptr, n, nullptr) : 0;
  F[w[k]].st = READY; F[w[k]].op = O_RELOCK; F[w[k]].timed = false; ev(o, O_SIGNAL, w[k]); return 0;
}
static void tls_cleanup_keys();
}  // namespace sched
using namespace sched;
namespace sched { static void (*g_keydtor[128])(void*); static bool g_keyused[128];
static void tls_cleanup() {
  for (int r = 0; r < 4; ++r) { bool any = false;
    for (int k = 0; k < 128; ++k) if (F[g_cur].tls[k] && g_keydtor[k]) { void* v = F[g_cur].tls[k]; F[g_cur].tls[k] = nullptr; any = true; g_keydtor[k](v); }
    if (!any) break; }
}
static long ts_ns(const timespec* t) { return t->tv_sec * 1000000000l + t->tv_nsec; }
static const long T0 = 1000000l * 1000000000l, MONO_OFF = 500000l * 1000000000l;
static long to_virtual(int clk, long ns) { return clk == CLOCK_REALTIME ? ns : ns + MONO_OFF; }
struct CondClk { uptr a; int clk; }; static CondClk g_cc[256]; static int g_ncc;
static int cond_clock(pthread_cond_t* c) { for (int i = g_ncc - 1; i >= 0; --i) if (g_cc[i].a == (uptr)c) return g_cc[i].clk; return CLOCK_REALTIME; }
}
extern "C" {
void* malloc(size_t n) { return amalloc(n); }
void free(void* p) { afree(p); }
void* calloc(size_t a, size_t b) { size_t n = a * b; void* p = amalloc(n); if (p && (g_on)) rawset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
  if (!p) return amalloc(n);
  size_t o = ((Hdr*)((uptr)p - sizeof(Hdr)))->size; void* q = amalloc(n); if (!q) return q; rawcpy(q, p, o < n ? o : n); afree(p); return q;
}
void* memalign(size_t al, size_t n) { return amalloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return amalloc(n, al); }
int posix_memalign(void** p, size_t al, size_t n) { *p = amalloc(n, al); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uptr)p - sizeof(Hdr)))->size : 0; }

static inline bool shared_mem(uptr a) { return in_arena(a) || a - 0x400000000000ull < (uptr)MAXT * 4 * STK; }
void* memcpy(void* d, const void* s, size_t n) { if (g_on && n) { void* pc = __builtin_return_address(0); if (shared_mem((uptr)s)) access((uptr)s, n, 0, pc); if (shared_mem((uptr)d)) access((uptr)d, n, 1, pc); } rawcpy(d, s, n); return d; }
void* memset(void* d, int v, size_t n) { if (g_on && n && shared_mem((uptr)d)) access((uptr)d, n, 1, __builtin_return_address(0)); rawset(d, (u8)v, n); return d; }
void* memmove(void* d, const void* s, size_t n) {
  if (g_on && n) { void* pc = __builtin_return_address(0); if (shared_mem((uptr)s)) access((uptr)s, n, 0, pc); if (shared_mem((uptr)d)) access((uptr)d, n, 1, pc); }
  if ((uptr)d - (uptr)s >= n) { rawcpy(d, s, n); return d; }
  char* a = (char*)d; const char* b = (const char*)s; for (size_t i = n; i-- > 0;) { a[i] = b[i]; __asm__ volatile("" : : : "memory"); } return d;
}

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  int r = REAL(pthread_mutex_init)(m, a);
  if (g_on) { Obj& o = obj((uptr)m); o.destroyed = false; o.owner = -1; o.count = 0; o.init = false; minit(o, m); }
  return r;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!g_on) return REAL(pthread_mutex_destroy)(m);
  mtouch((uptr)m, sizeof *m, "destruction"); Obj& o = obj((uptr)m);
  if (o.owner >= 0) violation("destroy-locked", "mutex destroyed by thread %d while held by thread %d", g_cur, o.owner);
  o.destroyed = true; ev(o, 50, 0); return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return g_on ? do_lock(m, O_LOCK) : REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_on) return REAL(pthread_mutex_trylock)(m);
  sp(O_TRYLOCK, (uptr)m); mtouch((uptr)m, sizeof *m, "trylock"); Obj& o = obj((uptr)m); minit(o, m);
  if (o.owner >= 0 && !(o.rec && o.owner == g_cur)) { ev(o, O_TRYLOCK, 9); return EBUSY; }
  if (o.owner == g_cur) { o.count++; return 0; }
  return do_lock(m, O_RELOCK);
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!g_on) return REAL(pthread_mutex_unlock)(m); do_unlock(m); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  int clk = CLOCK_REALTIME; if (a) { clockid_t k; if (!pthread_condattr_getclock(a, &k)) clk = k; }
  if (g_ncc < 256 && clk != CLOCK_REALTIME) g_cc[g_ncc++] = CondClk{(uptr)c, clk};
  int r = REAL(pthread_cond_init)(c, a);
  if (g_on) { Obj& o = obj((uptr)c); o.destroyed = false; }
  return r;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!g_on) return REAL(pthread_cond_destroy)(c);
  mtouch((uptr)c, sizeof *c, "destruction"); Obj& o = obj((uptr)c);
  for (int i = 0; i < g_nf; ++i) if (F[i].st == COND && F[i].obj == (uptr)c) violation("destroy-waited", "condition variable destroyed by thread %d while thread %d waits on it", g_cur, i);
  o.destroyed = true; ev(o, 50, 0); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return g_on ? do_wait(c, m, -1) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return g_on ? do_wait(c, m, to_virtual(cond_clock(c), ts_ns(t))) : REAL(pthread_cond_timedwait)(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return g_on ? do_wait(c, m, to_virtual(k, ts_ns(t))) : ENOSYS; }
int pthread_cond_signal(pthread_cond_t* c) { return g_on ? do_signal(c, false) : REAL(pthread_cond_signal)(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { return g_on ? do_signal(c, true) : REAL(pthread_cond_broadcast)(c); }

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!g_on) return REAL(pthread_create)(t, a, fn, arg);
  Obj& o = obj((uptr)&g_nf); ev(o, O_CREATE, 0);
  int k = new_fiber(fn, arg); *t = (pthread_t)(0x7000000 + k);
  int ds = 0; if (a && !pthread_attr_getdetachstate(a, &ds) && ds == PTHREAD_CREATE_DETACHED) F[k].detached = true;
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!g_on) return REAL(pthread_join)(t, r);
  int k = (int)((long)t - 0x7000000); if (k < 0 || k >= g_nf) violation("bad-join", "join of an unknown thread");
  if (F[k].joined || F[k].detached) violation("bad-join", "thread %d joined twice or after detaching", k);
  F[g_cur].target = k; sp(O_JOIN, (uptr)&F[k]); F[k].joined = true; Obj& o = obj((uptr)&F[k]); acquire(o.vc); ev(o, O_JOIN, 0);
  if (r) *r = F[k].ret; return 0;
}
int pthread_detach(pthread_t t) {
  if (!g_on) return REAL(pthread_detach)(t);
  int k = (int)((long)t - 0x7000000); if (k >= 0 && k < g_nf) F[k].detached = true; return 0;
}
pthread_t pthread_self() noexcept { if (g_on) return (pthread_t)(0x7000000 + g_cur); static decltype(&::pthread_self) r_; return real("pthread_self", r_)(); }
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept {
  static decltype(&::pthread_key_create) r_; int r = real("pthread_key_create", r_)(k, d); if (!r && *k < 128) { g_keydtor[*k] = d; g_keyused[*k] = true; } return r;
}
void* pthread_getspecific(pthread_key_t k) noexcept { if (g_on && k < 128) return F[g_cur].tls[k]; static decltype(&::pthread_getspecific) r_; return real("pthread_getspecific", r_)(k); }
int pthread_setspecific(pthread_key_t k, const void* v) noexcept { if (g_on && k < 128) { F[g_cur].tls[k] = (void*)v; return 0; } static decltype(&::pthread_setspecific) r_; return real("pthread_setspecific", r_)(k, v); }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!g_on) return REAL(pthread_once)(o, fn);
  Obj& b = obj((uptr)o);
  if (*o == 2) { acquire(b.vc); return 0; }
  F[g_cur].mtx = 0; sp(O_GUARD, (uptr)o);
  if (*o == 2) { acquire(b.vc); ev(b, O_ONCE, 2); return 0; }
  b.owner = g_cur; ev(b, O_ONCE, 0); fn(); *o = 2; release_set(b.vc); b.owner = -1; ev(b, O_ONCE, 1); return 0;
}
int sched_yield() noexcept { if (g_on) { sp(O_YIELD, 0); return 0; } return (int)syscall(SYS_sched_yield); }
static int vsleep(long until) { F[g_cur].deadline = until; sp(O_SLEEP, 0); return 0; }
int nanosleep(const timespec* t, timespec*) { if (g_on) return vsleep(g_now + ts_ns(t)); return (int)syscall(SYS_nanosleep, t, nullptr); }
int clock_nanosleep(clockid_t k, int fl, const timespec* t, timespec*) { if (g_on) return vsleep(fl & TIMER_ABSTIME ? to_virtual(k, ts_ns(t)) : g_now + ts_ns(t)); return (int)syscall(SYS_clock_nanosleep, k, fl, t, nullptr); }
int usleep(useconds_t u) { timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int clock_gettime(clockid_t k, timespec* t) noexcept {
  if (!g_on) return (int)syscall(SYS_clock_gettime, k, t);
  long v = k == CLOCK_REALTIME ? g_now : g_now - MONO_OFF; t->tv_sec = v / 1000000000l; t->tv_nsec = v % 1000000000l; return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* t) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }

// function-local statics
int __cxa_guard_acquire(u64* g) {
  if (*(volatile char*)g) { if (g_on) acquire(obj((uptr)g).vc); return 0; }
  if (!g_on) return 1;
  sp(O_GUARD, (uptr)g); Obj& o = obj((uptr)g);
  if (*(volatile char*)g) { acquire(o.vc); ev(o, O_GUARD, 2); return 0; }
  o.owner = g_cur; ev(o, O_GUARD, 0); return 1;
}
void __cxa_guard_release(u64* g) { *(volatile char*)g = 1; if (g_on) { Obj& o = obj((uptr)g); release_set(o.vc); o.owner = -1; ev(o, O_GUARD, 1); } }
void __cxa_guard_abort(u64* g) { if (g_on) { Obj& o = obj((uptr)g); o.owner = -1; ev(o, O_GUARD, 3); } }
struct AtExit { void (*f)(void*); void* a; }; static AtExit g_ax[256]; static int g_nax;
int __cxa_atexit(void (*f)(void*), void* a, void*) { if (g_on && g_nax < 256) g_ax[g_nax++] = AtExit{f, a}; return 0; }   // never run unless the scenario asks

// ------------------------------------------------------------------------------------------- instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (g_on) { Fiber& f = F[g_cur]; if (f.nstk < 256) f.stk[f.nstk] = (u32)(uptr)pc; f.nstk++; } }
void __tsan_func_exit() { if (g_on) { Fiber& f = F[g_cur]; if (f.nstk > 0) f.nstk--; } }
void __tsan_vptr_update(void** p, void* v) { if (g_on && *p != v) access((uptr)p, 8, 1, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { access((uptr)p, 8, 0, __builtin_return_address(0)); }
void __tsan_read_range(void* p, size_t n) { if (n) access((uptr)p, n, 0, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { if (n) access((uptr)p, n, 1, __builtin_return_address(0)); }
static void vol(uptr a, size_t n, bool w, void* pc) {
  if (!g_on) return;
  if (!F[g_cur].locks && g_nf > 1) sp(O_VOL, a);
  access(a, n, 2 | (w ? 1 : 0), pc);
  if (g_nf > 1) ev(obj(a & ~7ull), O_VOL, (a & 7) | (w ? 16 : 0), !w);
}
#define RW(n) \
  void __tsan_read##n(void* p) { access((uptr)p, n, 0, __builtin_return_address(0)); } \
  void __tsan_write##n(void* p) { access((uptr)p, n, 1, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { access((uptr)p, n, 0, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { access((uptr)p, n, 1, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { vol((uptr)p, n, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { vol((uptr)p, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_read##n(void* p) { vol((uptr)p, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_volatile_write##n(void* p) { vol((uptr)p, n, true, __builtin_return_address(0)); } \
  void __tsan_read_write##n(void* p) { access((uptr)p, n, 1, __builtin_return_address(0)); } \
  void __tsan_unaligned_read_write##n(void* p) { access((uptr)p, n, 1, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void atom(uptr a, size_t n, int kind, void* pc) {   // kind 0 load 1 store 2 rmw-counter 3 exchange/cas
  if (!g_on) return;
  if (g_nf > 1 && !F[g_cur].locks && (kind == 1 || kind == 3 || g_o.atomics)) sp(O_ATOM, a);
  access(a, n, 2 | (kind ? 1 : 0), pc);
  if (g_nf > 1) { Obj& o = obj(a); if (kind != 1) acquire(o.vc); if (kind) release(o.vc); ev(o, O_ATOM, kind, kind == 0); }
}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { atom((uptr)p, sizeof(T), 0, __builtin_return_address(0)); return *p; } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 1, __builtin_return_address(0)); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 2, __builtin_return_address(0)); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 2, __builtin_return_address(0)); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atom((uptr)p, sizeof(T), 3, __builtin_return_address(0)); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ------------------------------------------------------------------------------------------- harness interface
namespace sched {
static Event* g_ev; static int g_nev; static const int MAXEV = 4096;
int Ctx::pick(const char* label, int n) {
  if (n <= 0) violation("harness", "empty choice %s", label);
  int c = n > 1 ? choose(label, n, nullptr) : 0;
  Fiber& f = F[g_cur]; f.th = mix(f.th, c + 1000); g_hash += mix(f.th, 0xABC); return c;
}
void Ctx::check(bool ok, const char* key, const char* fmt, ...) { if (__builtin_expect(ok, 1)) return; va_list a; va_start(a, fmt); report_stack(0); vviolation(key, fmt, a); }
void Ctx::fail(const char* key, const char* fmt, ...) { va_list a; va_start(a, fmt); report_stack(0); vviolation(key, fmt, a); }
void Ctx::prune() { finish(4); }
void Ctx::event(int kind, long a, long b) {
  if (g_nf > 1) sp(O_EVENT, (uptr)g_ev);
  if (g_nev >= MAXEV) violation("harness", "too many events");
  g_ev[g_nev++] = Event{g_cur, kind, a, b}; ev(obj((uptr)g_ev), O_EVENT, mix(kind, mix(a, b)));
}
int Ctx::events() const { ev(obj((uptr)g_ev), O_EVENT, 7, true); return g_nev; }
Event Ctx::at(int i) const { return g_ev[i]; }
void Ctx::quiesce() { sp(O_QUIESCE, 0); Fiber& f = F[g_cur]; Obj& o = obj((uptr)&g_quiet); ev(o, O_QUIESCE, 0); (void)f; }
void Ctx::no_more_spurious() { g_spu = 1000; }
void Ctx::calm(bool on) { g_calm = on; }
int Ctx::alive() const { int n = 0; for (int i = 0; i < g_nf; ++i) if (i != g_cur && F[i].st != DONE) ++n; ev(obj((uptr)&g_nf), O_EVENT, 3); return n; }
int Ctx::tid() const { return g_cur; }
void Ctx::yield() { if (g_nf > 1) sp(O_POINT, 0); }
long Ctx::now_ns() const { return g_now; }
bool Ctx::thorough() const { return g_thorough; }
static void* tmain(void* p) { std::function<void()>* f = (std::function<void()>*)p; (*f)(); delete f; return nullptr; }
void Thread::start(const std::function<void()>& f) { on_ = true; pthread_create(&t_, nullptr, tmain, new std::function<void()>(f)); }
void Thread::join() { if (on_) { pthread_join(t_, nullptr); on_ = false; } }

struct Scen { const char* name; Body body; Opts o; };
static std::vector<Scen>& scens() { static std::vector<Scen> s; return s; }
Reg::Reg(const char* n, Body b, Opts o) { scens().push_back(Scen{n, b, o}); }
static const Scen* g_s;

static void run_body() {
  try { g_s->body(C); }
  catch (std::exception& e) { violation("unexpected-exception", "unexpected exception %s: %s", typeid(e).name(), e.what()); }
  catch (...) { violation("unexpected-exception", "unexpected exception"); }
  if (g_o.at_exit) while (g_nax > 0) { AtExit a = g_ax[--g_nax]; a.f(a.a); }
  g_bodyDone = true;
  F[0].st = DONE; F[0].op = O_EXIT; pick_next(); __builtin_trap();
}
static void on_crash(int sig) {
  if (g_on) { g_on = false; report_stack(0); }
  signal(sig, SIG_DFL); raise(sig);
}
static void child(const Scen& s) {
  static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(g, &sa, nullptr);
  g_s = &s; W->depth = 0; W->ntr = 0; W->nalt = 0; W->endst = 0; W->nstk = 0; W->stk2[0] = 0;
  g_cur = 0; g_nf = 0; g_no = 0; g_hash = 1; g_now = T0; g_steps = g_pre = g_tmo = g_spu = 0; g_bodyDone = false; g_nax = 0; g_nev = 0;
  new_fiber(nullptr, nullptr);
  g_on = true;
  void* dummy; sched_switch(&dummy, F[0].sp);
}
static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ------------------------------------------------------------------------------------------- exploration
static const int NLEV = 12;
static const u64 FBYTES = 4ull << 30;
struct Front {                            // shared frontier: one stack of schedule prefixes per preemption level
  volatile int lock; volatile u64 top[NLEV]; volatile u64 count[NLEV]; volatile int active; volatile int stop, capped, restart;
  volatile u64 exec[NLEV], pruned, dom, steps, trans; volatile int nviol; volatile double firstv; volatile u64 nstates; volatile u64 maxdepth;
  Viol v[12]; volatile int lockv; u32 stk[12][48]; int nstk[12]; u32 stk2[12]; char err[300]; volatile int hard;
  char samp[4][2200]; volatile int nsamp;
};
static Front* FR; static u8* FM[NLEV];
static void lk(volatile int* l) { while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
static void ul(volatile int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
static bool pop() {                       // 1 got one into W->p*; caller is counted active
  for (int l = 0; l < NLEV; ++l) if (FR->count[l]) {
    u64 t = FR->top[l]; u32 n; rawcpy(&n, FM[l] + t - 4, 4); t -= 4 + 2ull * n;
    W->plen = n; rawcpy(W->pch, FM[l] + t, n); rawcpy(W->par, FM[l] + t + n, n); FR->top[l] = t; FR->count[l]--; return true;
  }
  return false;
}
static void push_alts() {
  lk(&FR->lock);
  for (int i = W->nalt - 1; i >= 0; --i) {
    Alt& a = W->alt[i]; int l = a.level < NLEV ? a.level : NLEV - 1; u32 n = a.depth + 1; u64 t = FR->top[l];
    if (t + 2ull * n + 4 > FBYTES) { FR->capped = 1; continue; }
    rawcpy(FM[l] + t, W->ch, n - 1); FM[l][t + n - 1] = a.choice; rawcpy(FM[l] + t + n, W->ar, n - 1); FM[l][t + 2 * n - 1] = a.n;
    rawcpy(FM[l] + t + 2 * n, &n, 4); FR->top[l] = t + 2ull * n + 4; FR->count[l]++;
  }
  ul(&FR->lock);
}
static std::string tail_of(int fd) {
  off_t sz = lseek(fd, 0, SEEK_END); off_t from = sz > 3000 ? sz - 3000 : 0; std::string t(sz - from, 0);
  ssize_t g = pread(fd, &t[0], t.size(), from); t.resize(g > 0 ? g : 0);
  std::string k; size_t p = 0;
  while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1;
    if (l.find("Assert") != std::string::npos || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos || l.find("rror") != std::string::npos) k += l + " | "; }
  return k;
}
static void add_viol() {
  lk(&FR->lockv);
  int same = 0; for (int i = 0; i < FR->nviol; ++i) same += !strcmp(FR->v[i].key, W->v.key);
  if (!FR->firstv) FR->firstv = now();
  if (FR->nviol < 12 && !same) { int i = FR->nviol; rawcpy(&FR->v[i], &W->v, sizeof(Viol)); rawcpy(FR->stk[i], W->stk, sizeof W->stk); FR->nstk[i] = W->nstk; FR->stk2[i] = W->stk2[0]; FR->nviol = i + 1; }
  ul(&FR->lockv);
}
static void worker(const Scen& s, int fd, double deadline) {
  dup2(fd, 1); dup2(fd, 2);
  u64 it = 0;
  for (;;) {
    if (FR->stop || FR->restart) _exit(0);
    lk(&FR->lock);
    bool got = pop(); if (got) FR->active = FR->active + 1;
    bool done = !got && FR->active == 0;
    ul(&FR->lock);
    if (done) _exit(0);
    if (!got) { timespec t = {0, 30000}; syscall(SYS_nanosleep, &t, nullptr); continue; }
    int lev = 0;
    if ((++it & 255) == 0) { if (ftruncate(fd, 0)) {} }
    W->endst = 0; W->nalt = 0; W->depth = 0; W->ntr = 0;
    pid_t p = fork();
    if (p == 0) { alarm(60); child(s); _exit(9); }
    int st; while (waitpid(p, &st, 0) != p) {}
    bool hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    if (W->endst == 5) { lk(&FR->lockv); snprintf(FR->err, sizeof FR->err, "%s", W->err); FR->hard = 1; FR->stop = 1; ul(&FR->lockv); _exit(3); }
    if (W->endst == 0) {
      Viol& v = W->v; snprintf(v.scen, sizeof v.scen, "%s", g_scen);
      snprintf(v.key, sizeof v.key, "%s", hung ? "hang" : WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "abort" : "crash");
      snprintf(v.msg, sizeof v.msg, "execution %s: %s", hung ? "did not finish within 60 s" : WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exited early", tail_of(fd).c_str());
      snprintf(v.path, sizeof v.path, "%s| %s", inputs_text().c_str(), sched_text().c_str()); v.depth = W->depth; rawcpy(v.ch, W->ch, sizeof v.ch);
      W->endst = 2; if (ftruncate(fd, 0)) {}
    }
    if (FR->restart) _exit(0);
    if (W->endst == 2) add_viol();
    __atomic_fetch_add(&FR->trans, (u64)(W->ntr), __ATOMIC_RELAXED);
    if (W->endst == 3) __atomic_fetch_add(&FR->pruned, 1, __ATOMIC_RELAXED);
    else if (W->endst == 4) __atomic_fetch_add(&FR->dom, 1, __ATOMIC_RELAXED);
    else { lev = W->endst == 1 ? std::min(W->preempts, NLEV - 1) : 0; __atomic_fetch_add(&FR->exec[lev], 1, __ATOMIC_RELAXED); }
    if ((u64)W->depth > FR->maxdepth) FR->maxdepth = W->depth;
    if (W->endst == 1 && FR->nsamp < 4 && (FR->exec[0] + FR->exec[1] + FR->exec[2]) >= (u64)(FR->nsamp * FR->nsamp * 37 + 1)) {
      lk(&FR->lockv); if (FR->nsamp < 4) { snprintf(FR->samp[FR->nsamp], 2200, "%s: %s| %s", g_scen, inputs_text().c_str(), sched_text().substr(0, 1900).c_str()); FR->nsamp = FR->nsamp + 1; } ul(&FR->lockv);
    }
    if (W->endst != 2 || FR->nviol < 3) push_alts();
    double n = now();
    if (n > deadline) { FR->capped = 1; FR->stop = 1; }
    if (FR->firstv && (FR->nviol >= 6 || n > FR->firstv + 15)) { FR->capped = 1; FR->stop = 1; }
    lk(&FR->lock); FR->active = FR->active - 1; ul(&FR->lock);
  }
}
static std::string esc(const char* s) {
  std::string o;
  for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static void* shm(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(99); } return p; }
static std::string symbols(const u32* pcs, int n) {
  std::string cmd = "addr2line -Cfpe /proc/" + std::to_string(getpid()) + "/exe";
  for (int i = 0; i < n; ++i) { char b[20]; snprintf(b, sizeof b, " 0x%x", pcs[i] - 1); cmd += b; }
  FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r"); if (!f) return "";
  std::string s; char l[2000]; int k = 0;
  while (fgets(l, sizeof l, f) && k < 10) {
    std::string x = l; size_t p = x.find(" at "); if (p != std::string::npos) x.resize(p); while (!x.empty() && x.back() == '\n') x.pop_back();
    if (x == "??" || x.find("_M_") != std::string::npos) continue;
    if (x.size() > 150) x = x.substr(0, 147) + "..."; s += (k ? " <- " : "") + x; ++k; }
  pclose(f); return s;
}
}  // namespace sched

int main(int argc, char** argv) {
  // resolve every symbol before forking: otherwise each execution would resolve them again
  // and keep addresses the same in every run, so that a schedule found in one run can be replayed in another
  if (!getenv("LD_BIND_NOW")) { personality(ADDR_NO_RANDOMIZE); setenv("LD_BIND_NOW", "1", 1); execv("/proc/self/exe", argv); }
  std::string report, logdir = "/tmp", only, replay, shared; double budget = 600; int nw = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--tier") g_thorough = nx() == "thorough"; else if (a == "--report") report = nx(); else if (a == "--logdir") logdir = nx();
    else if (a == "--workers") nw = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--only") only = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--shared") shared = nx(); else if (a == "--list") { for (auto& s : scens()) puts(s.name); return 0; }
  }
  std::sort(scens().begin(), scens().end(), [](const Scen& a, const Scen& b) { return strcmp(a.name, b.name) < 0; });
  // tables used by the children only; allocated before forking so that addresses agree
  OB = (Obj*)mmap((void*)0x500000000000ull, sizeof(Obj) * MAXO, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  OI = (u32*)mmap(nullptr, sizeof(u32) * 2 * MAXO, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_pk = (uptr*)mmap(nullptr, sizeof(uptr) * NPG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_pi = (u32*)mmap(nullptr, sizeof(u32) * NPG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mmap((void*)PGMEM, sizeof(PageG) * NPG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)PGMEM) { fprintf(stderr, "shadow mmap failed\n"); return 2; }
  g_ev = (Event*)mmap((void*)0x600000000000ull, sizeof(Event) * MAXEV, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  { void* (*warm[])(size_t) = {malloc}; (void)warm; abi::__cxa_get_globals();
    (void)REAL(pthread_mutex_init); (void)REAL(pthread_cond_init); (void)REAL(pthread_mutex_destroy); }
  if (!replay.empty()) {
    size_t p = replay.find(':'); std::string name = replay.substr(0, p), cs = replay.substr(p + 1);
    W = (W_*)shm(sizeof(W_)); g_trace = true; char* q = &cs[0]; int n = 0;
    while (*q) { W->pch[n++] = strtol(q, &q, 10); if (*q == ',') ++q; }
    W->plen = n; g_own = (u64*)shm(NOWN * 8); static volatile int noRestart; g_restart = &noRestart;
    { char* z = &shared[0]; while (*z) { u64 a = strtoull(z, &z, 10); if (*z == ',') ++z; u32 i = (u32)(mix(a, 11) & (NOWN - 1)); while (g_own[i]) i = (i + 1) & (NOWN - 1); g_own[i] = a << 8 | 255; } }
    for (auto& s : scens()) if (name == s.name) {
      g_scen = s.name; g_o = s.o; g_bound = 99; g_bound = g_thorough ? std::max(s.o.preempt, s.o.preempt_t) : s.o.preempt;
      fflush(stdout); pid_t c = fork(); if (!c) { child(s); _exit(9); } int st; waitpid(c, &st, 0);
      if (W->endst == 0) printf("VIOLATED: execution died (%s)\n  at %s\n", WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit", symbols(W->stk, W->nstk).c_str());
      else if (W->endst == 2) printf("VIOLATED key=%s\n  %s\n  at %s\n  schedule: %s\n", W->v.key, W->v.msg, symbols(W->stk, W->nstk).c_str(), W->v.path);
      else if (W->endst == 5) { printf("REPLAY DIVERGED: %s\n", W->err); return 2; }
      else printf("property held\n");
      return W->endst == 2 || W->endst == 0 ? 1 : 0;
    }
    printf("no such scenario\n"); return 2;
  }
  double t0 = now(), end = t0 + budget; std::string js = "{\"scenarios\":[", viol, samples; bool first = true, anyviol = false, bad = false;
  std::vector<const Scen*> todo; for (auto& s : scens()) if (only.empty() ? (g_thorough || !s.o.deep) : only == s.name) todo.push_back(&s);
  FR = (Front*)shm(sizeof(Front)); for (int l = 0; l < NLEV; ++l) FM[l] = (u8*)shm(FBYTES);
  u64 csz = 1ull << 26; g_cache = (u64*)shm(csz * 8); g_cacheMask = csz - 1; g_ncache = &FR->nstates; g_restart = &FR->restart; g_own = (u64*)shm(NOWN * 8);
  W_* all = (W_*)shm(sizeof(W_) * nw);
  for (size_t si = 0; si < todo.size(); ++si) {
    const Scen& s = *todo[si]; g_scen = s.name; g_o = s.o; g_bound = g_thorough ? std::max(s.o.preempt, s.o.preempt_t) : s.o.preempt;
    double ts = now(); double dl = ts + std::max(3.0, (end - ts) * (si + 1 == todo.size() ? 1.0 : std::max(0.4, 2.0 / (todo.size() - si)))); if (dl > end) dl = std::max(end, ts + 3);
    int rounds = 0;
    memset(g_own, 0, NOWN * 8);
   again:
    madvise(g_cache, csz * 8, MADV_REMOVE); for (int l = 0; l < NLEV; ++l) madvise(FM[l], FBYTES, MADV_REMOVE);
    memset((void*)FR, 0, sizeof *FR);
    u32 z = 0; memcpy(FM[0], &z, 4); FR->top[0] = 4; FR->count[0] = 1;
    { std::vector<pid_t> pid(nw); std::vector<int> fd(nw);
    for (int w = 0; w < nw; ++w) {
      std::string f = logdir + "/" + s.name + ".w" + std::to_string(w) + ".log"; fd[w] = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
      fflush(stdout); fflush(stderr); pid[w] = fork(); if (pid[w] == 0) { W = &all[w]; worker(s, fd[w], dl); }
    }
    for (int w = 0; w < nw; ++w) {
      int st; waitpid(pid[w], &st, 0); if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0)) && !FR->hard) { FR->hard = 1; FR->stop = 1; snprintf(FR->err, sizeof FR->err, "worker died with status %d", st); }
      close(fd[w]); unlink((logdir + "/" + s.name + ".w" + std::to_string(w) + ".log").c_str());
    } }
    if (FR->restart && !FR->hard && now() < dl && ++rounds < 500) goto again;
    if (FR->restart) { FR->nviol = 0; FR->capped = 1; }
    if (FR->hard) { fprintf(stderr, "ERROR: %s: %s\n", s.name, FR->err); bad = true; }
    u64 ex = 0; std::string lv; for (int l = 0; l < NLEV; ++l) { ex += FR->exec[l]; if (l <= g_bound) lv += (l ? "," : "") + std::to_string(FR->exec[l]); }
    for (int i = 0; i < FR->nviol; ++i) {
      anyviol = true; Viol& v = FR->v[i]; std::string at = symbols(FR->stk[i], FR->nstk[i]); std::string at2 = FR->stk2[i] ? symbols(&FR->stk2[i], 1) : "";
      viol += (viol.empty() ? "" : ",") + std::string("{\"scenario\":\"") + esc(v.scen) + "\",\"key\":\"" + esc(v.key) + "\",\"msg\":\"" + esc(v.msg) + " [at " + esc(at.c_str()) + (at2.empty() ? "" : "; other access in " + esc(at2.c_str())) + "]\",\"path\":\"" + esc(v.path) + "\",\"choices\":[";
      for (int k = 0; k < v.depth; ++k) viol += (k ? "," : "") + std::to_string(v.ch[k]);
      viol += "],\"shared\":[";
      bool f1 = true; for (u32 k = 0; k < NOWN; ++k) if ((g_own[k] & 255) == 255) { viol += (f1 ? "\"" : ",\"") + std::to_string((unsigned long long)(g_own[k] >> 8)) + "\""; f1 = false; }
      viol += "]}";
    }
    for (int i = 0; i < FR->nsamp && i < 3; ++i) samples += (samples.empty() ? "\"" : ",\"") + esc(FR->samp[i]) + "\"";
    bool cap = FR->capped || FR->hard; char b[700];
    snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"violations\":%d,\"complete\":%s,\"preemption_bound\":%d,\"completed_by_preemptions\":[%s],\"wall_s\":%.2f}", first ? "" : ",", s.name,
             (unsigned long long)ex, (unsigned long long)FR->nstates + 1, (unsigned long long)FR->trans, (unsigned long long)FR->pruned, FR->nviol, cap ? "false" : "true", g_bound, lv.c_str(), now() - ts);
    first = false; js += b;
    printf("  %-30s full=%llu [by preemptions %s] states=%llu pruned=%llu steps=%llu depth=%llu viol=%d %s %.1fs\n", s.name, (unsigned long long)ex, lv.c_str(), (unsigned long long)FR->nstates, (unsigned long long)FR->pruned, (unsigned long long)FR->trans, (unsigned long long)FR->maxdepth, FR->nviol, cap ? "CAPPED" : "complete", now() - ts);
    fflush(stdout);
    if (bad) break;
  }
  js += "],\"violations\":[" + viol + "],\"samples\":[" + samples + "]}";
  if (!report.empty()) { FILE* f = fopen(report.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  return bad ? 3 : anyviol ? 1 : 0;
}

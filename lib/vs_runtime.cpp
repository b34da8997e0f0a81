// Controlled scheduler, happens-before race detector, heap life-time checker and
// exhaustive preemption-bounded explorer.  See DESIGN.md, "schedule explorer".
// Compiled WITHOUT instrumentation; the code under test and the harness are
// compiled with -fsanitize=thread but linked against the __tsan_* callbacks here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "vs.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace {
typedef uintptr_t uptr;
const int MAXT = 12;
const int MAXPTS = 8192;
const int MAXDEV = 96;

// ---------------------------------------------------------------- shared data
struct Dev { uint16_t pos; uint8_t alt; uint8_t pad; };
struct Slot {            // filled by one execution
  int status;            // 0 running, 1 ok, 2 violation, 3 internal error
  char key[128];
  char msg[3000];
  char obs[8000];        // observation log
  int obs_len;
  int n;                 // choice points
  uint8_t nalt[MAXPTS];
  uint8_t chosen[MAXPTS];
  uint32_t costmask[MAXPTS];
  uint32_t hash[MAXPTS];
  long steps;
  int threads;
};
struct Entry { uint32_t hash; uint8_t ndev; uint8_t cost; Dev dev[MAXDEV]; };

// ------------------------------------------------------------ execution state
enum St { UNUSED, READY, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_RW, B_ONCE, DONE };
const char* stname[] = {"unused", "ready", "waiting for mutex", "waiting on condition",
                        "joining", "sleeping", "waiting for rwlock", "waiting for once/static init", "done"};
struct Thr {
  int st;
  uptr obj, obj2;
  bool timed, timedout, wantwrite, detached, joined, realjoined;
  uint64_t deadline;
  uint64_t waitseq;
  pthread_t real;
  uint32_t vc[MAXT];
  int futex;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  int jtarget;
  uptr stk_lo, stk_hi;
  const char* op;
};
struct Mtx { uptr a; int owner; int rec; int kind; uint32_t vc[MAXT]; int readers; bool rheld[MAXT]; bool used; };
struct Sync { uptr a; uint32_t vc[MAXT]; int state; int owner; };
struct PerT { uint32_t wc, rc, awc, arc; uint32_t wpc, rpc; uint8_t wm, rm, awm, arm; };
struct Cell { uptr g; PerT p[MAXT]; };
struct Blk { uptr a; uint32_t size; uint32_t freed_by; uptr apc, fpc; };  // freed_by: tid+1

Slot* slot;
bool g_active;
Thr T[MAXT];
int nthr, cur, joinreal = -1;
Mtx M[512]; int nM;
Sync S[1024]; int nS;
const int NCELL = 60000, HCELL = 1 << 17;
Cell* cells; int ncell; bool cell_full;
int32_t* hcell;
const uptr ARENA = 0x700000000000ull; const size_t ARENA_SZ = 256u << 20;
uptr arena_p;
Blk* blks; int nblk; const int NBLK = 200000;
uint64_t vtime; uint64_t wseq;
long consec;
uint32_t rhash = 2166136261u;
const Entry* plan; int plan_i;
vs::Options* opt;
bool verbose; FILE* vout;
bool spurious_on;
__thread int t_self = -1;
__thread int in_rt = 0;
bool body_done;

vs::Scenario* scn_head;

// ------------------------------------------------------------------ real libs
template <class F> F realfn(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*r_join)(pthread_t, void**);
int (*r_lock)(pthread_mutex_t*);
int (*r_unlock)(pthread_mutex_t*);
void resolve() {
  if (r_create) return;
  r_create = realfn<decltype(r_create)>("pthread_create");
  r_join = realfn<decltype(r_join)>("pthread_join");
  r_lock = realfn<decltype(r_lock)>("pthread_mutex_lock");
  r_unlock = realfn<decltype(r_unlock)>("pthread_mutex_unlock");
}

void fwait(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
void fwake(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

void scopy(char* d, size_t n, const char* s) { size_t i = 0; for (; s[i] && i + 1 < n; ++i) d[i] = s[i]; d[i] = 0; }

[[noreturn]] void finish(int status, const char* key, const char* msg) {
  g_active = false;
  slot->status = status;
  scopy(slot->key, sizeof slot->key, key);
  scopy(slot->msg, sizeof slot->msg, msg);
  slot->threads = nthr;
  _exit(0);
}
[[noreturn]] void violation(const char* key, const char* fmt, ...) {
  in_rt++;
  static char b[3000];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  finish(2, key, b);
}
[[noreturn]] void internal(const char* fmt, ...) {
  in_rt++;
  static char b[3000];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  finish(3, "internal", b);
}
void trace(const char* fmt, ...) {
  if (!verbose) return;
  in_rt++;
  va_list ap; va_start(ap, fmt); vfprintf(vout, fmt, ap); va_end(ap); fflush(vout);
  in_rt--;
}

// ------------------------------------------------------------------- decisions
void mix(uint32_t x) { rhash = (rhash ^ x) * 16777619u; }
int decide(int n, uint32_t costmask) {
  if (n <= 1) return 0;
  int i = slot->n;
  if (i >= MAXPTS) violation("livelock", "more than %d choice points in one execution", MAXPTS);
  int ch = 0;
  if (plan_i < plan->ndev && plan->dev[plan_i].pos == i) {
    ch = plan->dev[plan_i].alt;
    if (ch >= n) internal("divergence: choice %d of %d at point %d", ch, n, i);
    if (plan_i == plan->ndev - 1 && plan->hash && plan->hash != rhash) internal("divergence: prefix hash differs at point %d", i);
    ++plan_i;
  } else if (plan_i < plan->ndev && plan->dev[plan_i].pos < i) internal("divergence: planned point %d missed", plan->dev[plan_i].pos);
  slot->nalt[i] = n; slot->chosen[i] = ch; slot->costmask[i] = costmask; slot->hash[i] = rhash;
  slot->n = i + 1;
  mix(1000 + ch);
  return ch;
}

Mtx* mtx(uptr a) {
  for (int i = 0; i < nM; ++i) if (M[i].a == a) return &M[i];
  if (nM >= 512) internal("too many mutexes");
  Mtx* m = &M[nM++];
  m->a = a; m->owner = -1; m->rec = 0; m->readers = 0;
  return m;
}
Sync* syn(uptr a, bool create = true) {
  for (int i = 0; i < nS; ++i) if (S[i].a == a) return &S[i];
  if (!create) return nullptr;
  if (nS >= 1024) internal("too many atomics");
  Sync* s = &S[nS++];
  s->a = a; s->owner = -1;
  return s;
}
void joinvc(uint32_t* d, const uint32_t* s) { for (int i = 0; i < MAXT; ++i) if (s[i] > d[i]) d[i] = s[i]; }

bool enabled(int i) {
  Thr& t = T[i];
  switch (t.st) {
    case READY: return true;
    case B_MUTEX: { Mtx* m = mtx(t.obj); return m->owner < 0 && m->readers == 0; }
    case B_RW: { Mtx* m = mtx(t.obj); return t.wantwrite ? (m->owner < 0 && m->readers == 0) : m->owner < 0; }
    case B_JOIN: return T[t.jtarget].st == DONE;
    case B_ONCE: return syn(t.obj)->state != 1;
    default: return false;
  }
}

// Choose the thread to run next. voluntary: current thread just yielded.
int pick(bool voluntary) {
  if (++slot->steps > opt->max_steps) violation("livelock", "no termination within %ld steps", opt->max_steps);
  int o[3 * MAXT]; uint32_t cost = 0; int n = 0; char kind[3 * MAXT];
  bool cur_en = cur >= 0 && enabled(cur);
  int nother = 0;
  for (int i = 0; i < nthr; ++i) if (i != cur && enabled(i)) ++nother;
  bool rotate = voluntary;
  if (cur_en && nother && consec > 400) rotate = true;
  if (cur_en && !rotate) { o[n] = cur; kind[n++] = 0; }
  for (int d = 1; d <= nthr; ++d) {
    int i = (cur < 0 ? 0 : cur) + d; i %= nthr;
    if (i == cur) continue;
    if (enabled(i)) { if (cur_en && !rotate) cost |= 1u << n; o[n] = i; kind[n++] = 0; }
  }
  if (cur_en && rotate) { o[n] = cur; if (n) cost |= 1u << n; kind[n++] = 0; }
  int nrun = n;
  // time-outs: the earliest one is free when nothing else can run
  int best = -1;
  for (int i = 0; i < nthr; ++i)
    if (T[i].timed && T[i].st != READY && T[i].st != DONE && !enabled(i))
      if (best < 0 || T[i].deadline < T[best].deadline) best = i;
  if (best >= 0) {
    if (nrun) cost |= 1u << n;
    o[n] = best; kind[n++] = 1;
  }
  if (spurious_on)
    for (int i = 0; i < nthr; ++i)
      if (T[i].st == B_COND) { cost |= 1u << n; o[n] = i; kind[n++] = 2; }
  if (nrun == 0 && best < 0) {
    // nothing can run
    bool all_done = true;
    for (int i = 0; i < nthr; ++i) if (T[i].st != DONE) all_done = false;
    if (all_done) finish(1, "", "");
    if (body_done && opt->allow_leak) finish(1, "", "");
    char b[2000]; int len = 0;
    for (int i = 0; i < nthr && len < 1800; ++i)
      len += snprintf(b + len, sizeof b - len, "thread %d: %s%s%s; ", i, stname[T[i].st], T[i].op ? " at " : "", T[i].op && T[i].st != DONE ? T[i].op : "");
    violation("deadlock", "no thread can run: %s", b);
  }
  int c = decide(n, cost);
  int nx = o[c];
  mix(nx * 8 + kind[c]);
  if (kind[c] == 1) {
    if (T[nx].deadline > vtime) vtime = T[nx].deadline;
    T[nx].timedout = true;
    if (T[nx].st == B_COND) { T[nx].st = B_MUTEX; T[nx].obj = T[nx].obj2; T[nx].timed = false; return pick(false); }
    T[nx].st = READY; T[nx].timed = false;
    trace("  [timeout of thread %d]\n", nx);
  } else if (kind[c] == 2) {
    trace("  [spurious wakeup of thread %d]\n", nx);
    T[nx].st = B_MUTEX; T[nx].obj = T[nx].obj2; T[nx].timed = false;
    return pick(false);
  }
  return nx;
}

void resume_hook() {
  if (joinreal >= 0 && joinreal != t_self) {
    int j = joinreal; joinreal = -1;
    if (!T[j].realjoined && j != 0) { T[j].realjoined = true; in_rt++; r_join(T[j].real, nullptr); in_rt--; }
  }
}
void switch_to(int nx) {
  int me = t_self;
  if (nx == me) { consec++; return; }
  consec = 0;
  cur = nx;
  fwake(&T[nx].futex);
  fwait(&T[me].futex);
  resume_hook();
}
void do_point(const char* op, bool voluntary = false) {
  Thr& t = T[t_self];
  t.op = op;
  mix(t_self * 131 + (op ? (unsigned char)op[0] * 7 + (unsigned char)op[1] : 0));
  int nx = pick(voluntary);
  trace("t%d: %s%s\n", t_self, op, nx == t_self ? "" : "   (preempted)");
  if (nx != t_self) switch_to(nx); else consec++;
}
// block until enabled; state set by the caller
void block(const char* op) {
  T[t_self].op = op;
  trace("t%d: blocks: %s\n", t_self, op);
  int nx = pick(false);
  switch_to(nx);
  T[t_self].st = READY;
}
bool act() { return g_active && t_self >= 0 && !in_rt; }
struct RT { RT() { in_rt++; } ~RT() { in_rt--; } };

// ---------------------------------------------------------------- heap / races
Blk* findblk(uptr a) {
  int lo = 0, hi = nblk;
  while (lo < hi) { int m = (lo + hi) / 2; if (blks[m].a <= a) lo = m + 1; else hi = m; }
  return lo ? &blks[lo - 1] : nullptr;
}
bool in_arena(uptr a) { return a >= ARENA && a < ARENA + ARENA_SZ; }
void check_heap(uptr a, size_t n, const char* what, uptr pc) {
  if (!in_arena(a)) return;
  Blk* b = findblk(a);
  if (!b || a + n > b->a + b->size) {
    violation("heap-out-of-bounds", "%s of %zu bytes outside any heap object (pc %lx) by thread %d", what, n, (long)pc, t_self);
  }
  if (b->freed_by) violation("use-after-free", "%s of %zu bytes in a heap object of %u bytes already freed by thread %d (pc %lx, freed at pc %lx, allocated at pc %lx) by thread %d", what, n, b->size, b->freed_by - 1, (long)pc, (long)b->fpc, (long)b->apc, t_self);
}
Cell* getcell(uptr g, bool create) {
  uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 47) & (HCELL - 1);
  while (hcell[h]) {
    if (cells[hcell[h] - 1].g == g) return &cells[hcell[h] - 1];
    h = (h + 1) & (HCELL - 1);
  }
  if (!create) return nullptr;
  if (ncell >= NCELL) { cell_full = true; return nullptr; }
  Cell* c = &cells[ncell++];
  c->g = g;
  hcell[h] = ncell;
  return c;
}
void race(const char* a, uptr pc1, const char* b, uptr pc2, int o, uptr addr) {
  violation("data-race", "%s by thread %d (pc %lx) is concurrent with %s by thread %d (pc %lx), address %lx", a, t_self, (long)pc1, b, o, (long)pc2, (long)addr);
}
// kind: 0 read 1 write 2 atomic read 3 atomic write
void access1(uptr a, unsigned n, int kind, uptr pc) {
  uptr g = a & ~7ull;
  uint8_t m = (uint8_t)(((1u << n) - 1) << (a & 7));
  Cell* c = getcell(g, true);
  if (!c) return;
  Thr& me = T[t_self];
  const char* nm[] = {"a read", "a write", "an atomic read", "an atomic write"};
  for (int t = 0; t < nthr; ++t) {
    if (t == t_self) continue;
    PerT& p = c->p[t];
    uint32_t k = me.vc[t];
    if ((p.wm & m) && p.wc > k) race(nm[kind], pc, nm[1], p.wpc, t, a);
    if (kind == 1 && (p.rm & m) && p.rc > k) race(nm[kind], pc, nm[0], p.rpc, t, a);
    if (kind <= 1 && (p.awm & m) && p.awc > k) race(nm[kind], pc, nm[3], 0, t, a);
    if (kind == 1 && (p.arm & m) && p.arc > k) race(nm[kind], pc, nm[2], 0, t, a);
    if (kind == 3 && (p.rm & m) && p.rc > k) race(nm[kind], pc, nm[0], p.rpc, t, a);
  }
  PerT& p = c->p[t_self];
  uint32_t k = me.vc[t_self];
  switch (kind) {
    case 0: if (p.rc == k) p.rm |= m; else p.rm = m, p.rc = k; p.rpc = (uint32_t)pc; break;
    case 1: if (p.wc == k) p.wm |= m; else p.wm = m, p.wc = k; p.wpc = (uint32_t)pc; break;
    case 2: if (p.arc == k) p.arm |= m; else p.arm = m, p.arc = k; break;
    case 3: if (p.awc == k) p.awm |= m; else p.awm = m, p.awc = k; break;
  }
}
bool on_own_stack(uptr a) { return a >= T[t_self].stk_lo && a < T[t_self].stk_hi; }
bool on_any_stack(uptr a) { for (int i = 0; i < nthr; ++i) if (a >= T[i].stk_lo && a < T[i].stk_hi) return true; return false; }
void access(uptr a, size_t n, int kind, uptr pc) {
  if (!act() || !n) return;
  if (on_own_stack(a)) return;
  RT rt;
  check_heap(a, n, kind & 1 ? "write" : "read", pc);
  if (on_any_stack(a)) return;
  while (n) {
    unsigned k = 8 - (a & 7);
    if (k > n) k = n;
    access1(a, k, kind, pc);
    a += k; n -= k;
  }
}
void clear_range(uptr a, size_t n) {
  if (n > (1u << 20)) n = 1u << 20;
  for (uptr g = a & ~7ull; g < a + n; g += 8) {
    Cell* c = getcell(g, false);
    if (c) memset((void*)c->p, 0, sizeof c->p);
  }
}
void* heap_alloc(size_t n, size_t al, uptr pc) {
  if (!act()) return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
  if (al < 16) al = 16;
  uptr a = (arena_p + 16 + al - 1) & ~(uptr)(al - 1);
  if (a + n + 16 > ARENA + ARENA_SZ || nblk >= NBLK) internal("arena exhausted");
  arena_p = a + n + 16;
  arena_p = (arena_p + 15) & ~15ull;
  Blk& b = blks[nblk++];
  b.a = a; b.size = (uint32_t)n; b.freed_by = 0; b.apc = pc; b.fpc = 0;
  return (void*)a;
}
void heap_free(void* p, uptr pc) {
  if (!p) return;
  uptr a = (uptr)p;
  if (!in_arena(a)) { if (g_active && t_self >= 0) { RT rt; clear_range(a, malloc_usable_size(p)); } __libc_free(p); return; }
  if (!g_active || t_self < 0) return;
  RT rt;
  Blk* b = findblk(a);
  if (!b || b->a != a) violation("bad-free", "free of a pointer that is not a heap object");
  if (b->freed_by) violation("double-free", "heap object of %u bytes freed twice (pc %lx, first at pc %lx)", b->size, (long)pc, (long)b->fpc);
  // freeing is a write to the whole object
  for (uptr g = a & ~7ull; g < a + b->size; g += 8) {
    Cell* c = getcell(g, false);
    if (!c) continue;
    for (int t = 0; t < nthr; ++t) {
      if (t == t_self) continue;
      uint32_t k = T[t_self].vc[t];
      PerT& q = c->p[t];
      if ((q.wm && q.wc > k) || (q.rm && q.rc > k) || (q.awm && q.awc > k) || (q.arm && q.arc > k))
        violation("free-race", "heap object of %u bytes freed by thread %d (pc %lx) while thread %d accesses it unsynchronised (pc %lx)", b->size, t_self, (long)pc, t, (long)(q.wm && q.wc > k ? q.wpc : q.rpc));
    }
  }
  b->freed_by = t_self + 1; b->fpc = pc;
}
void touch(const void* o, size_t n, const char* what) {
  check_heap((uptr)o, n, what, 0);
}
#define PC ((uptr)__builtin_return_address(0))

// ------------------------------------------------------------------- mutexes
void acq(Mtx* m) { m->owner = t_self; m->rec = 1; joinvc(T[t_self].vc, m->vc); }
void rel(Mtx* m) {
  memcpy(m->vc, T[t_self].vc, sizeof m->vc);
  T[t_self].vc[t_self]++;
  m->owner = -1; m->rec = 0;
}
int kind_of(pthread_mutex_t* pm) { return pm->__data.__kind & 3; }
int v_lock(pthread_mutex_t* pm, bool timed, uint64_t dl, bool pt) {
  RT rt;
  touch(pm, sizeof *pm, "mutex lock");
  if (pt) do_point("lock");
  touch(pm, sizeof *pm, "mutex lock");
  Mtx* m = mtx((uptr)pm);
  if (m->owner == t_self) {
    int k = kind_of(pm);
    if (k == PTHREAD_MUTEX_RECURSIVE) { m->rec++; return 0; }
    if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (!timed) violation("deadlock", "thread %d locks a mutex it already holds", t_self);
  }
  while (m->owner >= 0) {
    Thr& t = T[t_self];
    t.st = B_MUTEX; t.obj = (uptr)pm; t.timed = timed; t.deadline = dl; t.timedout = false;
    block("lock");
    t.timed = false;
    if (t.timedout) { t.timedout = false; return ETIMEDOUT; }
  }
  touch(pm, sizeof *pm, "mutex lock");
  acq(m);
  return 0;
}
int v_unlock(pthread_mutex_t* pm) {
  RT rt;
  touch(pm, sizeof *pm, "mutex unlock");
  Mtx* m = mtx((uptr)pm);
  if (m->owner != t_self) {
    if (kind_of(pm) != 0) return EPERM;
    violation("unlock-not-owner", "thread %d unlocks a mutex it does not hold", t_self);
  }
  if (--m->rec > 0) return 0;
  rel(m);
  trace("t%d: unlock\n", t_self);
  return 0;
}
uint64_t ts2ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
int v_cond_wait(pthread_cond_t* c, pthread_mutex_t* pm, bool timed, uint64_t dl) {
  RT rt;
  touch(c, sizeof *c, "condition wait");
  do_point("cond_wait");
  touch(c, sizeof *c, "condition wait");
  Mtx* m = mtx((uptr)pm);
  if (m->owner != t_self) violation("wait-not-owner", "condition wait without holding the mutex");
  int rec = m->rec;
  rel(m);
  Thr& t = T[t_self];
  t.st = B_COND; t.obj = (uptr)c; t.obj2 = (uptr)pm; t.timed = timed; t.deadline = dl; t.timedout = false; t.waitseq = ++wseq;
  block("cond_wait");
  t.timed = false;
  bool to = t.timedout; t.timedout = false;
  m = mtx((uptr)pm);
  while (m->owner >= 0) { t.st = B_MUTEX; t.obj = (uptr)pm; block("re-lock after cond_wait"); }
  acq(m); m->rec = rec;
  return to ? ETIMEDOUT : 0;
}
int v_signal(pthread_cond_t* c, bool all) {
  RT rt;
  touch(c, sizeof *c, "condition notify");
  do_point(all ? "broadcast" : "signal");
  touch(c, sizeof *c, "condition notify");
  int w[MAXT], n = 0;
  for (int i = 0; i < nthr; ++i) if (T[i].st == B_COND && T[i].obj == (uptr)c) w[n++] = i;
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (T[w[j]].waitseq < T[w[i]].waitseq) { int x = w[i]; w[i] = w[j]; w[j] = x; }
  if (!n) return 0;
  if (all) { for (int i = 0; i < n; ++i) { T[w[i]].st = B_MUTEX; T[w[i]].obj = T[w[i]].obj2; T[w[i]].timed = false; } }
  else {
    int k = decide(n, 0);
    T[w[k]].st = B_MUTEX; T[w[k]].obj = T[w[k]].obj2; T[w[k]].timed = false;
  }
  return 0;
}
void v_sleep(uint64_t ns) {
  RT rt;
  Thr& t = T[t_self];
  t.st = B_SLEEP; t.timed = true; t.deadline = vtime + ns; t.timedout = false;
  block("sleep");
  t.timed = false; t.timedout = false;
}

// ------------------------------------------------------------------- threads
void thread_done() {
  RT rt;
  int me = t_self;
  T[me].st = DONE;
  T[me].vc[me]++;
  trace("t%d: ends\n", me);
  mix(7777 + me);
  int nx = pick(false);
  consec = 0;
  cur = nx;
  joinreal = me;
  fwake(&T[nx].futex);
}
void* tramp(void* p) {
  int id = (int)(uptr)p;
  t_self = id;
  in_rt++;
  fwait(&T[id].futex);
  resume_hook();
  in_rt--;
  T[id].ret = T[id].fn(T[id].arg);
  thread_done();
  in_rt++;  // TLS destructors run unscheduled while the next thread waits for us
  return T[id].ret;
}
int find_thread(pthread_t p) { for (int i = 1; i < nthr; ++i) if (pthread_equal(T[i].real, p)) return i; return -1; }

const size_t STK = 256 * 1024;
uptr stacks;  // MAXT stacks, pre-reserved
void* idle(void*) { for (;;) pause(); }

void run_body(vs::Scenario* s, const Entry* e, Slot* sl, bool vb) {
  slot = sl;
  plan = e; plan_i = 0;
  opt = &s->opt;
  spurious_on = opt->spurious;
  verbose = vb; vout = stdout;
  vtime = 1700000000ull * 1000000000ull;
  arena_p = ARENA;
  nthr = 1; cur = 0;
  T[0].st = READY; T[0].vc[0] = 1; T[0].real = pthread_self();
  { pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void* lo; size_t sz; pthread_attr_getstack(&a, &lo, &sz);
    T[0].stk_hi = (uptr)lo + sz; T[0].stk_lo = T[0].stk_hi - (64ull << 20); pthread_attr_destroy(&a); }
  { // a permanent second thread keeps libstdc++/glibc in multi-threaded mode
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 32768); pthread_t x; r_create(&x, &a, idle, nullptr); pthread_attr_destroy(&a); }
  t_self = 0;
  g_active = true;
  s->body();
  body_done = true;
  RT rt;
  T[0].st = DONE; T[0].vc[0]++;
  trace("t0: body ends\n");
  mix(7777);
  int nx = pick(false);
  cur = nx;
  fwake(&T[nx].futex);
  for (;;) pause();
}
}  // namespace

// ---------------------------------------------------------------- public API
namespace vs {
Scenario::Scenario(const char* n, void (*b)(), Options o) : name(n), body(b), opt(o), next(scn_head) { scn_head = this; }
void log(const char* fmt, ...) {
  if (!slot) return;
  RT rt;
  va_list ap; va_start(ap, fmt);
  int left = (int)sizeof slot->obs - slot->obs_len;
  if (left > 2) { int k = vsnprintf(slot->obs + slot->obs_len, left, fmt, ap); slot->obs_len += k < left ? k : left - 1; }
  va_end(ap);
}
void fail(const char* key, const char* fmt, ...) {
  in_rt++;
  static char b[3000];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  finish(2, key, b);
}
void point(const char* w) { if (!act()) return; RT rt; do_point(w); }
int choose(int n, int cost) { RT rt; uint32_t m = cost ? ((1u << n) - 2) : 0; return decide(n, m); }
int self() { return t_self; }
bool replaying() { return verbose; }
}  // namespace vs

// ---------------------------------------------------------------- interposers
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  resolve();
  if (!act()) return r_create(t, at, fn, arg);
  RT rt;
  do_point("create");
  if (nthr >= MAXT) internal("too many threads");
  int id = nthr;
  Thr& n = T[id];
  n.fn = fn; n.arg = arg; n.st = READY; n.futex = 0;
  memcpy(n.vc, T[t_self].vc, sizeof n.vc);
  n.vc[id] = 1;
  T[t_self].vc[t_self]++;
  if (at) { int d; pthread_attr_getdetachstate(at, &d); n.detached = d == PTHREAD_CREATE_DETACHED; }
  pthread_attr_t a; pthread_attr_init(&a);
  n.stk_lo = stacks + id * (STK + 65536); n.stk_hi = n.stk_lo + STK;
  pthread_attr_setstack(&a, (void*)n.stk_lo, STK);
  int r = r_create(&n.real, &a, tramp, (void*)(uptr)id);
  pthread_attr_destroy(&a);
  if (r) internal("pthread_create failed: %d", r);
  nthr = id + 1;
  *t = n.real;
  trace("t%d: created thread %d\n", t_self, id);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  resolve();
  int id = act() ? find_thread(p) : -1;
  if (id < 0) return r_join(p, ret);
  RT rt;
  if (T[id].detached || T[id].joined) violation("bad-join", "thread joined twice or after detach");
  do_point("join");
  Thr& t = T[t_self];
  if (T[id].st != DONE) { t.st = B_JOIN; t.jtarget = id; block("join"); }
  T[id].joined = true;
  joinvc(t.vc, T[id].vc);
  if (ret) *ret = T[id].ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  int id = act() ? find_thread(p) : -1;
  if (id < 0) { static auto f = realfn<int (*)(pthread_t)>("pthread_detach"); return f(p); }
  T[id].detached = true;
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  static auto f = realfn<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
  if (act()) { RT rt; touch(m, sizeof *m, "mutex init"); Mtx* x = mtx((uptr)m); x->owner = -1; x->rec = 0; memset(x->vc, 0, sizeof x->vc); }
  return f(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (act()) {
    RT rt; touch(m, sizeof *m, "mutex destroy");
    Mtx* x = mtx((uptr)m);
    if (x->owner >= 0) violation("destroy-locked-mutex", "a mutex is destroyed while thread %d holds it", x->owner);
    for (int i = 0; i < nthr; ++i) if ((T[i].st == B_MUTEX && T[i].obj == (uptr)m)) violation("destroy-waited-mutex", "a mutex is destroyed while thread %d waits for it", i);
    // the destroyer must be ordered after the last user
    for (int t = 0; t < nthr; ++t) if (t != t_self && x->vc[t] > T[t_self].vc[t]) { joinvc(T[t_self].vc, x->vc); break; }
    return 0;
  }
  static auto f = realfn<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  return f(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (act()) return v_lock(m, false, 0, true); resolve(); return g_active ? 0 : r_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (act()) return v_unlock(m); resolve(); return g_active ? 0 : r_unlock(m); }
int pthread_mutex_trylock(pthread_mutex_t* pm) {
  if (act()) {
    RT rt; touch(pm, sizeof *pm, "mutex trylock"); do_point("trylock"); touch(pm, sizeof *pm, "mutex trylock");
    Mtx* m = mtx((uptr)pm);
    if (m->owner == t_self && kind_of(pm) == PTHREAD_MUTEX_RECURSIVE) { m->rec++; return 0; }
    if (m->owner >= 0) return EBUSY;
    acq(m); return 0;
  }
  static auto f = realfn<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  return f(pm);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (act()) return v_lock(m, true, ts2ns(ts), true); abort(); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (act()) return v_lock(m, true, ts2ns(ts), true); abort(); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  static auto f = realfn<int (*)(pthread_cond_t*, const pthread_condattr_t*)>("pthread_cond_init");
  if (act()) { RT rt; touch(c, sizeof *c, "condition init"); }
  return f(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (act()) {
    RT rt; touch(c, sizeof *c, "condition destroy");
    for (int i = 0; i < nthr; ++i) if (T[i].st == B_COND && T[i].obj == (uptr)c) violation("destroy-waited-condition", "a condition is destroyed while thread %d waits on it", i);
    return 0;
  }
  static auto f = realfn<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  return f(c);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (act()) return v_cond_wait(c, m, false, 0); abort(); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (act()) return v_cond_wait(c, m, true, ts2ns(ts)); abort(); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { if (act()) return v_cond_wait(c, m, true, ts2ns(ts)); abort(); }
int pthread_cond_signal(pthread_cond_t* c) { if (act()) return v_signal(c, false); static auto f = realfn<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return g_active ? 0 : f(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (act()) return v_signal(c, true); static auto f = realfn<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return g_active ? 0 : f(c); }

static int rw(pthread_rwlock_t* l, bool w, bool tr, bool timed, uint64_t dl) {
  RT rt; touch(l, sizeof *l, "rwlock"); do_point("rwlock"); touch(l, sizeof *l, "rwlock");
  Mtx* m = mtx((uptr)l);
  Thr& t = T[t_self];
  for (;;) {
    bool ok = w ? (m->owner < 0 && m->readers == 0) : m->owner < 0;
    if (ok) break;
    if (tr) return EBUSY;
    t.st = B_RW; t.obj = (uptr)l; t.wantwrite = w; t.timed = timed; t.deadline = dl; t.timedout = false;
    block("rwlock"); t.timed = false;
    if (t.timedout) return ETIMEDOUT;
  }
  joinvc(t.vc, m->vc);
  if (w) { m->owner = t_self; m->rec = 1; } else { m->readers++; m->rheld[t_self] = true; }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (act()) return rw(l, false, false, false, 0); static auto f = realfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (act()) return rw(l, true, false, false, 0); static auto f = realfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (act()) return rw(l, false, true, false, 0); static auto f = realfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return f(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (act()) return rw(l, true, true, false, 0); static auto f = realfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); return f(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!act()) { static auto f = realfn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(l); }
  RT rt; touch(l, sizeof *l, "rwlock unlock");
  Mtx* m = mtx((uptr)l);
  Thr& t = T[t_self];
  joinvc(m->vc, t.vc); t.vc[t_self]++;
  if (m->owner == t_self) { m->owner = -1; m->rec = 0; }
  else if (m->rheld[t_self]) { m->rheld[t_self] = false; m->readers--; }
  else violation("unlock-not-owner", "rwlock released by a thread that does not hold it");
  return 0;
}

static int once_begin(uptr a) {  // 1: caller initialises, 0: done
  Sync* s = syn(a);
  for (;;) {
    s = syn(a);
    if (s->state == 2) { joinvc(T[t_self].vc, s->vc); return 0; }
    if (s->state == 0) { s->state = 1; s->owner = t_self; return 1; }
    if (s->owner == t_self) violation("deadlock", "recursive one-time initialisation");
    T[t_self].st = B_ONCE; T[t_self].obj = a;
    block("once");
  }
}
static void once_end(uptr a, bool ok) {
  Sync* s = syn(a);
  s->state = ok ? 2 : 0; s->owner = -1;
  joinvc(s->vc, T[t_self].vc); T[t_self].vc[t_self]++;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!act()) {
    if (*(volatile int*)o == 2) return 0;
    if (g_active) { static auto f = realfn<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(o, fn); }
    fn(); *(volatile int*)o = 2; return 0;
  }
  { RT rt; do_point("once"); if (*(volatile int*)o == 2 && !syn((uptr)o, false)) return 0; if (!once_begin((uptr)o)) return 0; }
  fn();
  { RT rt; once_end((uptr)o, true); *(volatile int*)o = 2; }
  return 0;
}
int __cxa_guard_acquire(long long* g) {
  char* b = (char*)g;
  if (!act()) { if (*(volatile char*)b) return 0; return 1; }
  RT rt;
  do_point("static-init");
  if (*(volatile char*)b && !syn((uptr)g, false)) return 0;
  if (*(volatile char*)b) { Sync* s = syn((uptr)g); joinvc(T[t_self].vc, s->vc); return 0; }
  return once_begin((uptr)g);
}
void __cxa_guard_release(long long* g) { *(volatile char*)g = 1; if (act()) { RT rt; once_end((uptr)g, true); } }
void __cxa_guard_abort(long long* g) { if (act()) { RT rt; once_end((uptr)g, false); } }

int sched_yield(void) { if (act()) { RT rt; do_point("yield", true); return 0; } return syscall(SYS_sched_yield); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (act()) { v_sleep(ts2ns(a)); if (b) b->tv_sec = b->tv_nsec = 0; return 0; } return syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  if (act()) { uint64_t n = ts2ns(a); if (fl & TIMER_ABSTIME) n = n > vtime ? n - vtime : 0; v_sleep(n); return 0; }
  return syscall(SYS_clock_nanosleep, c, fl, a, b) ? errno : 0;
}
int usleep(useconds_t u) { if (act()) { v_sleep((uint64_t)u * 1000); return 0; } struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, 0); }
unsigned sleep(unsigned s) { if (act()) { v_sleep((uint64_t)s * 1000000000ull); return 0; } struct timespec t = {(time_t)s, 0}; syscall(SYS_nanosleep, &t, 0); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) {
  if (act()) { vtime += 1000; t->tv_sec = vtime / 1000000000ull; t->tv_nsec = vtime % 1000000000ull; return 0; }
  return syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval* t, void*) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }

void free(void* p) {
  if (!p) return;
  if (in_arena((uptr)p)) { heap_free(p, PC); return; }
  if (act()) { RT rt; clear_range((uptr)p, malloc_usable_size(p)); }
  __libc_free(p);
}

// ----- memory functions (callers in shared libraries resolve to these)
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (act()) { access((uptr)s, n, 0, PC); access((uptr)d, n, 1, PC); }
  void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (act()) { access((uptr)s, n, 0, PC); access((uptr)d, n, 1, PC); }
  void* r = d;
  if ((uptr)d <= (uptr)s || (uptr)d >= (uptr)s + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  else { char* dd = (char*)d + n - 1; const char* ss = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory"); }
  return r;
}
void* memset(void* d, int c, size_t n) {
  if (act()) access((uptr)d, n, 1, PC);
  void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}

// ----- tsan callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access((uptr)a, n, 0, PC); } \
  void __tsan_write##n(void* a) { access((uptr)a, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* a) { access((uptr)a, n, 0, PC); } \
  void __tsan_unaligned_write##n(void* a) { access((uptr)a, n, 1, PC); } \
  void __tsan_volatile_read##n(void* a) { access((uptr)a, n, 0, PC); } \
  void __tsan_volatile_write##n(void* a) { access((uptr)a, n, 1, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access((uptr)a, n, 0, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { access((uptr)a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uptr)a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { access((uptr)a, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uptr)p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { access((uptr)p, 8, 0, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }

static void at(uptr a, size_t n, bool rd, bool wr, int mo, uptr pc, bool pt) {
  // caller checked act()
  if (pt && opt->atomic_points && !on_own_stack(a)) { RT rt; check_heap(a, n, "atomic access", pc); do_point("atomic"); }
  access(a, n, wr ? 3 : 2, pc);
  RT rt;
  bool A = rd && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE;
  bool R = wr && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME;
  if (A) { Sync* s = syn(a, false); if (s) joinvc(T[t_self].vc, s->vc); }
  if (R) { Sync* s = syn(a); if (rd) joinvc(s->vc, T[t_self].vc); else memcpy(s->vc, T[t_self].vc, sizeof s->vc); T[t_self].vc[t_self]++; }
}
typedef unsigned __int128 u128;
#define AT(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { if (act()) at((uptr)a, N / 8, true, false, mo, PC, true); return *a; } \
  void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, false, true, mo, PC, true); *a = v; } \
  TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, true, true, mo, PC, true); TY o = *a; *a = v; return o; } \
  TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, true, true, mo, PC, false); TY o = *a; *a = o + v; return o; } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, true, true, mo, PC, false); TY o = *a; *a = o - v; return o; } \
  TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, true, true, mo, PC, true); TY o = *a; *a = o & v; return o; } \
  TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, true, true, mo, PC, true); TY o = *a; *a = o | v; return o; } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, true, true, mo, PC, true); TY o = *a; *a = o ^ v; return o; } \
  TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { if (act()) at((uptr)a, N / 8, true, true, mo, PC, true); TY o = *a; *a = ~(o & v); return o; } \
  static int cas##N(volatile TY* a, TY* e, TY v, int mo, uptr pc) { if (act()) at((uptr)a, N / 8, true, true, mo, pc, true); TY o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int mo, int) { return cas##N(a, e, v, mo, PC); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int mo, int) { return cas##N(a, e, v, mo, PC); } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY e, TY v, int mo, int) { cas##N(a, &e, v, mo, PC); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (act()) { RT rt; Sync* s = syn(1); joinvc(T[t_self].vc, s->vc); joinvc(s->vc, T[t_self].vc); T[t_self].vc[t_self]++; } }
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// red-black tree rebalancing lives in libstdc++: report its writes
namespace std {
struct _Rb_tree_node_base;
void _Rb_tree_insert_and_rebalance(const bool l, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) {
  typedef void (*F)(bool, void*, void*, void*);
  static F f = realfn<F>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  if (act()) { access((uptr)x, 32, 1, PC); access((uptr)p, 32, 1, PC); access((uptr)&h, 32, 1, PC); }
  f(l, x, p, &h);
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) {
  typedef void* (*F)(void*, void*);
  static F f = realfn<F>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  if (act()) { access((uptr)z, 32, 1, PC); access((uptr)&h, 32, 1, PC); uptr par = ((uptr*)z)[1]; access(par, 32, 1, PC); }
  return (_Rb_tree_node_base*)f(z, &h);
}
}  // namespace std

void* operator new(size_t n) { void* p = heap_alloc(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = heap_alloc(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, PC); }
void operator delete(void* p) noexcept { heap_free(p, PC); }
void operator delete[](void* p) noexcept { heap_free(p, PC); }
void operator delete(void* p, size_t) noexcept { heap_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { heap_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p, PC); }

// ------------------------------------------------------------------- explorer
namespace {
const int MAXVIOL = 16, MAXLVL = 8, NOUT = 8192, NSAMP = 6;
struct Viol { char key[128]; char msg[3000]; char obs[2000]; Entry e; };
struct Shared {
  int lock;
  int stop;             // 1: violation found, 2: budget, 3: internal error
  int pending;          // entries queued or being run
  long head[MAXLVL];    // stack top index per cost level
  long executions, steps, nodes, maxpts, lvl_exec[MAXLVL];
  int maxthreads;
  int nviol; Viol viol[MAXVIOL];
  char err[4000];
  int nout; uint64_t out[NOUT]; int nsamp; char samp[NSAMP][1200];
  long known_hits;
};
Shared* sh;
const long STACKCAP = 1500000;
Entry* stk[MAXLVL];
std::set<std::string> known;

void slock() { while (__atomic_exchange_n(&sh->lock, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
void sunlock() { __atomic_store_n(&sh->lock, 0, __ATOMIC_RELEASE); }

// Runs one execution in a forked child; returns wait status.
int run_child(vs::Scenario* s, const Entry* e, Slot* sl, bool vb, int limit, const char* errfile) {
  sl->status = 0; sl->n = 0; sl->steps = 0; sl->obs_len = 0; sl->obs[0] = 0; sl->key[0] = sl->msg[0] = 0; sl->threads = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    if (!vb) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
    (void)errfile;
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    alarm(limit);
    run_body(s, e, sl, vb);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {}
  return st;
}
// Interprets the result: 0 ok, 2 violation (key/msg filled), 3 internal
int classify(Slot* sl, int st, vs::Scenario* s, const Entry* e) {
  if (WIFSIGNALED(st)) {
    int sig = WTERMSIG(st);
    if (sig == SIGALRM) {
      st = run_child(s, e, sl, false, 90, nullptr);
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        scopy(sl->key, sizeof sl->key, "no-progress");
        scopy(sl->msg, sizeof sl->msg, "a thread runs for 90 s without reaching a scheduling point");
        return 2;
      }
      return classify(sl, st, s, e);
    }
    if (sig == SIGKILL) { scopy(sl->msg, sizeof sl->msg, "child killed"); return 3; }
    snprintf(sl->key, sizeof sl->key, "crash");
    snprintf(sl->msg, sizeof sl->msg, "the process dies with signal %d (%s) at %ld steps", sig, strsignal(sig), sl->steps);
    return 2;
  }
  if (sl->status == 1) return 0;
  if (sl->status == 2) return 2;
  if (sl->status == 3) return 3;
  // exited without telling
  scopy(sl->key, sizeof sl->key, "exit");
  snprintf(sl->msg, sizeof sl->msg, "the process exits with status %d in the middle of the execution", WEXITSTATUS(st));
  return 2;
}
uint64_t h64(const char* s, int n) { uint64_t h = 1469598103934665603ull; for (int i = 0; i < n; ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ull; return h ? h : 1; }

double nowf() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void worker(vs::Scenario* s, int id, int bound, double deadline) {
  cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(id % sysconf(_SC_NPROCESSORS_ONLN), &cs); sched_setaffinity(0, sizeof cs, &cs);
  Slot* sl = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Entry* e = new Entry;
  for (;;) {
    slock();
    if (sh->stop) { sunlock(); return; }
    int l = -1;
    for (int i = 0; i <= bound && i < MAXLVL; ++i) if (sh->head[i] > 0) { l = i; break; }
    if (l < 0) {
      bool done = sh->pending == 0;
      sunlock();
      if (done) return;
      struct timespec t = {0, 200000}; syscall(SYS_nanosleep, &t, 0);
      continue;
    }
    *e = stk[l][--sh->head[l]];
    sunlock();
    if (nowf() > deadline) { slock(); if (!sh->stop) sh->stop = 2; sunlock(); return; }
    int st = run_child(s, e, sl, false, 20, nullptr);
    int r = classify(sl, st, s, e);
    if (r == 3) { slock(); sh->stop = 3; scopy(sh->err, sizeof sh->err, sl->msg); sunlock(); return; }
    bool isknown = false;
    if (r == 2) {
      std::string k = std::string(s->name) + ":" + sl->key;
      isknown = known.count(k) > 0;
      if (!isknown) {
        // replay twice before reporting
        std::string key = sl->key, obs(sl->obs, sl->obs_len), msg = sl->msg;
        for (int i = 0; i < 2; ++i) {
          int st2 = run_child(s, e, sl, false, 90, nullptr);
          int r2 = classify(sl, st2, s, e);
          if (r2 != 2 || key != sl->key || obs != std::string(sl->obs, sl->obs_len)) {
            slock(); sh->stop = 3;
            snprintf(sh->err, sizeof sh->err, "violation %s (%s) did not reproduce identically on replay (%s)", key.c_str(), msg.c_str(), sl->key);
            sunlock(); return;
          }
        }
        slock();
        if (sh->nviol < MAXVIOL) {
          Viol& v = sh->viol[sh->nviol++];
          scopy(v.key, sizeof v.key, key.c_str()); scopy(v.msg, sizeof v.msg, msg.c_str());
          sl->obs[sl->obs_len < 8000 ? sl->obs_len : 7999] = 0; scopy(v.obs, sizeof v.obs, sl->obs);
          v.e = *e;
        }
        sh->stop = 1;
        sunlock();
        return;
      }
    }
    int from = e->ndev ? e->dev[e->ndev - 1].pos + 1 : 0;
    slock();
    sh->executions++; sh->lvl_exec[e->cost]++;
    sh->steps += sl->steps; sh->nodes += sl->n - from + 1;
    if (sl->n > sh->maxpts) sh->maxpts = sl->n;
    if (sl->threads > sh->maxthreads) sh->maxthreads = sl->threads;
    if (isknown) sh->known_hits++;
    uint64_t h = h64(sl->obs, sl->obs_len);
    bool seen = false;
    for (int i = 0; i < sh->nout; ++i) if (sh->out[i] == h) { seen = true; break; }
    if (!seen && sh->nout < NOUT) { sh->out[sh->nout++] = h; if (sh->nsamp < NSAMP) scopy(sh->samp[sh->nsamp++], 1200, sl->obs); }
    // children of this node
    for (int i = sl->n - 1; i >= from; --i)
      for (int a = sl->nalt[i] - 1; a >= 1; --a) {
        int c = e->cost + ((sl->costmask[i] >> a) & 1);
        if (c > bound || c >= MAXLVL) continue;
        if (e->ndev >= MAXDEV) { if (!sh->err[0]) { sh->stop = 3; scopy(sh->err, sizeof sh->err, "too many deviations in one schedule"); } continue; }
        if (sh->head[c] >= STACKCAP) { sh->stop = 3; scopy(sh->err, sizeof sh->err, "frontier overflow"); break; }
        Entry& n = stk[c][sh->head[c]++];
        n = *e;
        n.dev[n.ndev].pos = i; n.dev[n.ndev].alt = a; n.ndev++;
        n.cost = c; n.hash = sl->hash[i];
        sh->pending++;
      }
    sh->pending--;
    sunlock();
  }
}
std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
}  // namespace

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("VS_NOASLR")) {
    setenv("VS_NOASLR", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  resolve();
  std::string only, replay, out, tier = "quick", prefix;
  double budget = 600;
  int fbound = -1, jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--scenario") only = nx();
    else if (a == "--prefix") prefix = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--out") out = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--bound") fbound = atoi(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--known") { FILE* f = fopen(nx().c_str(), "r"); char b[1024]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (b[0]) known.insert(b); } if (f) fclose(f); }
  }
  cells = (Cell*)mmap(0, sizeof(Cell) * (size_t)NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hcell = (int32_t*)mmap(0, sizeof(int32_t) * (size_t)HCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  blks = (Blk*)mmap(0, sizeof(Blk) * (size_t)NBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)ARENA) { perror("arena"); return 2; }
  stacks = (uptr)mmap(0, (STK + 65536) * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  // touch libc/libstdc++ lazies before forking
  { time_t t = 1700000000; struct tm tm; localtime_r(&t, &tm); char b[64]; snprintf(b, sizeof b, "%f %d", 1.5, 3); }

  std::vector<vs::Scenario*> ss;
  for (vs::Scenario* s = scn_head; s; s = s->next) ss.insert(ss.begin(), s);
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) { perror(replay.c_str()); return 2; }
    char b[4096], name[256] = ""; Entry e; memset(&e, 0, sizeof e);
    while (fgets(b, sizeof b, f)) {
      int p, a;
      if (sscanf(b, "scenario %255s", name) == 1) continue;
      if (sscanf(b, "dev %d %d", &p, &a) == 2 && e.ndev < MAXDEV) { e.dev[e.ndev].pos = p; e.dev[e.ndev].alt = a; e.ndev++; }
    }
    fclose(f);
    for (auto s : ss) if (!strcmp(s->name, name)) {
      Slot* sl = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      int st = run_child(s, &e, sl, true, 90, nullptr);
      int r = classify(sl, st, s, &e);
      printf("scenario %s: %s %s %s\nobservations: %s\n", name, r == 0 ? "no violation" : r == 2 ? "VIOLATED" : "error", sl->key, sl->msg, sl->obs);
      return r == 0 ? 0 : 1;
    }
    fprintf(stderr, "no such scenario %s\n", name);
    return 2;
  }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXLVL; ++i) stk[i] = (Entry*)mmap(0, sizeof(Entry) * STACKCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::string json = "{\"scenarios\":[";
  bool first = true; int rc = 0; double t0 = nowf();
  for (auto s : ss) {
    if (!only.empty() && only != s->name) continue;
    if (strncmp(s->name, prefix.c_str(), prefix.size())) continue;
    int bound = fbound >= 0 ? fbound : tier == "thorough" ? s->opt.thorough_bound : s->opt.quick_bound;
    memset(sh, 0, sizeof *sh);
    Entry& e = stk[0][0]; memset(&e, 0, sizeof e);
    sh->head[0] = 1; sh->pending = 1;
    double t1 = nowf(), deadline = t0 + budget;
    std::vector<pid_t> w;
    fflush(stdout);
    for (int i = 0; i < jobs; ++i) { pid_t p = fork(); if (!p) { worker(s, i, bound, deadline); _exit(0); } w.push_back(p); }
    bool wdied = false;
    for (pid_t p : w) { int st; while (waitpid(p, &st, 0) < 0) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) wdied = true; }
    if (wdied && !sh->stop) { sh->stop = 3; scopy(sh->err, sizeof sh->err, "worker died"); }
    int completed = bound;
    if (sh->stop == 2 || sh->stop == 1) { completed = -1; for (int i = 0; i <= bound; ++i) { if (sh->head[i] > 0) break; completed = i; } if (completed == bound) completed = bound - 1; }
    char b[1024];
    snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"executions\":%ld,\"steps\":%ld,\"nodes\":%ld,\"bound\":%d,\"completed_bound\":%d,\"max_choice_points\":%ld,\"threads\":%d,\"distinct_outcomes\":%d,\"known_hits\":%ld,\"stop\":%d,\"wall_s\":%.2f,",
             first ? "" : ",", s->name, sh->executions, sh->steps, sh->nodes, bound, completed, sh->maxpts, sh->maxthreads, sh->nout, sh->known_hits, sh->stop, nowf() - t1);
    json += b; first = false;
    json += "\"err\":\"" + jesc(sh->err) + "\",\"samples\":[";
    for (int i = 0; i < sh->nsamp; ++i) json += std::string(i ? "," : "") + "\"" + jesc(sh->samp[i]) + "\"";
    json += "],\"violations\":[";
    for (int i = 0; i < sh->nviol; ++i) {
      Viol& v = sh->viol[i];
      json += std::string(i ? "," : "") + "{\"key\":\"" + jesc(std::string(s->name) + ":" + v.key) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"obs\":\"" + jesc(v.obs) + "\",\"devs\":[";
      for (int k = 0; k < v.e.ndev; ++k) { snprintf(b, sizeof b, "%s[%d,%d]", k ? "," : "", v.e.dev[k].pos, v.e.dev[k].alt); json += b; }
      json += "]}";
    }
    json += "]}";
    fprintf(stderr, "%s: %ld executions, %ld steps, bound %d (done %d), %d outcomes, %d violations, stop=%d %s, %.1fs\n", s->name, sh->executions, sh->steps, bound, completed, sh->nout, sh->nviol, sh->stop, sh->err, nowf() - t1);
    for (int i = 0; i < sh->nviol; ++i) fprintf(stderr, "   %s: %s\n", sh->viol[i].key, sh->viol[i].msg);
    if (sh->stop == 1) rc = rc ? rc : 1;
    if (sh->stop == 3) rc = 2;
    if (sh->stop == 2) fprintf(stderr, "   budget reached\n");
  }
  json += "]}\n";
  if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fputs(json.c_str(), f); fclose(f); }
  return rc;
}

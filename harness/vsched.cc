// Not instrumented: see vsched.h.
#include "vsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <new>

namespace {

enum St { kRun, kMutex, kCond, kJoin, kFlag, kSleep, kRw, kGuard, kDead };

constexpr int kMax = 256;
struct Th {
  volatile int go;
  St st;
  void* obj;            // mutex wanted / rwlock
  void* cond;
  bool notified;
  bool timed_out;
  long long deadline;   // ns, -1 none
  int join;
  volatile int* flag;
  bool rw_write;
  bool client;
  bool detached;
  bool started;
  int prio;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  uintptr_t hi;         // end of the stack
  uintptr_t sp;         // stack in use when switched out
};

Th g_t[kMax];
int g_n = 0;
int g_cur = 0;
bool g_on = false;
int g_quiet = 0;
sched::Opts g_o;
sched::Hooks g_h;
uint64_t g_rng = 1;
long long g_now = 0, g_fnow = 0;  // ns
long g_points = 0;
int g_spur_left = 0;
int g_low = 0;
long g_change[16];
const long long kBase = 1000000000000LL;

uint64_t Rnd() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return (g_rng * 0x2545F4914F6CDD1DULL) >> 16;
}
bool Chance(int p, int of) { return p > 0 && static_cast<int>(Rnd() % static_cast<unsigned>(of)) < p; }

void Fwait(volatile int* f) {
  while (!__atomic_load_n(f, __ATOMIC_ACQUIRE))
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
void Fwake(volatile int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

int& Owner(void* m) { return static_cast<pthread_mutex_t*>(m)->__data.__owner; }
unsigned& Count(void* m) { return static_cast<pthread_mutex_t*>(m)->__data.__count; }
int Kind(void* m) { return static_cast<pthread_mutex_t*>(m)->__data.__kind & 3; }

// rwlock: writer in __cur_writer, readers in __readers.
struct Rw { unsigned readers; int writer; };
Rw* AsRw(void* p) { return static_cast<Rw*>(p); }

bool Enabled(const Th& t) {
  switch (t.st) {
    case kRun: return true;
    case kMutex: return Owner(t.obj) == 0 || (t.deadline >= 0 && t.deadline <= g_now);
    case kCond: return t.notified ? true : (t.deadline >= 0 && t.deadline <= g_now);
    case kJoin: return g_t[t.join].st == kDead;
    case kFlag: return *t.flag != 0;
    case kSleep: return t.deadline <= g_now;
    case kRw: return t.rw_write ? (AsRw(t.obj)->readers == 0 && AsRw(t.obj)->writer == 0)
                                : AsRw(t.obj)->writer == 0;
    case kGuard: return *static_cast<volatile char*>(t.obj) != 2;
    case kDead: return false;
  }
  return false;
}

[[noreturn]] void Die() { abort(); }

// Deadlines further away than this are never reached.
constexpr long long kFarTicks = 1000000;

bool Advance(bool busy) {
  long long best = -1;
  for (int i = 0; i < g_n; i++) {
    Th& t = g_t[i];
    if (t.st == kDead || t.deadline < 0 || t.deadline <= g_now || t.notified)
      continue;
    if (t.st == kCond || t.st == kSleep || t.st == kMutex)
      if (best < 0 || t.deadline < best)
        best = t.deadline;
  }
  if (best < 0 || best > g_now + kFarTicks * sched::kTick)
    return false;
  const long long old = g_now;
  // Overshoot now and then; align to whole ticks.
  long long target = best;
  if (target % sched::kTick)
    target += sched::kTick - target % sched::kTick;
  if (Chance(15, 100))
    target += sched::kTick * static_cast<long long>(1 + Rnd() % 3);
  g_now = target;
  long long df = g_now - old;
  if (Chance(g_o.lag, 100)) {
    const long long ticks = df / sched::kTick;
    df = sched::kTick * static_cast<long long>(Rnd() % static_cast<uint64_t>(ticks + 1));
  }
  g_fnow += df;
  if (g_h.tick) {
    g_quiet++;
    g_h.tick(g_now / sched::kTick, g_fnow / sched::kTick, busy);
    g_quiet--;
  }
  return true;
}

bool Spurious() {
  int c[kMax], n = 0;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kCond && !g_t[i].notified)
      c[n++] = i;
  if (!n)
    return false;
  g_t[c[Rnd() % static_cast<unsigned>(n)]].notified = true;
  if (g_h.spurious) {
    g_quiet++;
    g_h.spurious();
    g_quiet--;
  }
  return true;
}

// Chooses the next thread; handles idleness. Returns its index.
int Choose(bool prefer_self) {
  while (true) {
    int c[kMax], n = 0;
    bool self = false;
    for (int i = 0; i < g_n; i++)
      if (g_t[i].started && Enabled(g_t[i])) {
        c[n++] = i;
        self |= i == g_cur;
      }
    if (n == 0) {
      bool has_deadline = false;
      for (int i = 0; i < g_n; i++)
        has_deadline |= (g_t[i].st == kCond || g_t[i].st == kSleep || g_t[i].st == kMutex) &&
                        g_t[i].deadline >= 0 && g_t[i].deadline <= g_now + kFarTicks * sched::kTick;
      g_quiet++;
      const bool more = g_h.idle ? g_h.idle(!has_deadline) : !has_deadline ? false : true;
      g_quiet--;
      if (++g_points > g_o.max_points)
        Die();
      if (!more)
        Die();
      bool any = false;
      for (int i = 0; i < g_n; i++)
        any |= Enabled(g_t[i]);
      if (!any)
        Advance(false);
      continue;
    }
    if (g_o.strategy == 1) {
      int b = c[0];
      for (int i = 1; i < n; i++)
        if (g_t[c[i]].prio > g_t[b].prio)
          b = c[i];
      return b;
    }
    if (prefer_self && self)
      return g_cur;
    return c[Rnd() % static_cast<unsigned>(n)];
  }
}

void SwitchTo(int k) {
  if (k == g_cur)
    return;
  const int me = g_cur;
  g_t[me].sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  g_cur = k;
  Fwake(&g_t[k].go);
  Fwait(&g_t[me].go);
}

// A scheduling point; the current thread may already have set a blocking state.
void Sched(bool access) {
  g_points++;
  if (g_points > g_o.max_points) {
    Die();
  }
  Th& me = g_t[g_cur];
  const bool blocked = me.st != kRun;
  if (!access) {
    if (Chance(g_o.p_leap, 1000))
      Advance(true);
    if (g_spur_left > 0 && Chance(g_o.p_spur, 1000) && Spurious())
      g_spur_left--;
  }
  bool prefer = !blocked;
  if (g_o.strategy == 0)
    prefer = access ? !Chance(g_o.p_acc, 10000) : !Chance(g_o.p_sync, 100);
  else if (g_o.strategy == 1) {
    for (int i = 0; i < g_o.depth && i < 16; i++)
      if (g_change[i] == g_points)
        me.prio = --g_low;
  }
  SwitchTo(Choose(prefer && !blocked));
}

bool On() { return g_on; }
bool Pre() { return g_on && g_quiet == 0; }

void* Tramp(void* p) {
  Th* t = static_cast<Th*>(p);
  t->hi = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  Fwait(&t->go);
  t->ret = t->fn(t->arg);
  // Thread exit.
  const int id = static_cast<int>(t - g_t);
  if (!t->client && g_h.thread_exit) {
    g_quiet++;
    g_h.thread_exit(id);
    g_quiet--;
  }
  t->st = kDead;
  const int k = Choose(false);
  g_cur = k;
  Fwake(&g_t[k].go);
  return nullptr;
}

template <class F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

int NewThread(bool client, void* (*fn)(void*), void* arg) {
  using CreateFn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static CreateFn create = Real<CreateFn>("pthread_create");
  if (g_n >= kMax)
    Die();
  const int id = g_n;
  Th& t = g_t[id];
  memset(static_cast<void*>(&t), 0, sizeof t);
  t.st = kRun;
  t.deadline = -1;
  t.client = client;
  t.fn = fn;
  t.arg = arg;
  t.prio = static_cast<int>(Rnd() % 1000000) + 1;
  static pthread_attr_t attr;
  static bool attr_init = false;
  if (!attr_init) {
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 256 * 1024);
    attr_init = true;
  }
  if (create(&t.real, &attr, Tramp, &t) != 0)
    raise(11);
  t.started = true;
  g_n++;
  return id;
}

// ------------------------------------------------------------------ arena
constexpr size_t kArena = 256u << 20;
constexpr size_t kGran = 16;
char* g_arena = nullptr;
unsigned char* g_shadow = nullptr;
size_t g_bump = 0, g_base = 0;
long g_live = 0;

void Bad(const char* what, const void* p) {
  static bool once = false;
  if (once)
    return;
  once = true;
  fprintf(stderr, "vf-sched: %s at %p\n", what, p);
  raise(11);
  _exit(94);
}
inline bool InArena(const void* p) {
  return g_arena && static_cast<const char*>(p) >= g_arena &&
         static_cast<const char*>(p) < g_arena + kArena;
}
// Whether |p| is in a stack, and in a part of it that no frame uses any more.
constexpr uintptr_t kStack = 256 * 1024;
bool DeadStack(const void* p) {
  const auto a = reinterpret_cast<uintptr_t>(p);
  bool dead = false;
  for (int i = 0; i < g_n; i++) {
    const Th& t = g_t[i];
    if (t.hi == 0 || a >= t.hi || t.hi - a > kStack - 16384)
      continue;
    if (i == g_cur || (t.st != kDead && a >= t.sp))
      return false;
    dead = true;
  }
  return dead;
}
inline void Check(const void* p, size_t n) {
  if (!InArena(p)) {
    if (g_on && DeadStack(p))
      Bad("access to a dead stack frame", p);
    return;
  }
  const size_t a = static_cast<size_t>(static_cast<const char*>(p) - g_arena);
  for (size_t i = a / kGran; i <= (a + n - 1) / kGran; i++)
    if (g_shadow[i] != 1) {
      Bad("access to dead memory", p);
      return;
    }
}
void* Alloc(size_t n, size_t align) {
  if (!On() || align > 16) {
    void* p = nullptr;
    if (align > 16) {
      if (posix_memalign(&p, align, n ? n : 1))
        p = nullptr;
    } else {
      p = malloc(n ? n : 1);
    }
    if (!p)
      abort();
    return p;
  }
  const size_t sz = (n + kGran - 1) / kGran * kGran + (n == 0 ? kGran : 0);
  if (g_bump + sz + 2 * kGran > kArena)
    raise(11);   // a run that needs this much has gone wrong
  char* h = g_arena + g_bump;
  *reinterpret_cast<size_t*>(h) = sz;
  char* p = h + kGran;
  memset(p, 0xbe, sz);
  g_shadow[g_bump / kGran] = 0;
  memset(g_shadow + g_bump / kGran + 1, 1, sz / kGran);
  g_bump += sz + kGran;
  g_shadow[g_bump / kGran] = 0;
  g_live++;
  return p;
}
void Free(void* p) {
  if (!p)
    return;
  if (!InArena(p)) {
    free(p);
    return;
  }
  const size_t a = static_cast<size_t>(static_cast<char*>(p) - g_arena);
  if (g_shadow[a / kGran] != 1 || g_shadow[a / kGran - 1] != 0) {
    Bad("bad free", p);
    return;
  }
  const size_t sz = *reinterpret_cast<size_t*>(static_cast<char*>(p) - kGran);
  memset(p, 0xdd, sz);
  memset(g_shadow + a / kGran, 2, sz / kGran);
  g_live--;
}

void LockLoop(void* m) {
  Th& t = g_t[g_cur];
  while (Owner(m) != 0) {
    t.st = kMutex;
    t.obj = m;
    t.deadline = -1;
    Sched(false);
    t.st = kRun;
  }
  Owner(m) = g_cur + 1;
}

}  // namespace

namespace sched {

long long kTick = 1000000;

void Begin(const Opts& o, const Hooks& h) {
  if (!g_arena) {
    g_arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_shadow = static_cast<unsigned char*>(
        mmap(nullptr, kArena / kGran + 4096, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  memset(g_shadow + g_base / kGran, 0, (g_bump - g_base) / kGran + 1);
  g_bump = g_base;
  g_o = o;
  kTick = o.tick;
  g_h = h;
  g_rng = o.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  if (!g_rng)
    g_rng = 1;
  for (int i = 0; i < 5; i++)
    Rnd();
  g_n = 1;
  g_cur = 0;
  memset(static_cast<void*>(&g_t[0]), 0, sizeof g_t[0]);
  g_t[0].st = kRun;
  g_t[0].deadline = -1;
  g_t[0].client = true;
  g_t[0].started = true;
  g_t[0].prio = static_cast<int>(Rnd() % 1000000) + 1;
  g_t[0].real = pthread_self();
  g_t[0].hi = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  g_now = g_fnow = 0;
  g_points = 0;
  g_low = 0;
  g_spur_left = 4;
  for (auto& c : g_change)
    c = 1 + static_cast<long>(Rnd() % static_cast<unsigned>(o.est > 0 ? o.est : 1));
  g_quiet = 0;
  g_on = true;
}

void End() {
  // Lets every remaining thread finish.
  Th& me = g_t[0];
  for (int i = 1; i < g_n; i++)
    while (g_t[i].st != kDead) {
      me.st = kJoin;
      me.join = i;
      Sched(false);
      me.st = kRun;
    }
  g_on = false;
  using JoinFn = int (*)(pthread_t, void**);
  static JoinFn join = Real<JoinFn>("pthread_join");
  for (int i = 1; i < g_n; i++)
    join(g_t[i].real, nullptr);
  if (g_live != 0) {
    g_base = g_bump;
  }
}

int Self() { return g_cur; }
namespace {
struct CArg { void (*fn)(void*); void* arg; };
void* CTramp(void* p) {
  CArg a = *static_cast<CArg*>(p);
  free(p);
  a.fn(a.arg);
  return nullptr;
}
}  // namespace
int Spawn(void (*fn)(void*), void* arg) {
  auto* a = static_cast<CArg*>(malloc(sizeof(CArg)));
  a->fn = fn;
  a->arg = arg;
  return NewThread(true, CTramp, a);
}
void Join(int tid) {
  Th& t = g_t[g_cur];
  while (g_t[tid].st != kDead) {
    t.st = kJoin;
    t.join = tid;
    Sched(false);
    t.st = kRun;
  }
}
void WaitFlag(volatile int* flag) {
  Th& t = g_t[g_cur];
  while (!*flag) {
    t.st = kFlag;
    t.flag = flag;
    Sched(false);
    t.st = kRun;
  }
}
void SleepTicks(long long n) {
  Th& t = g_t[g_cur];
  t.deadline = g_now + n * kTick;
  while (g_now < t.deadline) {
    t.st = kSleep;
    Sched(false);
    t.st = kRun;
  }
  t.deadline = -1;
}
void Point() {
  if (Pre())
    Sched(false);
}
long long Now() { return g_now / kTick; }
long long FNow() { return g_fnow / kTick; }
long long FNowNs() { return g_fnow; }
int LiveOthers() {
  int n = 0;
  for (int i = 1; i < g_n; i++)
    n += !g_t[i].client && g_t[i].st != kDead;
  return n;
}
long long Threads() { return g_n; }
Quiet::Quiet() { g_quiet++; }
Quiet::~Quiet() { g_quiet--; }
uint64_t Rand() { return Rnd(); }
bool Active() { return g_on; }
long LiveBlocks() { return g_live; }

}  // namespace sched

// ------------------------------------------------------------ interposition
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!On()) {
    if (Kind(m) == PTHREAD_MUTEX_RECURSIVE)
      Count(m)++;
    Owner(m) = 1;
    return 0;
  }
  Check(m, sizeof *m);
  if (Owner(m) == g_cur + 1) {
    if (Kind(m) == PTHREAD_MUTEX_RECURSIVE) {
      Count(m)++;
      return 0;
    }
    if (Kind(m) == PTHREAD_MUTEX_ERRORCHECK)
      return EDEADLK;
  }
  if (g_quiet == 0)
    Sched(false);
  Check(m, sizeof *m);
  LockLoop(m);
  Check(m, sizeof *m);
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!On()) {
    Owner(m) = 1;
    return 0;
  }
  Check(m, sizeof *m);
  if (g_quiet == 0)
    Sched(false);
  if (Owner(m) != 0) {
    if (Owner(m) == g_cur + 1 && Kind(m) == PTHREAD_MUTEX_RECURSIVE) {
      Count(m)++;
      return 0;
    }
    return EBUSY;
  }
  Owner(m) = g_cur + 1;
  return 0;
}

static int LockDeadline(pthread_mutex_t* m, const struct timespec* ts) {
  Check(m, sizeof *m);
  Sched(false);
  const long long d = ts->tv_sec * 1000000000LL + ts->tv_nsec - kBase;
  Th& t = g_t[g_cur];
  while (Owner(m) != 0) {
    t.st = kMutex;
    t.obj = m;
    t.deadline = d < 0 ? 0 : d;
    Sched(false);
    t.st = kRun;
    t.deadline = -1;
    if (Owner(m) != 0 && d <= g_now)
      return ETIMEDOUT;
  }
  Owner(m) = g_cur + 1;
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  return LockDeadline(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return LockDeadline(m, ts);
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!On()) {
    if (Kind(m) == PTHREAD_MUTEX_RECURSIVE && --Count(m) != 0)
      return 0;
    Owner(m) = 0;
    return 0;
  }
  Check(m, sizeof *m);
  if (Kind(m) == PTHREAD_MUTEX_RECURSIVE && Count(m) != 0) {
    Count(m)--;
    return 0;
  }
  if (Owner(m) != g_cur + 1)
    Bad("unlock by non-owner", m);
  Owner(m) = 0;
  if (g_quiet == 0)
    Sched(false);
  return 0;
}

static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, long long deadline) {
  Check(c, sizeof *c);
  if (g_quiet == 0)
    Sched(false);
  Check(m, sizeof *m);
  if (Owner(m) != g_cur + 1)
    Bad("wait without the lock", m);
  Th& t = g_t[g_cur];
  unsigned cnt = Count(m);
  Count(m) = 0;
  Owner(m) = 0;
  t.st = kCond;
  t.cond = c;
  t.notified = false;
  t.deadline = deadline;
  Sched(false);
  const bool timed_out = !t.notified;
  t.st = kRun;
  t.deadline = -1;
  t.notified = false;
  t.cond = nullptr;
  // Out of the wait set; the lock is still to be taken.
  Sched(false);
  Check(m, sizeof *m);
  LockLoop(m);
  Count(m) = cnt;
  return timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return CondWait(c, m, -1); }
static long long Deadline(const struct timespec* ts) {
  if (ts->tv_sec < 0)
    return 0;
  if (ts->tv_sec > 8000000000LL)
    return 8000000000000000000LL - kBase;
  const long long d = ts->tv_sec * 1000000000LL + ts->tv_nsec - kBase;
  return d < 0 ? 0 : d;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
    return EINVAL;
  return CondWait(c, m, Deadline(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                           const struct timespec* ts) {
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)
    return EINVAL;
  return CondWait(c, m, Deadline(ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!On())
    return 0;
  Check(c, sizeof *c);
  if (g_quiet == 0)
    Sched(false);
  Check(c, sizeof *c);
  int w[kMax], n = 0;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kCond && g_t[i].cond == c && !g_t[i].notified)
      w[n++] = i;
  if (n)
    g_t[w[Rnd() % static_cast<unsigned>(n)]].notified = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!On())
    return 0;
  Check(c, sizeof *c);
  if (g_quiet == 0)
    Sched(false);
  Check(c, sizeof *c);
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kCond && g_t[i].cond == c)
      g_t[i].notified = true;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!On())
    return 0;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kCond && g_t[i].cond == c && !g_t[i].notified)
      Bad("condition destroyed with waiters", c);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!On()) {
    using CreateFn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    return Real<CreateFn>("pthread_create")(out, a, fn, arg);
  }
  Check(out, sizeof *out);
  if (g_quiet == 0)
    Sched(false);
  const int id = NewThread(false, fn, arg);
  *out = g_t[id].real;
  if (g_quiet == 0)
    Sched(false);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!On()) {
    using JoinFn = int (*)(pthread_t, void**);
    return Real<JoinFn>("pthread_join")(th, ret);
  }
  for (int i = 0; i < g_n; i++)
    if (pthread_equal(g_t[i].real, th)) {
      Sched(false);
      sched::Join(i);
      if (ret)
        *ret = g_t[i].ret;
      return 0;
    }
  return ESRCH;
}
int pthread_detach(pthread_t th) {
  if (!On()) {
    using DetachFn = int (*)(pthread_t);
    return Real<DetachFn>("pthread_detach")(th);
  }
  for (int i = 0; i < g_n; i++)
    if (pthread_equal(g_t[i].real, th))
      g_t[i].detached = true;
  if (g_quiet == 0)
    Sched(false);
  return 0;
}
int sched_yield(void) {
  if (Pre()) {
    if (g_o.strategy == 1)
      g_t[g_cur].prio = --g_low;
    Sched(false);
  }
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!On())
    return 0;
  Check(l, sizeof *l);
  if (g_quiet == 0)
    Sched(false);
  Th& t = g_t[g_cur];
  while (AsRw(l)->writer) {
    t.st = kRw;
    t.obj = l;
    t.rw_write = false;
    Sched(false);
    t.st = kRun;
  }
  AsRw(l)->readers++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!On())
    return 0;
  Check(l, sizeof *l);
  if (g_quiet == 0)
    Sched(false);
  Th& t = g_t[g_cur];
  while (AsRw(l)->writer || AsRw(l)->readers) {
    t.st = kRw;
    t.obj = l;
    t.rw_write = true;
    Sched(false);
    t.st = kRun;
  }
  AsRw(l)->writer = g_cur + 1;
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!On())
    return 0;
  if (AsRw(l)->writer)
    return EBUSY;
  AsRw(l)->readers++;
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!On())
    return 0;
  if (AsRw(l)->writer || AsRw(l)->readers)
    return EBUSY;
  AsRw(l)->writer = g_cur + 1;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!On())
    return 0;
  Check(l, sizeof *l);
  if (AsRw(l)->writer)
    AsRw(l)->writer = 0;
  else
    AsRw(l)->readers--;
  if (g_quiet == 0)
    Sched(false);
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  // 0 not run, 1 running, 2 done
  if (*o == 2)
    return 0;
  if (!On()) {
    fn();
    *o = 2;
    return 0;
  }
  while (*o == 1)
    Sched(false);
  if (*o == 2)
    return 0;
  *o = 1;
  fn();
  *o = 2;
  return 0;
}

// Function-local statics. Byte 0: initialised, byte 1: 2 while in progress.
int __cxa_guard_acquire(long long* g) {
  char* b = reinterpret_cast<char*>(g);
  if (b[0])
    return 0;
  if (On()) {
    Th& t = g_t[g_cur];
    while (b[1] == 2) {
      t.st = kGuard;
      t.obj = b + 1;
      Sched(false);
      t.st = kRun;
      if (b[0])
        return 0;
    }
  }
  b[1] = 2;
  return 1;
}
void __cxa_guard_release(long long* g) {
  char* b = reinterpret_cast<char*>(g);
  b[0] = 1;
  b[1] = 0;
}
void __cxa_guard_abort(long long* g) { reinterpret_cast<char*>(g)[1] = 0; }

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!On())
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  const long long v = kBase + g_now;
  ts->tv_sec = v / 1000000000LL;
  ts->tv_nsec = v % 1000000000LL;
  return 0;
}
static void SleepNs(long long ns) {
  if (ns < 0)
    ns = 0;
  Th& t = g_t[g_cur];
  const long long d = g_now + ns;
  do {
    t.st = kSleep;
    t.deadline = d;
    Sched(false);
    t.st = kRun;
  } while (g_now < d);
  t.deadline = -1;
}
int nanosleep(const struct timespec* a, struct timespec*) {
  if (!On())
    return static_cast<int>(syscall(SYS_nanosleep, a, nullptr));
  SleepNs(a->tv_sec * 1000000000LL + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) {
  if (!On())
    return 0;
  long long v = a->tv_sec * 1000000000LL + a->tv_nsec;
  if (flags & TIMER_ABSTIME)
    v -= kBase + g_now;
  SleepNs(v);
  return 0;
}
int usleep(useconds_t us) {
  if (!On())
    return 0;
  SleepNs(us * 1000LL);
  return 0;
}

// --------------------------------------------------------------- __tsan_*
static inline void Acc(void* p, size_t n) {
  if (!On())
    return;
  Check(p, n);
  if (g_quiet == 0 && (g_o.p_acc > 0 || g_o.strategy == 1)) {
    Sched(true);
    Check(p, n);
  }
}
#define RW(n)                                                   \
  void __tsan_read##n(void* p) { Acc(p, n); }                   \
  void __tsan_write##n(void* p) { Acc(p, n); }                  \
  void __tsan_unaligned_read##n(void* p) { Acc(p, n); }         \
  void __tsan_unaligned_write##n(void* p) { Acc(p, n); }        \
  void __tsan_volatile_read##n(void* p) { Acc(p, n); }          \
  void __tsan_volatile_write##n(void* p) { Acc(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { Acc(p, 8); }
void __tsan_vptr_read(void** p) { Acc(p, 8); }
void __tsan_read_range(void* p, size_t n) { if (n) Acc(p, n); }
void __tsan_write_range(void* p, size_t n) { if (n) Acc(p, n); }

static inline void AccA(volatile void* p, size_t n) {
  if (!On())
    return;
  Check(const_cast<void*>(p), n);
  if (g_quiet == 0) {
    Sched(false);
    Check(const_cast<void*>(p), n);
  }
}
#define AT(bits, T)                                                                          \
  T __tsan_atomic##bits##_load(const volatile T* a, int) {                                   \
    AccA(const_cast<T*>(a), sizeof(T));                                                      \
    return *a;                                                                               \
  }                                                                                          \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) {                                \
    AccA(a, sizeof(T));                                                                      \
    *a = v;                                                                                  \
  }                                                                                          \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) {                                \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    *a = v;                                                                                  \
    return o;                                                                                \
  }                                                                                          \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) {                               \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    *a = static_cast<T>(o + v);                                                              \
    return o;                                                                                \
  }                                                                                          \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) {                               \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    *a = static_cast<T>(o - v);                                                              \
    return o;                                                                                \
  }                                                                                          \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) {                               \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    *a = static_cast<T>(o & v);                                                              \
    return o;                                                                                \
  }                                                                                          \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) {                                \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    *a = static_cast<T>(o | v);                                                              \
    return o;                                                                                \
  }                                                                                          \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) {                               \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    *a = static_cast<T>(o ^ v);                                                              \
    return o;                                                                                \
  }                                                                                          \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) {                              \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    *a = static_cast<T>(~(o & v));                                                           \
    return o;                                                                                \
  }                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {    \
    AccA(a, sizeof(T));                                                                      \
    if (*a == *c) {                                                                          \
      *a = v;                                                                                \
      return 1;                                                                              \
    }                                                                                        \
    *c = *a;                                                                                 \
    return 0;                                                                                \
  }                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) {  \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);                     \
  }                                                                                          \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {          \
    AccA(a, sizeof(T));                                                                      \
    T o = *a;                                                                                \
    if (o == c)                                                                              \
      *a = v;                                                                                \
    return o;                                                                                \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

void* operator new(size_t n) { return Alloc(n, 1); }
void* operator new[](size_t n) { return Alloc(n, 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return Alloc(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return Alloc(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }
void operator delete(void* p, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Free(p); }

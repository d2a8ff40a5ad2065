// Controlled scheduler: all threads of the process run one at a time under a
// seeded scheduler that owns mutexes, condition variables, thread creation and
// the clock. Compile the code under test with -fsanitize=thread (its memory
// accesses become preemption points through the __tsan_* stubs here) and link
// without the sanitizer.
#ifndef VF_SCHED_H_
#define VF_SCHED_H_
#include <stddef.h>
#include <stdint.h>

namespace sched {

// 1 tick of virtual time in nanoseconds (of the current run).
extern long long kTick;

struct Opts {
  uint64_t seed = 1;
  int strategy = 0;      // 0 random, 1 PCT, 2 run-to-block
  int p_sync = 50;       // percent: switch at a synchronisation point
  int p_acc = 0;         // per 10000: switch at a memory access
  int p_leap = 0;        // per 1000 sync points: time advances though threads can run
  int p_spur = 0;        // per 1000 sync points: spurious wake-up
  int depth = 3;         // PCT change points
  int est = 300;         // PCT: estimated number of points
  long long tick = 1000000;
  int lag = 0;           // percent: the function clock lags behind at an advance
  long max_points = 400000;
};

// Hooks of the driver.
struct Hooks {
  // Nothing can run. Returns whether to keep going (time advances if some
  // thread has a deadline); stuck: no deadline either.
  bool (*idle)(bool stuck) = nullptr;
  void (*tick)(long long now, long long fnow, bool busy) = nullptr;
  void (*spurious)() = nullptr;
  void (*thread_exit)(int tid) = nullptr;   // threads not made by Spawn
};

void Begin(const Opts& o, const Hooks& h);  // current thread becomes thread 0
void End();                                  // waits for nothing: every thread must have exited

int Self();
// A client thread, run under the scheduler.
int Spawn(void (*fn)(void*), void* arg);
void Join(int tid);
// Blocks until *flag is nonzero.
void WaitFlag(volatile int* flag);
void SleepTicks(long long n);
void Point();                 // a preemption point
long long Now();              // ticks
long long FNow();             // ticks of the function clock (<= Now)
long long FNowNs();
int LiveOthers();             // live threads not made by Spawn (excluding thread 0)
long long Threads();          // number of threads created so far

// No preemption while alive.
struct Quiet {
  Quiet();
  ~Quiet();
};
uint64_t Rand();
bool Active();
// Heap blocks still allocated in the run's arena.
long LiveBlocks();
}  // namespace sched
#endif

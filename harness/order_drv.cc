// Programs of threads and tasks that access plain variables without any
// synchronization of their own; built with the thread sanitizer.
#include "drv.h"

#include <sched.h>
#include <sys/stat.h>
#include <time.h>

#include <atomic>
#include <chrono>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "rst/files/file_utils.h"
#include "rst/guid/guid.h"
#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/logger.h"
#include "rst/strings/format.h"
#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "rst/threading/barrier.h"

using vf::Ev;
using vf::J;

extern "C" const char* __tsan_default_options() {
  return "exitcode=0:halt_on_error=0:suppress_equal_stacks=0:suppress_equal_addresses=0:history_size=4";
}
// Not instrumented: called while the sanitizer reports.
static int g_races = 0;
extern "C" void __tsan_on_report(void*) { __atomic_fetch_add(&g_races, 1, __ATOMIC_RELAXED); }

namespace {
constexpr int kMax = 40, kSlots = 8;
enum class K { kSpawn, kJoin, kPost, kLater, kPoll, kApply, kDown, kDownWait, kWait, kDestroy, kRead, kWrite, kAdd, kUse, kNone };
struct Op {
  K k;
  int index, x, y, n;
  std::vector<int> set;
};
// Each on its own line of the cache.
struct alignas(64) Cell {
  long v;
};
struct World {
  std::vector<Op> ops[kMax];
  std::vector<long> got;
  std::vector<char> ran;
  Cell vars[8] = {};
  std::thread threads[kMax];
  std::unique_ptr<rst::ThreadPoolTaskRunner> pools[6];
  std::unique_ptr<rst::PollingTaskRunner> poller;
  std::unique_ptr<rst::Barrier> bars[8];
  int counts[8] = {};
  Cell task_done[kMax] = {};  // of polled tasks
  Cell released[kMax] = {};
  Cell slots[kMax] = {};
  // An order comes from it only at the end.
  std::atomic<int> finished[6];
  int posted[6] = {};
  unsigned seed = 0;
  bool destroyed[6] = {};
};
World* w = nullptr;
rst::FilePtrSink* g_sink = nullptr;
std::string g_dir;

std::chrono::nanoseconds Now() { return std::chrono::steady_clock::now().time_since_epoch(); }

// What a task or a function has captured.
struct State {
  explicit State(int i) : id(i) {}
  ~State() {
    // Sees what has been done with it.
    long s = 0;
    for (int v : seen)
      s += v;
    w->released[id].v += 1000 + s;
  }
  const int id;
  int seen[kSlots] = {};
};

void Body(int a);

void Use(int how, int a) {
  switch (how) {
    case 1:
      g_sink->Log("a line");
      break;
    case 2:
      RST_LOG_INFO("a line");
      break;
    case 3: {
      rst::Guid g;
      if (g.AsString().size() != 36) abort();
      break;
    }
    case 4: {
      const std::string f = g_dir + "/shared";
      auto st = rst::WriteImportantFile(f, std::string(100, static_cast<char>('a' + a)));
      if (st.err()) abort();
      auto r = rst::ReadFile(f);
      if (r.err() || r->size() != 100) abort();
      break;
    }
    default:
      if (rst::Format("{} {}", {a, "x"}).size() < 3) abort();
  }
}

void Do(int a, const Op& op) {
  // Time passes differently each time.
  const unsigned r = (w->seed + static_cast<unsigned>(op.index)) * 2654435761u >> 20;
  if (r % 7 == 0) {
    timespec t = {0, static_cast<long>(r % 5) * 20000};
    nanosleep(&t, nullptr);
  } else if (r % 3 == 0) {
    sched_yield();
  }
  World& o = *w;
  switch (op.k) {
    case K::kSpawn:
      o.threads[op.x] = std::thread(Body, op.x);
      break;
    case K::kJoin:
      o.threads[op.x].join();
      break;
    case K::kPost:
    case K::kLater: {
      const int b = op.x, p = op.y;
      auto st = std::make_unique<State>(b);
      auto f = [b, p, st = std::shared_ptr<State>(std::move(st))]() {
        Body(b);
        st->seen[0] = 1;
        w->task_done[b].v = 1;
        w->finished[p].fetch_add(1, std::memory_order_release);
      };
      rst::TaskRunner& t = p == 5 ? static_cast<rst::TaskRunner&>(*o.poller) : *o.pools[p];
      if (op.k == K::kPost)
        t.PostTask(std::move(f));
      else
        t.PostDelayedTask(std::move(f), std::chrono::microseconds(100));
      break;
    }
    case K::kPoll:
      for (;;) {
        o.poller->RunPendingTasks();
        bool all = true;
        for (int b : op.set)
          all = all && o.task_done[b].v;
        if (all)
          break;
        sched_yield();
      }
      break;
    case K::kApply: {
      const int x = op.x;
      auto st = std::make_shared<State>(x);
      o.pools[op.y]->ApplyTaskSync(
          [x, st](size_t i) {
            const int b = x + static_cast<int>(i);
            Body(b);
            st->seen[i] = 1;
            w->slots[b].v = 7;
          },
          static_cast<size_t>(op.n));
      // All of it is seen here.
      long s = 0;
      for (int i = 0; i < op.n; i++)
        s += st->seen[i] * (o.slots[x + i].v == 7);
      o.got[static_cast<size_t>(op.index)] = s;
      break;
    }
    case K::kDown:
      o.bars[op.x]->CountDown();
      break;
    case K::kDownWait:
      o.bars[op.x]->CountDownAndWait();
      break;
    case K::kWait:
      o.bars[op.x]->Wait();
      break;
    case K::kDestroy:
      o.pools[op.x] = nullptr;
      o.destroyed[op.x] = true;
      break;
    case K::kRead:
      o.got[static_cast<size_t>(op.index)] = o.vars[op.x].v;
      break;
    case K::kWrite:
      o.vars[op.x].v = op.y;
      break;
    case K::kAdd:
      o.vars[op.x].v++;
      break;
    case K::kUse:
      Use(op.x, a);
      break;
    case K::kNone:
      break;
  }
  o.ran[static_cast<size_t>(op.index)] = 1;
}
void Body(int a) {
  // Others of the same call or runner get a chance to run meanwhile.
  const unsigned r = (w->seed + static_cast<unsigned>(a) * 31) * 2654435761u >> 20;
  if (a != 1 && r % 3) {
    timespec t = {0, static_cast<long>(r % 5) * 60000};
    nanosleep(&t, nullptr);
  }
  for (const Op& op : w->ops[a])
    Do(a, op);
}

void Run(const J& s) {
  const J& prog = s["prog"];
  auto world = std::make_unique<World>();
  w = world.get();
  g_races = 0;
  static const std::map<std::string, K> names = {
      {"spawn", K::kSpawn}, {"join", K::kJoin}, {"post", K::kPost}, {"later", K::kLater}, {"poll", K::kPoll},
      {"apply", K::kApply}, {"down", K::kDown}, {"downwait", K::kDownWait}, {"wait", K::kWait},
      {"destroy", K::kDestroy}, {"read", K::kRead}, {"write", K::kWrite}, {"add", K::kAdd}, {"use", K::kUse}};
  w->seed = static_cast<unsigned>(s["seed"].i());
  w->got.assign(prog.size(), 0);
  w->ran.assign(prog.size(), 0);
  std::vector<int> unpolled, states, threads;
  std::vector<int> joined;
  for (size_t j = 0; j < prog.size(); j++) {
    const J& e = prog[j];
    auto it = names.find(e["k"].str());
    Op op{it == names.end() ? K::kNone : it->second, static_cast<int>(j), e["x"].i(), e["y"].i(), e["n"].i(), {}};
    if (op.k == K::kPoll) op.set.swap(unpolled);
    if (op.k == K::kPost || op.k == K::kLater) {
      states.push_back(op.x);
      if (op.y == 5) unpolled.push_back(op.x); else w->posted[op.y]++;
    }
    if (op.k == K::kApply) states.push_back(op.x);
    if (op.k == K::kSpawn) threads.push_back(op.x);
    if (op.k == K::kJoin) joined.push_back(op.x);
    if (op.k == K::kDown || op.k == K::kDownWait) w->counts[op.x]++;
    if (op.k != K::kNone) w->ops[e["a"].i()].push_back(op);
    else w->ran[j] = 1;
  }
  for (int k = 1; k <= 3; k++)
    w->bars[k] = std::make_unique<rst::Barrier>(static_cast<size_t>(k + 1));
  for (int p = 1; p <= 4; p++)
    w->pools[p] = std::make_unique<rst::ThreadPoolTaskRunner>(
        p <= 2 ? 1 : 3, &Now, p % 2 ? std::chrono::nanoseconds(std::chrono::hours(1)) : std::chrono::microseconds(50));
  w->poller = std::make_unique<rst::PollingTaskRunner>(&Now);

  Body(1);
  // Nobody stays at a barrier.
  for (int k = 1; k <= 3; k++)
    for (int c = w->counts[k]; c < k + 1; c++)
      w->bars[k]->CountDown();
  for (int t : threads) {
    bool done = false;
    for (int x : joined) done = done || x == t;
    if (!done) w->threads[t].join();
  }
  for (int p = 1; p <= 4; p++) {
    if (w->destroyed[p]) continue;
    while (w->finished[p].load(std::memory_order_acquire) < w->posted[p])
      sched_yield();
  }
  for (int p = 1; p <= 4; p++)
    w->pools[p] = nullptr;
  w->poller = nullptr;
  for (int k = 1; k <= 3; k++)
    w->bars[k] = nullptr;

  std::string gone;
  for (int p = 1; p <= 4; p++)
    if (w->destroyed[p]) gone += (gone.empty() ? "" : ",") + std::to_string(p);
  for (size_t j = 0; j < prog.size(); j++)
    Ev("do").raw("e", vf::Dump(prog[j])).n("got", w->got[j]).b("ran", w->ran[j] != 0).raw("destroyed", "[" + gone + "]").end();
  bool released = true, slots = true;
  for (int x : states) released = released && w->released[x].v >= 1000 && w->released[x].v < 2000;
  for (size_t j = 0; j < prog.size(); j++)
    if (prog[j]["k"].is("apply")) slots = slots && w->got[j] == prog[j]["n"].num();
  std::string values;
  for (int v = 1; v <= 3; v++) values += (v > 1 ? "," : "") + std::to_string(w->vars[v].v);
  Ev("final").n("races", __atomic_load_n(&g_races, __ATOMIC_RELAXED) ? 1 : 0).b("released", released).b("slots", slots)
      .raw("values", "[" + values + "]").end();
}
}  // namespace

int main() {
  char dir[] = "/tmp/vf-order-XXXXXX";
  g_dir = mkdtemp(dir);
  int rc;
  {
    static rst::FilePtrSink sink(tmpfile(), rst::FilePtrSink::ShouldClose(true));
    g_sink = &sink;
    auto s = rst::FileNameSink::Create((g_dir + "/log").c_str());
    if (s.err()) return 95;
    static rst::Logger logger(std::move(*s));
    rst::Logger::SetGlobalLogger(&logger);
    rc = vf::Main(Run, 60);
  }
  for (const char* f : {"/log", "/shared"}) unlink((g_dir + f).c_str());
  rmdir(g_dir.c_str());
  return rc;
}

// A polling task runner under the controlled scheduler: one thread polls (its
// script continues inside the tasks it runs), others post.
#include "drv.h"
#include "vsched.h"

#include <memory>

#include "rst/task_runner/polling_task_runner.h"

using vf::Ev;
using vf::J;

namespace {

constexpr int kMaxT = 1000000000;
rst::PollingTaskRunner* g_runner = nullptr;
int g_next = 0;
long long g_clk = 0;
long long g_unit = 1, g_base = 0;
const J* g_seq = nullptr;
size_t g_pc = 0;
volatile int g_clients = 0;

// Values of the time function that the current call of a thread got.
long long g_fl[64], g_fh[64];

void Call() { g_fl[sched::Self()] = g_fh[sched::Self()] = -1; }

std::chrono::nanoseconds Time() {
  sched::Quiet q;
  const int t = sched::Self();
  if (g_fl[t] < 0)
    g_fl[t] = g_clk;
  g_fh[t] = g_clk;
  if (g_clk >= kMaxT)
    return std::chrono::nanoseconds::max();
  return std::chrono::nanoseconds(g_base + g_clk * g_unit);
}

// Iterations [2, g_cnt) of task g_id have run and have not been recorded.
int g_id = 0;
long long g_many = 0, g_cnt = 0;
bool g_skipped = false;
void Flush() {
  if (g_skipped)
    Ev("many").n("k", g_id).n("i", g_cnt).end();
  g_skipped = false;
}

void Interpret(int depth);

struct Fn {
  int k;
  long long pad[4] = {1, 2, 3, 4};
  explicit Fn(int id) : k(id) {}
  Fn(const Fn&) = default;
  Fn(Fn&& o) noexcept : k(o.k) { o.k = -1; }
  ~Fn() { k = -1; }
  void operator()() const { Invoke(0); }
  void operator()(size_t i) const { Invoke(static_cast<long long>(i)); }
  void Invoke(long long i) const {
    const int id = k;
    // Of many iterations in a row, those in the middle are recorded together.
    if (g_many && id == g_id && i == g_cnt && i >= 2 && i < g_many - 2) {
      g_cnt++;
      g_skipped = true;
      return;
    }
    {
      sched::Quiet q;
      Flush();
      g_id = id;
      g_cnt = i + 1;
      Ev("start").n("k", id).n("i", i > 900000 ? 900000 : i).n("w", sched::Self()).end();
    }
    if (sched::Self() == 0)
      Interpret(1);
    {
      sched::Quiet q;
      Ev("end").n("k", id).n("i", i > 900000 ? 900000 : i).n("w", sched::Self()).end();
    }
  }
};

void Adv(long long v) {
  sched::Quiet q;
  if (v > kMaxT)
    v = kMaxT;
  g_clk = v;
  Ev("adv").n("v", v).end();
}

void Post(long long d, bool none) {
  int k;
  const int self = sched::Self();
  const long long fl = g_fl[self], fh = g_fh[self];   // of the poll around
  const long long tok = d < 0 ? (d == -1 ? kMaxT : kMaxT / 2) : d;
  {
    sched::Quiet q;
    k = ++g_next;
    Call();
    Ev("post").n("k", k).n("d", tok).end();
  }
  sched::Point();
  if (none)
    g_runner->PostTask(Fn(k));
  else
    g_runner->PostDelayedTask(Fn(k), d == -1   ? std::chrono::nanoseconds::max()
                                     : d == -2 ? std::chrono::nanoseconds::max() / 2
                                               : std::chrono::nanoseconds(d * g_unit));
  sched::Quiet q;
  Ev("posted").n("k", k).n("fl", g_fl[sched::Self()]).n("fh", g_fh[sched::Self()]).end();
  g_fl[self] = fl;
  g_fh[self] = fh;
}

// n tasks with delays d, ..., d + spread - 1 and round again; those with the same
// delay are recorded as one with as many iterations.
void Burst(int n, long long d, int spread) {
  int first;
  {
    sched::Quiet q;
    first = g_next + 1;
    for (int s = 0; s < spread; s++) {
      const int k = ++g_next;
      Call();
      Ev("group").n("k", k).n("d", d + s).n("n", (n - s + spread - 1) / spread).end();
    }
  }
  for (int i = 0; i < n; i++) {
    const int k = first + i % spread, j = i / spread;
    g_runner->PostDelayedTask(
        [k, j]() {
          sched::Quiet q;
          if (k == g_id && j == g_cnt) {
            g_cnt++;
          } else {
            Flush();
            g_id = k;
            g_cnt = j + 1;
            if (j != 0) {
              Ev("start").n("k", k).n("i", j).n("w", sched::Self()).end();
              Ev("end").n("k", k).n("i", j).n("w", sched::Self()).end();
            }
          }
          g_skipped = true;
        },
        std::chrono::nanoseconds((d + i % spread) * g_unit));
  }
  sched::Quiet q;
  for (int s = 0; s < spread; s++)
    Ev("posted").n("k", first + s).n("fl", g_fl[sched::Self()]).n("fh", g_fh[sched::Self()]).end();
}

bool Common(const J& o) {
  const std::string& op = o["op"].str();
  if (op == "post") {
    const long long d = o["d"].num();
    Post(d, d == 0 && (g_next & 1));
  } else if (op == "adv") {
    const long long d = o["d"].num();
    Adv(d < 0 ? kMaxT : g_clk + d);
  } else if (op == "burst") {
    Burst(o["n"].i(), o["d"].num(), o["spread"].i());
  } else if (op == "yield") {
    sched::Point();
  } else {
    return false;
  }
  return true;
}

void Poll() {
  {
    sched::Quiet q;
    Call();
    Ev("poll").end();
  }
  sched::Point();
  g_runner->RunPendingTasks();
  {
    sched::Quiet q;
    Flush();
    Ev("polled").n("fl", g_fl[0]).n("fh", g_fh[0]).end();
  }
}

void Interpret(int depth) {
  while (g_pc < g_seq->size()) {
    const J& o = (*g_seq)[g_pc++];
    const std::string& op = o["op"].str();
    if (op == "end") {
      if (depth > 0)
        return;
    } else if (op == "poll") {
      if (depth == 0)
        Poll();
    } else {
      Common(o);
    }
    sched::Point();
  }
}

void ClientMain(void* p) {
  const J& ops = *static_cast<const J*>(p);
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    if (Common(o))
      continue;
    if (o["op"].str() == "apply") {
      int k;
      {
        sched::Quiet q;
        k = ++g_next;
        Call();
        Ev("apply").n("k", k).n("n", o["n"].num()).end();
      }
      sched::Point();
      g_runner->ApplyTaskSync(Fn(k), static_cast<size_t>(o["n"].num()));
      sched::Quiet q;
      Ev("posted").n("k", k).n("fl", g_fl[sched::Self()]).n("fh", g_fh[sched::Self()]).end();
    }
  }
  sched::Quiet q;
  g_clients = g_clients - 1;
}

bool Idle(bool stuck) {
  if (stuck) {
    Ev("stuck").end();
    _exit(80);
  }
  return true;
}

void Run(const J& s) {
  g_next = 0;
  g_clk = 0;
  g_pc = 0;
  g_unit = s["unit"].num();
  g_base = s["base"].num();
  g_seq = &s["seq"];
  g_many = s["many"].num();
  g_cnt = 0;
  g_skipped = false;
  const J& so = s["o"];
  sched::Opts o;
  o.seed = static_cast<uint64_t>(so[0].num());
  o.strategy = so[1].i();
  o.p_sync = so[2].i();
  o.p_acc = so[3].i();
  o.p_leap = 0;
  o.p_spur = so[5].i();
  o.depth = so[6].i();
  o.est = so[7].i();
  o.max_points = s["points"].num();
  sched::Hooks h;
  h.idle = Idle;
  sched::Begin(o, h);
  {
    const J& cl = s["cl"];
    const long long warm = s["warm"].num();
    g_clients = static_cast<int>(cl.size());
    g_runner = new rst::PollingTaskRunner(Time);
    {
      // Posts and polls before the recording, only to move counters.
      sched::Quiet q;
      for (long long n = warm; n > 0; n--) {
        g_runner->PostTask([]() {});
        if (n % 1000 == 1)
          g_runner->RunPendingTasks();
      }
    }
    int tid[16];
    for (size_t i = 0; i < cl.size(); i++)
      tid[i] = sched::Spawn(ClientMain, const_cast<J*>(&cl[i]));
    Interpret(0);
    int n = 0;
    while (g_clients > 0) {
      Poll();
      sched::SleepTicks(1);
      if (++n > 200) {
        Ev("stuck").end();
        _exit(80);
      }
    }
    for (size_t i = 0; i < cl.size(); i++)
      sched::Join(tid[i]);
    delete g_runner;
    sched::Point();
  }
  sched::End();
  Ev("fin").end();
}

}  // namespace

int main() { return vf::Main(Run, 20); }

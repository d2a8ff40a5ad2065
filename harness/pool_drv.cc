// Runs client programs on a ThreadPoolTaskRunner under the controlled scheduler
// and records posts, task runs, releases of captures, time and quiescence.
#include "drv.h"
#include "vsched.h"

#include <atomic>
#include <memory>

#include "rst/task_runner/thread_pool_task_runner.h"

using vf::Ev;
using vf::J;

namespace {

const J* g_s = nullptr;
rst::ThreadPoolTaskRunner* g_pool = nullptr;
constexpr int kIds = 512;
int g_next = 0;          // ids of posted tasks
int g_count[kIds];       // live copies of the captures of a task
volatile int g_gate[32];
int g_gates = 0;
long long g_horizon = 0;
bool g_opened = false;
int g_nidle = 0;
long long g_fbase = 0;   // ns
// A synchronous application with very many iterations, of which only the
// totals are recorded.
volatile int g_bulk_calls = 0;
std::vector<char> g_bulk_seen;
// Many tasks posted one after another, of which only how far each was ahead of its
// turn is recorded. rank: place in the order they have to be taken up in.
struct Burst {
  int n = 0, runs = 0, running = 0, worst = 0, low = 0;
  bool same = true;
  std::vector<int> rank;        // of each task
  std::vector<char> started;    // by rank
};
Burst g_burst;
volatile int g_burst_done = 0;

// Values of the time function read by a thread during its current post.
long long g_fl[300], g_fh[300];

long long ReadTime() {
  sched::Quiet q;
  const int t = sched::Self();
  const long long f = sched::FNow();
  if (g_fl[t] < 0)
    g_fl[t] = f;
  g_fh[t] = f;
  return sched::FNowNs() + g_fbase;
}

void OpenAll() {
  for (auto& g : g_gate)
    g = 1;
  g_opened = true;
}

struct Tok {
  int k;
  explicit Tok(int id) : k(id) { g_count[k]++; }
  Tok(const Tok& o) : k(o.k) {
    sched::Quiet q;
    if (k)
      g_count[k]++;
  }
  Tok(Tok&& o) noexcept : k(o.k) { o.k = 0; }
  Tok& operator=(const Tok&) = delete;
  ~Tok() {
    sched::Quiet q;
    if (k && --g_count[k] == 0)
      Ev("rel").n("k", k).end();
    if (k && g_count[k] < 0)
      Ev("dead").n("k", k).end();
    k = -1;
  }
};

void Exec(const J& ops);

struct Fn {
  Tok tok;
  int body;
  // Enough state not to fit the small buffer of std::function.
  long long pad[4] = {1, 2, 3, 4};
  Fn(int k, int b) : tok(k), body(b) {}
  void operator()() const { Invoke(0); }
  void operator()(size_t i) const { Invoke(static_cast<long long>(i)); }
  void Invoke(long long i) const {
    const int k = tok.k;
    {
      sched::Quiet q;
      Ev("start").n("k", k).n("i", i > 1000 ? 1000 : i).n("w", sched::Self()).end();
    }
    sched::Point();
    Exec((*g_s)["bodies"][body]);
    {
      sched::Quiet q;
      Ev("end").n("k", k).n("i", i > 1000 ? 1000 : i).n("w", sched::Self()).end();
    }
    sched::Point();
  }
};

void Exec(const J& ops) {
  for (size_t pc = 0; pc < ops.size(); pc++) {
    const J& o = ops[pc];
    const std::string& op = o[0].str();
    if (op == "post") {
      if (g_next > kIds - 8)
        continue;
      const long long d = o[2].num();
      int k;
      {
        sched::Quiet q;
        k = ++g_next;
        g_fl[sched::Self()] = -1;
        Ev("post").n("k", k).n("d", d < 0 ? 1000000000 : d).end();
      }
      sched::Point();
      if (d == 0) {
        g_pool->PostTask(Fn(k, o[1].i()));
      } else {
        const auto delay = d == -1 ? std::chrono::nanoseconds::max()
                           : d == -2 ? std::chrono::nanoseconds::max() / 2
                                     : std::chrono::nanoseconds(d * sched::kTick);
        g_pool->PostDelayedTask(Fn(k, o[1].i()), delay);
      }
      sched::Quiet q;
      Ev("posted").n("k", k).n("fl", g_fl[sched::Self()]).n("fh", g_fh[sched::Self()]).end();
    } else if (op == "apply") {
      if (g_next > kIds - 8)
        continue;
      int k;
      {
        sched::Quiet q;
        k = ++g_next;
        Ev("apply").n("k", k).n("n", o[2].num()).end();
      }
      sched::Point();
      g_pool->ApplyTaskSync(Fn(k, o[1].i()), static_cast<size_t>(o[2].num()));
      sched::Quiet q;
      Ev("applied").n("k", k).end();
    } else if (op == "bulk") {
      const int n = o[2].i();
      int k;
      {
        sched::Quiet q;
        k = ++g_next;
        g_bulk_calls = 0;
        g_bulk_seen.assign(static_cast<size_t>(n), 0);
        Ev("apply").n("k", k).n("n", n).end();
      }
      g_pool->ApplyTaskSync(
          [n](size_t i) {
            sched::Quiet q;
            g_bulk_calls = g_bulk_calls + 1;
            if (i < static_cast<size_t>(n))
              g_bulk_seen[i] = 1;
          },
          static_cast<size_t>(n));
      sched::Quiet q;
      long long d = 0;
      for (const char c : g_bulk_seen)
        d += c;
      Ev("bulk").n("k", k).n("calls", g_bulk_calls).n("distinct", d).end();
    } else if (op == "burst") {
      // Delays go d, d + 1, ..., d + spread - 1 and round again.
      const int n = o[1].i(), d = o[2].i(), spread = o[3].i();
      int k;
      long long f;
      {
        sched::Quiet q;
        k = ++g_next;
        g_burst = Burst();
        g_burst.n = n;
        g_burst.started.assign(static_cast<size_t>(n), 0);
        g_burst.rank.assign(static_cast<size_t>(n), 0);
        int next = 0;
        for (int s = 0; s < spread; s++)
          for (int i = s; i < n; i += spread)
            g_burst.rank[static_cast<size_t>(i)] = next++;
        g_burst_done = 0;
        f = sched::FNow();
        // Not all are due before the last one is.
        Ev("burst").n("k", k).n("n", n).n("d", d == 0 ? 0 : d + spread - 1).end();
      }
      for (int i = 0; i < n; i++) {
        auto task = [i]() {
          {
            sched::Quiet q;
            Burst& b = g_burst;
            const int r = b.rank[static_cast<size_t>(i)];
            b.runs++;
            b.running++;
            b.started[static_cast<size_t>(r)] = 1;
            int ahead = 0;
            for (int j = b.low; j < r; j++)
              ahead += !b.started[static_cast<size_t>(j)];
            while (b.low < b.n && b.started[static_cast<size_t>(b.low)])
              b.low++;
            b.worst = std::max(b.worst, ahead + b.running);
          }
          if (i % 8 == 0)
            sched::Point();
          sched::Quiet q;
          if (g_burst.low >= g_burst.n && g_burst.running == 1)
            g_burst_done = 1;
          g_burst.running--;
        };
        if (d == 0)
          g_pool->PostTask(std::move(task));
        else
          g_pool->PostDelayedTask(std::move(task), std::chrono::nanoseconds((d + i % spread) * sched::kTick));
      }
      {
        sched::Quiet q;
        if (sched::FNow() != f)
          g_burst.same = false;
        Ev("posted").n("k", k).n("fl", -1).n("fh", f).end();
      }
      g_gate[31] = 1;
      sched::Point();
      sched::WaitFlag(&g_burst_done);
      sched::Quiet q;
      Burst& b = g_burst;
      long long distinct = 0;
      for (const char c : b.started)
        distinct += c;
      Ev("burstran").n("k", k).n("runs", b.runs).n("distinct", distinct).n("worst", b.worst).b("same", b.same).end();
    } else if (op == "gate") {
      sched::WaitFlag(&g_gate[o[1].num()]);
    } else if (op == "open") {
      g_gate[o[1].num()] = 1;
      sched::Point();
    } else if (op == "sleep") {
      sched::SleepTicks(o[1].num());
    } else if (op == "yield") {
      sched::Point();
    } else if (op == "idle") {
      // Waits until everything else has come to rest.
      volatile int f = 0;
      (void)f;
      sched::SleepTicks(1);
    }
  }
}

bool Idle(bool stuck) {
  Ev("idle").n("live", sched::LiveOthers()).b("stuck", stuck).end();
  if (++g_nidle > 400) {
    Ev("stuck").end();
    _exit(80);
  }
  if ((stuck || sched::Now() > g_horizon) && !g_opened) {
    OpenAll();
    return true;
  }
  if (stuck) {
    Ev("stuck").end();
    _exit(80);
  }
  return true;
}
void Tick(long long now, long long fnow, bool busy) {
  Ev("tick").n("now", now < 1000000000 ? now : 999999999).n("f", fnow < 1000000000 ? fnow : 999999999)
      .b("busy", busy).end();
}
void Spur() { Ev("spur").end(); }
void Exit(int t) { Ev("exit").n("w", t).end(); }

void ClientMain(void* p) { Exec(*static_cast<const J*>(p)); }

void Run(const J& s) {
  g_s = &s;
  g_next = 0;
  memset(g_count, 0, sizeof g_count);
  for (auto& g : g_gate)
    g = 0;
  g_opened = false;
  g_nidle = 0;
  g_horizon = s["horizon"].num();
  const J& so = s["o"];
  sched::Opts o;
  o.seed = static_cast<uint64_t>(so[0].num());
  o.strategy = so[1].i();
  o.p_sync = so[2].i();
  o.p_acc = so[3].i();
  o.p_leap = so[4].i();
  o.p_spur = so[5].i();
  o.depth = so[6].i();
  o.est = so[7].i();
  o.lag = so[8].i();
  o.tick = s["tick"].num();
  o.max_points = s["points"].num();
  g_fbase = s["fbase"].num() > 1000000 ? s["fbase"].num() : s["fbase"].num() * o.tick;
  sched::Hooks h;
  h.idle = Idle;
  h.tick = Tick;
  h.spurious = Spur;
  h.thread_exit = Exit;
  sched::Begin(o, h);
  {
    {
      sched::Quiet q;
      Ev("conf").n("max", s["max"].num()).n("keep", s["keep"].num()).end();
    }
    const long long keep = s["keep"].num();
    g_pool = new rst::ThreadPoolTaskRunner(
        static_cast<size_t>(s["max"].num()),
        []() { return std::chrono::nanoseconds(ReadTime()); },
        keep >= 1000000000 ? std::chrono::nanoseconds::max()
                           : std::chrono::nanoseconds(keep * sched::kTick));
    {
      // Posts that never come due, only to move the counters of the pool.
      sched::Quiet q;
      for (long long n = s["warm"].num(); n > 0; n--)
        g_pool->PostDelayedTask([]() {}, std::chrono::nanoseconds::max());
    }
    const J& cl = s["clients"];
    int tid[16];
    for (size_t i = 1; i < cl.size(); i++)
      tid[i] = sched::Spawn(ClientMain, const_cast<J*>(&cl[i]));
    Exec(cl[0]);
    for (size_t i = 1; i < cl.size(); i++)
      sched::Join(tid[i]);
    {
      sched::Quiet q;
      Ev("destroy").end();
    }
    sched::Point();
    delete g_pool;
    {
      sched::Quiet q;
      Ev("destroyed").end();
    }
    sched::Point();
  }
  sched::End();
  Ev("fin").end();
}

}  // namespace

int main() { return vf::Main(Run, 20); }

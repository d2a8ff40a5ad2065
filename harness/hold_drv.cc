// What callables posted to a polling runner or started on a timer hold on to.
#include "drv.h"

#include <functional>
#include <memory>
#include <vector>

#include "rst/task_runner/polling_task_runner.h"
#include "rst/timer/one_shot_timer.h"

using vf::Ev;
using vf::J;

namespace {

constexpr int kT = 3;
int g_nt = 2;
long long g_now = 0;
const J* g_script = nullptr;
size_t g_pc = 0;
int g_k = 0, g_depth = 0;
bool g_poll = false;
std::unique_ptr<rst::PollingTaskRunner> g_runner, g_dying;
std::unique_ptr<rst::OneShotTimer> g_t[kT + 1];
std::vector<int> g_copies;

void Post(int n, long long d, bool hook);
void Interpret();

// Held by a callable; the last copy that goes is its release.
class Token {
 public:
  Token(int k, bool hook) : k_(k), hook_(hook) {
    if (g_copies.size() <= static_cast<size_t>(k))
      g_copies.resize(static_cast<size_t>(k) + 1);
    g_copies[k]++;
  }
  Token(const Token& o) : k_(o.k_), hook_(o.hook_) { g_copies[k_]++; }
  Token& operator=(const Token&) = delete;
  ~Token() {
    if (--g_copies[k_] != 0)
      return;
    Ev("free").n("k", k_).end();
    // What is released may use the runner.
    if (hook_ && g_runner)
      Post(1, 0, false);
  }
  void operator()() const {
    Ev("run").n("k", k_).end();
    g_depth++;
    Interpret();
    g_depth--;
    if (own_[1] != 'x')
      _exit(96);
    Ev("ret").n("k", k_).end();
  }

 private:
  const int k_;
  const bool hook_;
  std::string own_ = "[x" + std::string(40, 'y');
};

void Post(int n, long long d, bool hook) {
  for (; n > 0; n--) {
    const int k = ++g_k;
    std::function<void()> f{Token(k, hook)};
    Ev("post").n("k", k).n("n", 1).end();
    if (d == 0 && k % 2)
      g_runner->PostTask(std::move(f));
    else
      g_runner->PostDelayedTask(std::move(f), std::chrono::nanoseconds(d));
  }
}

std::unique_ptr<rst::OneShotTimer> Make() {
  return std::make_unique<rst::OneShotTimer>([]() -> rst::TaskRunner& { return *g_runner; });
}

void Kill() {
  g_dying = std::move(g_runner);
  Ev("kill").end();
  g_dying = nullptr;
  Ev("killed").end();
}
void NewRunner() {
  g_runner = std::make_unique<rst::PollingTaskRunner>([]() { return std::chrono::nanoseconds(g_now); });
}
void Destroy(int t) {
  Ev("destroy").n("t", t).end();
  g_t[t] = nullptr;
  Ev("done").end();
}

void Interpret() {
  while (g_pc < g_script->size()) {
    const J& o = (*g_script)[g_pc++];
    const std::string op = o["op"].str();
    const int t = o["t"].i();
    if (op == "ret") {
      if (g_depth > 0)
        return;
    } else if (op == "post") {
      if (g_runner)
        Post(o["n"].i(), o["d"].num(), o["h"].i() != 0);
    } else if (op == "adv") {
      g_now += o["d"].num() + 1;
    } else if (op == "poll") {
      if (g_depth > 0 || !g_runner)
        continue;
      Ev("poll").end();
      g_runner->RunPendingTasks();
      Ev("polled").end();
    } else if (op == "start") {
      if (!g_t[t] || !g_runner)
        continue;
      const int k = ++g_k;
      {
        std::function<void()> f{Token(k, o["h"].i() != 0)};
        Ev("start").n("t", t).n("k", k).end();
        g_t[t]->Start(std::move(f), std::chrono::nanoseconds(o["d"].num()));
      }
      Ev("done").end();
    } else if (op == "fire") {
      if (!g_t[t] || !g_t[t]->IsRunning() || g_depth > 20)
        continue;
      Ev("fire").n("t", t).end();
      g_t[t]->FireNow();
      Ev("fired").n("t", t).end();
    } else if (op == "destroy") {
      if (g_t[t])
        Destroy(t);
    } else if (op == "create") {
      if (!g_t[t]) {
        g_t[t] = Make();
        Ev("create").n("t", t).end();
      }
    } else if (op == "kill") {
      // The first one ends it, the next starts another.
      if (g_depth > 0)
        continue;
      if (g_runner) {
        Kill();
      } else {
        NewRunner();
        Ev("new").end();
      }
    }
  }
}

void Run(const J& s) {
  g_script = &s;
  g_pc = 0;
  g_now = 0;
  g_k = 0;
  g_depth = 0;
  g_copies.clear();
  NewRunner();
  for (int t = 1; t <= g_nt; t++)
    g_t[t] = Make();
  Interpret();
  for (int t = 1; t <= g_nt; t++) {
    if (g_t[t])
      Destroy(t);
  }
  if (g_runner)
    Kill();
  Ev("end").end();
}

}  // namespace

int main(int argc, char** argv) {
  if (argc > 1)
    g_nt = atoi(argv[1]);
  return vf::Main(Run);
}

// Replays timer behaviours: client calls come from the script, task runs are
// reported by the library calling back; inside a task the script continues.
#include "drv.h"
#include "rst/task_runner/polling_task_runner.h"
#include "rst/timer/one_shot_timer.h"

#include <memory>

using vf::Ev;
using vf::J;

namespace {

constexpr int kTimers = 4;
long long g_now = 0, g_unit = 1;
const J* g_script = nullptr;
size_t g_pc = 0;
int g_n = 2;
rst::PollingTaskRunner* g_runner = nullptr;
std::unique_ptr<rst::OneShotTimer> g_t[kTimers];

std::string Flags() {
  std::string r = "[";
  for (int i = 0; i < g_n; i++) {
    if (i)
      r += ",";
    r += !g_t[i] ? "2" : g_t[i]->IsRunning() ? "1" : "0";
  }
  return r + "]";
}

std::unique_ptr<rst::OneShotTimer> Make() {
  return std::make_unique<rst::OneShotTimer>(
      []() -> rst::TaskRunner& { return *g_runner; });
}

void Interpret(int depth);

void Task(int k) {
  Ev("run").n("k", k).raw("r", Flags()).end();
  Interpret(1);
  Ev("ret").n("k", k).raw("r", Flags()).end();
}

void Interpret(int depth) {
  while (g_pc < g_script->size()) {
    const J& o = (*g_script)[g_pc++];
    const std::string& op = o["op"].str();
    if (op == "ret") {
      if (depth > 0)
        return;
      continue;
    }
    if (op == "run" || op == "fireret" || op == "pollret")
      continue;
    if (op == "start") {
      const int t = o["t"].i(), k = o["k"].i();
      if (!g_t[t - 1])
        continue;
      // Restarts in quick succession: only the last one counts.
      for (long long n = o["rep"].num(); n > 1; n--)
        g_t[t - 1]->Start([]() { Task(0); }, std::chrono::nanoseconds(o["d"].num() * g_unit));
      // A capture larger than the small-object buffer of std::function.
      std::string pad(40, 'x');
      g_t[t - 1]->Start([k, pad]() { Task(k); },
                        std::chrono::nanoseconds(o["d"].num() * g_unit));
      Ev("start").n("t", t).n("k", k).n("d", o["d"].num()).raw("r", Flags()).end();
    } else if (op == "fire") {
      const int t = o["t"].i();
      if (!g_t[t - 1] || !g_t[t - 1]->IsRunning())
        continue;
      Ev("fire").n("t", t).raw("r", Flags()).end();
      g_t[t - 1]->FireNow();
      Ev("fireret").n("t", t).raw("r", Flags()).end();
    } else if (op == "destroy") {
      const int t = o["t"].i();
      if (!g_t[t - 1])
        continue;
      g_t[t - 1].reset();
      Ev("destroy").n("t", t).raw("r", Flags()).end();
    } else if (op == "create") {
      const int t = o["t"].i();
      if (g_t[t - 1])
        continue;
      g_t[t - 1] = Make();
      Ev("create").n("t", t).raw("r", Flags()).end();
    } else if (op == "adv") {
      g_now += o["d"].num() * g_unit;
      Ev("adv").n("d", o["d"].num()).raw("r", Flags()).end();
    } else if (op == "poll") {
      if (depth > 0)
        continue;
      Ev("poll").raw("r", Flags()).end();
      g_runner->RunPendingTasks();
      Ev("pollret").raw("r", Flags()).end();
    }
  }
}

void Run(const J& s) {
  g_script = &s["seq"];
  g_pc = 0;
  g_now = s["base"].num();
  g_unit = s["unit"].num();
  rst::PollingTaskRunner runner([]() { return std::chrono::nanoseconds(g_now); });
  g_runner = &runner;
  for (int i = 0; i < g_n; i++)
    g_t[i] = Make();
  Interpret(0);
  for (auto& t : g_t)
    t.reset();
}

}  // namespace

int main(int argc, char** argv) {
  if (argc > 1)
    g_n = atoi(argv[1]);
  return vf::Main(Run);
}

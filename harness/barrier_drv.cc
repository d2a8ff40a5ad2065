// Threads using barriers under the controlled scheduler.
#include "drv.h"
#include "vsched.h"

#include "rst/threading/barrier.h"

using vf::Ev;
using vf::J;

namespace {

rst::Barrier* g_b[8];
int g_nb = 0;
int g_left[8];

void Exec(const J& ops) {
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    std::string k = o[0].str();
    if (k == "yield") {
      sched::Point();
      continue;
    }
    const int b = o[1].i();
    {
      sched::Quiet q;
      // Count-downs beyond the count are not allowed.
      if (g_left[b] == 0)
        k = "wait";
      if (k != "wait")
        g_left[b]--;
      Ev("call").n("t", sched::Self() + 1).n("b", b).s("k", k).end();
    }
    sched::Point();
    if (k == "down")
      g_b[b]->CountDown();
    else if (k == "downwait")
      g_b[b]->CountDownAndWait();
    else
      g_b[b]->Wait();
    {
      sched::Quiet q;
      Ev("ret").n("t", sched::Self() + 1).n("b", b).s("k", k).end();
    }
    sched::Point();
  }
}

void ClientMain(void* p) { Exec(*static_cast<const J*>(p)); }

volatile int g_drain = 0;
bool Idle(bool stuck) {
  Ev("idle").end();
  if (stuck && !g_drain) {
    g_drain = 1;
    return true;
  }
  if (stuck) {
    Ev("stuck").end();
    _exit(80);
  }
  return true;
}

void Run(const J& s) {
  g_drain = 0;
  const J& so = s["o"];
  sched::Opts o;
  o.seed = static_cast<uint64_t>(so[0].num());
  o.strategy = so[1].i();
  o.p_sync = so[2].i();
  o.p_acc = so[3].i();
  o.p_spur = so[5].i();
  o.depth = so[6].i();
  o.est = so[7].i();
  sched::Hooks h;
  h.idle = Idle;
  sched::Begin(o, h);
  {
    const J& bs = s["b"];
    g_nb = static_cast<int>(bs.size());
    for (int b = 1; b <= g_nb; b++) {
      g_left[b] = bs[b - 1].i();
      sched::Quiet q;
      Ev("new").n("b", b).n("n", g_left[b]).end();
    }
    // A barrier counted down before the start is like one with a smaller count.
    const long long pre = s["pre"].num();
    for (int b = 1; b <= g_nb; b++) {
      sched::Quiet q;
      g_b[b] = new rst::Barrier(static_cast<size_t>(g_left[b] + pre));
      for (long long i = 0; i < pre; i++)
        g_b[b]->CountDown();
    }
    const J& cl = s["cl"];
    int tid[32];
    for (size_t i = 0; i < cl.size(); i++)
      tid[i] = sched::Spawn(ClientMain, const_cast<J*>(&cl[i]));
    // When everyone is blocked, the missing count-downs happen here.
    sched::WaitFlag(&g_drain);
    for (int b = 1; b <= g_nb; b++) {
      while (true) {
        {
          sched::Quiet q;
          if (g_left[b] == 0)
            break;
          g_left[b]--;
          Ev("call").n("t", 1).n("b", b).s("k", "down").end();
        }
        sched::Point();
        g_b[b]->CountDown();
        sched::Quiet q;
        Ev("ret").n("t", 1).n("b", b).s("k", "down").end();
      }
    }
    for (size_t i = 0; i < cl.size(); i++)
      sched::Join(tid[i]);
    for (int b = 1; b <= g_nb; b++)
      delete g_b[b];
    sched::Point();
  }
  sched::End();
  Ev("fin").end();
}

}  // namespace

int main() { return vf::Main(Run, 20); }

// Threads that ask for their random devices.
#include "drv.h"

#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "rst/random/random_device.h"

using vf::Ev;
using vf::J;

namespace {
// A thread that asks when it is told to.
struct Worker {
  std::mutex m;
  std::condition_variable cv;
  int asks = 0, answers = 0;
  bool exit = false, together = false;
  std::random_device* got = nullptr;
  bool random = true;
  std::thread t;
};
std::atomic<int> g_waiting{0};
std::atomic<bool> g_go{false};

// The device gives numbers that vary.
bool Draws(std::random_device& d) {
  std::set<unsigned> s;
  for (int k = 0; k < 8; k++)
    s.insert(d());
  return s.size() > 6;
}

void Loop(Worker* w) {
  std::unique_lock<std::mutex> l(w->m);
  for (;;) {
    w->cv.wait(l, [w] { return w->exit || w->asks > w->answers; });
    if (w->asks > w->answers) {
      if (w->together) {
        g_waiting++;
        while (!g_go) {}
      }
      std::random_device& d = rst::GetRandomDevice();
      w->got = &d;
      w->random = Draws(d) && &rst::GetRandomDevice() == &d;
      w->answers++;
      w->cv.notify_all();
    } else {
      return;
    }
  }
}

void Run(const J& s) {
  std::map<int, std::unique_ptr<Worker>> ws;
  std::map<std::random_device*, int> names;
  auto name = [&names](std::random_device* d) {
    auto it = names.find(d);
    if (it == names.end())
      it = names.emplace(d, static_cast<int>(names.size()) + 1).first;
    return it->second;
  };
  auto order = [&ws](int t, bool together) {
    Worker& w = *ws[t];
    std::lock_guard<std::mutex> l(w.m);
    w.together = together;
    w.asks++;
    w.cv.notify_all();
  };
  auto wait = [&ws](int t) -> Worker& {
    Worker& w = *ws[t];
    std::unique_lock<std::mutex> l(w.m);
    w.cv.wait(l, [&w] { return w.answers == w.asks; });
    return w;
  };
  for (const J& op : s.a) {
    const J& k = op["k"];
    const J& t = op["t"];
    const int t0 = t[0].i();
    if (k.is("start")) {
      ws[t0] = std::make_unique<Worker>();
      ws[t0]->t = std::thread(Loop, ws[t0].get());
      Ev("start").n("t", t0).end();
    } else if (k.is("ask") && t0 == 1) {
      auto& d = rst::GetRandomDevice();
      const bool random = Draws(d) && &rst::GetRandomDevice() == &d;
      Ev("ask").n("t", 1).n("d", name(&d)).b("random", random).end();
    } else if (k.is("ask")) {
      order(t0, false);
      Worker& w = wait(t0);
      Ev("ask").n("t", t0).n("d", name(w.got)).b("random", w.random).end();
    } else if (k.is("exit")) {
      Worker& w = *ws[t0];
      {
        std::lock_guard<std::mutex> l(w.m);
        w.exit = true;
        w.cv.notify_all();
      }
      w.t.join();
      Ev("exit").n("t", t0).end();
      ws.erase(t0);
    } else {
      g_waiting = 0;
      g_go = false;
      int n = 0;
      bool me = false;
      for (auto& x : t.a) {
        if (x.i() == 1) { me = true; continue; }
        order(x.i(), true);
        n++;
      }
      while (g_waiting < n) std::this_thread::yield();
      g_go = true;
      std::random_device* mine = nullptr;
      bool random = true;
      if (me) {
        mine = &rst::GetRandomDevice();
        random = Draws(*mine);
      }
      std::string ts, ds;
      for (auto& x : t.a) {
        std::random_device* d = mine;
        if (x.i() != 1) {
          Worker& w = wait(x.i());
          d = w.got;
          random = random && w.random;
        }
        ts += (ts.empty() ? "" : ",") + std::to_string(x.i());
        ds += (ds.empty() ? "" : ",") + std::to_string(name(d));
      }
      Ev("together").raw("t", "[" + ts + "]").raw("d", "[" + ds + "]").b("random", random).end();
    }
  }
  for (auto& p : ws) {
    {
      std::lock_guard<std::mutex> l(p.second->m);
      p.second->exit = true;
      p.second->cv.notify_all();
    }
    p.second->t.join();
  }
}
}  // namespace

int main() { return vf::Main(Run); }

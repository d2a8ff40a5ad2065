// Runs the programs generated from the scope specification.
#include "scope.h"

namespace vf {
int g_live = 0, g_id = 0;
static volatile bool g_yes = true;
bool Yes() { return g_yes; }
void Run(int k, bool ok) { Ev("run").n("k", k).b("ok", ok).end(); }
void In(int k) { Ev("in").n("k", k).end(); }
}  // namespace vf

namespace {
void RunOne(const vf::J& s) {
  vf::g_live = 0;
  vf::g_programs[s["p"].num()]();
  vf::Ev("end").n("live", vf::g_live).end();
}
}  // namespace
int main() { return vf::Main(RunOne); }

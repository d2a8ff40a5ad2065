// Threads logging through one file sink under the controlled scheduler.
#include "drv.h"
#include "vsched.h"

#include <dlfcn.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/uio.h>

#include <algorithm>
#include <memory>
#include <new>

#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"

using vf::Ev;
using vf::J;

namespace {
void* Real(const char* n) { return dlsym(RTLD_NEXT, n); }
int g_locks = 0;
FILE* g_watch = nullptr;
int g_closed = 0;
void P() {
  if (sched::Active())
    sched::Point();
}
}  // namespace

// Every operation on a stream is a preemption point.
#define REAL(name) reinterpret_cast<decltype(&name)>(Real(#name))
extern "C" {
int vfprintf(FILE* f, const char* fmt, va_list a) {
  P();
  static auto r = REAL(vfprintf);
  return r(f, fmt, a);
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list a;
  va_start(a, fmt);
  P();
  static auto r = REAL(vfprintf);
  int n = r(f, fmt, a);
  va_end(a);
  return n;
}
int __fprintf_chk(FILE* f, int, const char* fmt, ...) {
  va_list a;
  va_start(a, fmt);
  P();
  static auto r = REAL(vfprintf);
  int n = r(f, fmt, a);
  va_end(a);
  return n;
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
  P();
  static auto r = REAL(fwrite);
  return r(p, s, n, f);
}
int fputs(const char* s, FILE* f) {
  P();
  static auto r = REAL(fputs);
  return r(s, f);
}
int fputc(int c, FILE* f) {
  P();
  static auto r = REAL(fputc);
  return r(c, f);
}
int putc(int c, FILE* f) {
  P();
  static auto r = REAL(fputc);
  return r(c, f);
}
int fflush(FILE* f) {
  P();
  static auto r = REAL(fflush);
  return r(f);
}
ssize_t write(int fd, const void* p, size_t n) {
  P();
  static auto r = REAL(write);
  return r(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* p, int n) {
  P();
  static auto r = REAL(writev);
  return r(fd, p, n);
}
int fclose(FILE* f) {
  if (f == g_watch && sched::Active()) {
    g_closed++;
    P();
    if (g_closed > 1)
      return 0;
  }
  static auto r = REAL(fclose);
  return r(f);
}
// No switch while a stream is locked: another thread would block for real.
alignas(sched::Quiet) static char g_q[sizeof(sched::Quiet)];
__attribute__((no_sanitize("thread"))) void flockfile(FILE* f) {
  P();
  static auto r = REAL(flockfile);
  if (sched::Active() && g_locks++ == 0)
    new (g_q) sched::Quiet;
  r(f);
}
__attribute__((no_sanitize("thread"))) void funlockfile(FILE* f) {
  static auto r = REAL(funlockfile);
  r(f);
  if (g_locks > 0 && --g_locks == 0)
    reinterpret_cast<sched::Quiet*>(g_q)->~Quiet();
  P();
}
}

namespace {

std::vector<std::string> g_msg;    // contents
std::vector<int> g_by_len;         // ids, longest first
std::string g_path;
std::string g_data;                // the file as last seen
size_t g_pos = 0;                  // tokenised so far
bool g_readable = true;
rst::Sink* g_sink = nullptr;

std::string ReadAll() {
  std::string r;
  int fd = open(g_path.c_str(), O_RDONLY);
  if (fd < 0)
    return r;
  static char buf[1 << 16];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0)
    r.append(buf, static_cast<size_t>(n));
  close(fd);
  return r;
}

bool LineAt(const std::string& d, size_t p, const std::string& m) {
  return d.size() - p > m.size() && d.compare(p, m.size(), m) == 0 && d[p + m.size()] == '\n';
}

// The file now: the lines added since the last look and what a beginning of
// which lines the rest is.
void See() {
  sched::Quiet q;
  if (!g_readable)
    return;
  std::string d = ReadAll();
  const bool same = d.size() >= g_pos && d.compare(0, g_pos, g_data, 0, g_pos) == 0;
  std::string toks, tail;
  bool any = false;
  if (same) {
    while (g_pos < d.size()) {
      int hit = -1;
      for (int k : g_by_len)
        if (LineAt(d, g_pos, g_msg[k])) {
          hit = k;
          break;
        }
      if (hit < 0)
        break;
      toks += (toks.empty() ? "" : ",") + std::to_string(hit + 1);
      g_pos += g_msg[hit].size() + 1;
      any = true;
    }
    const size_t rest = d.size() - g_pos;
    if (rest > 0) {
      for (size_t k = 0; k < g_msg.size(); k++)
        if (rest <= g_msg[k].size() && g_msg[k].compare(0, rest, d, g_pos, rest) == 0)
          tail += (tail.empty() ? "" : ",") + std::to_string(k + 1);
      if (tail.empty())
        tail = "0";
      any = true;
    }
  } else {
    any = true;
  }
  g_data = std::move(d);
  if (any)
    Ev("see").b("same", same).raw("new", "[" + toks + "]").raw("tail", "[" + tail + "]").end();
}

void Client(void* p) {
  const J& ops = *static_cast<const J*>(p);
  for (size_t i = 0; i < ops.size(); i++) {
    const int k = ops[i].i();
    if (k == 0) {
      sched::Point();
      continue;
    }
    {
      sched::Quiet q;
      See();
      Ev("call").n("t", sched::Self() + 1).n("m", k).end();
    }
    sched::Point();
    g_sink->Log(std::string_view(g_msg[static_cast<size_t>(k - 1)]));
    {
      sched::Quiet q;
      See();
      Ev("ret").n("t", sched::Self() + 1).n("m", k).end();
    }
    sched::Point();
  }
}

bool Idle(bool stuck) {
  if (stuck) {
    Ev("stuck").end();
    _exit(80);
  }
  return true;
}

int HexV(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
std::string Content(const J& m) {
  std::string r;
  for (size_t i = 0; i < m.size(); i++) {
    std::string b;
    const std::string& h = m[i][0].str();
    for (size_t k = 0; k + 1 < h.size(); k += 2)
      b += static_cast<char>(HexV(h[k]) * 16 + HexV(h[k + 1]));
    for (long long k = 0; k < m[i][1].num(); k++)
      r += b;
  }
  return r;
}

void Limit(long long bytes) {
  struct rlimit rl;
  getrlimit(RLIMIT_FSIZE, &rl);
  rl.rlim_cur = bytes < 0 ? rl.rlim_max : static_cast<rlim_t>(bytes);
  setrlimit(RLIMIT_FSIZE, &rl);
}

void Run(const J& s) {
  const J& so = s["o"];
  sched::Opts o;
  o.seed = static_cast<uint64_t>(so[0].num());
  o.strategy = so[1].i();
  o.p_sync = so[2].i();
  o.p_acc = so[3].i();
  o.depth = so[6].i();
  o.est = so[7].i();
  g_msg.clear();
  g_by_len.clear();
  const J& ms = s["m"];
  std::string sizes;
  for (size_t i = 0; i < ms.size(); i++) {
    g_msg.push_back(Content(ms[i]));
    g_by_len.push_back(static_cast<int>(i));
    sizes += (i ? "," : "") + std::to_string(g_msg[i].size() + 1);
  }
  std::stable_sort(g_by_len.begin(), g_by_len.end(),
                   [](int a, int b) { return g_msg[a].size() > g_msg[b].size(); });
  const std::string kind = s["kind"].str(), where = s["where"].str();
  const long long quota = s["quota"].num();
  static std::string dir;
  if (dir.empty()) {
    char t[] = "sinkXXXXXX";
    if (!mkdtemp(t))
      _exit(95);
    dir = t;
  }
  g_path = dir + "/log";
  unlink(g_path.c_str());
  if (where == "nodir")
    g_path = dir + "/none/log";
  else if (where == "isdir")
    g_path = dir;
  else if (where == "empty")
    g_path = "";
  else if (where == "full")
    g_path = "/dev/full";
  g_readable = where == "ok" || where == "pre" || where == "ro";
  if (where == "pre" || where == "ro") {
    FILE* f = fopen(g_path.c_str(), "w");
    fputs("old line 1\nold line 2\n", f);
    fclose(f);
  }
  signal(SIGXFSZ, SIG_IGN);
  g_closed = 0;
  g_watch = nullptr;
  g_locks = 0;
  const bool openable = where == "ok" || where == "pre" || where == "full" || where == "ro";
  Ev("new").s("kind", kind).b("openable", openable).raw("size", "[" + sizes + "]")
      .n("quota", where == "full" || where == "ro" ? 0 : quota).end();

  sched::Hooks h;
  h.idle = Idle;
  sched::Begin(o, h);
  {
    FILE* f = nullptr;
    std::unique_ptr<rst::Sink> sink;
    bool ok = true;
    std::string err = "";
    if (kind == "name") {
      auto r = rst::FileNameSink::Create(g_path.c_str());
      ok = !r.err();
      if (ok) {
        sink = std::move(*r).Take();
      } else {
        auto st = std::move(r).TakeStatus();
        (void)st.err();
        err = rst::dyn_cast<rst::LogError>(st.GetError()) != nullptr ? "log" : "other";
      }
    } else {
      {
        sched::Quiet q;
        f = fopen(g_path.c_str(), where == "ro" ? "r" : "w");
      }
      g_watch = f;
      if (kind == "ptr")
        sink = std::make_unique<rst::FilePtrSink>(f);
      else
        sink = std::make_unique<rst::FilePtrSink>(f, rst::FilePtrSink::ShouldClose(kind == "own"));
    }
    {
      sched::Quiet q;
      Ev("made").b("ok", ok).s("err", err).end();
      g_data = g_readable ? ReadAll() : "";
      g_pos = g_data.size();
    }
    if (ok) {
      g_sink = sink.get();
      if (quota < 1000000000)
        Limit(static_cast<long long>(g_pos) + quota);
      const J& cl = s["cl"];
      int tid[16];
      for (size_t i = 0; i < cl.size(); i++)
        tid[i] = sched::Spawn(Client, const_cast<J*>(&cl[i]));
      for (size_t i = 0; i < cl.size(); i++)
        sched::Join(tid[i]);
      Limit(-1);
      See();
      sink.reset();
      See();
      if (f) {
        sched::Quiet q;
        Ev("gone").n("closed", g_closed).end();
        if (g_closed == 0)
          fclose(f);
      }
    }
  }
  sched::End();
  Ev("fin").end();
  unlink((dir + "/log").c_str());
}

}  // namespace

int main() { return vf::Main(Run, 20); }

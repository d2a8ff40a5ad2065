// Runs the file functions in traced children: every system call that touches
// the scratch directory is a step, ordered by the script's schedule, at which a
// fault can be injected, the process killed or the environment changed, and
// after which the whole directory is observed.
//
// argv[1]: scratch directory (made and removed by the caller).
#include "drv.h"

#include <dirent.h>
#include <errno.h>
#include <limits.h>
#include <linux/stat.h>
#include <sched.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <time.h>

#include <algorithm>
#include <memory>
#include <set>
#include <tuple>
#include <thread>

#include "rst/files/file_utils.h"
#include "rst/rtti/rtti.h"

extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }

using vf::Ev;
using vf::J;

namespace {

constexpr int kMaxP = 6;
constexpr int kMark = -77;  // fcntl(kMark, what, p)

std::string g_base;
std::string g_dir;  // of the current script

// ---- shared with the tracees ------------------------------------------------
struct Res {
  int ok;
  int kind;  // 0 none, 1 open, 2 file, 3 other
  size_t len;
};
struct Mem {
  Res res[kMaxP];
  char data[1];
};
constexpr size_t kData = 8u << 20;
Mem* g_mem;
char* DataOf(int p) { return g_mem->data + static_cast<size_t>(p) * kData; }

std::string Bytes(size_t n, unsigned seed) {
  std::string r(n, '\0');
  uint64_t x = seed * 2654435761u + 88172645463325252ull;
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    // A mix of text, newlines and binary.
    r[i] = seed % 3 == 0 ? static_cast<char>('a' + x % 26)
                         : seed % 3 == 1 ? static_cast<char>(x >> 8)
                                         : (x % 7 == 0 ? '\0' : x % 5 == 0 ? '\n' : x % 11 == 0 ? '\r' : '\xff');
  }
  return r;
}
std::string Bytes(const J& d) {
  return Bytes(static_cast<size_t>(d[0].num()), static_cast<unsigned>(d[1].num()));
}

void Mark(int what, int p) { syscall(SYS_fcntl, kMark, what, p); }

void SetRes(int p, rst::Status st) {
  Res& r = g_mem->res[p];
  r.len = 0;
  r.ok = !st.err();
  r.kind = r.ok ? 0
           : rst::dyn_cast<rst::FileOpenError>(st.GetError().get()) != nullptr ? 1
           : rst::dyn_cast<rst::FileError>(st.GetError().get()) != nullptr     ? 2
                                                                              : 3;
}

void Client(int p, const J& calls) {
  for (size_t c = 0; c < calls.size(); c++) {
    const J& k = calls[c];
    std::string path = k["path"].str();
    if (path.compare(0, 2, "@/") == 0)
      path = g_dir + path.substr(1);
    const std::string data = k.has("data") ? Bytes(k["data"]) : "";
    Mark(1, p);
    if (k["fn"].is("important")) {
      SetRes(p, rst::WriteImportantFile(path, data));
    } else if (k["fn"].is("write")) {
      SetRes(p, rst::WriteFile(path.c_str(), data));
    } else {
      auto r = rst::ReadFile(path);
      if (r.err()) {
        g_mem->res[p].kind = rst::dyn_cast<rst::FileOpenError>(r.status().GetError().get()) != nullptr ? 1
                             : rst::dyn_cast<rst::FileError>(r.status().GetError().get()) != nullptr   ? 2
                                                                                            : 3;
        g_mem->res[p].ok = 0;
      } else {
        g_mem->res[p].ok = 1;
        g_mem->res[p].kind = 0;
        g_mem->res[p].len = r->size();
        if (r->size() <= kData)
          memcpy(DataOf(p), r->data(), r->size());
      }
    }
    Mark(2, p);
  }
  Mark(3, p);
}

// ---- observation --------------------------------------------------------------
std::map<std::tuple<size_t, uint64_t, uint64_t>, int> g_cid;
std::string Cid(const std::string& s) {
  uint64_t a = 14695981039346656037ull, b = 88172645463325252ull;
  size_t k = 0;
  for (; k + 8 <= s.size(); k += 8) {
    uint64_t w;
    memcpy(&w, &s[k], 8);
    a = (a ^ w) * 0x9E3779B97F4A7C15ull;
    a ^= a >> 29;
    b = (b + w) * 0xD6E8FEB86659FD93ull;
    b ^= b >> 32;
  }
  for (; k < s.size(); k++) {
    a = (a ^ static_cast<unsigned char>(s[k])) * 1099511628211ull;
    b = (b + static_cast<unsigned char>(s[k])) * 0xD6E8FEB86659FD93ull;
    b ^= b >> 32;
  }
  auto it = g_cid.emplace(std::make_tuple(s.size(), a, b), static_cast<int>(g_cid.size())).first;
  return "c" + std::to_string(it->second);
}
std::map<std::string, std::string> g_names;  // path -> name in the trace
std::set<std::string> g_known;
int g_temps = 0;
struct Held {
  std::string name;
  ino_t ino;
  int fd;
};
std::vector<Held> g_held;
std::set<std::string> g_dests;

std::string Slurp(int fd) {
  std::string r;
  char b[65536];
  off_t off = 0;
  ssize_t n;
  while ((n = pread(fd, b, sizeof b, off)) > 0) {
    r.append(b, static_cast<size_t>(n));
    off += n;
  }
  return r;
}
std::string NameOf(const std::string& f) {
  if (g_known.count(f))
    return f;
  auto it = g_names.find(f);
  if (it == g_names.end())
    it = g_names.emplace(f, "t" + std::to_string(++g_temps)).first;
  return it->second;
}
void ScanDir(const std::string& rel, std::map<std::string, std::string>* out) {
  const std::string path = g_dir + (rel.empty() ? "" : "/" + rel);
  DIR* d = opendir(path.c_str());
  if (!d)
    return;
  std::vector<std::string> names;
  while (const dirent* e = readdir(d))
    if (strcmp(e->d_name, ".") != 0 && strcmp(e->d_name, "..") != 0)
      names.push_back(e->d_name);
  closedir(d);
  std::sort(names.begin(), names.end());
  for (const auto& n : names) {
    const std::string f = rel.empty() ? n : rel + "/" + n;
    const std::string full = g_dir + "/" + f;
    struct stat st;
    if (lstat(full.c_str(), &st) != 0)
      continue;
    std::string c;
    if (S_ISDIR(st.st_mode)) {
      c = "dir";
      ScanDir(f, out);
    } else if (S_ISLNK(st.st_mode)) {
      char b[PATH_MAX];
      const ssize_t k = readlink(full.c_str(), b, sizeof b);
      c = "link " + std::string(b, static_cast<size_t>(std::max<ssize_t>(k, 0)));
    } else if (S_ISFIFO(st.st_mode)) {
      c = "fifo";
    } else {
      const int fd = open(full.c_str(), O_RDONLY | O_CLOEXEC);
      if (fd < 0)
        continue;
      c = Cid(Slurp(fd));
      bool keep = g_dests.count(f) != 0;
      for (const auto& h : g_held)
        keep = keep && h.ino != st.st_ino;
      if (keep && g_held.size() < 12)
        g_held.push_back({"@" + std::to_string(g_held.size() + 1), st.st_ino, fd});
      else
        close(fd);
    }
    (*out)[NameOf(f)] = c;
  }
}
std::string g_last;
std::string Scan() {
  std::map<std::string, std::string> m;
  ScanDir("", &m);
  for (const auto& h : g_held)
    m[h.name] = Cid(Slurp(h.fd));
  std::string r = "{\"z\":\"\"", h = r;
  for (const auto& x : m)
    (x.first[0] == '@' ? h : r) += "," + vf::Q(x.first) + ":" + vf::Q(x.second);
  return r + "},\"held\":" + h + "}";
}
void See(int p, bool always = false) {
  std::string s = Scan();
  if (s == g_last && !always)
    return;
  Ev("see").n("p", p).raw("fs", s).end();
  g_last = s;
}

// ---- tracing ------------------------------------------------------------------
enum class Cls { kNone, kOpen, kWrite, kClose, kRename, kUnlink, kRead, kStat };
const char* kClsName[] = {"none", "open", "write", "close", "rename", "unlink", "read", "stat"};

struct Proc {
  pid_t tid = 0;
  int p = 0;          // 0: not announced
  enum St { kRunning, kHeld, kDone } st = kRunning;
  bool in_sys = false;   // between entry and exit
  bool at_mark = false;
  int mark = 0;
  Cls cls = Cls::kNone;
  user_regs_struct regs{};
  // what to do at exit
  bool relevant = false;
  bool set_ret = false;
  long long ret = 0;
  bool lie = false;
  long long lie_size = 0;
  size_t call = 0;
  std::map<int, int> seen;  // class -> number in this call
};
std::map<pid_t, Proc> g_t;
std::vector<J> g_faults;
std::vector<std::set<int>> g_sticky;
const J* g_script;

std::string ReadStr(pid_t t, unsigned long long a) {
  std::string r;
  while (r.size() < 8192) {
    errno = 0;
    const long w = ptrace(PTRACE_PEEKDATA, t, a + r.size(), nullptr);
    if (errno != 0)
      return r;
    for (size_t k = 0; k < sizeof w; k++) {
      const char c = static_cast<char>(static_cast<unsigned long>(w) >> (8 * k));
      if (c == '\0')
        return r;
      r += c;
    }
  }
  return r;
}
std::string FdPath(pid_t t, long long fd) {
  char b[PATH_MAX];
  const ssize_t n = readlink(("/proc/" + std::to_string(t) + "/fd/" + std::to_string(fd)).c_str(), b, sizeof b);
  return n > 0 ? std::string(b, static_cast<size_t>(n)) : "";
}
std::string g_extra;  // a path outside the directory that counts
bool Mine(const std::string& path) {
  return path.compare(0, g_dir.size(), g_dir) == 0 || (!g_extra.empty() && path == g_extra);
}
bool MinePath(pid_t t, long long dirfd, unsigned long long a) {
  const std::string s = ReadStr(t, a);
  if (!s.empty() && s[0] == '/')
    return Mine(s);
  if (static_cast<int>(dirfd) == AT_FDCWD)
    return true;  // the working directory is the scratch directory
  return Mine(FdPath(t, dirfd));
}

Cls Classify(Proc* q) {
  const auto& r = q->regs;
  const pid_t t = q->tid;
  const auto fd = static_cast<int>(r.rdi);
  switch (static_cast<long>(r.orig_rax)) {
    case SYS_open:
    case SYS_creat:
      return MinePath(t, AT_FDCWD, r.rdi) ? Cls::kOpen : Cls::kNone;
    case SYS_openat:
    case 437:
      return MinePath(t, fd, r.rsi) ? Cls::kOpen : Cls::kNone;
    case SYS_write:
    case SYS_pwrite64:
    case SYS_writev:
    case SYS_pwritev:
    case SYS_pwritev2:
    case SYS_sendfile:
    case SYS_ftruncate:
    case SYS_fallocate:
    case SYS_fsync:
    case SYS_fdatasync:
      return Mine(FdPath(t, fd)) ? Cls::kWrite : Cls::kNone;
    case SYS_copy_file_range:
      return Mine(FdPath(t, static_cast<int>(r.rdx))) ? Cls::kWrite : Cls::kNone;
    case SYS_truncate:
      return MinePath(t, AT_FDCWD, r.rdi) ? Cls::kWrite : Cls::kNone;
    case SYS_close:
      return Mine(FdPath(t, fd)) ? Cls::kClose : Cls::kNone;
    case SYS_rename:
    case SYS_link:
      return MinePath(t, AT_FDCWD, r.rdi) || MinePath(t, AT_FDCWD, r.rsi) ? Cls::kRename : Cls::kNone;
    case SYS_renameat:
    case SYS_renameat2:
    case SYS_linkat:
      return MinePath(t, fd, r.rsi) || MinePath(t, static_cast<int>(r.rdx), r.r10) ? Cls::kRename : Cls::kNone;
    case SYS_unlink:
    case SYS_rmdir:
      return MinePath(t, AT_FDCWD, r.rdi) ? Cls::kUnlink : Cls::kNone;
    case SYS_unlinkat:
      return MinePath(t, fd, r.rsi) ? Cls::kUnlink : Cls::kNone;
    case SYS_read:
    case SYS_pread64:
    case SYS_readv:
    case SYS_preadv:
    case SYS_preadv2:
      return Mine(FdPath(t, fd)) ? Cls::kRead : Cls::kNone;
    case SYS_stat:
    case SYS_lstat:
      return MinePath(t, AT_FDCWD, r.rdi) ? Cls::kStat : Cls::kNone;
    case SYS_fstat:
      return Mine(FdPath(t, fd)) ? Cls::kStat : Cls::kNone;
    case SYS_newfstatat:
    case SYS_statx: {
      const std::string s = ReadStr(t, r.rsi);
      if (s.empty())
        return Mine(FdPath(t, fd)) ? Cls::kStat : Cls::kNone;
      return MinePath(t, fd, r.rsi) ? Cls::kStat : Cls::kNone;
    }
    default:
      return Cls::kNone;
  }
}

int Errno(const std::string& s) {
  static const std::map<std::string, int> m = {
      {"EIO", EIO},       {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"EINTR", EINTR}, {"EDQUOT", EDQUOT},
      {"EFBIG", EFBIG},   {"EXDEV", EXDEV},   {"EPERM", EPERM},   {"EMFILE", EMFILE}, {"EROFS", EROFS},
      {"ENOENT", ENOENT}, {"EBUSY", EBUSY},   {"EAGAIN", EAGAIN}, {"ENOMEM", ENOMEM}, {"EISDIR", EISDIR}};
  return m.at(s);
}

void Cont(Proc* q, int sig = 0) {
  q->st = Proc::kRunning;
  ptrace(PTRACE_SYSCALL, q->tid, nullptr, reinterpret_cast<void*>(static_cast<long>(sig)));
}

void Die(const char* why) {
  fprintf(stderr, "files_drv: %s\n", why);
  _exit(95);
}

bool g_killed_all = false;

// Applies the faults that are due at this entry. Returns false if killed.
bool Faults(Proc* q) {
  const int n = ++q->seen[static_cast<int>(q->cls)];
  const char* cls = kClsName[static_cast<int>(q->cls)];
  for (size_t k = 0; k < g_faults.size(); k++) {
    const J& f = g_faults[k];
    if (f["p"].num() != q->p || !f["at"].is(cls))
      continue;
    if (f.has("call") && static_cast<size_t>(f["call"].num()) != q->call)
      continue;
    const bool sticky = f.has("sticky");
    const long long nth = f["nth"].num();
    if (!(n == nth || (sticky && n > nth)))
      continue;
    const std::string& act = f["act"].str();
    if (act == "err") {
      const std::string& e = f["errno"].str();
      const bool intr = e == "EINTR" || e == "EAGAIN";
      // A close cannot be repeated; any other failure is final only if it
      // stays.
      const bool hard = !intr && (q->cls == Cls::kClose || sticky) && q->cls != Cls::kStat;
      Ev("fault").n("p", q->p).s("at", cls).b("hard", hard).end();
      if (q->cls != Cls::kClose) {
        q->regs.orig_rax = static_cast<unsigned long long>(-1);
        ptrace(PTRACE_SETREGS, q->tid, nullptr, &q->regs);
      }
      q->set_ret = true;
      q->ret = -Errno(e);
      return true;
    }
    if (act == "short") {
      if (q->cls == Cls::kRead || q->cls == Cls::kWrite) {
        const auto nr = static_cast<long>(q->regs.orig_rax);
        if ((nr == SYS_read || nr == SYS_pread64 || nr == SYS_write || nr == SYS_pwrite64) &&
            q->regs.rdx > static_cast<unsigned long long>(f["n"].num())) {
          q->regs.rdx = static_cast<unsigned long long>(f["n"].num());
          ptrace(PTRACE_SETREGS, q->tid, nullptr, &q->regs);
        }
      }
    } else if (act == "size") {
      q->lie = true;
      q->lie_size = f["n"].num();
    } else if (act == "decoy") {
      // Somebody else takes the name that is about to be created.
      const auto nr = static_cast<long>(q->regs.orig_rax);
      const auto a = nr == SYS_openat || nr == 437 ? q->regs.rsi : q->regs.rdi;
      const auto flags = nr == SYS_creat    ? O_CREAT
                         : nr == SYS_openat ? static_cast<int>(q->regs.rdx)
                         : nr == SYS_open   ? static_cast<int>(q->regs.rsi)
                                            : 0;
      std::string path = ReadStr(q->tid, a);
      if (!path.empty() && path[0] != '/')
        path = g_dir + "/" + path;
      for (size_t at; (at = path.find("/./")) != std::string::npos;)
        path.erase(at, 2);
      struct stat st;
      if ((flags & O_CREAT) && Mine(path) && lstat(path.c_str(), &st) != 0) {
        const std::string rel = path.substr(g_dir.size() + 1);
        if (g_known.count(rel) == 0) {
          if (f["kind"].is("link"))
            (void)!symlink("keep", path.c_str());
          else if (f["kind"].is("hard"))
            (void)!link((g_dir + "/keep").c_str(), path.c_str());
          else {
            const int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644);
            (void)!write(fd, "foreign", 7);
            close(fd);
          }
          if (lstat(path.c_str(), &st) == 0)
            Ev("decoy").n("p", q->p).s("f", NameOf(rel)).raw("fs", g_last = Scan()).end();
        }
      }
    } else if (act == "kill") {
      Ev("kill").n("p", q->p).end();
      const pid_t t = q->tid;
      syscall(SYS_kill, t, SIGKILL);
      q->st = Proc::kDone;
      return false;
    }
  }
  return true;
}

void AtExit(Proc* q) {
  if (q->set_ret) {
    user_regs_struct r;
    ptrace(PTRACE_GETREGS, q->tid, nullptr, &r);
    r.rax = static_cast<unsigned long long>(q->ret);
    ptrace(PTRACE_SETREGS, q->tid, nullptr, &r);
    q->set_ret = false;
  }
  if (q->lie) {
    q->lie = false;
    user_regs_struct r;
    ptrace(PTRACE_GETREGS, q->tid, nullptr, &r);
    const auto nr = static_cast<long>(q->regs.orig_rax);
    unsigned long long a = 0;
    if (static_cast<long long>(r.rax) == 0) {
      if (nr == SYS_stat || nr == SYS_fstat || nr == SYS_lstat)
        a = q->regs.rsi + 48;
      else if (nr == SYS_newfstatat)
        a = q->regs.rdx + 48;
      else if (nr == SYS_statx)
        a = q->regs.r8 + 40;
      if (a != 0)
        ptrace(PTRACE_POKEDATA, q->tid, a, q->lie_size);
    }
  }
  // "Crash" after the call.
  for (const J& f : g_faults)
    if (f["act"].is("killafter") && f["p"].num() == q->p && f["at"].is(kClsName[static_cast<int>(q->cls)]) &&
        f["nth"].num() == q->seen[static_cast<int>(q->cls)]) {
      See(q->p);
      Ev("kill").n("p", q->p).end();
      syscall(SYS_kill, q->tid, SIGKILL);
      q->st = Proc::kDone;
      return;
    }
}

int g_nproc;
int g_ready;

// Handles one stop of a tracee. Leaves it held, running or done.
void OnStop(pid_t t, int st) {
  Proc& q = g_t[t];
  q.tid = t;
  if (WIFEXITED(st) || WIFSIGNALED(st)) {
    if (q.st != Proc::kDone && WIFSIGNALED(st) && !g_killed_all) {
      Ev(WTERMSIG(st) == SIGABRT ? "abort" : WTERMSIG(st) == SIGKILL ? "killed" : "crash").end();
      g_killed_all = true;
    } else if (q.st != Proc::kDone && WIFEXITED(st) && WEXITSTATUS(st) != 0) {
      Ev("crash").end();
      g_killed_all = true;
    }
    q.st = Proc::kDone;
    return;
  }
  if (!WIFSTOPPED(st))
    return;
  if (q.st == Proc::kDone) {
    ptrace(PTRACE_CONT, t, nullptr, nullptr);
    return;
  }
  const int sig = WSTOPSIG(st);
  if (sig == (SIGTRAP | 0x80)) {
    if (!q.in_sys) {
      q.in_sys = true;
      ptrace(PTRACE_GETREGS, t, nullptr, &q.regs);
      if (static_cast<long>(q.regs.orig_rax) == SYS_fcntl && static_cast<int>(q.regs.rdi) == kMark) {
        q.p = static_cast<int>(q.regs.rdx);
        q.at_mark = true;
        q.mark = static_cast<int>(q.regs.rsi);
        q.cls = Cls::kNone;
        if (q.mark == 2) {
          // The call has returned; this needs no scheduling.
          See(q.p);
          const Res& r = g_mem->res[q.p];
          Ev e("ret");
          e.n("p", q.p).b("ok", r.ok).s("kind", r.kind == 0 ? "none" : r.kind == 1 ? "open" : r.kind == 2 ? "file" : "other");
          e.s("data", r.ok && (*g_script)["procs"][q.p - 1][q.call - 1]["fn"].is("read")
                          ? Cid(std::string(DataOf(q.p), std::min(r.len, kData)))
                          : "");
          e.end();
          return Cont(&q);
        }
        q.st = Proc::kHeld;
        return;
      }
      q.cls = q.p == 0 ? Cls::kNone : Classify(&q);
      q.relevant = q.cls != Cls::kNone;
      if (q.cls == Cls::kNone)
        return Cont(&q);
      if (q.cls == Cls::kStat) {
        if (!Faults(&q))
          return;
        return Cont(&q);
      }
      q.st = Proc::kHeld;
      return;
    }
    q.in_sys = false;
    if (q.at_mark) {
      q.at_mark = false;
      return Cont(&q);
    }
    if (q.relevant) {
      q.relevant = false;
      AtExit(&q);
      if (q.st == Proc::kDone)
        return;
      if (q.cls != Cls::kStat)
        See(q.p);
    }
    return Cont(&q);
  }
  if (sig == SIGTRAP && (st >> 16) != 0)
    return Cont(&q);  // clone and exec events
  if (sig == SIGSTOP)
    return Cont(&q);  // start of a thread
  Cont(&q, sig);
}

// Lets a held one go on.
void Go(Proc* q) {
  if (q->at_mark) {
    if (q->mark == 1) {
      const J& k = (*g_script)["procs"][q->p - 1][q->call];
      q->call++;
      q->seen.clear();
      See(0);
      Ev e("call");
      e.n("p", q->p).s("fn", k["fn"].str()).s("dest", k["dest"].str()).s("env", k["env"].str());
      e.s("data", k.has("data") ? Cid(Bytes(k["data"])) : "");
      std::string want = k.has("want") ? Cid(Bytes(k["want"])) : "";
      if (k.has("wantfile")) {
        const int fd = open(k["wantfile"].str().c_str(), O_RDONLY | O_CLOEXEC);
        std::string r;
        char b[4096];
        ssize_t n;
        while ((n = read(fd, b, sizeof b)) > 0)
          r.append(b, static_cast<size_t>(n));
        close(fd);
        want = Cid(r);
      }
      e.s("want", want).end();
    } else if (q->mark == 3) {
      q->st = Proc::kDone;
      ptrace(PTRACE_CONT, q->tid, nullptr, nullptr);
      return;
    }
    return Cont(q);
  }
  if (Faults(q))
    Cont(q);
}

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

void Setup(const J& pre) {
  for (size_t i = 0; i < pre.size(); i++) {
    const J& f = pre[i];
    const std::string name = f["name"].str(), path = g_dir + "/" + name, kind = f["kind"].str();
    g_known.insert(name);
    if (kind == "dir")
      mkdir(path.c_str(), 0755);
    else if (kind == "link")
      (void)!symlink(f["to"].str().c_str(), path.c_str());
    else if (kind == "hard")
      (void)!link((g_dir + "/" + f["to"].str()).c_str(), path.c_str());
    else if (kind == "fifo")
      mkfifo(path.c_str(), 0644);
    else if (kind == "absent")
      continue;
    else {
      const std::string d = Bytes(f["data"]);
      const int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
      size_t off = 0;
      while (off < d.size()) {
        const ssize_t w = write(fd, d.data() + off, d.size() - off);
        if (w <= 0)
          Die("setup");
        off += static_cast<size_t>(w);
      }
      close(fd);
    }
  }
}

void Cleanup(const std::string& d) {
  DIR* h = opendir(d.c_str());
  if (!h)
    return;
  while (const dirent* e = readdir(h)) {
    if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)
      continue;
    const std::string f = d + "/" + e->d_name;
    struct stat st;
    if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      Cleanup(f);
    else
      unlink(f.c_str());
  }
  closedir(h);
  rmdir(d.c_str());
}

void Run(const J& s) {
  if (!g_mem) {
    g_mem = static_cast<Mem*>(mmap(nullptr, kData * kMaxP + 65536, PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (g_mem == MAP_FAILED)
      Die("mmap");
  }
  static int ctr = 0;
  g_dir = g_base + "/s" + std::to_string(getpid()) + "-" + std::to_string(ctr++);
  Cleanup(g_dir);
  if (mkdir(g_dir.c_str(), 0755) != 0)
    Die("mkdir");
  g_script = &s;
  g_cid.clear();
  Cid("");
  g_names.clear();
  g_known.clear();
  g_temps = 0;
  g_last.clear();
  g_faults.clear();
  g_dests.clear();
  g_extra.clear();
  g_t.clear();
  g_killed_all = false;
  for (size_t i = 0; i < s["faults"].size(); i++)
    g_faults.push_back(s["faults"][i]);
  if (chdir(g_dir.c_str()) != 0)
    Die("chdir");
  const J& procs = s["procs"];
  const size_t n = procs.size();
  for (size_t p = 0; p < n; p++)
    for (size_t c = 0; c < procs[p].size(); c++) {
      g_dests.insert(procs[p][c]["dest"].str());
      g_known.insert(procs[p][c]["dest"].str());
      if (procs[p][c]["path"].str().compare(0, 6, "/proc/") == 0 ||
          procs[p][c]["path"].str().compare(0, 5, "/dev/") == 0)
        g_extra = procs[p][c]["path"].str();
    }
  Setup(s["pre"]);
  g_last = Scan();
  Ev("init").raw("fs", g_last).end();

  std::vector<pid_t> kids;
  const bool threads = s.has("threads");
  pid_t feeder = 0;
  if (s.has("feed")) {
    feeder = fork();
    if (feeder == 0) {
      // Writes a pipe in the given pieces.
      signal(SIGPIPE, SIG_IGN);
      const int fd = open((g_dir + "/" + s["feed"]["name"].str()).c_str(), O_WRONLY);
      const std::string d = Bytes(s["feed"]["data"]);
      size_t off = 0;
      const J& cuts = s["feed"]["cuts"];
      for (size_t k = 0; off < d.size(); k++) {
        size_t m = k < cuts.size() ? static_cast<size_t>(cuts[k].num()) : d.size();
        m = std::min(m, d.size() - off);
        size_t end = off + m;
        while (off < end) {
          const ssize_t w = write(fd, d.data() + off, end - off);
          if (w <= 0)
            _exit(0);
          off += static_cast<size_t>(w);
        }
        usleep(300);
      }
      _exit(0);
    }
  }
  const size_t nk = threads ? 1 : n;
  for (size_t k = 0; k < nk; k++) {
    const pid_t c = fork();
    if (c == 0) {
      alarm(15);
      ptrace(PTRACE_TRACEME, 0, nullptr, nullptr);
      raise(SIGSTOP);
      if (threads) {
        std::vector<std::thread> ts;
        for (size_t p = 0; p < n; p++)
          ts.emplace_back([p, &procs]() {
            Mark(0, static_cast<int>(p) + 1);
            Client(static_cast<int>(p) + 1, procs[p]);
          });
        for (auto& t : ts)
          t.join();
      } else {
        Mark(0, static_cast<int>(k) + 1);
        Client(static_cast<int>(k) + 1, procs[k]);
      }
      _exit(0);
    }
    kids.push_back(c);
    int st;
    waitpid(c, &st, __WALL);
    if (!WIFSTOPPED(st))
      Die("no stop");
    if (ptrace(PTRACE_SETOPTIONS, c, nullptr,
               PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_EXITKILL) != 0)
      Die("setoptions");
    Proc& q = g_t[c];
    q.tid = c;
    if (ptrace(PTRACE_SYSCALL, c, nullptr, nullptr) != 0)
      Die("ptrace");
  }

  // Handles stops until nothing runs (or what runs seems blocked).
  auto settle = [&]() {
    double since = Now();
    int idle = 0;
    while (true) {
      int st;
      const pid_t t = waitpid(-1, &st, __WALL | WNOHANG);
      if (t > 0) {
        if (t != feeder)
          OnStop(t, st);
        since = Now();
        idle = 0;
        continue;
      }
      if (t < 0)
        return;
      bool running = false, announced = true;
      int ann = 0;
      for (auto& x : g_t) {
        running = running || (x.second.st == Proc::kRunning && x.second.p != 0);
        ann += x.second.p != 0;
      }
      announced = ann >= static_cast<int>(n) || g_killed_all;
      if (!running && announced)
        return;
      bool other = false;
      for (auto& x : g_t)
        other = other || x.second.st == Proc::kHeld;
      if (Now() - since > (other && announced ? 0.25 : 12.0)) {
        if (!other) {
          Ev("hang").end();
          g_killed_all = true;
        }
        return;
      }
      if (++idle > 200)
        usleep(50);
      else
        sched_yield();
    }
  };
  settle();
  const J& sched = s["sched"];
  size_t at = 0;
  unsigned rnd = static_cast<unsigned>(s["seed"].num()) * 2654435761u + 12345;
  Proc* last = nullptr;
  int steps = 0;
  while (!g_killed_all && steps++ < 20000) {
    std::vector<Proc*> held;
    for (size_t p = 1; p <= n; p++)
      for (auto& x : g_t)
        if (x.second.st == Proc::kHeld && x.second.p == static_cast<int>(p))
          held.push_back(&x.second);
    if (held.empty())
      break;
    Proc* q = nullptr;
    while (at < sched.size() && q == nullptr) {
      for (Proc* h : held)
        if (h->p == sched[at].num())
          q = h;
      at++;
    }
    if (q == nullptr) {
      rnd = rnd * 1103515245u + 12345u;
      const unsigned k = (rnd >> 16) % 100;
      if (k < 60)
        for (Proc* h : held)
          if (h == last)
            q = h;
      if (q == nullptr)
        q = held[(rnd >> 8) % held.size()];
    }
    last = q;
    Go(q);
    settle();
  }
  for (const pid_t k : kids)
    kill(k, SIGKILL);
  if (feeder != 0)
    kill(feeder, SIGKILL);
  int st;
  while (waitpid(-1, &st, __WALL) > 0) {
  }
  if (!g_killed_all) {
    See(0);
    Ev("end").end();
  }
  for (const auto& h : g_held)
    close(h.fd);
  g_held.clear();
  (void)!chdir("/");
  Cleanup(g_dir);
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 2)
    return 2;
  g_base = argv[1];
  return vf::Main(Run, 40);
}

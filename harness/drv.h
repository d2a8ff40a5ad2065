// Common frame of the script-driven drivers: reads one JSON script per line on
// stdin, runs it in a forked child, prints the recorded trace (JSON array) per
// line on stdout. An abort, crash or hang of the child ends the trace with an
// event of that name.
#ifndef VF_DRV_H_
#define VF_DRV_H_

#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#include <map>
#include <string>
#include <utility>
#include <vector>

namespace vf {

struct J {
  enum T { kNull, kBool, kNum, kStr, kArr, kObj } t = kNull;
  bool b = false;
  long long n = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;

  const J* find(const char* k) const {
    for (auto& p : o)
      if (p.first == k)
        return &p.second;
    return nullptr;
  }
  const J& operator[](const char* k) const {
    const J* p = find(k);
    if (!p) {
      fprintf(stderr, "script: missing field %s\n", k);
      _exit(99);
    }
    return *p;
  }
  bool has(const char* k) const { return find(k) != nullptr; }
  const J& operator[](size_t i) const { return a.at(i); }
  const J& operator[](int i) const { return a.at(static_cast<size_t>(i)); }
  const std::string& str() const { return s; }
  long long num() const { return n; }
  int i() const { return static_cast<int>(n); }
  size_t size() const { return a.size(); }
  bool is(const char* v) const { return t == kStr && s == v; }
};

class Parser {
 public:
  explicit Parser(const std::string& x) : p_(x.c_str()) {}
  J Parse() {
    Ws();
    J j;
    if (*p_ == '{') {
      j.t = J::kObj;
      p_++;
      Ws();
      while (*p_ != '}') {
        std::string k = Str();
        Ws();
        p_++;  // :
        J v = Parse();
        j.o.emplace_back(std::move(k), std::move(v));
        Ws();
        if (*p_ == ',')
          p_++;
        Ws();
      }
      p_++;
    } else if (*p_ == '[') {
      j.t = J::kArr;
      p_++;
      Ws();
      while (*p_ != ']') {
        j.a.push_back(Parse());
        Ws();
        if (*p_ == ',')
          p_++;
        Ws();
      }
      p_++;
    } else if (*p_ == '"') {
      j.t = J::kStr;
      j.s = Str();
    } else if (!strncmp(p_, "true", 4)) {
      j.t = J::kBool;
      j.b = true;
      p_ += 4;
    } else if (!strncmp(p_, "false", 5)) {
      j.t = J::kBool;
      p_ += 5;
    } else if (!strncmp(p_, "null", 4)) {
      p_ += 4;
    } else {
      j.t = J::kNum;
      char* e;
      j.n = strtoll(p_, &e, 10);
      if (e == p_)
        _exit(98);
      p_ = e;
    }
    return j;
  }

 private:
  void Ws() {
    while (*p_ == ' ' || *p_ == '\n' || *p_ == '\t' || *p_ == '\r')
      p_++;
  }
  std::string Str() {
    std::string r;
    p_++;
    while (*p_ != '"') {
      if (*p_ == '\\') {
        p_++;
        switch (*p_) {
          case 'n': r += '\n'; break;
          case 't': r += '\t'; break;
          case 'r': r += '\r'; break;
          case 'b': r += '\b'; break;
          case 'f': r += '\f'; break;
          case 'u': {
            unsigned c = static_cast<unsigned>(
                strtoul(std::string(p_ + 1, 4).c_str(), nullptr, 16));
            p_ += 4;
            if (c < 0x80) {
              r += static_cast<char>(c);
            } else if (c < 0x800) {
              r += static_cast<char>(0xc0 | (c >> 6));
              r += static_cast<char>(0x80 | (c & 0x3f));
            } else {
              r += static_cast<char>(0xe0 | (c >> 12));
              r += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
              r += static_cast<char>(0x80 | (c & 0x3f));
            }
            break;
          }
          default: r += *p_;
        }
        p_++;
      } else {
        r += *p_++;
      }
    }
    p_++;
    return r;
  }
  const char* p_;
};

// Shared output buffer.
struct Shared {
  size_t len;
  char buf[1];
};
inline constexpr size_t kBuf = 16u << 20;
inline constexpr size_t kMaxTrace = 4u << 20;
inline Shared* g_sh = nullptr;

inline void Raw(const char* p, size_t n) {
  if (g_sh->len + n + 64 > kMaxTrace && n < kMaxTrace / 2) {
    // No script leads to this.
    static const char e[] = ",{\"op\":\"toolong\"}";
    memcpy(g_sh->buf + g_sh->len, e, sizeof e - 1);
    g_sh->len += sizeof e - 1;
    _exit(80);
  }
  if (g_sh->len + n + 64 > kBuf)
    _exit(97);
  memcpy(g_sh->buf + g_sh->len, p, n);
  g_sh->len += n;
}
inline void Raw(const std::string& s) { Raw(s.data(), s.size()); }

inline std::string Q(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

// Event builder: Ev("start").n("t", 1).s("x", "..").end(); committed whole.
class Ev {
 public:
  explicit Ev(const char* op) : s_(std::string("{\"op\":") + Q(op)) {}
  Ev& n(const char* k, long long v) {
    s_ += ",\"" + std::string(k) + "\":" + std::to_string(v);
    return *this;
  }
  Ev& b(const char* k, bool v) {
    s_ += ",\"" + std::string(k) + "\":" + (v ? "true" : "false");
    return *this;
  }
  Ev& s(const char* k, const std::string& v) {
    s_ += ",\"" + std::string(k) + "\":" + Q(v);
    return *this;
  }
  Ev& raw(const char* k, const std::string& v) {
    s_ += ",\"" + std::string(k) + "\":" + v;
    return *this;
  }
  void end() {
    s_ += "}";
    Raw((g_sh->len ? "," : "") + s_);
  }

 private:
  std::string s_;
};

inline std::string Dump(const J& j) {
  switch (j.t) {
    case J::kNull: return "null";
    case J::kBool: return j.b ? "true" : "false";
    case J::kNum: return std::to_string(j.n);
    case J::kStr: return Q(j.s);
    case J::kArr: {
      std::string r = "[";
      for (size_t i = 0; i < j.a.size(); i++)
        r += (i ? "," : "") + Dump(j.a[i]);
      return r + "]";
    }
    case J::kObj: {
      std::string r = "{";
      for (size_t i = 0; i < j.o.size(); i++)
        r += (i ? "," : "") + Q(j.o[i].first) + ":" + Dump(j.o[i].second);
      return r + "}";
    }
  }
  return "";
}

// Scripts run one after another in a child; when it dies abnormally that ends
// the current script's trace and a new child continues with the next script.
inline int Main(void (*run)(const J&), int timeout_s = 20) {
  g_sh = static_cast<Shared*>(mmap(nullptr, kBuf + 4096, PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto* next = static_cast<volatile size_t*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const bool keep = getenv("VF_STDERR") != nullptr;
  // The same addresses in every run.
  const int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && getenv("VF_REEXEC") == nullptr &&
      personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) {
    setenv("VF_REEXEC", "1", 1);
    std::vector<char*> av;
    std::string args;
    if (FILE* f = fopen("/proc/self/cmdline", "r")) {
      int c;
      while ((c = fgetc(f)) != EOF)
        args += static_cast<char>(c);
      fclose(f);
      for (size_t i = 0; i < args.size(); i += strlen(&args[i]) + 1)
        av.push_back(&args[i]);
      av.push_back(nullptr);
      execv("/proc/self/exe", av.data());
    }
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::vector<std::string> lines;
  {
    char* line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
      std::string text(line, static_cast<size_t>(n));
      if (text.find_first_not_of(" \n") != std::string::npos)
        lines.push_back(std::move(text));
    }
    free(line);
  }
  // A plain pipe-like file keeps output order across children.
  const int out = dup(1);
  auto flush = [out]() {
    std::string r = "[" + std::string(g_sh->buf, g_sh->len) + "]\n";
    size_t off = 0;
    while (off < r.size()) {
      ssize_t w = write(out, r.data() + off, r.size() - off);
      if (w <= 0)
        _exit(96);
      off += static_cast<size_t>(w);
    }
    g_sh->len = 0;
  };
  *next = 0;
  g_sh->len = 0;
  int hangs = 0;
  while (*next < lines.size()) {
    pid_t pid = fork();
    if (pid == 0) {
      if (!keep) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
      }
      int in = open("/dev/null", O_RDONLY);
      dup2(in, 0);
      while (*next < lines.size()) {
        alarm(static_cast<unsigned>(timeout_s));
        run(Parser(lines[*next]).Parse());
        alarm(0);
        flush();
        *next = *next + 1;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && *next >= lines.size())
      break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 80) {
      // The run cannot go on; its trace is complete as it is.
      flush();
      *next = *next + 1;
      continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) >= 90) {
      fprintf(stderr, "driver child exit %d\n", WEXITSTATUS(st));
      return 3;
    }
    if (WIFSIGNALED(st)) {
      const int sig = WTERMSIG(st);
      if (sig == SIGKILL) {
        fprintf(stderr, "driver child killed\n");
        return 3;
      }
      if (sig == SIGALRM && ++hangs == 3) {
        // Enough evidence; the rest is not run.
        Ev("hang").end();
        flush();
        while ((*next = *next + 1) < lines.size())
          flush();
        break;
      }
      Ev(sig == SIGABRT ? "abort" : sig == SIGALRM ? "hang" : "crash").end();
    } else {
      Ev("crash").end();
    }
    flush();
    *next = *next + 1;
  }
  return 0;
}

}  // namespace vf

#endif  // VF_DRV_H_

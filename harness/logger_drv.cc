// Loggers with recording sinks, calls through the function and the macros.
#include "drv.h"

#include <memory>

#include "rst/logger/logger.h"

using rst::Logger;
using vf::Ev;
using vf::J;

namespace {

class Rec : public rst::Sink {
 public:
  explicit Rec(int n) : n_(n) {}
  void Log(std::string_view m) override { Ev("line").n("l", n_).s("text", std::string(m)).end(); }

 private:
  const int n_;
};

constexpr int kL = 3;
std::unique_ptr<Logger> g_l[kL + 1];

std::string Text(const std::string& m) {
  if (m == "long")
    return std::string(5000, 'm') + "{}" + std::string(3000, '}');
  if (m == "huge")
    return std::string(66000, 'h') + "{}" + std::string(9000, '{');
  if (m == "nul")
    return std::string("a\0b\0", 4);
  if (m == "utf")
    return "\xc3\xa9\xe2\x82\xac";
  return m;
}

void Do(const J& o) {
  const std::string k = o["k"].str(), via = o["via"].str();
  const std::string msg = Text(o["msg"].str());
  std::string file = o["file"].is("long") ? std::string(2000, 'f')
                     : o["file"].is("huge") ? std::string(67000, 'd') + "/x.cc"
                                            : o["file"].str();
  const int v = o["v"].i(), l = o["l"].i();
  int line = o["line"].i();
  auto say = [&]() {
    Ev("do").s("k", k).n("l", l).n("v", v).s("via", via).s("msg", msg).s("file", file).n("line", line).end();
  };
  if (k != "log") {
    say();
    if (k == "make")
      g_l[l] = std::make_unique<Logger>(std::make_unique<Rec>(l));
    else if (k == "destroy")
      g_l[l] = nullptr;
    else if (k == "level")
      g_l[l]->set_level(static_cast<Logger::Level>(v));
    else
      Logger::SetGlobalLogger(g_l[l].get());
    return;
  }
  // The message in memory of its own size, followed by nothing.
  std::unique_ptr<char[]> exact(new char[msg.size()]);
  memcpy(exact.get(), msg.data(), msg.size());
  const std::string_view m(exact.get(), msg.size());
  if (via == "call") {
    say();
    Logger::Log(static_cast<Logger::Level>(v), file.c_str(), line, m);
    return;
  }
  file = __FILE__;
#define AT(call) line = __LINE__, say(), (call)
#define DAT line = __LINE__; say();
  if (via == "macro") {
    switch (v) {
      case 1: AT(RST_LOG_DEBUG(m)); break;
      case 2: AT(RST_LOG_INFO(m)); break;
      case 3: AT(RST_LOG_WARNING(m)); break;
      case 4: AT(RST_LOG_ERROR(m)); break;
      case 5: AT(RST_LOG_FATAL(m)); break;
    }
  } else {
    switch (v) {
      // clang-format off
      case 1: { DAT RST_DLOG_DEBUG(m); break; }
      case 2: { DAT RST_DLOG_INFO(m); break; }
      case 3: { DAT RST_DLOG_WARNING(m); break; }
      case 4: { DAT RST_DLOG_ERROR(m); break; }
      case 5: { DAT RST_DLOG_FATAL(m); break; }
      // clang-format on
    }
  }
}

void Run(const J& ops) {
  for (size_t i = 0; i < ops.size(); i++) {
    Do(ops[i]);
    Ev("done").end();
  }
  for (auto& l : g_l)
    l = nullptr;
}

}  // namespace

int main() { return vf::Main(Run); }

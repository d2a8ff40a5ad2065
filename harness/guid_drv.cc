// GUIDs generated in threads and processes, from the real and from a scripted
// source of random bits, and strings to be validated.
#include "drv.h"

#include <memory>
#include <random>
#include <thread>

#include "rst/guid/guid.h"

using vf::Ev;
using vf::J;

namespace {
// What the random device yields, over and over; nothing: the real one.
thread_local std::vector<unsigned> t_bits;
thread_local size_t t_at;
}  // namespace

// In place of that of the C++ library.
std::random_device::result_type std::random_device::_M_getval() {
  if (!t_bits.empty())
    return t_bits[t_at++ % t_bits.size()];
  unsigned r;
  static const int fd = open("/dev/urandom", O_RDONLY);
  if (read(fd, &r, sizeof r) != sizeof r)
    _exit(95);
  return r;
}

namespace {

std::string Chars(const std::string& s) {
  std::string r;
  for (char c : s)
    r += (r.empty() ? "" : ",") + vf::Q(std::string(1, c));
  return "[" + r + "]";
}

struct Made {
  std::string s;
  bool same, valid, output, upvalid;
};
Made Make() {
  rst::Guid g;
  Made m;
  m.s = g.AsString();
  const rst::Guid copy = g;
  m.same = m.s == g.AsStringView().value() && m.s == g.AsString() && copy.AsString() == m.s &&
           copy.AsStringView().value() == m.s;
  m.valid = rst::Guid::IsValid(m.s);
  m.output = rst::Guid::IsValidOutputString(m.s);
  std::string up = m.s;
  bool letters = false;
  for (char& c : up)
    if (c >= 'a' && c <= 'f') {
      c = static_cast<char>(c - 'a' + 'A');
      letters = true;
    }
  m.upvalid = rst::Guid::IsValid(up) && rst::Guid::IsValidOutputString(up) == !letters;
  return m;
}
void Say(const char* op, const Made& m) {
  Ev(op).s("r", m.s).raw("c", Chars(m.s)).b("same", m.same).b("valid", m.valid).b("output", m.output)
      .b("upvalid", m.upvalid).end();
}

void Run(const J& ops) {
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    const std::string k = o["k"].str();
    if (k == "gen") {
      for (int n = 0; n < o["n"].i(); n++)
        Say("gen", Make());
    } else if (k == "threads") {
      std::vector<std::vector<Made>> got(static_cast<size_t>(o["n"].i()));
      std::vector<std::thread> ts;
      for (auto& g : got)
        ts.emplace_back([&g]() {
          for (int n = 0; n < 20; n++)
            g.push_back(Make());
        });
      for (auto& t : ts)
        t.join();
      for (auto& g : got)
        for (auto& m : g)
          Say("gen", m);
    } else if (k == "forks") {
      for (int n = 0; n < o["n"].i(); n++) {
        // The child's part of the trace is in shared memory.
        const pid_t pid = fork();
        if (pid == 0) {
          for (int x = 0; x < 5; x++)
            Say("gen", Make());
          _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        Say("gen", Make());
      }
    } else if (k == "bits") {
      for (size_t x = 0; x < o["b"].size(); x++)
        t_bits.push_back(static_cast<unsigned>(o["b"][x].num()));
      t_at = 0;
      Say("made", Make());
      t_bits.clear();
    } else if (k == "all") {
      Ev("all").end();
    } else {
      std::string s;
      for (size_t x = 0; x < o["c"].size(); x++) {
        const std::string& c = o["c"][x].str();
        s += c == "NUL" ? '\0' : c == "HIGH" ? '\xe1' : c[0];
      }
      std::unique_ptr<char[]> exact(new char[s.size()]);
      memcpy(exact.get(), s.data(), s.size());
      const std::string_view v(exact.get(), s.size());
      const bool a = rst::Guid::IsValid(v), b = rst::Guid::IsValidOutputString(v);
      Ev("valid").raw("c", vf::Dump(o["c"])).b("v", a).b("o", b).end();
    }
  }
}

}  // namespace

int main() { return vf::Main(Run); }

// Placeholder functions, explicit copies, wrapped pointers.
#include "drv.h"

#include <functional>
#include <map>
#include <memory>

#include "rst/bind/bind_helpers.h"
#include "rst/clone/clone.h"
#include "rst/memory/memory.h"
#include "rst/not_null/not_null.h"

using vf::Ev;
using vf::J;

namespace {
constexpr int kVars = 3;
int g_ran = 0;
bool g_kept = true;
int g_shape = 0;

template <class Sig>
std::function<Sig> Pass(const std::function<Sig>& f) { return f; }
template <class Sig>
std::function<Sig> PassMoved(std::function<Sig>&& f) { return std::move(f); }

template <class Sig> struct Functions;
template <class R, class... A>
struct Functions<R(A...)> {
  using F = std::function<R(A...)>;
  F v[kVars];
  static F Null(int shape) {
    switch (shape % 5) {
      case 0: return rst::NullFunction();
      case 1: { const rst::NullFunction n; return n; }
      case 2: return Pass<R(A...)>(rst::NullFunction());
      case 3: { F f = [](A...) -> R { g_ran++; return R(); }; f = rst::NullFunction(); return f; }
      default: { rst::NullFunction n; F f(n); return PassMoved<R(A...)>(n); }
    }
  }
  static F Nothing(int shape) {
    if constexpr (std::is_void_v<R>) {
      switch (shape % 6) {
        case 0: return rst::DoNothing();
        case 1: { const rst::DoNothing n; return n; }
        case 2: return Pass<R(A...)>(rst::DoNothing());
        case 3: return rst::DoNothing::Function<A...>();
        case 4: { F f = [](A...) { g_ran++; }; f = rst::DoNothing(); return f; }
        default: { rst::DoNothing n; F f(n); return PassMoved<R(A...)>(n); }
      }
    } else {
      return [](A...) -> R { return R(); };
    }
  }
  static F Real() {
    return [](A...) -> R {
      g_ran++;
      return R();
    };
  }
};
struct Big {
  int a[20] = {};
  std::shared_ptr<int> p = std::make_shared<int>(1);
};
void Call(std::function<void()>& f) { f(); }
void Call(std::function<int(int)>& f) { f(1); }
void Call(std::function<void(int)>& f) { f(1); }
void Call(std::function<void(std::string&, const std::string&, std::string&&)>& f) {
  std::string a(60, 'a'), b(60, 'b'), c(60, 'c');
  f(a, b, std::move(c));
  g_kept = g_kept && a == std::string(60, 'a') && b == std::string(60, 'b') && c == std::string(60, 'c');
}
void Call(std::function<void(std::unique_ptr<int>&&, int*, bool&)>& f) {
  auto p = std::make_unique<int>(5);
  int n = 8;
  bool b = true;
  f(std::move(p), &n, b);
  g_kept = g_kept && p && *p == 5 && n == 8 && b;
}
void Call(std::function<void(std::unique_ptr<int>, Big, const Big&)>& f) {
  Big big, other;
  std::weak_ptr<int> w = big.p, o = other.p;
  f(std::make_unique<int>(1), big, other);
  g_kept = g_kept && w.use_count() == 1 && o.use_count() == 1 && *big.p == 1;
}
void Call(std::function<std::string(const std::string&)>& f) {
  std::string s = "s";
  f(s);
  g_kept = g_kept && s == "s";
}

struct Base {
  virtual ~Base() { dead = true; }
  bool dead = false;
};
std::map<int, int> g_live;
struct Object : Base {
  explicit Object(int n) : id(n) { g_live[n]++; }
  ~Object() override { g_live[id]--; }
  int id;
};

Functions<void()> g_f0;
Functions<int(int)> g_f1;
Functions<void(int)> g_f2;
Functions<void(std::string&, const std::string&, std::string&&)> g_f3;
Functions<void(std::unique_ptr<int>&&, int*, bool&)> g_f4;
Functions<void(std::unique_ptr<int>, Big, const Big&)> g_f5;
Functions<std::string(const std::string&)> g_f6;
std::vector<int> g_v[kVars];
std::map<std::string, std::vector<int>> g_m[kVars];
Object* g_raw[kVars];
std::unique_ptr<Object> g_own[kVars];

template <class X>
void OnFunctions(X& fs, const J& op, int x, int y, int shape, std::string* empty) {
  const J& k = op["k"];
  if (k.is("null")) fs.v[x] = X::Null(shape);
  else if (k.is("nothing")) fs.v[x] = X::Nothing(shape);
  else if (k.is("real")) fs.v[x] = X::Real();
  else if (k.is("copyfn")) { auto f = fs.v[x]; fs.v[y] = f; }
  else if (k.is("call")) Call(fs.v[x]);
  for (int j = 0; j < kVars; j++) {
    const bool e = fs.v[j] == nullptr;
    if (e == bool(fs.v[j])) g_kept = false;
    *empty += std::string(j ? "," : "") + (e ? "true" : "false");
  }
}

void Run(const J& s) {
  const int sig = s["sig"].i();
  g_shape = s["shape"].i();
  int made = 0;
  g_live.clear();
  for (int j = 0; j < kVars; j++) {
    g_v[j].clear();
    g_m[j].clear();
    g_own[j] = nullptr;
    delete g_raw[j];
    g_raw[j] = nullptr;
    g_f0.v[j] = nullptr; g_f1.v[j] = nullptr; g_f2.v[j] = nullptr; g_f3.v[j] = nullptr;
    g_f4.v[j] = nullptr; g_f5.v[j] = nullptr; g_f6.v[j] = nullptr;
  }
  g_live.clear();
  for (const J& op : s["ops"].a) {
    const J& k = op["k"];
    std::string d = vf::Dump(op);
    vf::Raw((vf::g_sh->len ? ",{\"op\":\"do\"," : "{\"op\":\"do\",") + d.substr(1));
    const int x = op["x"].i() - 1, y = op["y"].i() - 1, shape = g_shape++;
    g_ran = 0;
    g_kept = true;
    std::string empty;
    switch (sig) {
      case 0: OnFunctions(g_f0, op, x, y, shape, &empty); break;
      case 1: OnFunctions(g_f1, op, x, y, shape, &empty); break;
      case 2: OnFunctions(g_f2, op, x, y, shape, &empty); break;
      case 3: OnFunctions(g_f3, op, x, y, shape, &empty); break;
      case 4: OnFunctions(g_f4, op, x, y, shape, &empty); break;
      case 5: OnFunctions(g_f5, op, x, y, shape, &empty); break;
      default: OnFunctions(g_f6, op, x, y, shape, &empty); break;
    }
    const int ran = g_ran;
    if (k.is("clone")) {
      {
        auto&& c = rst::Clone(g_v[x]);
        const size_t n = g_v[x].size();
        g_v[x].push_back(9);
        if (c.size() != n) g_kept = false;
        g_v[x].pop_back();
      }
      if (shape % 2) {
        g_v[y] = rst::Clone(g_v[x]);
      } else {
        auto c = rst::Clone(std::as_const(g_v[x]));
        if (c.data() == g_v[x].data() && !c.empty()) g_kept = false;
        g_v[y] = std::move(c);
      }
      g_m[y] = rst::Clone(g_m[x]);
      const auto shared = std::make_shared<int>(0);
      const auto again = rst::Clone(shared);
      if (shared.use_count() != 2 || again != shared) g_kept = false;
    } else if (k.is("grow")) {
      g_v[x].push_back(y + 1);
      g_m[x]["k"].push_back(y + 1);
    } else if (k.is("clear")) {
      g_v[x].clear();
      g_m[x].clear();
    } else if (k.is("new")) {
      g_raw[x] = new Object(++made);
    } else if (k.is("wrap")) {
      Object* p = g_raw[x];
      g_raw[x] = nullptr;
      if (shape % 3 == 0) {
        g_own[y] = rst::WrapUnique(p).Take();
      } else if (shape % 3 == 1) {
        auto u = rst::WrapUnique(rst::NotNull(p));
        if (u.get() != p) g_kept = false;
        g_own[y] = std::move(u).Take();
      } else {
        rst::NotNull<std::unique_ptr<Object>> u = rst::WrapUnique(p);
        if (u.get() != p || u->id != p->id) g_kept = false;
        g_own[y] = std::move(u).Take();
      }
    } else if (k.is("drop")) {
      g_own[x] = nullptr;
    }
    std::string vals, live, own;
    for (int j = 0; j < kVars; j++) {
      std::string l;
      for (int n : g_v[j]) l += (l.empty() ? "" : ",") + std::to_string(n);
      if (g_m[j].count("k") ? g_m[j]["k"] != g_v[j] : !g_v[j].empty()) g_kept = false;
      vals += (j ? ",[" : "[") + l + "]";
      own += (j ? "," : "") + std::to_string(g_own[j] ? g_own[j]->id : 0);
    }
    for (auto& p : g_live)
      for (int n = 0; n < (p.second < 0 ? 2 : p.second); n++) live += (live.empty() ? "" : ",") + std::to_string(p.first);
    Ev("done").n("ran", ran).b("kept", g_kept).raw("empty", "[" + empty + "]").raw("vals", "[" + vals + "]")
        .raw("live", "[" + live + "]").raw("own", "[" + own + "]").end();
  }
}
}  // namespace

int main() { return vf::Main(Run); }

// Weak pointers of several static types to objects that come and go at few
// addresses.
#include "drv.h"

#include <algorithm>
#include <new>
#include <variant>

#include "rst/memory/weak_ptr.h"

using rst::WeakPtr;
using vf::Ev;
using vf::J;

namespace {

class Base : public rst::SupportsWeakPtr<Base> {
 public:
  virtual ~Base() = default;
  int x = 1;
};
class Derived : public Base {
 public:
  int y = 2;
};
class Pad {
 public:
  virtual ~Pad() = default;
  long z[3] = {};
};
class Multi : public Pad, public Base {
 public:
  int w = 3;
};

constexpr int kA = 3, kP = 6;
struct Place {
  alignas(16) char mem[256];
  int inc = 0;
  Base* b = nullptr;
  Derived* d = nullptr;
  Multi* m = nullptr;
};
Place g_a[kA + 1];
int g_inc = 0;

using Any = std::variant<std::monostate, WeakPtr<Base>, WeakPtr<const Base>, WeakPtr<Derived>,
                         WeakPtr<const Derived>, WeakPtr<Multi>, WeakPtr<Pad>>;
Any g_w[kP + 1];
std::vector<std::vector<Any>> g_crowds;
template <class T>
struct Elem;
template <class T>
struct Elem<WeakPtr<T>> {
  using Type = T;
};

template <class F>
void WithType(const std::string& t, F f) {
  if (t == "B")
    f(static_cast<Base*>(nullptr));
  else if (t == "cB")
    f(static_cast<const Base*>(nullptr));
  else if (t == "D")
    f(static_cast<Derived*>(nullptr));
  else if (t == "cD")
    f(static_cast<const Derived*>(nullptr));
  else if (t == "M")
    f(static_cast<Multi*>(nullptr));
  else
    f(static_cast<Pad*>(nullptr));
}

template <class T>
const void* Expected(const Place& a) {
  if constexpr (std::is_same_v<std::remove_const_t<T>, Base>)
    return a.b;
  else if constexpr (std::is_same_v<std::remove_const_t<T>, Derived>)
    return a.d;
  else if constexpr (std::is_same_v<T, Multi>)
    return a.m;
  else
    return a.m ? static_cast<Pad*>(a.m) : nullptr;
}
int Yield(const Any& w) {
  return std::visit(
      [](const auto& p) -> int {
        using W = std::decay_t<decltype(p)>;
        if constexpr (std::is_same_v<W, std::monostate>) {
          return 0;
        } else {
          using T = typename Elem<W>::Type;
          const auto n = p.GetNullable();
          if (n == nullptr)
            return 0;
          for (int a = 1; a <= kA; a++)
            if (g_a[a].inc && Expected<T>(g_a[a]) == static_cast<const void*>(n.get()))
              return g_a[a].inc;
          return 100;
        }
      },
      w);
}

// A function call away, so that both value categories come by.
template <class T>
WeakPtr<T> Through(WeakPtr<T> p) { return p; }

void Do(const J& o) {
  const std::string k = o["k"].str(), t = o["t"].str(), how = o["how"].str();
  Place& a = g_a[k == "crowd" ? 0 : o["a"].i()];
  Any& p = g_w[o["p"].i()];
  Any& f = g_w[o["f"].i()];
  if (k == "make") {
    a.inc = ++g_inc;
    a.d = nullptr;
    a.m = nullptr;
    if (t == "B")
      a.b = new (a.mem) Base;
    else if (t == "D")
      a.b = a.d = new (a.mem) Derived;
    else
      a.b = a.m = new (a.mem) Multi;
  } else if (k == "kill") {
    if (a.m)
      a.m->~Multi();
    else if (a.d)
      a.d->~Derived();
    else
      a.b->~Base();
    memset(a.mem, 0x5a, sizeof a.mem);
    a.inc = 0;
  } else if (k == "get") {
    WithType(t, [&](auto* x) {
      using T = std::remove_pointer_t<decltype(x)>;
      WeakPtr<T> r;
      if constexpr (std::is_same_v<T, Pad>)
        _exit(94);
      else if constexpr (std::is_same_v<T, Base>)
        r = o["a"].i() % 2 ? a.b->AsWeakPtr() : rst::AsWeakPtr(a.b);
      else if constexpr (std::is_same_v<T, const Base>)
        r = o["a"].i() % 2 ? static_cast<const Base*>(a.b)->AsWeakPtr()
                           : rst::AsWeakPtr(static_cast<const Base*>(a.b));
      else if constexpr (std::is_same_v<T, Multi>)
        r = rst::AsWeakPtr(a.m);
      else
        r = rst::AsWeakPtr(rst::NotNull<T*>(a.d));
      if (p.index() == 0)
        p = Any(std::in_place_type<WeakPtr<T>>, std::move(r));
      else
        *std::get_if<WeakPtr<T>>(&p) = std::move(r);
    });
  } else if (k == "null") {
    WithType(t, [&](auto* x) {
      using T = std::remove_pointer_t<decltype(x)>;
      if (how == "default")
        p.emplace<WeakPtr<T>>();
      else
        p.emplace<WeakPtr<T>>(nullptr);
    });
  } else if (k == "reset") {
    std::visit([](auto& x) {
      if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
        x = nullptr;
    }, p);
  } else if (k == "drop") {
    p.emplace<std::monostate>();
  } else if (k == "new") {
    WithType(t, [&](auto* x) {
      using T = std::remove_pointer_t<decltype(x)>;
      std::visit([&](auto& src) {
        using W = std::decay_t<decltype(src)>;
        if constexpr (!std::is_same_v<W, std::monostate>) {
          using S = typename Elem<W>::Type;
          if constexpr (std::is_convertible_v<S*, T*>) {
            Any n;
            if (how == "move")
              n.emplace<WeakPtr<T>>(std::move(src));
            else
              n.emplace<WeakPtr<T>>(static_cast<const W&>(src));
            if (o["p"].i() % 2)
              p = Any(std::in_place_type<WeakPtr<T>>, Through(std::move(*std::get_if<WeakPtr<T>>(&n))));
            else
              p = std::move(n);
          }
        }
      }, f);
    });
  } else if (k == "set") {
    std::visit([&](auto& dst, auto& src) {
      using V = std::decay_t<decltype(dst)>;
      using W = std::decay_t<decltype(src)>;
      if constexpr (!std::is_same_v<W, std::monostate> && !std::is_same_v<V, std::monostate>) {
        if constexpr (std::is_convertible_v<typename Elem<W>::Type*, typename Elem<V>::Type*>) {
          if (how == "move")
            dst = std::move(src);
          else
            dst = static_cast<const W&>(src);
        }
      }
    }, p, f);
  } else if (k == "crowd") {
    g_crowds.emplace_back();
    for (int n = o["a"].i(); n > 0; n--)
      g_crowds.back().push_back(p);
  } else if (k == "disperse") {
    g_crowds.clear();
  }
}

void Run(const J& ops) {
  for (auto& w : g_w)
    w.emplace<std::monostate>();
  g_crowds.clear();
  for (auto& a : g_a) {
    if (a.inc) {
      a.b->~Base();
      a.inc = 0;
    }
  }
  g_inc = 0;
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    Do(o);
    std::string y;
    for (int p = 1; p <= kP; p++)
      y += (p > 1 ? "," : "") + std::to_string(Yield(g_w[p]));
    std::string c;
    if (!g_crowds.empty() && (o["k"].is("kill") || o["k"].is("make") || o["k"].is("crowd") || i + 1 == ops.size())) {
      for (const auto& g : g_crowds) {
        std::vector<int> all;
        for (const auto& w : g) {
          if (const int r = Yield(w); std::find(all.begin(), all.end(), r) == all.end())
            all.push_back(r);
        }
        c += c.empty() ? "[" : ",[";
        for (size_t x = 0; x < all.size(); x++)
          c += (x ? "," : "") + std::to_string(all[x]);
        c += "]";
      }
    }
    Ev ev("done");
    if (!c.empty())
      ev.raw("c", "[" + c + "]");
    ev.s("k", o["k"].str()).n("a", o["a"].i()).n("p", o["p"].i()).n("f", o["f"].i())
        .s("t", o["t"].str()).s("how", o["how"].str()).raw("y", "[" + y + "]").end();
  }
}

}  // namespace

int main() { return vf::Main(Run); }

// Never-null and nullable wrappers of raw, unique and shared pointers.
#include "drv.h"

#include <functional>
#include <memory>
#include <set>
#include <variant>

#include "rst/not_null/not_null.h"

using rst::NotNull;
using rst::Nullable;
using vf::Ev;
using vf::J;

namespace {

std::set<int> g_alive;
struct Pad {
  virtual ~Pad() = default;
  long z = 7;
};
struct B {
  virtual ~B() = default;
  int id = 0;
};
struct D : Pad, B {
  explicit D(int n, bool owned = true) {
    id = n;
    own = owned;
    if (owned)
      g_alive.insert(n);
  }
  ~D() override {
    if (own)
      g_alive.erase(id);
    id = -5;
  }
  bool own;
};
using cB = const B;

// Each raw object is followed by its neighbour.
D g_r1[2] = {D(1, false), D(1001, false)};
D g_r2[2] = {D(2, false), D(1002, false)};
D* Raw(int o) { return o == 1 ? g_r1 : o == 2 ? g_r2 : nullptr; }

constexpr int kSlots = 4;
int g_nid;

using Slot = std::variant<
    std::monostate,
    NotNull<D*>, NotNull<B*>, NotNull<cB*>, Nullable<D*>, Nullable<B*>, Nullable<cB*>,
    NotNull<std::unique_ptr<D>>, NotNull<std::unique_ptr<B>>, NotNull<std::unique_ptr<cB>>,
    Nullable<std::unique_ptr<D>>, Nullable<std::unique_ptr<B>>, Nullable<std::unique_ptr<cB>>,
    NotNull<std::shared_ptr<D>>, NotNull<std::shared_ptr<B>>, NotNull<std::shared_ptr<cB>>,
    Nullable<std::shared_ptr<D>>, Nullable<std::shared_ptr<B>>, Nullable<std::shared_ptr<cB>>>;
struct Cell {
  Slot v;
  bool moved = false;
};
Cell g_s[kSlots + 1];

template <class P>
struct PtrInfo;
template <class T>
struct PtrInfo<T*> {
  static constexpr char kP = 'R';
  using E = T;
  template <class X>
  using Of = X*;
};
template <class T>
struct PtrInfo<std::unique_ptr<T>> {
  static constexpr char kP = 'U';
  using E = T;
  template <class X>
  using Of = std::unique_ptr<X>;
};
template <class T>
struct PtrInfo<std::shared_ptr<T>> {
  static constexpr char kP = 'S';
  using E = T;
  template <class X>
  using Of = std::shared_ptr<X>;
};
template <class W>
struct Info;
template <class P>
struct Info<NotNull<P>> : PtrInfo<P> {
  static constexpr char kW = 'N';
};
template <class P>
struct Info<Nullable<P>> : PtrInfo<P> {
  static constexpr char kW = 'L';
};
template <class X>
constexpr bool kEmpty = std::is_same_v<std::decay_t<X>, std::monostate>;

template <class X>
struct Tag {
  using Type = X;
};
template <size_t I = 1, class F>
void WithType(const std::string& w, const std::string& p, const std::string& t, F f) {
  if constexpr (I < std::variant_size_v<Slot>) {
    using X = std::variant_alternative_t<I, Slot>;
    using E = typename Info<X>::E;
    const char* e = std::is_same_v<E, D> ? "D" : std::is_same_v<E, B> ? "B" : "cB";
    if (w[0] == Info<X>::kW && p[0] == Info<X>::kP && t == e)
      f(Tag<X>());
    else
      WithType<I + 1>(w, p, t, f);
  } else {
    _exit(95);
  }
}

template <class T>
int Id(T* p) {
  if (p == nullptr)
    return 0;
  const void* q = dynamic_cast<const void*>(p);
  for (int o = 1; o <= 2; o++)
    for (int j = 0; j < 2; j++)
      if (q == Raw(o) + j)
        return o + 1000 * j;
  return p->id;
}

// A plain pointer of the kind, null or not.
template <class P, class E>
auto Plain(bool null, int o) {
  using Q = typename PtrInfo<P>::template Of<E>;
  if constexpr (std::is_pointer_v<Q>) {
    return null ? Q(nullptr) : Q(Raw(o));
  } else {
    return null ? Q() : Q(new D(++g_nid));
  }
}

template <class T>
NotNull<T> Through(NotNull<T> x) { return x; }
template <class T>
Nullable<T> Through(Nullable<T> x) { return x; }

// Hands a source of the operation to f.
template <class X, class F>
void WithSource(const J& o, F f) {
  using In = Info<X>;
  using E = typename In::E;
  using P = std::decay_t<decltype(std::declval<typename In::template Of<E>>())>;
  const std::string src = o["src"].str();
  const bool d = o["pt"].is("D");
  if (src == "null" || src == "ptr") {
    if (d) {
      f(Plain<P, D>(src == "null", o["o"].i()));
    } else if constexpr (!std::is_same_v<E, D>) {
      f(Plain<P, B>(src == "null", o["o"].i()));
    }
  } else if (src == "nullptr") {
    if constexpr (In::kW == 'L')
      f(nullptr);
  } else {
    Cell& c = g_s[o["f"].i()];
    std::visit([&](auto& y) {
      using Y = std::decay_t<decltype(y)>;
      if constexpr (!kEmpty<Y>) {
        if constexpr (Info<Y>::kP == In::kP && std::is_convertible_v<typename Info<Y>::E*, E*>) {
          if (src == "move")
            f(std::move(y));
          else if constexpr (In::kP != 'U')
            f(static_cast<const Y&>(y));
        }
      }
    }, c.v);
    if (src == "move")
      c.moved = true;
  }
}

long long g_r, g_truth;

void Do(const J& o) {
  const std::string k = o["k"].str(), how = o["how"].str();
  Cell& c = g_s[o["s"].i()];
  g_r = g_truth = 0;
  if (k == "ctor") {
    WithType(o["w"].str(), o["p"].str(), o["t"].str(), [&](auto tag) {
      using X = typename decltype(tag)::Type;
      if (o["src"].is("default")) {
        if constexpr (Info<X>::kW == 'L')
          c.v.emplace<X>();
      } else {
        WithSource<X>(o, [&](auto&& y) {
          if (o["s"].i() % 2) {
            c.v.emplace<X>(std::forward<decltype(y)>(y));
          } else {
            // As an initializer, and out of a function.
            X x = std::forward<decltype(y)>(y);
            if constexpr (Info<X>::kP == 'U')
              c.v.emplace<X>(std::move(x));
            else if (Info<X>::kW == 'L')
              c.v.emplace<X>(x);
            else
              c.v.emplace<X>(Through(x));
          }
        });
      }
    });
    c.moved = false;
  } else if (k == "del") {
    c.v.emplace<std::monostate>();
    c.moved = false;
  } else {
    std::visit([&](auto& x) {
      using X = std::decay_t<decltype(x)>;
      if constexpr (!kEmpty<X>) {
        using In = Info<X>;
        const X& cx = x;
        if (k == "set") {
          WithSource<X>(o, [&](auto&& y) { x = std::forward<decltype(y)>(y); });
          c.moved = false;
        } else if (k == "isnull") {
          if constexpr (In::kW == 'L')
            g_r = how == "eq" ? cx == nullptr : how == "req" ? nullptr == cx : how == "ne" ? cx != nullptr : nullptr != cx;
        } else if (k == "cmp") {
          std::visit([&](auto& y) {
            using Y = std::decay_t<decltype(y)>;
            if constexpr (!kEmpty<Y>) {
              if (how == "eq")
                g_r = cx == y;
              else if (how == "ne")
                g_r = cx != y;
              else if constexpr (In::kW == Info<Y>::kW) {
                g_r = cx < y;
                const B* a = cx.get();
                const B* b = y.get();
                g_truth = std::less<const B*>()(a, b);
              }
            }
          }, g_s[o["f"].i()].v);
        } else if (k == "rawcmp") {
          auto cmp = [&](auto* p) {
            g_r = how == "eq" ? cx == p : how == "req" ? p == cx : how == "ne" ? cx != p : p != cx;
          };
          if (o["pt"].is("D"))
            cmp(static_cast<const D*>(Raw(o["o"].i())));
          else
            cmp(static_cast<B*>(Raw(o["o"].i())));
        } else if (k == "get") {
          g_r = Id(cx.get());
        } else if (k == "hash") {
          g_r = std::hash<X>()(cx) == std::hash<typename In::E*>()(cx.get());
        } else if (k == "deref") {
          if (how == "star") {
            g_r = Id(&*cx);
          } else if (how == "arrow") {
            g_r = cx->id;
          } else if constexpr (In::kP == 'R' && std::is_same_v<typename In::E, D>) {
            g_r = Id(&cx[how == "at0" ? 0 : 1]);
            if (how == "at1")
              g_r = g_r > 1000 ? g_r : -1;
          }
        } else if (k == "take") {
          if constexpr (In::kP != 'R') {
            auto p = std::move(x).Take();
            g_r = Id(p.get());
            c.moved = true;
          }
        }
      }
    }, c.v);
  }
}

void Run(const J& ops) {
  for (auto& c : g_s) {
    c.v.emplace<std::monostate>();
    c.moved = false;
  }
  g_nid = 10;
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    Ev("do").s("k", o["k"].str()).n("s", o["s"].i()).n("f", o["f"].i()).s("w", o["w"].str())
        .s("p", o["p"].str()).s("t", o["t"].str()).s("src", o["src"].str()).s("pt", o["pt"].str())
        .n("o", o["o"].i()).s("how", o["how"].str()).end();
    Do(o);
    Ev("ret").end();
    std::string alive, vals;
    for (int k : g_alive)
      alive += (alive.empty() ? "" : ",") + std::to_string(k);
    for (int s = 1; s <= kSlots; s++) {
      int v = -1;
      if (!g_s[s].moved)
        std::visit([&](auto& x) {
          if constexpr (!kEmpty<decltype(x)>)
            v = Id(x.get());
        }, g_s[s].v);
      vals += (s > 1 ? "," : "") + std::to_string(v);
    }
    Ev("done").n("r", g_r).n("truth", g_truth).raw("alive", "[" + alive + "]").raw("vals", "[" + vals + "]").end();
  }
}

}  // namespace

int main() { return vf::Main(Run); }

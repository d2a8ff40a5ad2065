// Variables of strong types over several underlying types.
#include "drv.h"

#include <limits>
#include <memory>
#include <new>
#include <set>
#include <type_traits>
#include <unordered_set>

#include "rst/type/type.h"

using vf::Ev;
using vf::J;

namespace {
int g_copies = 0;

// Ordered like pairs; says when it is copied.
struct Point {
  Point() = default;
  Point(int v) : x(v % 3), y(v / 3) {}
  Point(const Point& o) : x(o.x), y(o.y) { g_copies++; }
  Point(Point&& o) noexcept : x(o.x), y(o.y) { o.x = o.y = 77; }
  Point& operator=(const Point& o) { x = o.x; y = o.y; g_copies++; return *this; }
  Point& operator=(Point&& o) noexcept {
    const int a = o.x, b = o.y;
    o.x = o.y = 77;
    x = a;
    y = b;
    return *this;
  }
  bool operator==(const Point& o) const { return x == o.x && y == o.y; }
  bool operator!=(const Point& o) const { return !(*this == o); }
  bool operator<=(const Point& o) const { return x <= o.x && y <= o.y; }
  bool operator>=(const Point& o) const { return o <= *this; }
  bool operator<(const Point& o) const { return *this <= o && *this != o; }
  bool operator>(const Point& o) const { return o < *this; }
  int x = 0, y = 0;
};
}  // namespace
template <>
struct std::hash<Point> {
  size_t operator()(const Point& p) const { return static_cast<size_t>(p.x * 1000003 + p.y + 12345); }
};
namespace {

template <class U> struct Of;
template <> struct Of<int> {
  static constexpr const char* kName = "int";
  static int Make(int v) { return v == 0 ? 0 : v == 5 ? std::numeric_limits<int>::max() : v * 1000 - 1; }
};
template <> struct Of<int8_t> {
  static constexpr const char* kName = "small";
  static int8_t Make(int v) { return static_cast<int8_t>(v * 25); }
};
template <> struct Of<uint64_t> {
  static constexpr const char* kName = "wide";
  static uint64_t Make(int v) { return v == 0 ? 0 : (uint64_t{1} << 32) * static_cast<unsigned>(v) * 500000000 + 7; }
};
template <> struct Of<double> {
  static constexpr const char* kName = "double";
  static double Make(int v) {
    return v == 0 ? 0.0 : v == 1 ? -0.0 : v == 2 ? 1.5 : v == 3 ? std::numeric_limits<double>::quiet_NaN()
         : v == 4 ? -std::numeric_limits<double>::infinity() : 0.7;
  }
};
template <> struct Of<std::string> {
  static constexpr const char* kName = "string";
  static std::string Make(int v) {
    static const char* t[] = {"", "a", "aa", "ab", "b"};
    return v < 5 ? t[v] : "bb" + std::string(100, 'c');
  }
};
template <> struct Of<Point> {
  static constexpr const char* kName = "pair";
  static Point Make(int v) { return Point(v); }
};
int g_cells[6];
struct Free { void operator()(int*) const {} };
using Unique = std::unique_ptr<int, Free>;
template <> struct Of<Unique> {
  static constexpr const char* kName = "unique";
  static Unique Make(int v) { return Unique(v == 0 ? nullptr : &g_cells[v]); }
};

template <class U>
int Back(const U& u) {
  for (int v = 0; v < 6; v++) {
    const U m = Of<U>::Make(v);
    if constexpr (std::is_same_v<U, double>) {
      if (memcmp(&m, &u, sizeof u) == 0) return v;
    } else {
      if (m == u) return v;
    }
  }
  return 99;
}

template <class A, class B, class = void>
struct Comparable : std::false_type {};
template <class A, class B>
struct Comparable<A, B, std::void_t<decltype(std::declval<const A&>() == std::declval<const B&>())>> : std::true_type {};
template <class A, class B, class = void>
struct Less : std::false_type {};
template <class A, class B>
struct Less<A, B, std::void_t<decltype(std::declval<const A&>() < std::declval<const B&>())>> : std::true_type {};

constexpr int kSlots = 4;
template <class U>
void Play(const J& ops) {
  using T = rst::Type<class ATag, U>;
  using Other = rst::Type<class BTag, U>;
  Ev("static").b("explicitin", std::is_constructible_v<T, U&&>).b("explicitout", std::is_constructible_v<U, const T&> || !std::is_copy_constructible_v<U>)
      .b("implicitin", std::is_convertible_v<U, T>).b("implicitout", std::is_convertible_v<T, U>)
      .b("across", std::is_constructible_v<T, const Other&> || std::is_constructible_v<T, Other&&>)
      .b("acrossassign", std::is_assignable_v<T&, const Other&> || std::is_assignable_v<T&, Other&&> || std::is_assignable_v<T&, U&&>)
      .b("acrosscompare", Comparable<T, Other>::value || Less<T, Other>::value || Comparable<T, U>::value || Less<U, T>::value)
      .b("small", sizeof(T) == sizeof(U))
      .b("quietmove", std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> &&
                      (std::is_trivially_copyable_v<T> || !std::is_trivially_copyable_v<U>))
      .end();
  alignas(T) static unsigned char mem[kSlots][sizeof(T)];
  bool is[kSlots] = {};
  bool moved[kSlots] = {};
  auto at = [&](const J& n) -> T& { return *std::launder(reinterpret_cast<T*>(mem[n.i() - 1])); };
  for (const J& op : ops.a) {
    std::string d = vf::Dump(op);
    vf::Raw((vf::g_sh->len ? ",{\"op\":\"do\"," : "{\"op\":\"do\",") + d.substr(1));
    const J& k = op["k"];
    const int di = op["d"].i() - 1, si = op["s"].i() - 1;
    void* place = mem[di];
    g_copies = 0;
    int copies = 0;
    if (k.is("default")) {
      memset(place, 0xa5, sizeof(T));
      new (place) T();
    } else if (k.is("fromcopy")) {
      if constexpr (std::is_copy_constructible_v<U>) {
        const U u = Of<U>::Make(op["v"].i());
        g_copies = 0;
        new (place) T(u);
      }
    } else if (k.is("frommove")) {
      U u = Of<U>::Make(op["v"].i());
      g_copies = 0;
      new (place) T(std::move(u));
    } else if (k.is("copy")) {
      if constexpr (std::is_copy_constructible_v<U>)
        new (place) T(std::as_const(at(op["s"])));
    } else if (k.is("move")) {
      new (place) T(std::move(at(op["s"])));
    } else if (k.is("assign")) {
      if constexpr (std::is_copy_constructible_v<U>) {
        T& r = (at(op["d"]) = std::as_const(at(op["s"])));
        if (&r != &at(op["d"])) Ev("wrong").end();
      }
    } else if (k.is("massign")) {
      T& r = (at(op["d"]) = std::move(at(op["s"])));
      if (&r != &at(op["d"])) Ev("wrong").end();
    } else if (k.is("swap")) {
      using std::swap;
      if (di != si)
        swap(at(op["d"]), at(op["s"]));
    } else if (k.is("convert")) {
      if constexpr (std::is_copy_constructible_v<U>) {
        U u = static_cast<U>(std::as_const(at(op["s"])));
        copies = g_copies;
        new (place) T(std::move(u));
      }
    } else if (k.is("destroy")) {
      at(op["d"]).~T();
    }
    copies = g_copies;
    if (k.is("destroy")) is[di] = false;
    else is[di] = true, moved[di] = k.is("swap") ? moved[di] : false;
    if (k.is("move") || k.is("massign")) moved[si] = true;
    std::string vals, cmp;
    bool hashok = true;
    std::set<int> a;
    std::vector<const T*> live;
    for (int s = 0; s < kSlots; s++) {
      const T& t = *std::launder(reinterpret_cast<T*>(mem[s]));
      int v = -1;
      if (is[s])
        v = moved[s] ? -2 : Back<U>(t.value());
      vals += (s ? "," : "") + std::to_string(v);
      if (!is[s] || moved[s]) continue;
      live.push_back(&t);
      if (std::hash<T>()(t) != std::hash<U>()(t.value())) hashok = false;
      // Where the value is.
      const U& in = t.value();
      if (reinterpret_cast<const unsigned char*>(&in) != mem[s]) hashok = false;
      for (int z = 0; z < kSlots; z++) {
        if (!is[z] || moved[z]) continue;
        const T& u = *std::launder(reinterpret_cast<T*>(mem[z]));
        const bool r[6] = {t == u, t != u, t < u, t <= u, t > u, t >= u};
        cmp += (cmp.empty() ? "" : ",") + std::string("{\"a\":") + std::to_string(s + 1) + ",\"b\":" + std::to_string(z + 1) + ",\"r\":[";
        for (int j = 0; j < 6; j++)
          cmp += std::string(j ? "," : "") + (r[j] ? "true" : "false");
        cmp += "]}";
      }
    }
    size_t ins = 0, inh = 0;
    if constexpr (std::is_copy_constructible_v<U>) {
      std::set<T> o;
      std::unordered_set<T> h;
      for (auto* p : live) {
        if (!std::is_same_v<U, double>) o.insert(*p);
        h.insert(*p);
      }
      for (auto* p : live)
        if (h.count(*p) != (*p == *p)) hashok = false;
      ins = o.size();
      inh = h.size();
    } else {
      std::set<std::reference_wrapper<const T>, std::less<T>> o;
      std::unordered_set<std::reference_wrapper<const T>, std::hash<T>, std::equal_to<T>> h;
      for (auto* p : live) {
        o.insert(*p);
        h.insert(*p);
      }
      ins = o.size();
      inh = h.size();
    }
    Ev("done").n("copies", std::is_same_v<U, Point> ? copies : -1).raw("vals", "[" + vals + "]").raw("cmp", "[" + cmp + "]")
        .b("hashok", hashok).n("inset", static_cast<int>(ins)).n("inhash", static_cast<int>(inh)).end();
  }
  for (int s = 0; s < kSlots; s++)
    if (is[s]) std::launder(reinterpret_cast<T*>(mem[s]))->~T();
}

void Run(const J& s) {
  const J &u = s["u"], &ops = s["ops"];
  if (u.is("int")) Play<int>(ops);
  else if (u.is("small")) Play<int8_t>(ops);
  else if (u.is("wide")) Play<uint64_t>(ops);
  else if (u.is("double")) Play<double>(ops);
  else if (u.is("string")) Play<std::string>(ops);
  else if (u.is("pair")) Play<Point>(ops);
#ifndef NO_UNIQUE
  else if (u.is("unique")) Play<Unique>(ops);
#endif
  else _exit(95);
}
}  // namespace

int main() { return vf::Main(Run); }

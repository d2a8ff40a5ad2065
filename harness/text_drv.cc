// Formatting and concatenation of lists of arguments of all types.
#include "drv.h"

#include <memory>
#include <utility>
#include <variant>

#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"

using vf::Ev;
using vf::J;

namespace {

enum class Ei8 : int8_t { kA };
enum class Eu8 : uint8_t { kA };
enum class E32 { kA };
enum class Eu64 : uint64_t { kA };
enum Old { kOld0, kOld3 = 3 };

using NN = rst::NotNull<const char*>;
using CStr = const char*;
using V = std::variant<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned int, long,
                       unsigned long, long long, unsigned long long, float, double, long double,
                       std::string_view, std::string, CStr, NN, Ei8, Eu8, E32, Eu64, Old>;

// Strings in memory of their own size.
std::vector<std::unique_ptr<char[]>> g_mem;
std::string_view Exact(const std::string& s) {
  g_mem.emplace_back(new char[s.size()]);
  memcpy(g_mem.back().get(), s.data(), s.size());
  return std::string_view(g_mem.back().get(), s.size());
}
CStr ExactC(const std::string& s) {
  g_mem.emplace_back(new char[s.size() + 1]);
  memcpy(g_mem.back().get(), s.c_str(), s.size() + 1);
  return g_mem.back().get();
}

std::string Written(const std::string& t, const std::string& v) {
  if (v == "LONG")
    return std::string(1500, 'L') + "{}" + std::string(1500, '}');
  if (v == "HUGE")
    return std::string(65530, 'H') + "{}" + std::string(35000, '{');
  if (v == "NULS")
    return std::string("\0a\0\0", 4);
  if (v == "NUL")
    return std::string(1, '\0');
  if (v == "nodata")
    return "";
  (void)t;
  return v;
}

template <class T>
V Num(const std::string& v) {
  using U = std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::common_type<T>>;
  using R = typename U::type;
  if constexpr (std::is_signed_v<R>)
    return static_cast<T>(strtoll(v.c_str(), nullptr, 10));
  else
    return static_cast<T>(strtoull(v.c_str(), nullptr, 10));
}

V Value(const std::string& t, const std::string& name) {
  const std::string v = Written(t, name);
  if (t == "bool") return v == "1";
  if (t == "char") return v[0];
  if (t == "i8") return Num<signed char>(v);
  if (t == "u8") return Num<unsigned char>(v);
  if (t == "i16") return Num<short>(v);
  if (t == "u16") return Num<unsigned short>(v);
  if (t == "i32") return Num<int>(v);
  if (t == "u32") return Num<unsigned int>(v);
  if (t == "long") return Num<long>(v);
  if (t == "ulong") return Num<unsigned long>(v);
  if (t == "i64") return Num<long long>(v);
  if (t == "u64") return Num<unsigned long long>(v);
  if (t == "flt") return strtof(v.c_str(), nullptr);
  if (t == "dbl") return strtod(v.c_str(), nullptr);
  if (t == "ldbl") return strtold(v.c_str(), nullptr);
  if (t == "sv") return name == "nodata" ? std::string_view() : Exact(v);
  if (t == "str") return v;
  if (t == "cstr") return ExactC(v);
  if (t == "nncstr") return V(std::in_place_type<NN>, ExactC(v));
  if (t == "ei8") return Num<Ei8>(v);
  if (t == "eu8") return Num<Eu8>(v);
  if (t == "e32") return Num<E32>(v);
  if (t == "eu64") return Num<Eu64>(v);
  if (t == "old") return V(kOld3);
  _exit(95);
}

// One argument whose type is known when it is used only.
struct Dyn {
  const V* v;
  operator rst::internal::Arg() const {  // NOLINT
    return std::visit([](const auto& x) -> rst::internal::Arg { return rst::internal::Arg(x); }, *v);
  }
};

template <size_t... I>
std::string CatN(const std::vector<V>& v, std::index_sequence<I...>) {
  return rst::StrCat({Dyn{&v[I]}...});
}
constexpr size_t kMaxCat = 12;
// Longer lists have one of these lengths.
template <size_t... N>
std::string CatLong(const std::vector<V>& v, std::index_sequence<N...>) {
  std::string r;
  const bool known = ((v.size() == N && (r = CatN(v, std::make_index_sequence<N>()), true)) || ...);
  if (!known)
    _exit(94);
  return r;
}
template <size_t N = 0>
std::string CatDyn(const std::vector<V>& v) {
  if constexpr (N > kMaxCat) {
    return CatLong(v, std::index_sequence<17, 20, 33, 40, 65, 130, 260>());
  } else {
    if (v.size() == N)
      return CatN(v, std::make_index_sequence<N>());
    return CatDyn<N + 1>(v);
  }
}
std::string CatAll(const std::vector<V>& v) {
  // Short lists as a user writes them.
  if (v.size() == 1)
    return std::visit([](const auto& a) { return rst::StrCat({a}); }, v[0]);
  if (v.size() == 2)
    return std::visit([](const auto& a, const auto& b) { return rst::StrCat({a, b}); }, v[0], v[1]);
  return CatDyn(v);
}

constexpr size_t kMaxFmt = 44, kMaxArgs = 6;
template <size_t N, size_t... I>
std::string FmtN(const char (&f)[N], const std::vector<V>& v, std::index_sequence<I...>) {
  if constexpr (sizeof...(I) == 0)
    return rst::Format(f);
  else
    return rst::Format(f, {Dyn{&v[I]}...});
}
template <size_t N, size_t... A>
std::string FmtMany(const char (&f)[N], const std::vector<V>& v, std::index_sequence<A...>) {
  std::string r;
  const bool known = ((v.size() == A && (r = FmtN(f, v, std::make_index_sequence<A>()), true)) || ...);
  if (!known)
    _exit(93);
  return r;
}
template <size_t N, size_t A = 0>
std::string FmtArgs(const char (&f)[N], const std::vector<V>& v) {
  if constexpr (A > kMaxArgs) {
    if constexpr (N > kMaxFmt + 1)
      return FmtMany(f, v, std::index_sequence<10, 17, 20, 33, 65, 130>());
    else
      _exit(93);
  } else {
    if (v.size() == A)
      return FmtN(f, v, std::make_index_sequence<A>());
    return FmtArgs<N, A + 1>(f, v);
  }
}
template <size_t N>
std::string FmtOf(const std::string& f, const std::vector<V>& v) {
  std::unique_ptr<char[]> own(new char[N + 1]);
  memcpy(own.get(), f.c_str(), N + 1);
  return FmtArgs(*reinterpret_cast<const char(*)[N + 1]>(own.get()), v);
}
template <size_t... N>
std::string FmtLong(const std::string& f, const std::vector<V>& v, std::index_sequence<N...>) {
  std::string r;
  const bool known = ((f.size() == N && (r = FmtOf<N>(f, v), true)) || ...);
  if (!known)
    _exit(92);
  return r;
}
template <size_t N = 0>
std::string FmtAll(const std::string& f, const std::vector<V>& v) {
  if constexpr (N > kMaxFmt) {
    return FmtLong(f, v, std::index_sequence<100, 150, 254, 300, 600>());
  } else {
    if (f.size() != N)
      return FmtAll<N + 1>(f, v);
    return FmtOf<N>(f, v);
  }
}

void Run(const J& ops) {
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    std::vector<V> args;
    std::string l;
    for (size_t x = 0; x < o["l"].size(); x++) {
      const J& a = o["l"][x];
      args.push_back(Value(a["t"].str(), a["v"].str()));
      l += (x ? ",{\"t\":" : "{\"t\":") + vf::Q(a["t"].str()) + ",\"v\":" + vf::Q(Written(a["t"].str(), a["v"].str())) + "}";
    }
    std::string r;
    if (o["k"].is("cat")) {
      Ev("do").s("k", "cat").raw("l", "[" + l + "]").end();
      r = CatAll(args);
    } else {
      std::string f;
      for (size_t x = 0; x < o["f"].size(); x++)
        f += o["f"][x].str();
      Ev("do").s("k", "fmt").raw("l", "[" + l + "]").raw("f", vf::Dump(o["f"])).end();
      r = FmtAll(f, args);
    }
    Ev("done").s("r", r).end();
    g_mem.clear();
  }
}

}  // namespace

int main() { return vf::Main(Run); }

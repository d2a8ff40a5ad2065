// Variables with function objects that are taken, called and filled; vectors
// that are built.
#include "drv.h"

#include <functional>
#include <memory>
#include <type_traits>

#include "rst/stl/function.h"
#include "rst/stl/vector_builder.h"

using vf::Ev;
using vf::J;

namespace {
std::map<int, int> g_live;
struct Tok {
  explicit Tok(int k) : id(k) { g_live[id]++; }
  Tok(const Tok& o) : id(o.id) { g_live[id]++; }
  Tok(Tok&& o) noexcept : id(o.id) { g_live[id]++; }
  ~Tok() { g_live[id]--; }
  Tok& operator=(const Tok& o) { g_live[id]--; id = o.id; g_live[id]++; return *this; }
  int id;
};
template <bool Big>
struct Pad { char c[96] = {}; };
template <>
struct Pad<false> {};

bool g_peek = false, g_ok = true;
int g_pid, g_pn;
const J* g_op = nullptr;

template <class Sig>
struct Vars {
  using F = std::function<Sig>;
  static inline F v[3];
};

template <class Sig, bool Big>
struct Body;
template <class Sig>
void Ran(int id, int n, bool fired);
template <class R, class... A, bool Big>
struct Body<R(A...), Big> {
  explicit Body(int id) : tok(std::make_shared<Tok>(id)) {}
  R operator()(A... a) {
    if (g_peek) {
      g_pid = tok->id;
      g_pn = n;
    } else {
      n++;
      Ran<R(A...)>(tok->id, n, (*g_op)["k"].is("fire"));
    }
    if constexpr (!std::is_void_v<R>)
      return R(std::move(a)...);
  }
  std::shared_ptr<Tok> tok;
  int n = 0;
  Pad<Big> pad;
};

void Invoke(std::function<void()>& f) { f(); }
void Invoke(std::function<int(int)>& f) { if (f(41) != 41) g_ok = false; }
void Invoke(std::function<std::unique_ptr<int>(std::unique_ptr<int>)>& f) {
  auto r = f(std::make_unique<int>(7));
  if (!r || *r != 7) g_ok = false;
}
void Invoke(std::function<std::string(std::string&)>& f) {
  std::string s(50, 'x');
  if (f(s) != std::string(50, 'x')) g_ok = false;
}

template <class Sig>
std::string Look(int skip) {
  std::string r;
  for (auto& f : Vars<Sig>::v) {
    r += r.empty() ? "[" : ",";
    if (!f || f == nullptr) {
      if (bool(f) || f != nullptr) g_ok = false;
      r += "[0,0]";
      continue;
    }
    g_peek = true;
    g_pid = g_pn = -1;
    // The one that runs right now is not called again.
    Invoke(f);
    g_peek = false;
    r += g_pid == skip ? "[]" : "[" + std::to_string(g_pid) + "," + std::to_string(g_pn) + "]";
  }
  return r + "]";
}

template <class Sig>
std::function<Sig> Make(int id, bool big) {
  if (big) return Body<Sig, true>(id);
  return Body<Sig, false>(id);
}

template <class Sig>
void Ran(int id, int n, bool fired) {
  auto* v = Vars<Sig>::v;
  const J& op = *g_op;
  Ev("ran").n("id", id).n("n", n).raw("v", Look<Sig>(fired ? -7 : id)).end();
  if (!fired) return;
  const int x = op["x"].i() - 1, y = op["y"].i() - 1;
  if (op["do"].is("fill"))
    v[y] = Make<Sig>(op["id"].i(), op["big"].b);
  else if (op["do"].is("take"))
    v[y] = rst::TakeFunction(std::move(v[x]));
}

template <class Sig>
void Functions(const J& ops) {
  auto* v = Vars<Sig>::v;
  int count = 0;
  for (const J& op : ops.a) {
    g_op = &op;
    std::string d = vf::Dump(op);
    vf::Raw((vf::g_sh->len ? ",{\"op\":\"do\"," : "{\"op\":\"do\",") + d.substr(1));
    const int x = op["x"].i() - 1, y = op["y"].i() - 1;
    const bool alt = count++ % 2;
    g_ok = true;
    if (op["k"].is("fill")) {
      v[x] = Make<Sig>(op["id"].i(), op["big"].b);
    } else if (op["k"].is("take")) {
      if (alt) {
        auto f = rst::TakeFunction(std::move(v[x]));
        if (v[x]) g_ok = false;
        v[y] = std::move(f);
      } else {
        v[y] = rst::TakeFunction(std::move(v[x]));
      }
    } else if (op["k"].is("drop")) {
      rst::TakeFunction(std::move(v[x]));
    } else if (op["k"].is("call")) {
      Invoke(v[x]);
    } else if (op["k"].is("fire")) {
      std::function<Sig> f = rst::TakeFunction(std::move(v[x]));
      Invoke(f);
    }
    std::string live;
    const std::string look = Look<Sig>(-7);
    for (auto& p : g_live)
      if (p.second)
        live += (live.empty() ? "" : ",") + std::to_string(p.first);
    Ev("st").raw("v", look).raw("live", "[" + live + "]").b("ok", g_ok).end();
  }
  for (int i = 0; i < 3; i++)
    v[i] = nullptr;
}

struct Own {
  Own(std::unique_ptr<int> a, int b, const std::string& c) : p(std::move(a)), v(*p + b + static_cast<int>(c.size())) {}
  Own(Own&&) = default;
  Own& operator=(Own&&) = default;
  std::unique_ptr<int> p;
  int v;
};
template <class T, class Fn>
void Build(rst::VectorBuilder<T>&& b, const J& l, size_t i, std::vector<T>* out, Fn add) {
  if (i == l.size())
    *out = std::move(b).Build();
  else
    Build<T>(add(std::move(b), l[i].i()), l, i + 1, out, add);
}
template <class T, class Fn, class Get>
void Built(const J& l, Fn add, Get get) {
  std::vector<T> v;
  Build<T>(rst::VectorBuilder<T>(), l, 0, &v, add);
  std::string r;
  for (auto&& x : v)
    r += (r.empty() ? "" : ",") + std::to_string(get(x));
  Ev("built").raw("l", vf::Dump(l)).raw("got", "[" + r + "]").end();
}
template <class T> using VB = rst::VectorBuilder<T>;

void Run(const J& s) {
  g_live.clear();
  if (s.has("l")) {
    const J& l = s["l"];
    Built<int>(l, [](VB<int>&& b, int x) -> decltype(auto) { return std::move(b).emplace_back(x); }, [](int x) { return x; });
    Built<std::unique_ptr<int>>(
        l, [](VB<std::unique_ptr<int>>&& b, int x) -> decltype(auto) { return std::move(b).emplace_back(std::make_unique<int>(x)); },
        [](auto& p) { return p ? *p : -1; });
    Built<Own>(
        l,
        [](VB<Own>&& b, int x) -> decltype(auto) {
          const std::string c = "four";
          return std::move(b).emplace_back(std::make_unique<int>(x - 5), 1, c);
        },
        [](auto& o) { return o.p ? o.v : -1; });
    Built<std::string>(
        l, [](VB<std::string>&& b, int x) -> decltype(auto) { return std::move(b).emplace_back(static_cast<size_t>(x), 'y'); },
        [](auto& o) { return static_cast<int>(o.size()); });
    Built<Tok>(l, [](VB<Tok>&& b, int x) -> decltype(auto) { return std::move(b).emplace_back(x); }, [](auto& o) { return o.id; });
  } else if (s["sig"].is("void")) {
    Functions<void()>(s["ops"]);
  } else if (s["sig"].is("int")) {
    Functions<int(int)>(s["ops"]);
  } else if (s["sig"].is("ref")) {
    Functions<std::string(std::string&)>(s["ops"]);
  } else {
    Functions<std::unique_ptr<int>(std::unique_ptr<int>)>(s["ops"]);
  }
  int live = 0;
  for (auto& p : g_live)
    live += p.second;
  Ev("end").n("live", live).end();
}
}  // namespace

int main() { return vf::Main(Run); }

// Callbacks bound to weak references of both kinds, called, copied and moved
// while their targets come and go.
#include "drv.h"

#include <functional>
#include <memory>
#include <optional>
#include <set>

#include "rst/bind/bind.h"

using vf::Ev;
using vf::J;
using namespace std::placeholders;

namespace {

std::set<int> g_live;
int g_inc;
std::string g_var;
void Body(const void* self, int inc, bool shared, std::vector<std::string> args);

struct Root {
  virtual ~Root() = default;
  long pad = 0;
};
// The member functions that targets of both kinds share.
template <class Self, bool kShared>
struct Fns : Root {
  explicit Fns(int n) : inc(n) { g_live.insert(n); }
  ~Fns() override {
    g_live.erase(inc);
    Ev("died").n("o", inc).end();
    inc = -1;
  }
  void M0() { Run({}); }
  void M2(int i, const std::string& s) { Run({std::to_string(i), s}); }
  void Mv(std::string s, int i) { Run({std::move(s), std::to_string(i)}); }
  void Const(int i, const std::string& s) const { Run({std::to_string(i), s}); }
  void Mo(const std::string& s, const std::unique_ptr<int>& p) { Run({s, p ? std::to_string(*p) : "null"}); }
  void Uptr(int i, std::unique_ptr<int> p) { Run({std::to_string(i), p ? std::to_string(*p) : "null"}); }
  void Long(int a, const std::string& b, int c, int d, std::string e, int f, std::string g) {
    auto n = [](int x) { return std::to_string(x); };
    Run({n(a), b, n(c), n(d), std::move(e), n(f), std::move(g)});
  }
  void Run(std::vector<std::string> a) const { Body(this, inc, kShared, std::move(a)); }
  int inc;
};
struct BaseW;
struct WB : Fns<WB, false>, rst::SupportsWeakPtr<WB> {
  using Fns::Fns;
};
struct W : WB {
  using WB::WB;
};
struct SB : Fns<SB, true> {
  using Fns::Fns;
};
struct S : SB {
  using SB::SB;
};

constexpr int kPl = 3, kCb = 4;
struct Place {
  std::unique_ptr<W> w;
  std::shared_ptr<S> own[2];
  std::weak_ptr<S> s;
};
Place g_p[kPl + 1];

const J* g_ops;
size_t g_at;

std::string Alive() {
  std::string r;
  for (int k : g_live)
    r += (r.empty() ? "" : ",") + std::to_string(k);
  return "[" + r + "]";
}

// One callback, called with an integer and a string.
struct Cb {
  virtual ~Cb() = default;
  virtual void Call(int x, const std::string& y) = 0;
  virtual std::unique_ptr<Cb> Copy() = 0;
  virtual std::unique_ptr<Cb> Move() = 0;
};
template <class B, class C>
struct CbOf : Cb {
  CbOf(B x, C y) : b(std::move(x)), c(y) {}
  void Call(int x, const std::string& y) override { c(b, x, y); }
  std::unique_ptr<Cb> Copy() override {
    if constexpr (std::is_copy_constructible_v<B>)
      return std::make_unique<CbOf>(b, c);
    else
      _exit(93);
  }
  std::unique_ptr<Cb> Move() override { return std::make_unique<CbOf>(std::move(b), c); }
  B b;
  C c;
};
template <class Sig, class B, class C>
std::unique_ptr<Cb> Make(bool raw, B b, C c) {
  if (raw)
    return std::make_unique<CbOf<B, C>>(std::move(b), c);
  if constexpr (std::is_copy_constructible_v<B>) {
    using F = std::function<Sig>;
    return std::make_unique<CbOf<F, C>>(F(std::move(b)), c);
  } else {
    _exit(92);
  }
}
std::unique_ptr<Cb> g_cb[kCb + 1];

// What functions that are bound to a shared target take.
#ifdef RAW_SHARED
using SharedArg = S*;
#else
using SharedArg = const std::shared_ptr<S>&;
#endif

template <class P>
void Fn(P self, int i, const std::string& s) {
  self->Run({std::to_string(i), s});
}
struct Ftor {
  std::string tag;
  template <class P>
  void operator()(const P& self, int i, std::string s) const {
    self->Run({std::to_string(i), tag.size() == 40 ? s : "bad functor"});
  }
};

// The target seen as const.
rst::WeakPtr<const W> AsConst(const rst::WeakPtr<W>& p) { return p; }
std::weak_ptr<const S> AsConst(const std::weak_ptr<S>& p) { return p; }

template <class T, class P, class Weak>
std::unique_ptr<Cb> BindForm(const std::string& f, bool raw, Weak w, int i, const std::string& s) {
  auto none = [](auto& b, int, const std::string&) { b(); };
  if (f == "m0")
    return Make<void()>(raw, rst::Bind(&T::M0, std::move(w)), none);
  if (f == "m2")
    return Make<void()>(raw, rst::Bind(&T::M2, std::move(w), i, s), none);
  if (f == "mv")
    return Make<void()>(raw, rst::Bind(&T::Mv, std::move(w), std::string(s), i), none);
  if (f == "const") {
    auto c = AsConst(w);
    return Make<void()>(raw, rst::Bind(&T::Const, std::move(c), i, s.c_str()), none);
  }
  if (f == "base") {
    using Base = std::conditional_t<std::is_same_v<T, W>, WB, SB>;
    return Make<void()>(raw, rst::Bind(&Base::M2, std::move(w), i, s), none);
  }
  if (f == "lam") {
    auto body = [i](auto&& self, int n, std::string t) {
      self->Run({n == i ? std::to_string(n) : "bad", std::move(t)});
    };
    return Make<void()>(raw, rst::Bind(body, std::move(w), i, s), none);
  }
  if (f == "fun")
    return Make<void()>(raw, rst::Bind(&Fn<P>, std::move(w), i, s), none);
  if (f == "ftor")
    return Make<void()>(raw, rst::Bind(Ftor{std::string(40, 'f')}, std::move(w), i, s), none);
  if (f == "ph")
    return Make<void(int, const std::string&)>(
        raw,
        rst::Bind([](auto&& self, int a, int b, const std::string& c, const std::string& d) {
          self->Run({std::to_string(a), std::to_string(b), c, d});
        }, std::move(w), i, _1, s, _2),
        [](auto& b, int x, const std::string& y) { b(x, y); });
  if (f == "swap")
    return Make<void(int, std::string)>(
        raw,
        rst::Bind([](auto&& self, std::string a, std::string b, int c) {
          self->Run({std::move(a), std::move(b), std::to_string(c)});
        }, std::move(w), _2, s, _1),
        [](auto& b, int x, const std::string& y) { b(x, std::string(y)); });
#ifndef NO_MOVE
  if (f == "uptr")
    return Make<void(std::unique_ptr<int>)>(
        raw, rst::Bind(&T::Uptr, std::move(w), i, _1),
        [](auto& b, int x, const std::string&) { b(std::make_unique<int>(x)); });
  if (f == "mo")
    return Make<void()>(raw, rst::Bind(&T::Mo, std::move(w), s, std::make_unique<int>(i)), none);
#endif
  if (f == "ref")
    return Make<void()>(
        raw,
        rst::Bind([](auto&& self, const std::string& v, int n) { self->Run({v, std::to_string(n)}); },
                  std::move(w), std::ref(g_var), i),
        none);
  if (f == "long")
    return Make<void(int, std::string)>(
        raw, rst::Bind(&T::Long, std::move(w), i, s, i, _1, _2, _1, s),
        [](auto& b, int x, const std::string& y) { b(x, y); });
  if (f == "nest")
    // Bound through another callback type.
    return Make<void()>(
        raw,
        rst::Bind(std::function<void(P, std::string, int)>(
                      [](P self, std::string t, int n) { self->Run({std::move(t), std::to_string(n)}); }),
                  std::move(w), s, i),
        none);
  _exit(91);
}

void Do(const J& o) {
  const std::string k = o["k"].str();
  Ev("do").s("k", k).n("o", o["o"].i()).n("c", o["c"].i()).n("f", o["f"].i()).s("t", o["t"].str())
      .s("form", o["form"].str()).s("via", o["via"].str()).s("bi", o["bi"].str())
      .s("bs", o["bs"].str()).s("x", o["x"].str()).s("y", o["y"].str()).end();
  Place& p = g_p[o["o"].i()];
  auto& c = g_cb[o["c"].i()];
  auto& f = g_cb[o["f"].i()];
  if (k == "make") {
    g_inc++;
    if (o["t"].is("W")) {
      p.w = std::make_unique<W>(g_inc);
    } else {
      p.own[0] = std::make_shared<S>(g_inc);
      p.s = p.own[0];
    }
  } else if (k == "own") {
    (p.own[0] ? p.own[1] : p.own[0]) = p.s.lock();
  } else if (k == "disown") {
    if (p.w)
      p.w = nullptr;
    else
      (p.own[0] && (!p.own[1] || g_inc % 2) ? p.own[0] : p.own[1]) = nullptr;
  } else if (k == "bind") {
    const int i = atoi(o["bi"].str().c_str());
    const bool raw = o["via"].is("raw");
    if (p.w)
      c = BindForm<W, W*>(o["form"].str(), raw, rst::AsWeakPtr(p.w.get()), i, o["bs"].str());
    else
      c = BindForm<S, SharedArg>(o["form"].str(), raw, std::weak_ptr<S>(p.s), i, o["bs"].str());
  } else if (k == "copy") {
    c = f->Copy();
  } else if (k == "move") {
    c = f->Move();
  } else if (k == "drop") {
    c = nullptr;
  } else if (k == "var") {
    g_var = o["x"].str();
  } else if (k == "call") {
    c->Call(atoi(o["x"].str().c_str()), o["y"].str());
  }
  Ev("done").raw("alive", Alive()).end();
}

void Loop() {
  while (g_at < g_ops->size()) {
    const J& o = (*g_ops)[g_at++];
    if (o["k"].is("ret"))
      return;
    Do(o);
  }
}

void Body(const void* self, int inc, bool shared, std::vector<std::string> args) {
  std::string a;
  for (auto& x : args)
    a += (a.empty() ? "" : ",") + vf::Q(x);
  Ev("enter").n("o", inc).raw("args", "[" + a + "]").end();
  Loop();
  // A shared target is still there.
  Ev("exit").b("ok", !shared || static_cast<const Fns<SB, true>*>(self)->inc == inc).end();
}

void Run(const J& ops) {
  g_inc = 0;
  g_var = "v0";
  g_ops = &ops;
  g_at = 0;
  while (g_at < ops.size())
    Loop();
  const size_t len = vf::g_sh->len;
  for (auto& c : g_cb)
    c = nullptr;
  for (auto& p : g_p) {
    p.w = nullptr;
    p.own[0] = p.own[1] = nullptr;
    p.s.reset();
  }
  vf::g_sh->len = len;
}

}  // namespace

int main() { return vf::Main(Run); }

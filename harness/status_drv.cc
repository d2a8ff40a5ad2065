// Histories of calls on Status and StatusOr objects in slots.
#include "drv.h"

#include <memory>

#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_or.h"

using vf::Ev;
using vf::J;

namespace {

std::map<int, int> g_val, g_err;  // id -> how many exist
int g_objs = 0, g_bad = 0;

// A value that exists once.
class Val {
 public:
  explicit Val(int id) : id_(id), self_(this) {
    g_objs++;
    g_val[id_]++;
  }
  Val(Val&& o) noexcept : id_(o.id_), self_(this) {
    o.Check();
    g_objs++;
    o.id_ = 0;
  }
  Val& operator=(Val&& o) noexcept {
    Check();
    o.Check();
    if (this != &o) {
      Release();
      id_ = o.id_;
      o.id_ = 0;
    }
    return *this;
  }
  ~Val() {
    Check();
    Release();
    self_ = nullptr;
    g_objs--;
  }
  int id() const {
    Check();
    return id_;
  }

 private:
  void Check() const {
    if (self_ != this)
      g_bad++;
  }
  void Release() {
    if (id_ > 0)
      g_val[id_]--;
    id_ = 0;
  }
  int id_;
  Val* self_;
};

struct Pod {
  int id, copy;
};

class Err : public rst::ErrorInfo<Err> {
 public:
  explicit Err(int id) : n_(id), s_("error " + std::to_string(id)) { g_err[id]++; }
  ~Err() override { g_err[n_]--; }
  const std::string& AsString() const override { return s_; }
  int n() const { return n_; }
  static char id_;

 private:
  int n_;
  std::string s_;
};
char Err::id_ = 0;
class Err2 : public rst::ErrorInfo<Err2, Err> {
 public:
  explicit Err2(int id) : ErrorInfo(id) {}
  static char id_;
};
char Err2::id_ = 0;

template <class T>
int IdOf(rst::StatusOr<T>& x, bool arrow);
template <>
int IdOf(rst::StatusOr<Val>& x, bool arrow) {
  return arrow ? x->id() : (*x).id();
}
template <>
int IdOf(rst::StatusOr<Pod>& x, bool arrow) {
  const Pod p = arrow ? Pod{x->id, x->copy} : *x;
  return p.id == p.copy ? p.id : -1;
}
template <>
int IdOf(rst::StatusOr<int>& x, bool arrow) {
  return arrow ? *x.operator->().get() : *x;
}
template <>
int IdOf(rst::StatusOr<std::unique_ptr<Val>>& x, bool arrow) {
  return arrow ? x->get()->id() : (**x).id();
}
int ErrId(rst::NotNull<const rst::ErrorInfoBase*> e) {
  const auto p = rst::dyn_cast<Err>(e);
  if (p == nullptr)
    return -1;
  return p->AsString() == "error " + std::to_string(p->n()) ? p->n() : -2;
}
rst::Status MakeErr(int id) {
  if (id % 2)
    return rst::MakeStatus<Err>(id);
  return rst::MakeStatus<Err2>(id);
}

template <class T>
T Make(int id);
template <>
Val Make(int id) { return Val(id); }
template <>
Pod Make(int id) { return Pod{id, id}; }
template <>
int Make(int id) { return id; }
template <>
std::unique_ptr<Val> Make(int id) { return std::make_unique<Val>(id); }

struct Slot {
  std::unique_ptr<rst::Status> st;
  std::unique_ptr<rst::StatusOr<Val>> t;
  std::unique_ptr<rst::StatusOr<Pod>> p;
  std::unique_ptr<rst::StatusOr<std::unique_ptr<Val>>> u;
  std::unique_ptr<rst::StatusOr<int>> n;
};
Slot g_s[8];

template <class F>
void OnOr(Slot& s, F f) {
  if (s.t)
    f(s.t);
  else if (s.p)
    f(s.p);
  else if (s.u)
    f(s.u);
  else if (s.n)
    f(s.n);
}
template <class T>
std::unique_ptr<rst::StatusOr<T>>& As(Slot& s);
template <>
std::unique_ptr<rst::StatusOr<Val>>& As(Slot& s) { return s.t; }
template <>
std::unique_ptr<rst::StatusOr<Pod>>& As(Slot& s) { return s.p; }
template <>
std::unique_ptr<rst::StatusOr<std::unique_ptr<Val>>>& As(Slot& s) { return s.u; }
template <>
std::unique_ptr<rst::StatusOr<int>>& As(Slot& s) { return s.n; }

template <class T>
T ValueOf(const std::unique_ptr<rst::StatusOr<T>>&);  // names T only

template <class T>
rst::StatusOr<T> FromValue(int id, const T* = nullptr) { return Make<T>(id); }
template <class T>
rst::StatusOr<T> FromStatus(rst::Status&& s) { return std::move(s); }

template <class F>
void WithKind(const std::string& t, F f) {
  if (t == "T")
    f(static_cast<Val*>(nullptr));
  else if (t == "P")
    f(static_cast<Pod*>(nullptr));
  else if (t == "I")
    f(static_cast<int*>(nullptr));
  else
    f(static_cast<std::unique_ptr<Val>*>(nullptr));
}

int Do(const std::string& k, Slot& s, Slot& f, const std::string& t, int v, bool alt) {
  int r = 0;
  if (k == "ok") {
    s.st = std::make_unique<rst::Status>(rst::Status::OK());
  } else if (k == "err") {
    s.st = std::make_unique<rst::Status>(MakeErr(v));
  } else if (k == "val") {
    WithKind(t, [&](auto* x) {
      using T = std::remove_pointer_t<decltype(x)>;
      if (alt)
        As<T>(s) = std::make_unique<rst::StatusOr<T>>(FromValue<T>(v));
      else
        As<T>(s) = std::make_unique<rst::StatusOr<T>>(Make<T>(v));
    });
  } else if (k == "verr") {
    WithKind(t, [&](auto* x) {
      using T = std::remove_pointer_t<decltype(x)>;
      if (alt)
        As<T>(s) = std::make_unique<rst::StatusOr<T>>(FromStatus<T>(MakeErr(v)));
      else
        As<T>(s) = std::make_unique<rst::StatusOr<T>>(MakeErr(v));
    });
  } else if (k == "ase") {
    if (s.st)
      *s.st = MakeErr(v);
    else
      OnOr(s, [&](auto& x) { *x = MakeErr(v); });
  } else if (k == "mv") {
    if (t == "st")
      s.st = std::make_unique<rst::Status>(std::move(*f.st));
    else
      WithKind(t, [&](auto* x) {
        using T = std::remove_pointer_t<decltype(x)>;
        if (!f.st)
          As<T>(s) = std::make_unique<rst::StatusOr<T>>(std::move(*As<T>(f)));
        else if (alt)
          As<T>(s) = std::make_unique<rst::StatusOr<T>>(FromStatus<T>(std::move(*f.st)));
        else
          As<T>(s) = std::make_unique<rst::StatusOr<T>>(std::move(*f.st));
      });
  } else if (k == "as") {
    if (s.st)
      *s.st = std::move(*f.st);
    else if (f.st)
      OnOr(s, [&](auto& x) { *x = std::move(*f.st); });
    else if (s.t)
      *s.t = std::move(*f.t);
    else if (s.p)
      *s.p = std::move(*f.p);
    else if (s.n)
      *s.n = std::move(*f.n);
    else
      *s.u = std::move(*f.u);
  } else if (k == "asv") {
    if (s.t)
      *s.t = Val(v);
    else if (s.u)
      *s.u = std::make_unique<Val>(v);
    else if (s.n && alt) {
      const int n = v;
      *s.n = n;
    } else if (s.n) {
      *s.n = int{v};
    } else if (alt) {
      const Pod p{v, v};
      *s.p = p;
    } else {
      *s.p = Pod{v, v};
    }
  } else if (k == "take") {
    OnOr(f, [&](auto& x) { s.st = std::make_unique<rst::Status>(std::move(*x).TakeStatus()); });
  } else if (k == "takeas") {
    OnOr(f, [&](auto& x) { *s.st = std::move(*x).TakeStatus(); });
  } else if (k == "q") {
    if (s.st)
      r = s.st->err();
    else
      OnOr(s, [&](auto& x) { r = x->err(); });
  } else if (k == "ig") {
    if (s.st)
      s.st->Ignore();
    else
      OnOr(s, [&](auto& x) { x->Ignore(); });
  } else if (k == "get") {
    if (s.st)
      r = ErrId(s.st->GetError());
    else
      OnOr(s, [&](auto& x) { r = ErrId(x->status().GetError()); });
  } else if (k == "rd") {
    OnOr(s, [&](auto& x) { r = IdOf(*x, alt); });
  } else if (k == "del") {
    s.st.reset();
    s.t.reset();
    s.p.reset();
    s.u.reset();
    s.n.reset();
  }
  return r;
}

std::string Live(const std::map<int, int>& m) {
  std::string r;
  for (auto& [id, n] : m)
    for (int i = 0; i < (n < 0 ? 1 : n); i++)
      r += (r.empty() ? "" : ",") + std::to_string(n < 0 ? -id : id);
  return "[" + r + "]";
}

void Run(const J& ops) {
  g_val.clear();
  g_err.clear();
  g_objs = g_bad = 0;
  for (auto& s : g_s) {
    // What a previous script left behind.
    (void)s.st.release();
    (void)s.t.release();
    (void)s.p.release();
    (void)s.u.release();
    (void)s.n.release();
  }
  int n = 0;
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    const std::string k = o["k"].str();
    Ev("do").s("k", k).n("s", o["s"].i()).n("f", o["f"].i()).s("t", o["t"].str())
        .n("v", o["v"].i()).end();
    const int r = Do(k, g_s[o["s"].i()], g_s[o["f"].i()], o["t"].str(), o["v"].i(), (n++ + o["v"].i()) % 2);
    Ev("done").n("r", r).raw("vals", Live(g_val)).raw("errs", Live(g_err)).end();
  }
  bool all = true;
  for (auto& s : g_s)
    all = all && !s.st && !s.t && !s.p && !s.u && !s.n;
  if (all)
    Ev("end").n("objs", g_objs).n("bad", g_bad).end();
}

}  // namespace

int main() { return vf::Main(Run); }

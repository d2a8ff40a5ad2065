// Type tests on errors of a class hierarchy, after journeys through status objects.
#include "drv.h"

#include <memory>

#include "rst/files/file_utils.h"
#include "rst/logger/file_name_sink.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"

using rst::ErrorInfo;
using rst::ErrorInfoBase;
using rst::FileError;
using rst::FileOpenError;
using rst::LogError;
using rst::NotNull;
using rst::Status;
using rst::StatusOr;
using vf::Ev;
using vf::J;

namespace {

#define ROOT(C)                                                         \
  class C : public ErrorInfo<C> {                                       \
   public:                                                              \
    explicit C(std::string&& m) : m_(std::move(m)) {}                   \
    const std::string& AsString() const override { return m_; }         \
    static char id_;                                                    \
                                                                        \
   private:                                                             \
    std::string m_;                                                     \
  };                                                                    \
  char C::id_ = 0;
#define SUB(C, P)                                                       \
  class C : public ErrorInfo<C, P> {                                    \
   public:                                                              \
    explicit C(std::string&& m) : ErrorInfo<C, P>(std::move(m)) {}      \
    int extra_ = 7;                                                     \
    static char id_;                                                    \
  };                                                                    \
  char C::id_ = 0;

ROOT(A)          // 4
SUB(B, A)        // 5
SUB(C, B)        // 6
SUB(D, C)        // 7
SUB(E, D)        // 8
SUB(B2, A)       // 9
SUB(C2, B2)      // 10
SUB(G, FileError)  // 11
SUB(H, G)        // 12
ROOT(Z)          // 13
SUB(B3, A)       // 14
SUB(D2, C)       // 15
constexpr int kN = 15;

template <class F>
void WithClass(int c, F f) {
  switch (c) {
    case 1: return f(static_cast<FileError*>(nullptr));
    case 2: return f(static_cast<FileOpenError*>(nullptr));
    case 3: return f(static_cast<LogError*>(nullptr));
    case 4: return f(static_cast<A*>(nullptr));
    case 5: return f(static_cast<B*>(nullptr));
    case 6: return f(static_cast<C*>(nullptr));
    case 7: return f(static_cast<D*>(nullptr));
    case 8: return f(static_cast<E*>(nullptr));
    case 9: return f(static_cast<B2*>(nullptr));
    case 10: return f(static_cast<C2*>(nullptr));
    case 11: return f(static_cast<G*>(nullptr));
    case 12: return f(static_cast<H*>(nullptr));
    case 13: return f(static_cast<Z*>(nullptr));
    case 14: return f(static_cast<B3*>(nullptr));
    case 15: return f(static_cast<D2*>(nullptr));
    default: _exit(94);
  }
}

std::unique_ptr<Status> g_s[4];

template <class U, class P>
int Same(const U& r, P* p) {
  if (r == nullptr)
    return 0;
  return static_cast<const void*>(r.get()) == static_cast<const void*>(p) ? 1 : 2;
}

// From a pointer of static type S to class T.
template <class T, class S>
void Forms(S* p, std::vector<int>* r) {
  const S* cp = p;
  r->push_back(Same(rst::dyn_cast<T>(p), p));
  r->push_back(Same(rst::dyn_cast<T>(cp), p));
  r->push_back(Same(rst::dyn_cast<T>(NotNull<S*>(p)), p));
  r->push_back(Same(rst::dyn_cast<T>(NotNull<const S*>(cp)), p));
  r->push_back(p->template IsA<T>());
  r->push_back(cp->IsA(T::GetClassID()));
}

template <class T>
std::vector<int> All(ErrorInfoBase* p) {
  std::vector<int> r;
  Forms<T>(p, &r);
  return r;
}
std::string List(const std::vector<int>& v) {
  std::string r;
  for (int x : v)
    r += (r.empty() ? "" : ",") + std::to_string(x);
  return "[" + r + "]";
}

StatusOr<int> AsOr(Status&& s) { return std::move(s); }
Status ByTry(Status&& s) {
  RST_TRY(std::move(s));
  return Status::OK();
}
StatusOr<std::string> ByTryOr(Status&& s) {
  RST_TRY_CREATE(auto, x, AsOr(std::move(s)));
  return std::to_string(*x);
}

template <class T>
Status Failed(StatusOr<T> r) {
  r.Ignore();
  return std::move(r).TakeStatus();
}
// Errors that the library itself reports.
Status Real(int c, bool other) {
  if (c == 2)
    return other ? rst::WriteFile("rtti_no_such_dir/file", "x") : Failed(rst::ReadFile("rtti_no_such_dir/file"));
  if (c == 1)
    return other ? rst::WriteFile("/dev/full", "x") : Failed(rst::ReadFile("."));
  return Failed(rst::FileNameSink::Create("rtti_no_such_dir/file"));
}

void Run(const J& ops) {
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    const std::string k = o[0].str();
    const int s = o[1].i(), x = o[2].i(), how = o[3].i();
    if (g_s[s] && k != "test")
      g_s[s]->Ignore();
    if (k == "make") {
      if (how >= 4 && x <= 3) {
        g_s[s] = std::make_unique<Status>(Real(x, how == 4));
      } else {
        WithClass(x, [&](auto* p) {
          using T = std::remove_pointer_t<decltype(p)>;
          g_s[s] = std::make_unique<Status>(rst::MakeStatus<T>("message"));
        });
      }
      Ev("make").n("s", s).n("c", x).end();
    } else if (k == "travel") {
      Status& f = *g_s[x];
      f.Ignore();
      if (how == 0) {
        Status a(std::move(f)), b = std::move(a);
        Status c = Status::OK();
        c.Ignore();
        c = std::move(b);
        c.Ignore();
        g_s[s] = std::make_unique<Status>(std::move(c));
      } else if (how == 1) {
        auto a = AsOr(std::move(f));
        auto b = std::move(a);
        StatusOr<int> c(5);
        c.Ignore();
        c = std::move(b);
        c.Ignore();
        auto st = std::move(c).TakeStatus();
        g_s[s] = std::make_unique<Status>(std::move(st));
      } else if (how == 2) {
        auto st = ByTry(std::move(f));
        g_s[s] = std::make_unique<Status>(std::move(st));
      } else if (how == 3) {
        auto a = ByTryOr(std::move(f));
        a.Ignore();
        g_s[s] = std::make_unique<Status>(std::move(a).TakeStatus());
      } else {
        StatusOr<int> c(5);
        c.Ignore();
        c = std::move(f);
        c.Ignore();
        StatusOr<int> d = AsOr(rst::MakeStatus<Z>("z"));
        d.Ignore();
        d = std::move(c);
        d.Ignore();
        g_s[s] = std::make_unique<Status>(std::move(d).TakeStatus());
      }
      Ev("travel").n("s", s).n("f", x).end();
      if (s != x)
        g_s[x].reset();
    } else {
      g_s[s]->Ignore();
      auto* p = const_cast<ErrorInfoBase*>(g_s[s]->GetError().get());
      std::string res = "[" + List({p->IsA<ErrorInfoBase>(), p->IsA(ErrorInfoBase::GetClassID())});
      std::string exact = "[" + std::to_string(p->GetDynamicClassID() == ErrorInfoBase::GetClassID());
      for (int d = 1; d <= kN; d++)
        WithClass(d, [&](auto* q) {
          using T = std::remove_pointer_t<decltype(q)>;
          res += "," + List(All<T>(p));
          exact += std::string(",") + (p->GetDynamicClassID() == T::GetClassID() ? "1" : "0");
        });
      Ev("test").n("s", s).raw("res", res + "]").raw("exact", exact + "]").end();
    }
    if (g_s[s])
      g_s[s]->Ignore();
  }
  for (auto& s : g_s)
    s.reset();
}

}  // namespace

int main() { return vf::Main(Run); }

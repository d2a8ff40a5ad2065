// Contract statements of every form, in every place, with conditions that
// execute statements of their own.
#include "drv.h"

#include <functional>
#include <memory>
#include <optional>
#include <type_traits>

#include "rst/check/check.h"
#include "rst/macros/macros.h"
#include "rst/macros/optimization.h"
#include "rst/not_null/not_null.h"

using vf::Ev;
using vf::J;

namespace {

const J* g_ops = nullptr;
size_t g_pos = 0;

bool IsClose(const J& o) { return o["m"].is("close"); }
void Stmt();

// The condition of statement k is evaluated.
void Eval(const J& o) {
  Ev("eval").n("k", o["k"].num()).end();
  while (g_pos < g_ops->size() && !IsClose((*g_ops)[g_pos]))
    Stmt();
  g_pos++;
  Ev("value").n("k", o["k"].num()).end();
}
bool B(const J& o) {
  Eval(o);
  return o["v"].is("yes");
}
long long N(const J& o) {
  Eval(o);
  return strtoll(o["v"].str().c_str(), nullptr, 10);
}
void Wrong() { Ev("wrong").end(); }

struct Truthy {
  explicit operator bool() const { return b; }
  bool b;
};
// Conditions that a macro does not compile with are made plain ones.
#ifdef NO_EXPLICIT
#define OBJ(x) static_cast<bool>(x)
#define LAZY
#else
#define OBJ(x) x
#define LAZY explicit
#endif
#ifdef NO_ASSIGN
#define BARE(x) (x)
#else
#define BARE(x) x
#endif

// Evaluated when it is looked at.
struct Lazy {
  LAZY operator bool() const { return B(*o); }
  const J* o;
};
template <class X, class Y>
bool Pair(X x, Y) { return x; }
int g_obj = 0;
bool Yes() {
  static volatile bool y = true;
  return y;
}

#define SIMPLE(M)                                                                \
  do {                                                                           \
    if (f == "bool") M(B(o));                                                    \
    else if (f == "int") M(B(o) ? 4 : 0);                                        \
    else if (f == "wide") M(B(o) ? 1ll << 32 : 0ll);                             \
    else if (f == "wider") M(B(o) ? static_cast<unsigned __int128>(1) << 64 : 0); \
    else if (f == "half") M(B(o) ? 0.5 : 0.0);                                   \
    else if (f == "tiny") M(B(o) ? -1e-30f : 0.0f);                              \
    else if (f == "negative") M(B(o) ? -1 : 0);                                  \
    else if (f == "char") M(static_cast<signed char>(B(o) ? -128 : 0));          \
    else if (f == "pointer") M(OBJ(B(o) ? &g_obj : nullptr));                         \
    else if (f == "unique") M(OBJ(B(o) ? std::make_unique<int>(0) : nullptr));        \
    else if (f == "shared") M(OBJ(B(o) ? std::make_shared<int>(0) : nullptr));        \
    else if (f == "function") M(OBJ(B(o) ? std::function<void()>([] {}) : nullptr));  \
    else if (f == "optional") M(OBJ(B(o) ? std::optional<int>(0) : std::nullopt));    \
    else if (f == "explicit") M(OBJ(Truthy{B(o)}));                                   \
    else if (f == "or") M(B(o) || !Yes());                                       \
    else if (f == "orlast") M(!Yes() || B(o));                                   \
    else if (f == "and") M(Yes() && B(o));                                       \
    else if (f == "andfirst") M(B(o) && Yes());                                  \
    else if (f == "equal") M(B(o) == true);                                      \
    else if (f == "unequal") M(false != B(o));                                   \
    else if (f == "not") M(!!B(o));                                              \
    else if (f == "less") M(0 < int{B(o)});                                      \
    else if (f == "ternary") M(B(o) ? Yes() : !Yes());                           \
    else if (f == "assign") { bool a = !o["v"].is("yes"); M(BARE(a = B(o))); if (a != o["v"].is("yes")) CHANGED(); } \
    else if (f == "comma") M((Yes(), B(o)));                                     \
    else if (f == "bits") M(B(o) | 0);                                           \
    else if (f == "template") M((Pair<bool, int>(B(o), 1)));                     \
    else if (f == "lambda") M([&] { return B(o); }());                           \
    else return false;                                                           \
    return true;                                                                 \
  } while (false)

// What is there by the name that a macro might use.
#define NAMED(M) \
  do { \
    if (f == "condition") { Lazy condition{&o}; M(condition); } \
    else if (f == "cond") { Lazy cond{&o}; M(cond); } \
    else if (f == "c") { Lazy c{&o}; M(c); } \
    else if (f == "x") { Lazy x{&o}; M(x); } \
    else if (f == "b") { Lazy b{&o}; M(b); } \
    else if (f == "a") { Lazy a{&o}; M(a); } \
    else if (f == "e") { Lazy e{&o}; M(e); } \
    else if (f == "v") { Lazy v{&o}; M(v); } \
    else if (f == "t") { Lazy t{&o}; M(t); } \
    else if (f == "r") { Lazy r{&o}; M(r); } \
    else if (f == "s") { Lazy s{&o}; M(s); } \
    else if (f == "p") { Lazy p{&o}; M(p); } \
    else if (f == "o_") { Lazy o_{&o}; M(o_); } \
    else if (f == "ok") { Lazy ok{&o}; M(ok); } \
    else if (f == "is_ok") { Lazy is_ok{&o}; M(is_ok); } \
    else if (f == "res") { Lazy res{&o}; M(res); } \
    else if (f == "result") { Lazy result{&o}; M(result); } \
    else if (f == "ret") { Lazy ret{&o}; M(ret); } \
    else if (f == "value") { Lazy value{&o}; M(value); } \
    else if (f == "val") { Lazy val{&o}; M(val); } \
    else if (f == "expr") { Lazy expr{&o}; M(expr); } \
    else if (f == "passed") { Lazy passed{&o}; M(passed); } \
    else if (f == "failed") { Lazy failed{&o}; M(failed); } \
    else if (f == "bad") { Lazy bad{&o}; M(bad); } \
    else if (f == "good") { Lazy good{&o}; M(good); } \
    else if (f == "error") { Lazy error{&o}; M(error); } \
    else if (f == "fail") { Lazy fail{&o}; M(fail); } \
    else if (f == "check") { Lazy check{&o}; M(check); } \
    else if (f == "holds") { Lazy holds{&o}; M(holds); } \
    else if (f == "violated") { Lazy violated{&o}; M(violated); } \
    else return false; \
    return true; \
  } while (false)

#if defined(NDEBUG)
#define CHANGED() (void)0
#else
#define CHANGED() Wrong()
#endif

#define IN_PLACE(X)                                                              \
  do {                                                                           \
    if (p == "plain") { X; }                                                     \
    else if (p == "then") { if (Yes()) X; else Wrong(); }                        \
    else if (p == "else") { if (!Yes()) Wrong(); else X; }                       \
    else if (p == "dangling") { if (Yes()) if (!Yes()) X; else X; }              \
    else if (p == "for") { for (int i = 0; i < 1; i++) X; }                      \
    else if (p == "while") { bool w = true; while (w) { w = false; X; } if (w) Wrong(); } \
    else if (p == "do") { do X; while (!Yes()); }                                \
    else if (p == "switch") { switch (int{Yes()}) { case 0: Wrong(); break; case 1: X; break; default: Wrong(); } } \
    else if (p == "lambda") { [&] { X; }(); }                                    \
    else if (p == "label") { goto there; there: X; }                             \
    else { _exit(95); }                                                          \
  } while (false)

#define CHECK_BOOL RST_CHECK(B(o))
#define DCHECK_BOOL RST_DCHECK(B(o))

bool CheckSimple(const J& o, const std::string& f) { SIMPLE(RST_CHECK); }
bool DcheckSimple(const J& o, const std::string& f) { SIMPLE(RST_DCHECK); }
bool CheckNamed(const J& o, const std::string& f) { NAMED(RST_CHECK); }
bool DcheckNamed(const J& o, const std::string& f) { NAMED(RST_DCHECK); }

void CheckIn(const J& o, const std::string& p) { IN_PLACE(RST_CHECK(B(o))); }
void DcheckIn(const J& o, const std::string& p) { IN_PLACE(RST_DCHECK(B(o))); }
void NotreachedIn(const std::string& p) { IN_PLACE(RST_NOTREACHED()); }

void Stmt() {
  const J& o = (*g_ops)[g_pos++];
  const size_t inside = g_pos;
  const std::string &m = o["m"].str(), &f = o["f"].str(), &p = o["p"].str();
  Ev("begin").n("k", o["k"].num()).s("m", m).s("v", o["v"].str()).end();
  long long got = 0;
  if (m == "check") {
    if (p != "plain") CheckIn(o, p);
    else if (!CheckSimple(o, f) && !CheckNamed(o, f)) _exit(95);
  } else if (m == "dcheck") {
    if (p != "plain") DcheckIn(o, p);
    else if (!DcheckSimple(o, f) && !DcheckNamed(o, f)) _exit(95);
  } else if (m == "notreached") {
    NotreachedIn(p);
  } else if (m == "likely") {
    if (o["k"].i() % 2) got = RST_LIKELY(N(o));
    else if (RST_LIKELY(N(o))) got = strtoll(o["v"].str().c_str(), nullptr, 10);
  } else if (m == "unlikely") {
    if (o["k"].i() % 2) got = RST_UNLIKELY(N(o));
    else if (RST_UNLIKELY(N(o))) got = strtoll(o["v"].str().c_str(), nullptr, 10);
  } else if (m == "likelyeq") {
    if (o["k"].i() % 2) got = RST_LIKELY_EQ(N(o), 5);
    else
      switch (RST_LIKELY_EQ(N(o), 1)) {
        case 0: got = 0; break;
        case 1: got = 1; break;
        case 5: got = 5; break;
        default: got = strtoll(o["v"].str().c_str(), nullptr, 10);
      }
  }
  if (g_pos == inside) {
    // Not evaluated: what the condition would have executed is not.
    for (int depth = 1; depth > 0 && g_pos < g_ops->size(); g_pos++)
      depth += IsClose((*g_ops)[g_pos]) ? -1 : 1;
  }
  Ev("past").n("k", o["k"].num()).s("got", std::to_string(got)).end();
}

#define RST_BUILDFLAG_VF_ON() (true)
#define RST_BUILDFLAG_VF_OFF() (false)
#define VF_12 12
#define VF_34 34

struct Free { int n = 0; };
struct NoCopy { NoCopy() = default; NoCopy& operator=(const NoCopy&) = default; RST_DISALLOW_COPY(NoCopy); };
struct NoAssign { NoAssign() = default; NoAssign(const NoAssign&) = default; RST_DISALLOW_ASSIGN(NoAssign); };
struct Neither { Neither() = default; RST_DISALLOW_COPY_AND_ASSIGN(Neither); };
struct None { RST_DISALLOW_IMPLICIT_CONSTRUCTORS(None); };
template <class T>
void Class(const char* kind) {
  Ev("class").s("kind", kind).b("copy", std::is_copy_constructible_v<T> || std::is_move_constructible_v<T>)
      .b("assign", std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>)
      .b("create", std::is_default_constructible_v<T>).end();
}

void Run(const J& s) {
  Ev("flags")
#if RST_BUILDFLAG(DCHECK_IS_ON)
      .b("dcheck", true)
#else
      .b("dcheck", false)
#endif
#if RST_BUILDFLAG(VF_ON)
      .b("on", true)
#else
      .b("on", false)
#endif
#if RST_BUILDFLAG(VF_OFF)
      .b("off", true)
#else
      .b("off", false)
#endif
      .s("cat", std::to_string(RST_CAT(VF_12, VF_34))).end();
  Class<Free>("free");
  Class<NoCopy>("nocopy");
  Class<NoAssign>("noassign");
  Class<Neither>("neither");
  Class<None>("none");
  g_ops = &s;
  g_pos = 0;
  while (g_pos < s.size())
    Stmt();
  Ev("end").end();
}
}  // namespace

int main() { return vf::Main(Run); }

// What the programs generated from the scope specification use.
#ifndef VF_SCOPE_H_
#define VF_SCOPE_H_
#include "drv.h"

#include <functional>
#include <initializer_list>
#include <memory>
#include <type_traits>

#include "rst/defer/defer.h"
#include "rst/no_destructor/no_destructor.h"

namespace vf {
extern int g_live;
// State of an action that can only be moved, where that can be deferred at all.
#ifdef NO_MOVEONLY
#define VF_OWN std::make_shared
#else
#define VF_OWN std::make_unique
#endif
bool Yes();
// A copy of an action's state.
struct Tok {
  explicit Tok(int k) : id(k) { g_live++; }
  Tok(const Tok& o) : id(o.id) { g_live++; }
  Tok(Tok&& o) noexcept : id(o.id) { g_live++; o.id = -1; }
  ~Tok() { g_live--; id = -2; }
  Tok& operator=(const Tok&) = delete;
  int id;
};
struct Big {
  explicit Big(int k) : t(k) { for (int i = 0; i < 100; i++) v[i] = k + i; }
  bool Ok(int k) const { for (int i = 0; i < 100; i++) if (v[i] != k + i) return false; return t.id == k; }
  Tok t;
  int v[100];
};
void Run(int k, bool ok);
void In(int k);
template <int K>
void RunPtr() { Run(K, true); }

extern int g_id;
template <class A, class B, class C>
std::string Cats() {
  return std::string(std::is_lvalue_reference_v<A> ? "shared " : "own ") +
         (std::is_same_v<B, int&> ? "lvalue " : "changed ") + (std::is_same_v<C, const int&> ? "const" : "changed");
}
struct Obj {
  Obj() : id(g_id) { Made("none"); }
  explicit Obj(std::nullptr_t, int k) : id(k), quiet(true) {}
  Obj(std::initializer_list<int> l) : id(*l.begin()) { Made("list"); }
  template <class A, class B, class C>
  Obj(A&& a, B&& b, C&& c) : id(*a + b + c) { Made(Cats<A&&, B&&, C&&>().c_str()); auto keep = std::move(a); }
  Obj(const Obj& o) : id(o.id) { Made("copy"); }
  Obj(Obj&& o) noexcept : id(o.id) { Made("move"); o.id = -1; }
  Obj& operator=(const Obj&) = delete;
  ~Obj() { if (!quiet) Ev("destroyed").n("k", id).end(); id = -2; }
  void Made(const char* how) { Ev("made").n("k", id).s("how", how).end(); }
  int id;
  bool quiet = false;
  char pad[40];
};
struct alignas(64) Aligned : Obj {};
template <class T>
void Have(rst::NoDestructor<T>& n) {
  const auto& c = n;
  T* const p = &*n;
  const bool same = p == n.get().get() && p == &*c && p == c.get().get() && p->id == n->id && p->id == c->id &&
                    &n->id == &c->id && reinterpret_cast<uintptr_t>(p) % alignof(T) == 0 &&
                    reinterpret_cast<char*>(p) >= reinterpret_cast<char*>(&n) &&
                    reinterpret_cast<char*>(p + 1) <= reinterpret_cast<char*>(&n + 1);
  Ev("have").n("k", p->id).b("same", same).end();
}
inline void Enter(const char* k) { Ev("enter").s("kind", k).end(); }
inline void Act(int k) { Ev("act").n("k", k).end(); }
inline void Deferred(int k, int sub) { Ev("defer").n("k", k).n("sub", sub).end(); }
inline void Exit(const char* how, int n) { Ev("exit").s("how", how).n("n", n).end(); }
inline void Never(const char* how, int k) { Ev("never").n("k", k).s("how", how).end(); g_id = k; }
extern void (*const g_programs[])();
}  // namespace vf
#endif

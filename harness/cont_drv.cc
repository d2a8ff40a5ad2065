// Algorithms over containers of several kinds, strings that are resized,
// hashes that are combined.
#include "drv.h"

#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <random>
#include <set>

#include "rst/stl/algorithm.h"
#include "rst/stl/hash.h"
#include "rst/stl/resize_uninitialized.h"
#include "rst/stl/reversed.h"

using vf::Ev;
using vf::J;

namespace {

struct Elem {
  int key = 0, tag = 0;
  bool operator<(const Elem& o) const { return key < o.key; }
};
// Not to be copied.
struct Own {
  Own(int k, int t) : p(new Elem{k, t}) {}
  std::unique_ptr<Elem> p;
  bool operator<(const Own& o) const { return p->key < o.p->key; }
};
int& KeyOf(Elem& e) { return e.key; }
int& KeyOf(Own& e) { return e.p->key; }
int KeyOf(const Elem& e) { return e.key; }
int KeyOf(const Own& e) { return e.p->key; }
int TagOf(const Elem& e) { return e.tag; }
int TagOf(const Own& e) { return e.p->tag; }

bool Before(const std::string& cmp, int a, int b) {
  return cmp == "greater" ? a > b : cmp == "mod" ? a % 3 < b % 3 : a < b;
}
struct By {
  explicit By(const std::string& c) : cmp(c) {}
  template <class E>
  bool operator()(const E& a, const E& b) const { return Before(cmp, KeyOf(a), KeyOf(b)); }
  std::string cmp;
};
template <class E>
bool LessFn(const E& a, const E& b) { return KeyOf(a) < KeyOf(b); }

// Calls f with the comparison in one of several shapes.
template <class E, class F>
void With(const std::string& cmp, int shape, F f) {
  if (shape % 5 == 0) { f(By(cmp)); }
  else if (shape % 5 == 1) { const By by(cmp); f(by); }
  else if (shape % 5 == 2) { By by(cmp); f(by); }
  else if (shape % 5 == 3) { f([cmp](const E& a, const E& b) { return Before(cmp, KeyOf(a), KeyOf(b)); }); }
  else if (cmp == "less") { f(LessFn<E>); }
  else { f(std::function<bool(const E&, const E&)>(By(cmp))); }
}

std::mt19937 g_gen;
std::minstd_rand g_gen2;
int g_shape = 0;

template <class C>
std::string Text(const C& c) {
  std::string r;
  for (auto& e : c)
    r += (r.empty() ? "[" : ",[") + std::to_string(KeyOf(e)) + "," + std::to_string(TagOf(e)) + "]";
  return "[" + r + "]";
}

// Runs an algorithm of a container that is not resized; returns its answer.
template <class E, class C>
int Algorithm(C& c, const J& op) {
  const std::string &k = op["k"].str(), &cmp = op["cmp"].str();
  const int shape = g_shape++;
  int r = 0;
  if (k == "find") {
    const bool above = op["p"].is("above");
    const int key = op["key"].i();
    int asked = 0;
    auto pred = [&](const E& e) { asked++; return above ? KeyOf(e) > key : KeyOf(e) == key; };
    int n;
    if (shape % 3 == 0) {
      n = static_cast<int>(std::distance(std::begin(c), rst::c_find_if(c, pred)));
    } else if (shape % 3 == 1) {
      const auto& cc = c;
      n = static_cast<int>(std::distance(std::begin(cc), rst::c_find_if(cc, pred)));
    } else {
      const auto cp = pred;
      auto it = rst::c_find_if(c, cp);
      if (it != std::end(c)) KeyOf(*it) += 0;
      n = static_cast<int>(std::distance(std::begin(c), it));
    }
    r = n + 1000 * asked;
  } else if (k == "issorted") {
    With<E>(cmp, shape, [&](auto&& f) { r = rst::c_is_sorted(c, std::forward<decltype(f)>(f)); });
  } else if (k == "raise") {
    std::vector<int> seen;
    for (auto& e : rst::Reversed(c))
      seen.push_back(KeyOf(e)++);
    if (seen.size() != static_cast<size_t>(std::distance(std::begin(c), std::end(c)))) r = -1;
  } else if constexpr (std::is_base_of_v<std::random_access_iterator_tag,
                                         typename std::iterator_traits<decltype(std::begin(c))>::iterator_category>) {
    if (k == "sort") {
      if (cmp == "none") rst::c_sort(c);
      else With<E>(cmp, shape, [&](auto&& f) { rst::c_sort(c, std::forward<decltype(f)>(f)); });
    } else if (k == "stable") {
      if (cmp == "none") rst::c_stable_sort(c);
      else With<E>(cmp, shape, [&](auto&& f) { rst::c_stable_sort(c, std::forward<decltype(f)>(f)); });
    } else if (k == "pushheap") {
      With<E>(cmp, shape, [&](auto&& f) { rst::c_push_heap(c, std::forward<decltype(f)>(f)); });
    } else if (k == "popheap") {
      With<E>(cmp, shape, [&](auto&& f) { rst::c_pop_heap(c, std::forward<decltype(f)>(f)); });
    } else if (k == "shuffle") {
      if (shape % 2) {
        const auto was = g_gen;
        rst::c_shuffle(c, g_gen);
        r = !(was == g_gen);
      } else {
        const auto was = g_gen2;
        rst::c_shuffle(c, g_gen2);
        r = !(was == g_gen2);
      }
    }
  }
  return r;
}

template <class E, size_t... N>
int InArray(std::vector<E>& v, const J& op, std::index_sequence<N...>) {
  E a[sizeof...(N)] = {std::move(v[N])...};
  const int r = Algorithm<E>(a, op);
  v.clear();
  (v.push_back(std::move(a[N])), ...);
  return r;
}
template <class E>
int Arrays(std::vector<E>& v, const J& op) {
  switch (v.size()) {
    case 1: return InArray<E>(v, op, std::make_index_sequence<1>());
    case 2: return InArray<E>(v, op, std::make_index_sequence<2>());
    case 3: return InArray<E>(v, op, std::make_index_sequence<3>());
    case 4: return InArray<E>(v, op, std::make_index_sequence<4>());
    case 20: return InArray<E>(v, op, std::make_index_sequence<20>());
  }
  return Algorithm<E>(v, op);
}

template <class E>
E New(int key, int tag) {
  return E{key, tag};
}

void Did(const J& op, const char* k, const std::string& c, int r) {
  Ev("did").s("k", k).s("cmp", op["cmp"].str()).s("p", op["p"].str()).n("key", op["key"].num()).n("tag", op["tag"].num())
      .raw("c", c).n("r", r).end();
}

template <class E, class C>
void Backwards(C& c, const rst::internal::ReversedAdapter<C>& held) {
  // The adapter was made before the container came to what it is; each time
  // it is iterated anew.
  std::string r;
  bool there = true;
  auto copy = held;
  std::vector<const void*> where;
  for (auto& e : copy) {
    r += (r.empty() ? "[" : ",[") + std::to_string(KeyOf(e)) + "," + std::to_string(TagOf(e)) + "]";
    where.push_back(&e);
  }
  size_t n = where.size();
  for (auto& e : c)
    if (n == 0 || where[--n] != &e) there = false;
  const C& cc = c;
  size_t m = 0;
  for (const auto& e : rst::Reversed(cc)) {
    if (m >= where.size() || where[m] != &e) there = false;
    m++;
  }
  Ev("reversed").raw("got", "[" + r + "]").b("there", there && n == 0 && m == where.size()).end();
}

template <class E, class C, bool kArray = false>
void Play(const J& ops) {
  C c;
  auto held = rst::Reversed(c);
  constexpr bool kRandom = std::is_base_of_v<std::random_access_iterator_tag,
                                             typename std::iterator_traits<typename C::iterator>::iterator_category>;
  int tag = 0;
  auto algorithm = [&](const J& op) {
    if constexpr (kArray) return Arrays<E>(c, op);
    else return Algorithm<E>(c, op);
  };
  auto act = [&](const char* k, J op) {
    // The call itself decides what it is known by.
    for (auto& f : op.o)
      if (f.first == "k") f.second.s = k;
    const int r = algorithm(op);
    Did(op, k, Text(c), r);
  };
  for (const J& op : ops.a) {
    const std::string& k = op["k"].str();
    if (k == "add") {
      c.push_back(New<E>(op["key"].i(), ++tag));
      Ev("did").s("k", "add").n("key", op["key"].num()).n("tag", tag).raw("c", Text(c)).n("r", 0).end();
    } else if (k == "pop") {
      c.pop_back();
      Did(op, "pop", Text(c), 0);
    } else if (k == "heapup" || k == "heapdown") {
      if constexpr (kRandom) {
        std::vector<std::pair<int, int>> was;
        for (auto& e : c) was.emplace_back(KeyOf(e), TagOf(e));
        c.clear();
        Did(op, "clear", Text(c), 0);
        for (auto& e : was) {
          c.push_back(New<E>(e.first, e.second));
          Ev("did").s("k", "add").n("key", e.first).n("tag", e.second).raw("c", Text(c)).n("r", 0).end();
          act("pushheap", op);
        }
        for (size_t n = k == "heapdown" ? was.size() / 2 + 1 : 0; n > 0 && !c.empty(); n--) {
          act("popheap", op);
          c.pop_back();
          Did(op, "pop", Text(c), 0);
        }
      }
    } else if (kRandom || k == "find" || k == "issorted" || k == "raise") {
      act(k.c_str(), op);
    }
    if (k != "add")
      Backwards<E>(c, held);
  }
}

template <class G>
void Spread(int n, int total, const std::string& form) {
  std::map<std::vector<int>, int> seen;
  for (int s = 1; s <= total; s++) {
    std::vector<int> v(static_cast<size_t>(n));
    for (int j = 0; j < n; j++) v[static_cast<size_t>(j)] = j;
    G g(static_cast<typename G::result_type>(s));
    for (int j = 0; j < 10; j++) g();
    if (form == "deque") {
      std::deque<int> d(v.begin(), v.end());
      rst::c_shuffle(d, g);
      v.assign(d.begin(), d.end());
    } else if (form == "temporary") {
      rst::c_shuffle(v, std::move(g));
    } else {
      rst::c_shuffle(v, g);
    }
    seen[v]++;
  }
  std::string r;
  for (auto& p : seen) r += (r.empty() ? "" : ",") + std::to_string(p.second);
  Ev("spread").n("n", n).n("total", total).raw("counts", "[" + r + "]").end();
}

// A string with a way of its own.
int g_default_init, g_resized;
struct Special : std::string {
  void resize(size_t n) { g_resized++; std::string::resize(n); }
  void __resize_default_init(size_t n) { g_default_init++; std::string::resize(n); }
};
template <class S>
std::string Chars(const S& s) {
  std::string r;
  for (auto ch : s) r += (r.empty() ? "" : ",") + std::to_string(static_cast<long>(ch));
  return "[" + r + "]";
}
template <class S>
void Resize(const J& l) {
  S s;
  int n = 0;
  for (const J& x : l.a) {
    const std::string before = Chars(s);
    g_default_init = g_resized = 0;
    if (n++ % 2) rst::StringResizeUninitialized(&s, static_cast<size_t>(x.i()));
    else rst::StringResizeUninitialized(rst::NotNull(&s), static_cast<size_t>(x.i()));
    const bool plain = !std::is_same_v<S, Special> || (g_default_init == 1 && g_resized == 0);
    Ev("resized").raw("before", before).n("n", x.i()).raw("after", Chars(s)).b("ended", s.c_str()[s.size()] == 0 && s.capacity() >= s.size())
        .b("plain", plain).end();
    // All of it is there to be written.
    for (size_t j = 0; j < s.size(); j++)
      s.data()[j] = static_cast<typename S::value_type>('a' + (j + static_cast<size_t>(n)) % 26);
  }
}

// A value of one of many types.
struct Any {
  std::string text;
};
size_t Own1(const std::string& t) {
  const std::string v = t.substr(1);
  switch (t[0]) {
    case 'i': return std::hash<int>()(atoi(v.c_str()));
    case 'l': return std::hash<long long>()(atoll(v.c_str()));
    case 'd': return std::hash<double>()(atof(v.c_str()));
    case 's': return std::hash<std::string>()(v);
    case 'b': return std::hash<bool>()(v == "1");
    case 'c': return std::hash<char>()(v[0]);
  }
  _exit(95);
}
}  // namespace
template <>
struct std::hash<Any> {
  size_t operator()(const Any& a) const { return Own1(a.text); }
};
namespace {
template <class T, class F, size_t... N>
size_t Join(const J& l, F f, std::index_sequence<N...>) {
  return rst::HashCombine({T(f(l[N].str()))...});
}
template <class T, class F>
size_t Joined(const J& l, F f) {
  switch (l.size()) {
    case 0: return rst::HashCombine({});
    case 1: return Join<T>(l, f, std::make_index_sequence<1>());
    case 2: return Join<T>(l, f, std::make_index_sequence<2>());
    case 3: return Join<T>(l, f, std::make_index_sequence<3>());
    case 4: return Join<T>(l, f, std::make_index_sequence<4>());
    case 5: return Join<T>(l, f, std::make_index_sequence<5>());
    case 6: return Join<T>(l, f, std::make_index_sequence<6>());
    case 12: return Join<T>(l, f, std::make_index_sequence<12>());
  }
  _exit(95);
}
size_t Combined(const J& l, int how) {
  bool same = l.size() > 0;
  for (size_t j = 0; j < l.size(); j++) same = same && l[j].str()[0] == l[0].str()[0];
  if (how % 2 && same) {
    switch (l[0].str()[0]) {
      case 'i': return Joined<int>(l, [](const std::string& t) { return atoi(t.c_str() + 1); });
      case 'l': return Joined<long long>(l, [](const std::string& t) { return atoll(t.c_str() + 1); });
      case 'd': return Joined<double>(l, [](const std::string& t) { return atof(t.c_str() + 1); });
      case 's': return Joined<std::string>(l, [](const std::string& t) { return t.substr(1); });
      case 'b': return Joined<bool>(l, [](const std::string& t) { return t[1] == '1'; });
      case 'c': return Joined<char>(l, [](const std::string& t) { return t[1]; });
    }
  }
  if (how % 3 == 2 && l.size() == 3) {
    // Values of any kind of expression.
    Any a{l[0].str()};
    const Any b{l[1].str()};
    return rst::HashCombine({a, b, Any{l[2].str()}});
  }
  return Joined<Any>(l, [](const std::string& t) { return Any{t}; });
}
std::string Elements(const J& l) {
  std::string r;
  for (size_t j = 0; j < l.size(); j++) r += (j ? ",\"" : "\"") + std::to_string(Own1(l[j].str())) + "\"";
  return "[" + r + "]";
}
void Hashes(const J& a, const J& b, int how) {
  const size_t va = Combined(a, how), vb = Combined(b, how);
  Ev("pair").raw("a", Elements(a)).raw("b", Elements(b)).s("va", std::to_string(va)).s("vb", std::to_string(vb))
      .b("again", va == Combined(a, how) && va == Combined(a, how + 1) && vb == Combined(b, how + 1)).end();
}
void Many() {
  std::set<size_t> two, three, big;
  for (int a = 0; a < 400; a++)
    for (int b = -200; b < 200; b++)
      two.insert(rst::HashCombine({a, b}));
  Ev("many").n("lists", 160000).n("values", static_cast<long long>(two.size())).end();
  for (int a = -20; a < 30; a++)
    for (int b = 0; b < 50; b++)
      for (int d = 0; d < 50; d++)
        three.insert(rst::HashCombine({a, b, d}));
  Ev("many").n("lists", 125000).n("values", static_cast<long long>(three.size())).end();
  for (int a = 0; a < 64; a++)
    for (int b = 0; b < 64; b++)
      for (int d = 0; d < 3; d++)
        big.insert(rst::HashCombine({size_t{1} << a, size_t{1} << b, d}));
  for (int place = 1; place < 3; place++) {
    std::set<size_t> one;
    for (int v = 0; v < 150000; v++)
      one.insert(place == 1 ? rst::HashCombine({1, v, 2}) : rst::HashCombine({-1, 5, v}));
    Ev("many").n("lists", 150000).n("values", static_cast<long long>(one.size())).end();
  }
  // Leading elements count like all others.
  std::set<size_t> longer;
  for (int a = 0; a < 4; a++)
    for (int b = -150; b < 150; b++) {
      longer.insert(rst::HashCombine({a, b}));
      longer.insert(rst::HashCombine({0, a, b}));
      longer.insert(rst::HashCombine({0, 0, a, b}));
      longer.insert(rst::HashCombine({a, b, 0}));
    }
  // Four of them are there twice.
  Ev("many").n("lists", 4 * 4 * 300 - 4).n("values", static_cast<long long>(longer.size())).end();
  std::set<size_t> first;
  for (int v = 0; v < 150000; v++)
    first.insert(rst::HashCombine({v, 7}));
  Ev("many").n("lists", 150000).n("values", static_cast<long long>(first.size())).end();
  Ev("many").n("lists", 64 * 64 * 3).n("values", static_cast<long long>(big.size())).end();
}

void Run(const J& s) {
  g_gen.seed(7);
  g_gen2.seed(7);
  g_shape = s.has("shape") ? s["shape"].i() : 0;
  if (s.has("c")) {
    const J &c = s["c"], &ops = s["ops"];
    if (c.is("vector")) Play<Elem, std::vector<Elem>>(ops);
    else if (c.is("deque")) Play<Elem, std::deque<Elem>>(ops);
    else if (c.is("list")) Play<Elem, std::list<Elem>>(ops);
    else if (c.is("own")) Play<Own, std::vector<Own>>(ops);
    else if (c.is("array")) Play<Elem, std::vector<Elem>, true>(ops);
    else _exit(95);
  } else if (s.has("spread")) {
    if (s["g"].is("mt")) Spread<std::mt19937>(s["spread"].i(), s["total"].i(), s["form"].str());
    else Spread<std::mt19937_64>(s["spread"].i(), s["total"].i(), s["form"].str());
  } else if (s.has("resize")) {
    Resize<std::string>(s["resize"]);
    Resize<std::u16string>(s["resize"]);
    Resize<std::wstring>(s["resize"]);
    Resize<Special>(s["resize"]);
  } else if (s.has("a")) {
    Hashes(s["a"], s["b"], g_shape);
  } else if (s.has("many")) {
    Many();
  } else if (s.has("null")) {
#ifndef NDEBUG
    Ev("null").end();
    rst::StringResizeUninitialized(static_cast<std::string*>(nullptr), 3);
#endif
  }
  Ev("end").end();
}
}  // namespace

int main() { return vf::Main(Run, 60); }

// Histories of operations on JSON values in four slots. Every event carries
// the trees of all slots, read back through the public interface.
// argv[1]: tables ("S <hex>", "D <bits>", "I <decimal>", "B <bits>" lines).
#include "drv.h"

#include <algorithm>
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>

#include "rst/value/value.h"

using rst::Value;
using vf::Ev;
using vf::J;

namespace {

std::vector<std::string> g_str;
std::vector<double> g_num;
std::vector<double> g_dbl;      // arguments that may be refused
std::vector<int64_t> g_int;     // same
std::map<std::string, int> g_strno;
std::unique_ptr<Value> g_s[5];
unsigned g_ctr = 0;

double Bits(uint64_t b) {
  double d;
  memcpy(&d, &b, 8);
  return d;
}
int NumNo(double d) {
  for (size_t i = 0; i < g_num.size(); i++)
    if (memcmp(&d, &g_num[i], 8) == 0)
      return static_cast<int>(i) + 1;
  return -1;
}
int StrNo(const std::string& s) {
  const auto it = g_strno.find(s);
  return it == g_strno.end() ? -1 : it->second;
}

void DumpTo(const Value* v, std::string* r) {
  if (v == nullptr) {
    *r += "[\"none\",0,[],[]]";
    return;
  }
  switch (v->type()) {
    case Value::Type::kNull:
      *r += "[\"null\",0,[],[]]";
      return;
    case Value::Type::kBool:
      *r += "[\"bool\"," + std::to_string(v->GetBool() ? 1 : 0) + ",[],[]]";
      return;
    case Value::Type::kNumber:
      *r += "[\"num\"," + std::to_string(NumNo(v->GetDouble())) + ",[],[]]";
      return;
    case Value::Type::kString:
      *r += "[\"str\"," + std::to_string(StrNo(v->GetString())) + ",[],[]]";
      return;
    case Value::Type::kArray: {
      *r += "[\"arr\",0,[],[";
      bool first = true;
      for (const auto& c : v->GetArray()) {
        if (!first)
          *r += ",";
        first = false;
        DumpTo(&c, r);
      }
      *r += "]]";
      return;
    }
    case Value::Type::kObject: {
      *r += "[\"obj\",0,[";
      bool first = true;
      for (const auto& c : v->GetObject()) {
        if (!first)
          *r += ",";
        first = false;
        *r += std::to_string(StrNo(c.first));
      }
      *r += "],[";
      first = true;
      for (const auto& c : v->GetObject()) {
        if (!first)
          *r += ",";
        first = false;
        DumpTo(&c.second, r);
      }
      *r += "]]";
      return;
    }
  }
  *r += "[\"?\",0,[],[]]";
}
std::string Dump(const Value* v) {
  std::string r;
  DumpTo(v, &r);
  return r;
}
std::string All() {
  std::string r = "[";
  for (int s = 1; s <= 4; s++) {
    if (s > 1)
      r += ",";
    DumpTo(g_s[s].get(), &r);
  }
  return r + "]";
}

Value Make(const J& t) {
  const std::string& k = t[0].str();
  const size_t n = static_cast<size_t>(t[1].num());
  g_ctr++;
  if (k == "null")
    return g_ctr % 2 ? Value() : Value(Value::Type::kNull);
  if (k == "bool")
    return n == 0 && g_ctr % 3 == 0 ? Value(Value::Type::kBool) : Value(n != 0);
  if (k == "num") {
    const double d = g_num[n - 1];
    if (d == 0 && !std::signbit(d) && g_ctr % 5 == 0)
      return Value(Value::Type::kNumber);
    if (std::fabs(d) <= 9007199254740991.0 && d == std::floor(d) && !(d == 0 && std::signbit(d))) {
      if (g_ctr % 3 == 0)
        return Value(static_cast<int64_t>(d));
      if (g_ctr % 3 == 1 && std::fabs(d) < 2147483648.0)
        return Value(static_cast<int32_t>(d));
    }
    return Value(d);
  }
  if (k == "str") {
    const std::string& s = g_str[n - 1];
    if (s.empty() && g_ctr % 3 == 0)
      return Value(Value::Type::kString);
    if (g_ctr % 2 && s.find('\0') == std::string::npos)
      return Value(s.c_str());
    return Value(std::string(s));
  }
  if (k == "arr") {
    if (t[3].size() == 0 && g_ctr % 2)
      return Value(Value::Type::kArray);
    Value::Array a;
    for (size_t i = 0; i < t[3].size(); i++)
      a.push_back(Make(t[3][i]));
    return Value(std::move(a));
  }
  if (t[3].size() == 0 && g_ctr % 2)
    return Value(Value::Type::kObject);
  Value::Object o;
  for (size_t i = 0; i < t[3].size(); i++)
    o.emplace(g_str[static_cast<size_t>(t[2][i].num()) - 1], Make(t[3][i]));
  return Value(std::move(o));
}

// A place in a tree.
struct Loc {
  int s = 0;
  std::vector<std::pair<char, int>> p;
  Value* v = nullptr;
  bool Walk() {
    v = g_s[s].get();
    for (const auto& st : p) {
      if (v == nullptr)
        return false;
      if (st.first == 'k') {
        if (!v->IsObject())
          return false;
        auto& o = v->GetObject();
        const auto it = o.find(g_str[static_cast<size_t>(st.second) - 1]);
        if (it == o.end())
          return false;
        v = &it->second;
      } else {
        if (!v->IsArray() || static_cast<size_t>(st.second) > v->GetArray().size())
          return false;
        v = &v->GetArray()[static_cast<size_t>(st.second) - 1];
      }
    }
    return v != nullptr;
  }
  std::string Str() const {
    std::string r = "{\"s\":" + std::to_string(s) + ",\"p\":[";
    bool first = true;
    for (const auto& st : p) {
      r += std::string(first ? "" : ",") + "[\"" + st.first + "\"," + std::to_string(st.second) + "]";
      first = false;
    }
    return r + "]}";
  }
  bool Contains(const Loc& o) const {
    return s == o.s && p.size() <= o.p.size() && std::equal(p.begin(), p.end(), o.p.begin());
  }
};
// {"s","p"} names a place; [slot, r1, r2, ..] picks one that exists (an rN of 0
// stops the walk).
Loc At(const J& j) {
  Loc l;
  if (j.t == J::kObj) {
    l.s = j["s"].i();
    for (size_t i = 0; i < j["p"].size(); i++)
      l.p.emplace_back(j["p"][i][0].str()[0], j["p"][i][1].i());
    l.Walk();
    return l;
  }
  l.s = j[0].i();
  const Value* v = g_s[l.s].get();
  for (size_t i = 1; v != nullptr && i < j.size() && j[i].num() != 0; i++) {
    const size_t r = static_cast<size_t>(j[i].num()) - 1;
    if (v->IsObject() && !v->GetObject().empty()) {
      auto it = v->GetObject().begin();
      std::advance(it, static_cast<long>(r % v->GetObject().size()));
      l.p.emplace_back('k', StrNo(it->first));
      v = &it->second;
    } else if (v->IsArray() && !v->GetArray().empty()) {
      const size_t x = r % v->GetArray().size();
      l.p.emplace_back('i', static_cast<int>(x) + 1);
      v = &v->GetArray()[x];
    } else {
      break;
    }
  }
  l.Walk();
  return l;
}

std::string PathStr(const J& p) {
  std::string r;
  for (size_t i = 0; i < p.size(); i++)
    r += (i ? "." : "") + g_str[static_cast<size_t>(p[i].num()) - 1];
  return r;
}
const std::string& Key(const J& k) { return g_str[static_cast<size_t>(k.num()) - 1]; }

Value::Type TypeOf(const std::string& t) {
  return t == "null"   ? Value::Type::kNull
         : t == "bool" ? Value::Type::kBool
         : t == "num"  ? Value::Type::kNumber
         : t == "str"  ? Value::Type::kString
         : t == "arr"  ? Value::Type::kArray
                       : Value::Type::kObject;
}

std::string Six(const Value& a, const Value& b) {
  auto s = [](bool x) { return std::string(x ? "true" : "false"); };
  return "[" + s(a == b) + "," + s(a != b) + "," + s(a < b) + "," + s(a > b) + "," + s(a <= b) + "," +
         s(a >= b) + "]";
}
std::string Preds(const Value& v) {
  auto s = [](bool x) { return std::string(x ? "true" : "false"); };
  return "[" + s(v.IsNull()) + "," + s(v.IsBool()) + "," + s(v.IsNumber()) + "," + s(v.IsInt64()) + "," +
         s(v.IsInt()) + "," + s(v.IsString()) + "," + s(v.IsArray()) + "," + s(v.IsObject()) + "]";
}

void One(const J& o) {
  const std::string& op = o["op"].str();
  Ev e(op.c_str());
  auto end = [&e]() { e.raw("all", All()).end(); };
  if (op == "new") {
    const int s = o["s"].i();
    g_s[s].reset();
    g_s[s] = std::make_unique<Value>(Make(o["v"]));
    e.n("s", s).raw("v", vf::Dump(o["v"]));
    return end();
  }
  if (op == "drop") {
    g_s[o["s"].num()].reset();
    e.n("s", o["s"].num());
    return end();
  }
  if (op == "int" || op == "dbl") {
    const size_t n = static_cast<size_t>(o["n"].num());
    Ev("try").s("what", op).n("n", o["n"].num()).end();
    if (op == "int") {
      volatile int64_t x = g_int[n - 1];
      Value v(static_cast<int64_t>(x));
      (void)v;
    } else {
      volatile double x = g_dbl[n - 1];
      Value v(static_cast<double>(x));
      (void)v;
    }
    Ev("made").raw("all", All()).end();
    return;
  }
  if (op == "cmplit" || op == "predlit") {
    const Value v = Make(o["v"]);
    e.raw("v", vf::Dump(o["v"]));
    if (op == "cmplit") {
      const Value w = Make(o["w"]);
      e.raw("w", vf::Dump(o["w"])).raw("ret", Six(v, w));
    } else {
      e.raw("ret", Preds(v));
    }
    return end();
  }
  if (op == "cmp") {
    const Loc a = At(o["a"]), b = At(o["b"]);
    if (!a.v || !b.v)
      return;
    e.raw("a", a.Str()).raw("b", b.Str()).raw("ret", Six(*a.v, *b.v));
    return end();
  }
  if (op == "move" || op == "clone") {
    const Loc f = At(o["from"]);
    const int s = o["s"].i();
    if (!f.v)
      return;
    e.n("s", s).raw("from", f.Str());
    if (op == "move") {
      auto v = std::make_unique<Value>(std::move(*f.v));
      g_s[s] = std::move(v);
    } else if (f.v->IsArray() && ++g_ctr % 2) {
      g_s[s] = std::make_unique<Value>(Value::Clone(f.v->GetArray()));
    } else if (f.v->IsObject() && ++g_ctr % 2) {
      g_s[s] = std::make_unique<Value>(Value::Clone(f.v->GetObject()));
    } else {
      g_s[s] = std::make_unique<Value>(f.v->Clone());
    }
    return end();
  }
  if (op == "assign" || op == "swap") {
    const Loc t = At(o["to"]), f = At(o["from"]);
    if (!t.v || !f.v || t.v == f.v || f.Contains(t) || (op == "swap" && t.Contains(f)))
      return;
    e.raw("to", t.Str()).raw("from", f.Str());
    if (op == "assign")
      *t.v = std::move(*f.v);
    else
      std::swap(*t.v, *f.v);
    return end();
  }

  const Loc l = At(o["at"]);
  if (!l.v)
    return;
  e.raw("at", l.Str());
  Value& v = *l.v;
  const bool chk = o.has("chk");
  if (op == "push" || op == "pop" || op == "insert" || op == "sort") {
    if (!v.IsArray())
      return;
    auto& a = v.GetArray();
    if (op == "push") {
      e.raw("v", vf::Dump(o["v"]));
      a.emplace_back(Make(o["v"]));
    } else if (op == "sort") {
      std::sort(a.begin(), a.end());
    } else if (op == "pop") {
      if (a.empty())
        return;
      const size_t x = static_cast<size_t>(o["x"].num()) % a.size();
      e.n("x", static_cast<long long>(x) + 1);
      a.erase(a.begin() + static_cast<long>(x));
    } else {
      const size_t x = static_cast<size_t>(o["x"].num()) % (a.size() + 1);
      e.n("x", static_cast<long long>(x) + 1).raw("v", vf::Dump(o["v"]));
      a.insert(a.begin() + static_cast<long>(x), Make(o["v"]));
    }
    return end();
  }
  if (op == "preds") {
    e.raw("ret", Preds(v));
    return end();
  }
  if (op == "get") {
    const std::string& t = o["t"].str();
    Ev("try").s("what", "get").raw("at", l.Str()).s("t", t).end();
    std::string r;
    if (t == "bool")
      (void)v.GetBool();
    else if (t == "int64")
      r = std::to_string(v.GetInt64());
    else if (t == "int")
      r = std::to_string(v.GetInt());
    else if (t == "double")
      (void)v.GetDouble();
    else if (t == "string")
      (void)v.GetString();
    else if (t == "array")
      (void)v.GetArray();
    else
      (void)v.GetObject();
    e.s("t", t).s("ret", r);
    return end();
  }
  // Object operations.
  if (chk)
    Ev("try").s("what", "obj").raw("at", l.Str()).end();
  else if (!v.IsObject())
    return;
  if (op == "setkey") {
    const auto r = v.SetKey(std::string(Key(o["k"])), Make(o["v"]));
    e.n("k", o["k"].num()).raw("v", vf::Dump(o["v"])).raw("ret", Dump(r.get()))
        .b("same", r.get() == v.FindKey(Key(o["k"])).get());
  } else if (op == "setpath") {
    const std::string p = PathStr(o["path"]);
    const auto r = v.SetPath(p, Make(o["v"]));
    e.raw("path", vf::Dump(o["path"])).raw("v", vf::Dump(o["v"])).raw("ret", Dump(r.get()))
        .b("same", r.get() == v.FindPath(p).get());
  } else if (op == "remkey") {
    const bool r = v.RemoveKey(Key(o["k"]));
    e.n("k", o["k"].num()).b("ret", r);
  } else if (op == "findkey") {
    const Value& c = v;
    const auto r = c.FindKey(Key(o["k"]));
    e.n("k", o["k"].num()).raw("ret", Dump(r.get()));
  } else if (op == "findpath") {
    const Value& c = v;
    const auto r = c.FindPath(PathStr(o["path"]));
    e.raw("path", vf::Dump(o["path"])).raw("ret", Dump(r.get()));
  } else if (op == "setfound") {
    const bool one = o["path"].size() == 1;
    const std::string p = PathStr(o["path"]);
    auto r = one ? v.FindKey(p) : v.FindPath(p);
    const bool got = r != nullptr;
    if (got)
      *r = Make(o["v"]);
    e.raw("path", vf::Dump(o["path"])).raw("v", vf::Dump(o["v"])).b("ret", got);
  } else if (op == "findtype") {
    const std::string& t = o["t"].str();
    const Value& c = v;
    const Value* r = nullptr;
    std::unique_ptr<Value> tmp;
    const std::string& k = Key(o["k"]);
    // Types that have a finder of their own.
    if (++g_ctr % 3 && t == "bool") {
      const auto x = c.FindBoolKey(k);
      if (x)
        tmp = std::make_unique<Value>(*x);
    } else if (g_ctr % 3 && t == "num") {
      const auto x = c.FindDoubleKey(k);
      if (x)
        tmp = std::make_unique<Value>(*x);
    } else if (g_ctr % 3 && t == "str") {
      const auto x = c.FindStringKey(k);
      if (x != nullptr)
        tmp = std::make_unique<Value>(std::string(*x));
    } else if (g_ctr % 3 && t == "arr") {
      r = c.FindArrayKey(k).get();
    } else if (g_ctr % 3 && t == "obj") {
      r = c.FindObjectKey(k).get();
    } else {
      r = c.FindKeyOfType(k, TypeOf(t)).get();
    }
    if (tmp)
      r = tmp.get();
    e.n("k", o["k"].num()).s("t", t).raw("ret", Dump(r));
  } else if (op == "findnum") {
    const std::string& t = o["t"].str();
    std::string r;
    if (t == "int64") {
      const auto x = v.FindInt64Key(Key(o["k"]));
      if (x)
        r = std::to_string(*x);
    } else {
      const auto x = v.FindIntKey(Key(o["k"]));
      if (x)
        r = std::to_string(*x);
    }
    e.n("k", o["k"].num()).s("t", t).s("ret", r);
  } else {
    return;
  }
  end();
}

void Run(const J& s) {
  for (auto& v : g_s)
    v.reset();
  g_ctr = 0;
  for (size_t i = 0; i < s.size(); i++)
    One(s[i]);
  for (auto& v : g_s)
    v.reset();
}

}  // namespace

int main(int, char** argv) {
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    char k = 0;
    std::string x;
    is >> k >> x;
    if (k == 'S') {
      std::string t;
      for (size_t i = 0; i + 1 < x.size(); i += 2)
        t += static_cast<char>(strtol(x.substr(i, 2).c_str(), nullptr, 16));
      g_str.push_back(t);
      g_strno[t] = static_cast<int>(g_str.size());
    } else if (k == 'D') {
      g_num.push_back(Bits(strtoull(x.c_str(), nullptr, 16)));
    } else if (k == 'B') {
      g_dbl.push_back(Bits(strtoull(x.c_str(), nullptr, 16)));
    } else if (k == 'I') {
      g_int.push_back(strtoll(x.c_str(), nullptr, 10));
    }
  }
  return vf::Main(Run, 20);
}

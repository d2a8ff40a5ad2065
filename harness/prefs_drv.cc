// Preferences over the memory store and over a store of our own.
#include "drv.h"

#include <memory>

#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"

using rst::Value;
using vf::Ev;
using vf::J;

namespace {

std::map<std::string, Value> g_flat;
class FlatStore : public rst::PreferencesStore {
 public:
  rst::Nullable<const Value*> GetValue(std::string_view path) const override {
    const auto it = g_flat.find(std::string(path));
    return it == g_flat.end() ? nullptr : &it->second;
  }
  void SetValue(std::string_view path, Value&& value) override {
    g_flat.insert_or_assign(std::string(path), std::move(value));
  }
};

std::unique_ptr<rst::Preferences> g_p;
struct Known {
  std::string t, now;
};
std::map<int, Known> g_reg;     // path -> its type and the type last set
std::map<int, std::string> g_set;

const char* const kPaths[] = {"", "a", "b", "ab", "a.b", "a.c", "a.b.c", "a.b.d", "b.a",
                              "", ".", "a.", ".a", "a..b", "a b.N", "a b.\xd0\xbf\xd1\x83\xd1\x82\xd1\x8c",
                              "L.L.L", "A", "a.B", "a.b.c.d.e.f.g.h", "a.bb", "L.L.L2"};
std::string Path(int p) {
  std::string s = kPaths[p];
  if (p == 14)
    s = std::string("a b.\0x", 6);
  if (p == 16 || p == 21)
    s = std::string(200, 'l') + "." + std::string(200, 'l') + "." + std::string(200, 'l') + (p == 21 ? "2" : "");
  return s;
}

Value::Array Arr(const std::string& v) {
  Value::Array a;
  if (v == "[1]")
    a.emplace_back(1);
  if (v == "[[s],{}]") {
    Value::Array b;
    b.emplace_back("s");
    a.emplace_back(std::move(b));
    a.emplace_back(Value::Object());
  }
  return a;
}
Value::Object Obj(const std::string& v) {
  Value::Object o;
  if (v == "{x:1}")
    o.emplace("x", Value(1));
  if (v == "{a:{b:2}}") {
    Value::Object b;
    b.emplace("b", Value(2));
    o.emplace("a", Value(std::move(b)));
  }
  return o;
}
std::string Str(const std::string& v) {
  return v == "long" ? std::string(300, 'q') : v == "nul" ? std::string("n\0l", 3) : v;
}
std::string Render(const Value& v);
std::string Render(const Value::Array& a) {
  std::string r = "[";
  for (auto& x : a)
    r += (r.size() > 1 ? "," : "") + Render(x);
  return r + "]";
}
std::string Render(const Value::Object& o) {
  std::string r = "{";
  for (auto& x : o)
    r += (r.size() > 1 ? "," : "") + x.first + ":" + Render(x.second);
  return r + "}";
}
std::string NumName(double d) {
  for (const char* n : {"0", "-1", "7", "2147483647", "-2147483648", "0.5", "-1e300", "4294967296"})
    if (strtod(n, nullptr) == d)
      return n;
  return "number " + std::to_string(d);
}
std::string StrName(const std::string& s) {
  for (const char* n : {"", "s", "long", "nul"})
    if (Str(n) == s)
      return n;
  return "string " + s;
}
std::string Render(const Value& v) {
  switch (v.type()) {
    case Value::Type::kNull: return "null";
    case Value::Type::kBool: return v.GetBool() ? "true" : "false";
    case Value::Type::kNumber: return std::to_string(static_cast<long long>(v.GetDouble()));
    case Value::Type::kString: return v.GetString();
    case Value::Type::kArray: return Render(v.GetArray());
    case Value::Type::kObject: return Render(v.GetObject());
  }
  return "?";
}

void Register(const std::string& t, std::string path, const std::string& v) {
  if (t == "bool")
    g_p->RegisterBoolPreference(std::move(path), v == "true");
  else if (t == "int")
    g_p->RegisterIntPreference(std::move(path), static_cast<int>(strtol(v.c_str(), nullptr, 10)));
  else if (t == "dbl")
    g_p->RegisterDoublePreference(std::move(path), strtod(v.c_str(), nullptr));
  else if (t == "str")
    g_p->RegisterStringPreference(std::move(path), Str(v));
  else if (t == "arr")
    g_p->RegisterArrayPreference(std::move(path), Arr(v));
  else
    g_p->RegisterObjectPreference(std::move(path), Obj(v));
}
void Set(const std::string& t, std::string_view path, const std::string& v) {
  if (t == "bool")
    g_p->SetBool(path, v == "true");
  else if (t == "int")
    g_p->SetInt(path, static_cast<int>(strtol(v.c_str(), nullptr, 10)));
  else if (t == "dbl")
    g_p->SetDouble(path, strtod(v.c_str(), nullptr));
  else if (t == "str")
    g_p->SetString(path, Str(v));
  else if (t == "arr")
    g_p->SetArray(path, Arr(v));
  else
    g_p->SetObject(path, Obj(v));
}
std::string Get(const std::string& t, std::string_view path) {
  const rst::Preferences& p = *g_p;
  if (t == "bool")
    return p.GetBool(path) ? "true" : "false";
  if (t == "int")
    return std::to_string(p.GetInt(path));
  if (t == "dbl")
    return NumName(p.GetDouble(path));
  if (t == "str")
    return StrName(p.GetString(path));
  if (t == "arr")
    return Render(p.GetArray(path));
  return Render(p.GetObject(path));
}

void Run(const J& ops) {
  g_p = nullptr;
  g_flat.clear();
  g_reg.clear();
  g_set.clear();
  bool flat = false;
  for (size_t i = 0; i < ops.size(); i++) {
    const J& o = ops[i];
    const std::string k = o["k"].str(), t = o["t"].str(), v = o["v"].str();
    const int p = o["p"].i();
    Ev("do").s("k", k).n("p", p).s("t", t).s("v", v).end();
    // The path in memory of its own size.
    const std::string path = p ? Path(p) : "";
    std::unique_ptr<char[]> exact(new char[path.size()]);
    memcpy(exact.get(), path.data(), path.size());
    const std::string_view view(exact.get(), path.size());
    std::string r = "-";
    if (k == "open") {
      flat = t == "flat";
      if (flat)
        g_p = std::make_unique<rst::Preferences>(std::make_unique<FlatStore>());
      else
        g_p = std::make_unique<rst::Preferences>(std::make_unique<rst::MemoryPreferencesStore>());
    } else if (k == "close") {
      g_p = nullptr;
      g_reg.clear();
      if (!flat)
        g_set.clear();
    } else if (k == "reg") {
      Register(t, path, v);
      g_reg[p].t = t;
    } else if (k == "set") {
      Set(t, view, v);
      g_set[p] = t;
    } else {
      r = Get(t, view);
    }
    Ev("ret").s("r", r).end();
    std::string all;
    for (auto& x : g_reg)
      if (!g_set.count(x.first) || g_set[x.first] == x.second.t)
        all += (all.empty() ? "[" : ",[") + std::to_string(x.first) + "," +
               vf::Q(Get(x.second.t, Path(x.first))) + "]";
    Ev("all").raw("vals", "[" + all + "]").end();
  }
  g_p = nullptr;
}

}  // namespace

int main() { return vf::Main(Run); }

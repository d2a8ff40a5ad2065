// Functions made of steps that wrap calls in the propagation macros.
#include "drv.h"

#include <memory>

#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"

using vf::Ev;
using vf::J;

namespace {

class Err : public rst::ErrorInfo<Err> {
 public:
  explicit Err(int n) : n_(n) {}
  const std::string& AsString() const override { return s_; }
  int n() const { return n_; }
  static char id_;

 private:
  int n_;
  std::string s_;
};
char Err::id_ = 0;

using Val = std::unique_ptr<int>;
Val V(int id) { return std::make_unique<int>(id); }

std::string Res(bool err, int id) {
  return std::string("[\"") + (err ? "err" : "ok") + "\"," + std::to_string(id) + "]";
}
int ErrId(rst::NotNull<const rst::ErrorInfoBase*> e) {
  const auto p = rst::dyn_cast<Err>(e);
  return p == nullptr ? -1 : p->n();
}

rst::Status FnS(const J& f, int at, const char* m);
rst::StatusOr<Val> FnT(const J& f, int at, const char* m);

// A wrapped expression: {"id", "err"} or {"body": [...], "id"}.
rst::Status S(const J& c, int at, const char* m) {
  if (c.has("body"))
    return FnS(c, at, m);
  const int id = c["id"].i();
  const bool err = c["err"].i() != 0;
  Ev("eval").n("at", at).s("m", m).raw("res", Res(err, err ? id : 0)).end();
  if (err)
    return rst::MakeStatus<Err>(id);
  return rst::Status::OK();
}
rst::StatusOr<Val> T(const J& c, int at, const char* m) {
  if (c.has("body"))
    return FnT(c, at, m);
  const int id = c["id"].i();
  const bool err = c["err"].i() != 0;
  Ev("eval").n("at", at).s("m", m).raw("res", Res(err, id)).end();
  if (err)
    return rst::MakeStatus<Err>(id);
  return V(id);
}
void Pass(int at, int v) { Ev("pass").n("at", at).n("v", v).end(); }
void Caught(int at, bool err, int id) {
  Ev("caught").n("at", at).raw("res", Res(err, id)).end();
}

// As the unbraced branches of an if statement.
#ifdef NO_BARE
#define BARE(c, x) { x; }
#else
#define BARE(c, x) if (c) x; else x
#endif

#define STEPS                                                                  \
  const J& body = f["body"];                                                   \
  Ev("enter").n("n", static_cast<int>(body.size())).n("at", at0).s("m", m0).end(); \
  rst::StatusOr<Val> var = V(0);                                               \
  var.Ignore();                                                                \
  Val plain = V(0);                                                            \
  for (int at = 1; at <= static_cast<int>(body.size()); at++) {                \
    const J& st = body[at - 1];                                                \
    const std::string k = st["m"].str();                                       \
    const J& c = st["c"];                                                      \
    if (k == "try") {                                                          \
      RST_TRY(S(c, at, "try"));                                                \
      Pass(at, 0);                                                             \
    } else if (k == "trybare") {                                               \
      BARE(at % 2, RST_TRY(S(c, at, "try")));                                  \
      Pass(at, 0);                                                             \
    } else if (k == "assign") {                                                \
      RST_TRY_ASSIGN(var, T(c, at, "assign"));                                 \
      Pass(at, **var);                                                         \
    } else if (k == "catchvar") {                                              \
      var = T(c, at, "catch");                                                 \
      const bool e = var.err();                                                \
      Caught(at, e, e ? ErrId(var.status().GetError()) : **var);               \
    } else if (k == "unwrapbare" && !var.err()) {                              \
      BARE(at % 2, RST_TRY_ASSIGN_UNWRAP(*var, T(c, at, "unwrap")));           \
      Pass(at, **var);                                                         \
    } else if (k == "unwrap" || k == "unwrapbare") {                                                \
      RST_TRY_ASSIGN_UNWRAP(plain, T(c, at, "unwrap"));                        \
      Pass(at, *plain);                                                        \
    } else if (k == "create") {                                                \
      RST_TRY_CREATE(auto, made, T(c, at, "create"));                          \
      Pass(at, **made);                                                        \
    } else if (k == "createT") {                                               \
      RST_TRY_CREATE(rst::StatusOr<Val>, made, T(c, at, "create"));            \
      Pass(at, **made);                                                        \
    } else if (k == "catchS") {                                                \
      auto s = S(c, at, "catch");                                              \
      const bool e = s.err();                                                  \
      Caught(at, e, e ? ErrId(s.GetError()) : 0);                              \
    } else {                                                                   \
      auto s = T(c, at, "catch");                                              \
      const bool e = s.err();                                                  \
      Caught(at, e, e ? ErrId(s.status().GetError()) : **s);                   \
    }                                                                          \
  }

// Straight-line code: the steps of "body" with fixed macros, several per line.
#define LINE                                                                   \
  const J& b = f["body"];                                                      \
  Ev("enter").n("n", 8).n("at", at0).s("m", m0).end();                         \
  Val x = V(0), y = V(0);                                                      \
  RST_TRY(S(b[0], 1, "try")); Pass(1, 0);                                      \
  RST_TRY(S(b[1], 2, "try")); Pass(2, 0);                                      \
  RST_TRY_CREATE(auto, p, T(b[2], 3, "create")); Pass(3, **p);                 \
  RST_TRY_CREATE(rst::StatusOr<Val>, q, T(b[3], 4, "create")); Pass(4, **q);   \
  RST_TRY_ASSIGN_UNWRAP(x, T(b[4], 5, "unwrap")); Pass(5, *x);                 \
  RST_TRY_ASSIGN_UNWRAP(y, T(b[5], 6, "unwrap")); Pass(6, *y);                 \
  RST_TRY_ASSIGN(p, T(b[6], 7, "assign")); Pass(7, **p);                       \
  BARE(f["id"].i() % 2, RST_TRY(S(b[7], 8, "try")));                           \
  Pass(8, *x == *y || **p == **q ? -1 : 0);

#ifndef NO_LINE
rst::Status LineS(const J& f, int at0, const char* m0) {
  LINE
  Ev("leave").raw("res", Res(false, 0)).end();
  return rst::Status::OK();
}
rst::StatusOr<Val> LineT(const J& f, int at0, const char* m0) {
  LINE
  const int id = f["id"].i();
  Ev("leave").raw("res", Res(false, id)).end();
  return V(id);
}

#endif

rst::Status FnS(const J& f, int at0, const char* m0) {
#ifndef NO_LINE
  if (f.has("line"))
    return LineS(f, at0, m0);
#endif
  STEPS
  Ev("leave").raw("res", Res(false, 0)).end();
  return rst::Status::OK();
}
rst::StatusOr<Val> FnT(const J& f, int at0, const char* m0) {
#ifndef NO_LINE
  if (f.has("line"))
    return LineT(f, at0, m0);
#endif
  STEPS
  const int id = f["id"].i();
  Ev("leave").raw("res", Res(false, id)).end();
  return V(id);
}

void Run(const J& s) {
  const bool drop = s["drop"].i() != 0;
  if (s["t"].is("S")) {
    auto r = FnS(s["f"], 0, "");
    if (drop) {
      Ev("drop").end();
    } else {
      const bool e = r.err();
      Ev("got").raw("res", Res(e, e ? ErrId(r.GetError()) : 0)).end();
    }
  } else {
    auto r = FnT(s["f"], 0, "");
    if (drop) {
      Ev("drop").end();
    } else {
      const bool e = r.err();
      Ev("got").raw("res", Res(e, e ? ErrId(r.status().GetError()) : **r)).end();
    }
  }
  Ev("end").end();
}

}  // namespace

int main() { return vf::Main(Run); }

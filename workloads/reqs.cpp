// P29: typed parameters of requests, against a map of flat values.
#include "env.h"
#include <Smp/IOperation.h>
#include <Smp/IPublication.h>
#include <Smp/IRequest.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Array.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Request.h>
#include <Xsmp/String.h>
namespace wl {
namespace {
using PK = Smp::PrimitiveTypeKind;
constexpr Smp::Uuid U(unsigned n) { return Smp::Uuid{0x29, 0x20, 0x30, 0x40, 0x50000000ull + n}; }
using Text = Xsmp::String<12>;
using Arr = Xsmp::Array<Smp::Int32, 3>;
using SArr = Xsmp::Array<Smp::Int16, 4>::simple;
enum class Col : Smp::Int32 { red = 1, green = 2, blue = 5 };
struct Inner {
  Smp::Int32 a;
  SArr s;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *tr, Smp::Uuid u, Smp::String8 name, Smp::String8 description = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Inner &v = {})
        : B(tr, u, name, description, parent, view), a{tr, Smp::Uuids::Uuid_Int32, "a", "", this, view, v.a}, s{tr, U(2), "s", "", this, view, v.s} {}
    _Field(const _Field &) = delete;
    _Field &operator=(const _Field &) = delete;
    typename B::template Field<Smp::Int32> a;
    typename B::template Field<SArr> s;
    operator Inner() const noexcept { return {a, s}; }
  };
};
using InArr = Xsmp::Array<Inner, 2>;
struct Outer {
  Smp::Float64 x;
  Text t;
  Inner in;
  InArr ia;
  Arr arr;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *tr, Smp::Uuid u, Smp::String8 name, Smp::String8 description = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Outer &v = {})
        : B(tr, u, name, description, parent, view), x{tr, Smp::Uuids::Uuid_Float64, "x", "", this, view, v.x}, t{tr, U(7), "t", "", this, view, v.t}, in{tr, U(4), "in", "", this, view, v.in},
          ia{tr, U(5), "ia", "", this, view, v.ia}, arr{tr, U(1), "arr", "", this, view, v.arr} {}
    _Field(const _Field &) = delete;
    _Field &operator=(const _Field &) = delete;
    typename B::template Field<Smp::Float64> x;
    typename B::template Field<Text> t;
    typename B::template Field<Inner> in;
    typename B::template Field<InArr> ia;
    typename B::template Field<Arr> arr;
    operator Outer() const noexcept { return {x, t, in, ia, arr}; }
  };
};
void types(Smp::Publication::ITypeRegistry *tr) {
  auto V = Smp::ViewKind::VK_None;
  tr->AddArrayType("Arr", "", U(1), Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 3);
  tr->AddArrayType("SArr", "", U(2), Smp::Uuids::Uuid_Int16, sizeof(Smp::Int16), 4, true);
  auto *i = tr->AddStructureType("Inner", "", U(4));
  i->AddField("a", "", Smp::Uuids::Uuid_Int32, offsetof(Inner, a), V, true, false, false);
  i->AddField("s", "", U(2), offsetof(Inner, s), V, true, false, false);
  tr->AddArrayType("InArr", "", U(5), U(4), sizeof(Inner), 2);
  tr->AddStringType("Text", "", U(7), 12);
  auto *o = tr->AddStructureType("Outer", "", U(6));
  o->AddField("x", "", Smp::Uuids::Uuid_Float64, offsetof(Outer, x), V, true, false, false);
  o->AddField("t", "", U(7), offsetof(Outer, t), V, true, false, false);
  o->AddField("in", "", U(4), offsetof(Outer, in), V, true, false, false);
  o->AddField("ia", "", U(5), offsetof(Outer, ia), V, true, false, false);
  o->AddField("arr", "", U(1), offsetof(Outer, arr), V, true, false, false);
  tr->AddIntegerType("Small", "", U(8), -100, 100, "", PK::PTK_Int16);
  tr->AddFloatType("Unit", "", U(9), -1, 1, true, true, "", PK::PTK_Float64);
  auto *e = tr->AddEnumerationType("Col", "", U(10), 4);
  e->AddLiteral("red", "", 1), e->AddLiteral("green", "", 2), e->AddLiteral("blue", "", 5);
}
// the flat values of a value
using Flat = std::vector<std::pair<std::string, Smp::AnySimple>>;
void flat(Smp::Int32 v, const std::string &n, Flat &o) { o.push_back({n, {PK::PTK_Int32, v}}); }
void flat(Smp::Int16 v, const std::string &n, Flat &o) { o.push_back({n, {PK::PTK_Int16, v}}); }
void flat(Smp::UInt8 v, const std::string &n, Flat &o) { o.push_back({n, {PK::PTK_UInt8, v}}); }
void flat(Smp::Float64 v, const std::string &n, Flat &o) { o.push_back({n, {PK::PTK_Float64, v}}); }
void flat(Smp::Bool v, const std::string &n, Flat &o) { o.push_back({n, {PK::PTK_Bool, v}}); }
void flat(Col v, const std::string &n, Flat &o) { o.push_back({n, {PK::PTK_Int32, (Smp::Int32)v}}); }
void flat(const Text &v, const std::string &n, Flat &o) { o.push_back({n, {PK::PTK_String8, v.c_str()}}); }
template <class A> void flatArray(const A &v, size_t len, const std::string &n, Flat &o) {
  for (size_t i = 0; i < len; ++i)
    flat(v[i], n + "[" + std::to_string(i) + "]", o);
}
void flat(const Arr &v, const std::string &n, Flat &o) { flatArray(v, 3, n, o); }
void flat(const SArr &v, const std::string &n, Flat &o) { flatArray(v, 4, n, o); }
void flat(const Inner &v, const std::string &n, Flat &o) { flat(v.a, n + ".a", o), flat(v.s, n + ".s", o); }
void flat(const InArr &v, const std::string &n, Flat &o) { flatArray(v, 2, n, o); }
void flat(const Outer &v, const std::string &n, Flat &o) { flat(v.x, n + ".x", o), flat(v.t, n + ".t", o), flat(v.in, n + ".in", o), flat(v.ia, n + ".ia", o), flat(v.arr, n + ".arr", o); }
// random values
template <class T> struct Make {
  static T any() { return (T)range(-120, 120); }
};
template <> struct Make<Smp::Bool> {
  static bool any() { return chance(50); }
};
template <> struct Make<Smp::Float64> {
  static double any() { return (double)range(-12, 12) / 8; }
};
template <> struct Make<Text> {
  static Text any() { return std::string((size_t)rnd(13), (char)('a' + rnd(26))).c_str(); }
};
template <> struct Make<Col> {
  static Col any() { return (Col)range(0, 6); }
};
template <> struct Make<SArr> {
  static SArr any() {
    SArr a;
    for (auto &x : a)
      x = Make<Smp::Int16>::any();
    return a;
  }
};
template <> struct Make<Arr> {
  static Arr any() {
    Arr a;
    for (auto &x : a)
      x = Make<Smp::Int32>::any();
    return a;
  }
};
template <> struct Make<Inner> {
  static Inner any() { return {Make<Smp::Int32>::any(), Make<SArr>::any()}; }
};
template <> struct Make<InArr> {
  static InArr any() {
    InArr a;
    a[0] = Make<Inner>::any(), a[1] = Make<Inner>::any();
    return a;
  }
};
template <> struct Make<Outer> {
  static Outer any() { return {Make<Smp::Float64>::any(), Make<Text>::any(), Make<Inner>::any(), Make<InArr>::any(), Make<Arr>::any()}; }
};
std::string show(const Smp::AnySimple &v) {
  switch (v.GetType()) {
  case PK::PTK_Int32:
    return "i" + std::to_string((Smp::Int32)v);
  case PK::PTK_Int16:
    return "h" + std::to_string((Smp::Int16)v);
  case PK::PTK_UInt8:
    return "b" + std::to_string((unsigned)(Smp::UInt8)v);
  case PK::PTK_Float64:
    return "f" + std::to_string((Smp::Float64)v);
  case PK::PTK_Bool:
    return (Smp::Bool)v ? "true" : "false";
  case PK::PTK_String8:
    return std::string("'") + (Smp::String8)v + "'";
  case PK::PTK_None:
    return "none";
  default:
    return "?";
  }
}
struct Leaf {
  std::string name, val;
  PK kind;
  int type; // of the checks of its values
};
enum { tInt, tSmall, tReal, tBool, tText, tCol, tByte, tUnit, tSArr, tArr, tInner, tInArr, tOuter, TYPES };
const Smp::Uuid uuids[TYPES] = {Smp::Uuids::Uuid_Int32, U(8), Smp::Uuids::Uuid_Float64, Smp::Uuids::Uuid_Bool, U(7), U(10), Smp::Uuids::Uuid_UInt8, U(9), U(2), U(1), U(4), U(5), U(6)};
const PK kinds[tSArr] = {PK::PTK_Int32, PK::PTK_Int16, PK::PTK_Float64, PK::PTK_Bool, PK::PTK_String8, PK::PTK_Int32, PK::PTK_UInt8, PK::PTK_Float64};
void leaves(int t, const std::string &n, std::vector<Leaf> &o) {
  auto items = [&](int item, int len) {
    for (int i = 0; i < len; ++i)
      leaves(item, n + "[" + std::to_string(i) + "]", o);
  };
  switch (t) {
  case tSArr:
    for (int i = 0; i < 4; ++i)
      o.push_back({n + "[" + std::to_string(i) + "]", "none", PK::PTK_Int16, -1});
    break;
  case tArr:
    return items(tInt, 3);
  case tInner:
    leaves(tInt, n + ".a", o), leaves(tSArr, n + ".s", o);
    break;
  case tInArr:
    return items(tInner, 2);
  case tOuter:
    leaves(tReal, n + ".x", o), leaves(tText, n + ".t", o), leaves(tInner, n + ".in", o), leaves(tInArr, n + ".ia", o), leaves(tArr, n + ".arr", o);
    break;
  default:
    o.push_back({n, "none", kinds[t], t});
  }
}
bool allowed(int type, const Smp::AnySimple &v) {
  switch (type) {
  case tSmall:
    return std::abs((Smp::Int16)v) <= 100;
  case tUnit:
    return std::abs((Smp::Float64)v) <= 1;
  case tCol: {
    int i = (Smp::Int32)v;
    return i == 1 || i == 2 || i == 5;
  }
  case tText:
    return strlen((Smp::String8)v) <= 12;
  default:
    return true;
  }
}
struct Par {
  std::string name;
  int type;
  Smp::Publication::ParameterDirectionKind dir;
};
struct Oper {
  std::string name;
  std::vector<Par> pars;
  int ret = -1;
};
struct Req {
  Smp::IRequest *r;
  int op;
  std::vector<Leaf> leaves;
  std::string ret = "none";
};
struct Comp;
struct Ctx {
  std::vector<Oper> ops;
  std::deque<Req> reqs;
  Comp *comp = nullptr;
};
Ctx *cx;
void inside(Smp::IRequest *r);
struct Comp : Xsmp::Model {
  using Xsmp::Model::GetSimulator;
  explicit Comp(Smp::IComposite *p) : Xsmp::Model("comp", "", p) {}
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(20);
    return u;
  }
  void Publish(Smp::IPublication *r) override {
    Xsmp::Model::Publish(r);
    for (auto &o : cx->ops) {
      auto *p = r->PublishOperation(o.name.c_str(), "", Smp::ViewKind::VK_All);
      for (auto &x : o.pars)
        p->PublishParameter(x.name.c_str(), "", uuids[x.type], x.dir);
      if (o.ret >= 0)
        p->PublishParameter("return", "", uuids[o.ret], Smp::Publication::ParameterDirectionKind::PDK_Return);
    }
  }
  void Invoke(Smp::IRequest *r) override { inside(r); }
};
void compare(const Req &q) {
  Quiet qq;
  if (q.r->GetParameterCount() != (int)q.leaves.size())
    fail("count", "a request has %d parameters, %zu expected", q.r->GetParameterCount(), q.leaves.size());
  for (size_t i = 0; i < q.leaves.size(); ++i) {
    const Leaf &l = q.leaves[i];
    if (q.r->GetParameterIndex(l.name.c_str()) != (int)i)
      fail("index", "parameter %s is found at %d instead of %zu", l.name.c_str(), q.r->GetParameterIndex(l.name.c_str()), i);
    if (std::string v = show(q.r->GetParameterValue((int)i)); v != l.val)
      fail("value", "parameter %s is %s, %s expected", l.name.c_str(), v.c_str(), l.val.c_str());
  }
  if (cx->ops[q.op].ret >= 0)
    if (std::string v = show(q.r->GetReturnValue()); v != q.ret)
      fail("return", "the return value is %s, %s expected", v.c_str(), q.ret.c_str());
}
Leaf *find(Req &q, const std::string &n) {
  for (auto &l : q.leaves)
    if (l.name == n)
      return &l;
  return nullptr;
}
template <class F> std::string attempt(bool noMemory, F fn) {
  if (noMemory)
    armAlloc((int64_t)rnd(20));
  std::string e = outcome(fn);
  bool hit = noMemory && allocFired();
  armAlloc(-1);
  if (hit && e == "std:std::bad_alloc") {
    countFault("allocation failed");
    return "memory";
  }
  return e;
}
std::string anyParameter(Req &q) {
  auto &pars = cx->ops[q.op].pars;
  if (pars.empty() || chance(20)) {
    const char *n[] = {"p0", "p1", "p2", "x", "p0.a", "P0"};
    return n[rnd(4)]; // names fields can have
  }
  return pars[rnd(pars.size())].name;
}
template <class T> void get(Req &q, int type, const std::string &n, bool noMemory) {
  bool simple = type < tSArr && chance(50), def = chance(50);
  T got, d;
  Flat want, have;
  {
    Quiet qq;
    d = Make<T>::any();
    flat(d, n, want);
  }
  std::string expect;
  bool judge = true;
  for (auto &[name, val] : want) {
    Leaf *l = find(q, name);
    if (!l) {
      if (!def)
        expect = "some";
    } else if (simple) {
      if (l->val == "none" || l->kind != kinds[type])
        expect = "Smp:InvalidParameterType";
    } else if (l->val == "none" || l->kind != val.GetType())
      judge = false; // depends on the conversions of the value
  }
  log("get %s as type %d%s%s%s", n.c_str(), type, simple ? " by kind" : "", def ? " with a default" : "", noMemory ? " without memory" : "");
  std::string e = attempt(noMemory, [&] {
    if constexpr (!std::is_class_v<T> || std::is_same_v<T, Text>)
      if (simple) {
        got = def ? Xsmp::Request::get<T>(cx->comp, q.r, n.c_str(), kinds[type], d) : Xsmp::Request::get<T>(cx->comp, q.r, n.c_str(), kinds[type]);
        return;
      }
    got = def ? Xsmp::Request::get<T>(cx->comp, q.r, n.c_str(), uuids[type], d) : Xsmp::Request::get<T>(cx->comp, q.r, n.c_str(), uuids[type]);
  });
  Quiet qq;
  if (e == "memory" || !judge)
    return;
  if (expect == "some" ? e.empty() : e != expect)
    fail("get", "getting %s as type %d%s: '%s', '%s' expected", n.c_str(), type, def ? " with a default" : "", e.c_str(), expect.c_str());
  if (!e.empty()) {
    probe("get refused");
    return;
  }
  flat(got, n, have);
  for (size_t i = 0; i < want.size(); ++i) {
    Leaf *l = find(q, want[i].first);
    std::string w = l ? l->val : show(want[i].second), h = show(have[i].second);
    if (w != h)
      fail("get", "getting %s gave %s for %s, which is %s%s", n.c_str(), h.c_str(), want[i].first.c_str(), w.c_str(), l ? "" : " by default");
    probe(l ? "values read" : "defaults read", 1);
  }
}
template <class T> void set(Req &q, int type, const std::string &n, bool noMemory) {
  bool simple = type < tSArr && chance(50), result = cx->ops[q.op].ret == type && chance(40);
  T v;
  Flat f;
  {
    Quiet qq;
    v = Make<T>::any();
    flat(v, n, f);
  }
  if (result && type < tSArr) {
    std::string expect = allowed(type, f[0].second) ? "" : "Smp:InvalidReturnValue", e = "?";
    log("set the result to %s", show(f[0].second).c_str());
    if constexpr (!std::is_class_v<T> || std::is_same_v<T, Text>)
      e = attempt(noMemory, [&] { Xsmp::Request::setReturnValue<T>(q.r, kinds[type], v); });
    Quiet qq;
    if (e == "memory")
      return;
    if (e != expect)
      fail("result", "setting the result to %s: '%s', '%s' expected", show(f[0].second).c_str(), e.c_str(), expect.c_str());
    if (e.empty())
      q.ret = show(f[0].second);
    return;
  }
  // up to the first value that is refused
  std::string expect;
  size_t upto = 0;
  for (; upto < f.size(); ++upto) {
    Leaf *l = find(q, f[upto].first);
    expect = !l ? "some" : l->kind != f[upto].second.GetType() ? "Smp:InvalidAnyType" : !allowed(l->type, f[upto].second) ? "Smp:InvalidParameterValue" : "";
    if (!expect.empty())
      break;
  }
  log("set %s as type %d%s%s", n.c_str(), type, simple ? " by kind" : "", noMemory ? " without memory" : "");
  std::string e = attempt(noMemory, [&] {
    if constexpr (!std::is_class_v<T> || std::is_same_v<T, Text>)
      if (simple) {
        Xsmp::Request::set<T>(cx->comp, q.r, n.c_str(), kinds[type], v);
        return;
      }
    Xsmp::Request::set<T>(cx->comp, q.r, n.c_str(), uuids[type], v);
  });
  Quiet qq;
  if (e != "memory" && (expect == "some" ? e.empty() : e != expect))
    fail("set", "setting %s as type %d: '%s', '%s' expected", n.c_str(), type, e.c_str(), expect.c_str());
  if (!e.empty())
    probe("set refused");
  for (size_t i = 0; i < upto; ++i) {
    Leaf *l = find(q, f[i].first);
    std::string w = show(f[i].second);
    if (e.empty() || show(q.r->GetParameterValue(q.r->GetParameterIndex(l->name.c_str()))) == w)
      l->val = w; // those before the refused one may have been set
    probe("values written", e.empty());
  }
}
template <class T> void access(Req &q, int type, const std::string &n, bool noMemory) {
  if (chance(55))
    get<T>(q, type, n, noMemory);
  else
    set<T>(q, type, n, noMemory);
  compare(q);
}
void typed(Req &q, bool noMemory) {
  std::string n = anyParameter(q);
  int type = (int)rnd(TYPES);
  for (auto &p : cx->ops[q.op].pars)
    if (p.name == n && !chance(10))
      type = p.type;
  switch (type) {
  case tInt:
    return access<Smp::Int32>(q, type, n, noMemory);
  case tSmall:
    return access<Smp::Int16>(q, type, n, noMemory);
  case tReal:
  case tUnit:
    return access<Smp::Float64>(q, type, n, noMemory);
  case tBool:
    return access<Smp::Bool>(q, type, n, noMemory);
  case tText:
    return access<Text>(q, type, n, noMemory);
  case tCol:
    return access<Col>(q, type, n, noMemory);
  case tByte:
    return access<Smp::UInt8>(q, type, n, noMemory);
  case tSArr:
    return access<SArr>(q, type, n, noMemory);
  case tArr:
    return access<Arr>(q, type, n, noMemory);
  case tInner:
    return access<Inner>(q, type, n, noMemory);
  case tInArr:
    return access<InArr>(q, type, n, noMemory);
  default:
    return access<Outer>(q, type, n, noMemory);
  }
}
bool mem;
void inside(Smp::IRequest *r) {
  for (auto &q : cx->reqs)
    if (q.r == r) {
      compare(q); // what the caller has set
      for (int i = (int)range(0, 6); i > 0; --i)
        typed(q, mem && chance(30));
      return;
    }
  fail("request", "the component is invoked with an unknown request");
}
} // namespace
} // namespace wl
void wl_reqs() {
  using namespace wl;
  using D = Smp::Publication::ParameterDirectionKind;
  captureStreams();
  Ctx c;
  cx = &c;
  Xsmp::Simulator sim("sim");
  types(sim.GetTypeRegistry());
  int n = (int)range(1, 4);
  for (int i = 0; i < n; ++i) {
    Oper o{"op" + std::to_string(i), {}, chance(50) ? (int)rnd(tSArr) : -1};
    int m = (int)rnd(4);
    for (int k = 0; k < m; ++k)
      o.pars.push_back({"p" + std::to_string(k), (int)rnd(TYPES), chance(50) ? D::PDK_In : chance(50) ? D::PDK_Out : D::PDK_InOut});
    c.ops.push_back(o);
  }
  c.comp = new Comp(&sim);
  sim.AddModel(c.comp);
  sim.Connect();
  mem = chance(50);
  int ops = (int)range(3, 50);
  for (int i = 0; i < ops; ++i) {
    int id = newOp();
    int kind = (int)rnd(8);
    bool noMem = mem && chance(30);
    if (!keep(id))
      continue;
    if (c.reqs.empty() || kind == 0) {
      int o = (int)rnd(c.ops.size());
      log("create a request for %s%s", c.ops[o].name.c_str(), noMem ? " without memory" : "");
      Smp::IRequest *r = nullptr;
      std::string e = attempt(noMem, [&] { r = c.comp->CreateRequest(c.ops[o].name.c_str()); });
      if (e == "memory")
        continue;
      bool invokable = c.ops[o].ret < tSArr;
      for (auto &p : c.ops[o].pars)
        invokable &= p.type < tSArr;
      if (e.empty() && !r && !invokable) // only values that are not structured can be passed by the component
        e = attempt(noMem, [&] { r = new Xsmp::Publication::Request(c.comp->GetOperations()->at(c.ops[o].name.c_str()), sim.GetTypeRegistry()); });
      else if (r && !invokable)
        fail("create", "a request for %s, which takes structured values", c.ops[o].name.c_str());
      if (e == "memory")
        continue;
      if (!e.empty() || !r)
        fail("create", "creating a request for %s: '%s'", c.ops[o].name.c_str(), e.c_str());
      Quiet q;
      c.reqs.push_back({r, o, {}, "none"});
      for (auto &p : c.ops[o].pars)
        leaves(p.type, p.name, c.reqs.back().leaves);
      if (strcmp(r->GetOperationName(), c.ops[o].name.c_str()))
        fail("create", "a request for %s is one for %s", c.ops[o].name.c_str(), r->GetOperationName());
    } else if (kind == 1 && c.reqs.size() > 1) {
      log("delete a request");
      size_t k = rnd(c.reqs.size());
      c.comp->DeleteRequest(c.reqs[k].r);
      Quiet q;
      c.reqs.erase(c.reqs.begin() + (long)k);
    } else if (kind <= 3) {
      log("invoke");
      c.comp->Invoke(c.reqs[rnd(c.reqs.size())].r);
    } else
      typed(c.reqs[rnd(c.reqs.size())], noMem);
    for (auto &q : c.reqs)
      compare(q);
  }
  for (auto &q : c.reqs)
    c.comp->DeleteRequest(q.r);
}

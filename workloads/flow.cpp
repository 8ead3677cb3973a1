// P28: data-flow connections between fields, against a model that links the
// single values and carries every value along its links.
#include "env.h"
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/IForcibleField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/IStructureField.h>
#include <Smp/InvalidTarget.h>
#include <Smp/Publication/IStructureType.h>
#include <Xsmp/Array.h>
#include <Xsmp/Field.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Model.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/String.h>
#include <algorithm>
namespace wl {
namespace {
constexpr Smp::Uuid U(unsigned n) { return Smp::Uuid{0x12, 0x20, 0x30, 0x40, 0x50000000ull + n}; }
using Text = Xsmp::String<12>;
using Arr = Xsmp::Array<Smp::Int32, 3>;
using SArr = Xsmp::Array<Smp::Int16, 4>::simple;
using LArr = Xsmp::Array<Smp::Int64, 4>::simple;
struct Inner {
  Smp::Int32 a;
  SArr s;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *tr, Smp::Uuid u, Smp::String8 name, Smp::String8 description = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Inner &v = {})
        : B(tr, u, name, description, parent, view), a{tr, Smp::Uuids::Uuid_Int32, "a", "", this, view, v.a}, s{tr, U(2), "s", "", this, view, v.s} {}
    _Field(const _Field &) = delete;
    _Field &operator=(const _Field &) = delete;
    typename B::template Field<Smp::Int32> a;
    typename B::template Field<SArr> s;
  };
};
using InArr = Xsmp::Array<Inner, 2>;
struct Outer {
  Smp::Int32 x;
  Arr arr;
  Inner in;
  InArr ia;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *tr, Smp::Uuid u, Smp::String8 name, Smp::String8 description = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Outer &v = {})
        : B(tr, u, name, description, parent, view), x{tr, Smp::Uuids::Uuid_Int32, "x", "", this, view, v.x}, arr{tr, U(1), "arr", "", this, view, v.arr},
          in{tr, U(4), "in", "", this, view, v.in}, ia{tr, U(5), "ia", "", this, view, v.ia} {}
    _Field(const _Field &) = delete;
    _Field &operator=(const _Field &) = delete;
    typename B::template Field<Smp::Int32> x;
    typename B::template Field<Arr> arr;
    typename B::template Field<Inner> in;
    typename B::template Field<InArr> ia;
  };
};
struct Mixed { // published by its memory only
  Smp::Int32 a, b;
};
void types(Smp::Publication::ITypeRegistry *tr) {
  tr->AddArrayType("Arr", "", U(1), Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 3);
  tr->AddArrayType("SArr", "", U(2), Smp::Uuids::Uuid_Int16, sizeof(Smp::Int16), 4, true);
  tr->AddArrayType("LArr", "", U(3), Smp::Uuids::Uuid_Int64, sizeof(Smp::Int64), 4, true);
  tr->AddArrayType("Two", "", U(10), Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 2);
  auto V = Smp::ViewKind::VK_None;
  auto *i = tr->AddStructureType("Inner", "", U(4));
  i->AddField("a", "", Smp::Uuids::Uuid_Int32, offsetof(Inner, a), V, true, false, false);
  i->AddField("s", "", U(2), offsetof(Inner, s), V, true, false, false);
  tr->AddArrayType("InArr", "", U(5), U(4), sizeof(Inner), 2);
  auto *o = tr->AddStructureType("Outer", "", U(6));
  o->AddField("x", "", Smp::Uuids::Uuid_Int32, offsetof(Outer, x), V, true, false, false);
  o->AddField("arr", "", U(1), offsetof(Outer, arr), V, true, false, false);
  o->AddField("in", "", U(4), offsetof(Outer, in), V, true, false, false);
  o->AddField("ia", "", U(5), offsetof(Outer, ia), V, true, false, false);
  auto *m = tr->AddStructureType("Mixed", "", U(9));
  m->AddField("a", "", Smp::Uuids::Uuid_Int32, offsetof(Mixed, a), V, true, false, true);
  m->AddField("b", "", Smp::Uuids::Uuid_Int32, offsetof(Mixed, b), V, true, true, false);
  tr->AddStringType("Text", "", U(7), 12);
}
// sets one value of a field through its own operators
struct Setter {
  const Smp::IField *leaf;
  int index;
  std::function<void(long)> set;
  const char *what;
  long (*result)(long old, long arg) = nullptr;
  int span = 1; // values from index on that are set
};
// memory whose fields are published by address
struct Raw {
  Smp::Int32 i{};
  Smp::Float64 d{};
  char t[13] = "s0";
  Smp::Int32 arr[3]{};
  Smp::Int16 sarr[4]{}, anon[4]{}, three[3]{};
  Smp::Int32 arr2[2]{};
  Smp::Int64 larr[4]{};
  Outer str{};
  Inner in{};
  Mixed m{};
  Smp::Int32 sa{}, sb{}, item0{}, item1{};
};
template <class T> using F = Xsmp::Field<T>;
Text text(long v) { return ("s" + std::to_string(v)).c_str(); }
struct Comp : Xsmp::Model, Xsmp::Aggregate {
  Xsmp::Publication::TypeRegistry *tr;
  std::unique_ptr<Xsmp::Publication::Publication> pub;
  std::deque<Setter> setters;
  F<Smp::Int32>::output oi;
  F<Smp::Float64>::output od;
  F<Text>::output os;
  F<Arr>::output oarr;
  F<SArr>::output osarr;
  F<LArr>::output olarr;
  F<Outer>::output ostr;
  F<InArr>::output oia;
  F<Smp::Int32>::forcible::output of;
  F<Smp::Int32>::input::output ii;
  F<Text>::input::output is;
  F<Arr>::input::output iarr;
  F<SArr>::input::output isarr;
  F<Inner>::input::output istr;
  F<Smp::Int32>::input in;
  F<Smp::Int32>::input::forcible inf;
  F<Smp::Float64>::input::forcible ind;
  F<Text>::input ins;
  F<Arr>::input inarr;
  F<Arr>::input::forcible inarrf;
  F<SArr>::input insarr;
  F<LArr>::input inlarr;
  F<Outer>::input instr;
  F<Inner>::input insmall;
  F<InArr>::input inia;
  F<Smp::Int32> plain;
  Xsmp::Reference<Smp::IComponent> refs{"refs", "", static_cast<Xsmp::Aggregate *>(this), 0, -1};
  Xsmp::Reference<Comp> crefs{"crefs", "", static_cast<Xsmp::Aggregate *>(this), 0, 3};
  Raw out, inp, both;
  std::vector<Smp::IField *> raws;
  Comp(const char *name, Smp::IComposite *parent, Xsmp::Publication::TypeRegistry *t)
      : Xsmp::Model(name, "", parent), tr(t), oi{t, Smp::Uuids::Uuid_Int32, "oi", "", this, V}, od{t, Smp::Uuids::Uuid_Float64, "od", "", this, V}, os{t, U(7), "os", "", this, V, text(0)},
        oarr{t, U(1), "oarr", "", this, V}, osarr{t, U(2), "osarr", "", this, V}, olarr{t, U(3), "olarr", "", this, V}, ostr{t, U(6), "ostr", "", this, V}, oia{t, U(5), "oia", "", this, V},
        of{t, Smp::Uuids::Uuid_Int32, "of", "", this, V}, ii{t, Smp::Uuids::Uuid_Int32, "ii", "", this, V}, is{t, U(7), "is", "", this, V, text(0)}, iarr{t, U(1), "iarr", "", this, V},
        isarr{t, U(2), "isarr", "", this, V}, istr{t, U(4), "istr", "", this, V}, in{t, Smp::Uuids::Uuid_Int32, "in", "", this, V}, inf{t, Smp::Uuids::Uuid_Int32, "inf", "", this, V},
        ind{t, Smp::Uuids::Uuid_Float64, "ind", "", this, V}, ins{t, U(7), "ins", "", this, V, text(0)}, inarr{t, U(1), "inarr", "", this, V}, inarrf{t, U(1), "inarrf", "", this, V},
        insarr{t, U(2), "insarr", "", this, V}, inlarr{t, U(3), "inlarr", "", this, V}, instr{t, U(6), "instr", "", this, V}, insmall{t, U(4), "insmall", "", this, V},
        inia{t, U(5), "inia", "", this, V}, plain{t, Smp::Uuids::Uuid_Int32, "plain", "", this, V} {}
  static constexpr Smp::ViewKind V = Smp::ViewKind::VK_All;
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(8);
    return u;
  }
  std::vector<Smp::IField *> fields() {
    return {&oi, &od, &os, &oarr, &osarr, &olarr, &ostr, &oia, &of, &ii, &is, &iarr, &isarr, &istr, &in, &inf, &ind, &ins, &inarr, &inarrf, &insarr, &inlarr, &instr, &insmall, &inia, &plain};
  }
  template <class T> void scalar(T &f) {
    setters.push_back({&f, 0, [&f](long v) { f = v; }, "="});
    setters.push_back({&f, 0, [&f](long v) { f += v; }, "+=", [](long o, long v) { return o + v; }});
    setters.push_back({&f, 0, [&f](long) { ++f; }, "++", [](long o, long) { return o + 1; }});
    setters.push_back({&f, 0, [&f](long v) { f -= v; }, "-=", [](long o, long v) { return o - v; }});
  }
  template <class T> void simple(T &f, int n) {
    for (int i = 0; i < n; ++i)
      setters.push_back({&f, i, [&f, i](long v) { f[(size_t)i] = v; }, "[]="});
    setters.push_back({&f, n - 1, [&f](long v) { f.back() = v; }, "back()="});
    setters.push_back({&f, 1, [&f](long v) { auto it = f.begin(); ++it; *it = v; }, "*++begin()="});
    setters.push_back({&f, 0, [&f](long v) { f.fill(v); }, "fill", nullptr, n});
  }
  template <class T> void output(T &f, int n) {
    setters.push_back({&f, 2, [&f](long v) { f.at(2) += v; }, "+=", [](long o, long v) { return o + v; }});
    setters.push_back({&f, n - 1, [&f](long v) { f.begin()[n1] = v; }, "begin()[]="});
  }
  static constexpr int n1 = 3;
  void publish(Raw &r, const char *prefix, bool in, bool out) {
    auto name = [&](const char *n) {
      static std::string s;
      s = std::string(prefix) + n;
      return s.c_str();
    };
    auto add = [&](const char *n) { raws.push_back(pub->GetField(name(n))); };
    pub->PublishField(name("I"), "", &r.i, V, true, in, out), add("I");
    pub->PublishField(name("D"), "", &r.d, V, true, in, out), add("D");
    pub->PublishField(name("T"), "", &r.t, U(7), V, true, in, out), add("T");
    pub->PublishField(name("Arr"), "", &r.arr, U(1), V, true, in, out), add("Arr");
    pub->PublishField(name("SArr"), "", &r.sarr, U(2), V, true, in, out), add("SArr");
    pub->PublishField(name("LArr"), "", &r.larr, U(3), V, true, in, out), add("LArr");
    pub->PublishField(name("Str"), "", &r.str, U(6), V, true, in, out), add("Str");
    pub->PublishField(name("In"), "", &r.in, U(4), V, true, in, out), add("In");
    pub->PublishField(name("M"), "", &r.m, U(9), V, true, in, out), add("M");
    pub->PublishArray(name("Anon"), "", 4, &r.anon, Smp::PrimitiveTypeKind::PTK_Int16, V, true, in, out), add("Anon");
    pub->PublishArray(name("Three"), "", 3, &r.three, Smp::PrimitiveTypeKind::PTK_Int16, V, true, in, out), add("Three");
    pub->PublishField(name("Two"), "", &r.arr2, U(10), V, true, in, out), add("Two");
    auto *p = pub->PublishStructure(name("S"), "", V);
    p->PublishField("a", "", &r.sa, V, true, in, out);
    p->PublishField("b", "", &r.sb, V, true, out, in);
    add("S");
    p = pub->PublishArray(name("A"), "", V);
    p->PublishField(name("item0"), "", &r.item0, V, true, in, out);
    p->PublishField(name("item1"), "", &r.item1, V, true, in, out);
    add("A");
    // plain changes of the memory
    auto mem = [&](const char *n, int i, std::function<void(long)> set) {
      if (auto *f = pub->GetField(name(n)))
        setters.push_back({f, i, set, "memory ="});
    };
    mem("I", 0, [&r](long v) { r.i = (Smp::Int32)v; });
    mem("D", 0, [&r](long v) { r.d = (double)v; });
    mem("T", 0, [&r](long v) { snprintf(r.t, sizeof r.t, "s%ld", v); });
    mem("SArr", 2, [&r](long v) { r.sarr[2] = (Smp::Int16)v; });
    mem("LArr", 3, [&r](long v) { r.larr[3] = v; });
    mem("Anon", 1, [&r](long v) { r.anon[1] = (Smp::Int16)v; });
    auto *st = dynamic_cast<Smp::IStructureField *>(pub->GetField(name("Str")));
    setters.push_back({st->GetField("x"), 0, [&r](long v) { r.str.x = (Smp::Int32)v; }, "memory ="});
    auto *ia = dynamic_cast<Smp::IArrayField *>(st->GetField("ia"));
    setters.push_back({dynamic_cast<Smp::IStructureField *>(ia->GetItem(1))->GetField("a"), 0, [&r](long v) { r.str.ia[1].a = (Smp::Int32)v; }, "memory ="});
    setters.push_back({dynamic_cast<Smp::IStructureField *>(ia->GetItem(1))->GetField("s"), 3, [&r](long v) { r.str.ia[1].s[3] = (Smp::Int16)v; }, "memory ="});
    setters.push_back({dynamic_cast<Smp::IArrayField *>(pub->GetField(name("Arr")))->GetItem(2), 0, [&r](long v) { r.arr[2] = (Smp::Int32)v; }, "memory ="});
  }
  void start() {
    pub = std::make_unique<Xsmp::Publication::Publication>(this, tr);
    Publish(pub.get());
    for (auto *f : fields())
      pub->PublishField(f);
    publish(out, "ro", false, true), publish(inp, "ri", true, false), publish(both, "rb", true, true);
    Configure(nullptr, nullptr);
    Connect(nullptr);
    scalar(oi), scalar(od), scalar(of), scalar(ii), scalar(in), scalar(inf), scalar(ind), scalar(plain);
    scalar(oarr[1]), scalar(iarr[2]), scalar(inarr[0]), scalar(inarrf[1]), scalar(ostr.x), scalar(ostr.in.a), scalar(oia[1].a), scalar(ostr.arr[0]), scalar(istr.a), scalar(insmall.a);
    simple(osarr, 4), simple(olarr, 4), simple(isarr, 4), simple(insarr, 4), simple(inlarr, 4), simple(ostr.in.s, 4), simple(oia[0].s, 4);
    output(osarr, 4), output(ostr.in.s, 4), output(oia[0].s, 4);
    setters.push_back({&os, 0, [this](long v) { os = text(v); }, "="});
    setters.push_back({&is, 0, [this](long v) { is = text(v); }, "="});
    setters.push_back({&ins, 0, [this](long v) { ins = text(v); }, "="});
  }
};

struct Node {
  Smp::IField *f;
  int comp, up;
  std::vector<int> kids;
  std::string path;
  // leaves
  int kind = 0; // 0 structure, 1 array, 2 value, 3 simple array
  Smp::PrimitiveTypeKind type{};
  std::vector<long> val;
  bool forcible = false, forced = false;
  std::vector<int> to; // linked leaves, in order
  std::vector<int> whole;
  bool raw = false;      // published by address: carries values only when pushed
  std::vector<int> rawTo; // leaves reached by a push
};
struct Ctx {
  std::vector<std::unique_ptr<Comp>> comps;
  std::vector<int> above; // component above or -1
  std::map<int, std::vector<int>> refs[2]; // what each component refers to
  std::deque<Node> nodes;
  std::vector<int> alive; // nodes
};
Ctx *cx;
long number(const Smp::AnySimple &v) {
  switch (v.type) {
  case Smp::PrimitiveTypeKind::PTK_Int16:
    return (Smp::Int16)v;
  case Smp::PrimitiveTypeKind::PTK_Int32:
    return (Smp::Int32)v;
  case Smp::PrimitiveTypeKind::PTK_Int64:
    return (Smp::Int64)v;
  case Smp::PrimitiveTypeKind::PTK_Float64:
    return (long)(Smp::Float64)v;
  default: {
    const char *t = (Smp::String8)v;
    return t[0] == 's' ? atol(t + 1) : -999999;
  }
  }
}
Smp::AnySimple value(Smp::PrimitiveTypeKind k, long v) {
  switch (k) {
  case Smp::PrimitiveTypeKind::PTK_Int16:
    return {k, (Smp::Int16)v};
  case Smp::PrimitiveTypeKind::PTK_Int32:
    return {k, (Smp::Int32)v};
  case Smp::PrimitiveTypeKind::PTK_Int64:
    return {k, (Smp::Int64)v};
  case Smp::PrimitiveTypeKind::PTK_Float64:
    return {k, (Smp::Float64)v};
  default:
    return {k, ("s" + std::to_string(v)).c_str()};
  }
}
Smp::AnySimple other(Smp::PrimitiveTypeKind k) {
  if (k == Smp::PrimitiveTypeKind::PTK_String8)
    return {Smp::PrimitiveTypeKind::PTK_Bool, true};
  return {Smp::PrimitiveTypeKind::PTK_String8, "text"};
}
bool leaf(int n) { return cx->nodes[n].kind >= 2; }
int build(Smp::IField *f, int comp, int up, bool raw) {
  int id = (int)cx->nodes.size();
  cx->nodes.push_back({f, comp, up, {}, (up < 0 ? std::string(cx->comps[comp]->GetName()) : cx->nodes[up].path) + "." + f->GetName()});
  cx->alive.push_back(id);
  cx->nodes[id].raw = raw;
  if (raw && up >= 0 && cx->nodes[up].f->GetType()) { // the parts of an output are outputs too
    auto *whole = cx->nodes[up].f;
    if ((whole->IsOutput() && !f->IsOutput()) || (whole->IsInput() && !f->IsInput()))
      fail("kind", "%s is a part of %s but not an input or output as that is", cx->nodes[id].path.c_str(), cx->nodes[up].path.c_str());
  }
  if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
    for (auto *k : *s->GetFields()) {
      int kid = build(k, comp, id, raw);
      cx->nodes[id].kids.push_back(kid);
    }
    return id;
  }
  if (auto *s = dynamic_cast<Smp::IArrayField *>(f)) {
    cx->nodes[id].kind = 1;
    for (uint64_t i = 0; i < s->GetSize(); ++i) {
      int kid = build(s->GetItem(i), comp, id, raw);
      cx->nodes[id].kids.push_back(kid);
    }
    return id;
  }
  Node &n = cx->nodes[id];
  if (auto *s = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
    n.kind = 3;
    n.type = s->GetValue(0).type;
    n.val.resize(s->GetSize());
    return id;
  }
  n.kind = 2;
  n.type = dynamic_cast<Smp::ISimpleField *>(f)->GetPrimitiveTypeKind();
  n.val.resize(1);
  n.forcible = dynamic_cast<Smp::IForcibleField *>(f) != nullptr;
  return id;
}
long read(int n, size_t i) {
  Node &x = cx->nodes[n];
  if (x.kind == 3)
    return number(dynamic_cast<Smp::ISimpleArrayField *>(x.f)->GetValue(i));
  return number(dynamic_cast<Smp::ISimpleField *>(x.f)->GetValue());
}
void compare(const char *after) {
  Quiet q;
  for (int n : cx->alive)
    if (leaf(n)) {
      Node &x = cx->nodes[n];
      for (size_t i = 0; i < x.val.size(); ++i)
        if (long v = read(n, i); v != x.val[i])
          fail("value", "after %s: %s[%zu] is %ld, %ld expected", after, x.path.c_str(), i, v, x.val[i]);
      if (x.forcible)
        if (bool b = dynamic_cast<Smp::IForcibleField *>(x.f)->IsForced(); b != x.forced)
          fail("forced", "after %s: %s forced: %d, %d expected", after, x.path.c_str(), b, x.forced);
    }
  for (size_t c = 0; c < cx->comps.size(); ++c)
    for (int k = 0; cx->comps[c] && k < 2; ++k) {
      const auto &want = cx->refs[k][(int)c];
      const auto *got = cx->comps[c]->GetReference(k ? "crefs" : "refs")->GetComponents();
      bool ok = got->size() == want.size();
      for (size_t i = 0; ok && i < want.size(); ++i)
        ok = got->at(i) == cx->comps[want[i]].get();
      if (!ok)
        fail("references", "after %s: %s refers to %zu components, which are not the %zu added and not removed", after, cx->comps[c]->GetName(), got->size(), want.size());
    }
  // what every output lists as connected to it
  for (int n : cx->alive) {
    Node &x = cx->nodes[n];
    auto *out = dynamic_cast<Xsmp::detail::IDataflowFieldExtension *>(x.f);
    if (!out)
      continue;
    const auto &want = x.raw || !leaf(n) ? x.whole : x.to;
    const auto *got = out->GetInputFields();
    bool ok = got && got->size() == want.size();
    size_t i = 0;
    if (ok)
      for (auto *f : *got)
        ok = ok && i < want.size() && f == cx->nodes[want[i]].f && got->at(i) == f, ++i;
    if (!ok || i != want.size() || got->at(i))
      fail("inputs", "after %s: %s lists %zu fields connected to it, which are not the %zu that are", after, x.path.c_str(), got ? got->size() : 0, want.size());
  }
}
// ------------------------------------------------------------ reference model
void put(int n, size_t i, long v) {
  Node &x = cx->nodes[n];
  if (x.forced)
    return;
  x.val[i] = v;
  for (int t : x.to)
    put(t, i, v);
}
void copy(int a, int b, bool rawLink = false, bool unlink = false) {
  Node &x = cx->nodes[a];
  for (size_t i = 0; i < x.kids.size(); ++i)
    copy(x.kids[i], cx->nodes[b].kids[i], rawLink, unlink);
  for (size_t i = 0; i < x.val.size() && !unlink; ++i)
    put(b, i, x.val[i]);
  if (leaf(a) && unlink)
    x.rawTo.pop_back();
  else if (leaf(a) && rawLink)
    x.rawTo.push_back(b);
}
void push(int n) {
  Node &x = cx->nodes[n];
  if (x.raw) {
    for (int t : x.whole)
      copy(n, t);
    return;
  }
  for (int k : x.kids)
    push(k);
  for (size_t i = 0; i < x.val.size(); ++i)
    for (int t : x.to)
      put(t, i, x.val[i]);
}
bool same(int a, int b) {
  Node &x = cx->nodes[a], &y = cx->nodes[b];
  if (x.kind != y.kind || x.kids.size() != y.kids.size() || x.val.size() != y.val.size() || x.type != y.type)
    return false;
  for (size_t i = 0; i < x.kids.size(); ++i)
    if (!same(x.kids[i], y.kids[i]))
      return false;
  return true;
}
template <class T> bool has(const std::vector<T> &v, T x) { return std::find(v.begin(), v.end(), x) != v.end(); }
bool anyLinked(int a, int b) {
  Node &x = cx->nodes[a];
  if (x.raw)
    return has(x.whole, b);
  if (has(x.whole, b) || has(x.to, b))
    return true;
  for (size_t i = 0; i < x.kids.size(); ++i)
    if (anyLinked(x.kids[i], cx->nodes[b].kids[i]))
      return true;
  return false;
}
void link(int a, int b) {
  Node &x = cx->nodes[a];
  if (x.raw) {
    x.whole.push_back(b);
    copy(a, b, true);
    return;
  }
  if (leaf(a)) {
    x.to.push_back(b);
    for (size_t i = 0; i < x.val.size(); ++i)
      put(b, i, x.val[i]);
    return;
  }
  x.whole.push_back(b);
  for (size_t i = 0; i < x.kids.size(); ++i)
    link(x.kids[i], cx->nodes[b].kids[i]);
}
template <class T> bool drop(std::vector<T> &v, T x) {
  auto it = std::find(v.begin(), v.end(), x);
  if (it == v.end())
    return false;
  v.erase(it);
  return true;
}
void unlinkRaw(int a, int b) {
  if (leaf(a))
    drop(cx->nodes[a].rawTo, b);
  for (size_t i = 0; i < cx->nodes[a].kids.size(); ++i)
    unlinkRaw(cx->nodes[a].kids[i], cx->nodes[b].kids[i]);
}
void unlink(int a, int b) {
  Node &x = cx->nodes[a];
  if (x.raw) {
    if (drop(x.whole, b))
      unlinkRaw(a, b);
  } else if (leaf(a))
    drop(x.to, b);
  else if (drop(x.whole, b))
    for (size_t i = 0; i < x.kids.size(); ++i)
      unlink(x.kids[i], cx->nodes[b].kids[i]);
}
bool reaches(int a, int b) {
  if (a == b)
    return true;
  for (auto *v : {&cx->nodes[a].to, &cx->nodes[a].rawTo})
    for (int t : *v)
      if (reaches(t, b))
        return true;
  return false;
}
bool cycle(int a, int b) { // a value would reach itself
  if (leaf(a))
    return reaches(b, a);
  for (size_t i = 0; i < cx->nodes[a].kids.size(); ++i)
    if (cycle(cx->nodes[a].kids[i], cx->nodes[b].kids[i]))
      return true;
  // also across the elements
  std::vector<int> from, to;
  std::function<void(int, std::vector<int> &)> leaves = [&](int n, std::vector<int> &v) {
    if (leaf(n))
      v.push_back(n);
    for (int k : cx->nodes[n].kids)
      leaves(k, v);
  };
  leaves(a, from);
  leaves(b, to);
  for (int y : to)
    for (int x : from)
      if (reaches(y, x))
        return true;
  return false;
}
bool inside(int comp, int target) {
  for (; comp >= 0; comp = cx->above[comp])
    if (comp == target)
      return true;
  return false;
}
// ------------------------------------------------------------------ operations
// something was broken off: every value is the old one or the one it would have
// got
template <class Fn> void partly(Fn fn) {
  Quiet q;
  std::map<int, std::vector<long>> before;
  for (int n : cx->alive)
    before[n] = cx->nodes[n].val;
  fn();
  for (int n : cx->alive)
    for (size_t i = 0; i < cx->nodes[n].val.size(); ++i) {
      long v = read(n, i);
      if (v == before[n][i])
        cx->nodes[n].val[i] = v;
    }
}
int pick() { return cx->alive[rnd(cx->alive.size())]; }
int pickOutput(bool any) {
  for (int i = 0; i < 60; ++i) {
    int n = pick();
    if (dynamic_cast<Smp::IDataflowField *>(cx->nodes[n].f) && (any || cx->nodes[n].f->IsOutput()))
      return n;
  }
  return -1;
}
void connect(bool noMemory) {
  int a = pickOutput(false);
  if (noMemory && chance(50)) // texts need memory when pushed
    for (int i = 0; i < 20 && a >= 0 && cx->nodes[a].type != Smp::PrimitiveTypeKind::PTK_String8; ++i)
      a = pickOutput(false);
  if (a < 0)
    return;
  Node &x = cx->nodes[a];
  int b = chance(20) ? a : pick();
  if (!chance(15)) {
    std::vector<int> c;
    for (int n : cx->alive)
      if (cx->nodes[n].f->IsInput() && same(a, n) && n != a && !cycle(a, n))
        c.push_back(n);
    if (c.empty())
      return;
    b = c[rnd(c.size())];
  }
  Node &y = cx->nodes[b];
  auto *out = dynamic_cast<Smp::IDataflowField *>(x.f);
  bool ok = x.f->IsOutput() && y.f->IsInput() && a != b && same(a, b);
  bool twice = ok && anyLinked(a, b);
  if (ok && !twice && cycle(a, b))
    return;
  log("connect %s -> %s%s", x.path.c_str(), y.path.c_str(), noMemory ? " without memory" : "");
  int got = 0;
  if (noMemory)
    armAlloc((int64_t)rnd(x.kind == 2 ? 3 : 12));
  try {
    out->Connect(y.f);
  } catch (const Smp::InvalidTarget &) {
    got = 1;
  } catch (const Smp::FieldAlreadyConnected &) {
    got = 2;
  } catch (const std::bad_alloc &) {
    got = 3;
  } catch (const Smp::Exception &e) {
    armAlloc(-1);
    fail("connect", "connecting %s to %s failed with %s: %s", x.path.c_str(), y.path.c_str(), e.GetName(), e.GetMessage());
  }
  bool hit = noMemory && allocFired();
  armAlloc(-1);
  if (hit && got == 3) {
    countFault("allocation failed");
    if (!ok || twice)
      return;
    partly([&] { link(a, b); });
    std::function<void(int)> unlink = [&](int n) {
      Node &z = cx->nodes[n];
      if (z.raw) {
        z.whole.pop_back();
        copy(n, b, false, true);
        return;
      }
      (leaf(n) ? z.to : z.whole).pop_back();
      for (int k : z.kids)
        unlink(k);
    };
    unlink(a);
    return;
  }
  int want = !ok ? 1 : twice ? 2 : 0;
  if (got != want)
    fail("connect", "connecting %s to %s: outcome %d, %d expected", x.path.c_str(), y.path.c_str(), got, want);
  if (!got) {
    probe("connected", 1);
    link(a, b);
    if (!leaf(a))
      probe("structures or arrays", 1);
  }
}
void disconnect() {
  int a = -1;
  for (int i = 0; i < 200; ++i) {
    int n = pick();
    if (dynamic_cast<Xsmp::detail::IDataflowFieldExtension *>(cx->nodes[n].f)) {
      a = n;
      if (!cx->nodes[n].to.empty() || !cx->nodes[n].whole.empty())
        break;
    }
  }
  if (a < 0)
    return;
  Node &x = cx->nodes[a];
  const auto &linked = x.raw || !leaf(a) ? x.whole : x.to;
  int b = !linked.empty() && !chance(25) ? linked[rnd(linked.size())] : pick();
  bool was = has(linked, b);
  log("disconnect %s -> %s%s", x.path.c_str(), cx->nodes[b].path.c_str(), was ? "" : ", which are not connected");
  std::string e = outcome([&] { dynamic_cast<Xsmp::detail::IDataflowFieldExtension *>(x.f)->Disconnect(cx->nodes[b].f); });
  if (!e.empty())
    fail("disconnect", "disconnecting %s from %s failed: %s", cx->nodes[b].path.c_str(), x.path.c_str(), e.c_str());
  if (was) {
    unlink(a, b);
    probe("disconnected", 1);
    if (!leaf(a))
      probe("structures or arrays disconnected", 1);
  }
}
void push(bool noMemory) {
  int a = pickOutput(true);
  if (a < 0)
    return;
  auto *out = dynamic_cast<Smp::IDataflowField *>(cx->nodes[a].f);
  log("push %s%s", cx->nodes[a].path.c_str(), noMemory ? " without memory" : "");
  if (noMemory)
    armAlloc((int64_t)rnd(6));
  std::string e = outcome([&] { out->Push(); });
  bool hit = noMemory && allocFired();
  armAlloc(-1);
  if (e.empty())
    push(a);
  else if (hit && e == "std:std::bad_alloc")
    countFault("allocation failed"), partly([&] { push(a); });
  else
    fail("push", "pushing %s failed: %s", cx->nodes[a].path.c_str(), e.c_str());
}
void set(bool noMemory) {
  // by the interface
  int n = -1;
  for (int i = 0; i < 60; ++i)
    if (int k = pick(); leaf(k) && (!cx->nodes[k].to.empty() || chance(10))) {
      n = k;
      break;
    }
  if (n < 0)
    return;
  Node &x = cx->nodes[n];
  long v = (long)range(-1000, 1000);
  if (x.kind == 3 && chance(40)) { // all of them
    size_t len = x.val.size(), bad = chance(20) ? rnd(len) : len;
    std::vector<Smp::AnySimple> vals;
    for (size_t i = 0; i < len; ++i)
      vals.push_back(i == bad ? Smp::AnySimple{Smp::PrimitiveTypeKind::PTK_Bool, true} : value(x.type, v + (long)i));
    log("set all of %s from %ld%s", x.path.c_str(), v, bad < len ? ", one of another type" : "");
    std::string e = outcome([&] { dynamic_cast<Smp::ISimpleArrayField *>(x.f)->SetValues(len, vals.data()); });
    if ((bad < len) == e.empty())
      fail("set", "setting all values of %s: %s", x.path.c_str(), e.c_str());
    for (size_t i = 0; i < len; ++i)
      if (e.empty())
        put(n, i, v + (long)i);
    if (!e.empty())
      probe("value refused", 1);
    return;
  }
  size_t i = rnd(x.val.size());
  if (chance(10)) {
    Smp::AnySimple bad = other(x.type);
    log("set %s[%zu] to a value of another type", x.path.c_str(), i);
    std::string e = outcome([&] {
      if (x.kind == 3)
        dynamic_cast<Smp::ISimpleArrayField *>(x.f)->SetValue(i, bad);
      else
        dynamic_cast<Smp::ISimpleField *>(x.f)->SetValue(bad);
    });
    if (e.empty())
      fail("set", "%s took a value of another type", x.path.c_str());
    probe("value refused", 1);
    return;
  }
  log("set %s[%zu] = %ld%s", x.path.c_str(), i, v, noMemory ? " without memory" : "");
  Smp::AnySimple any = value(x.type, v);
  if (noMemory)
    armAlloc((int64_t)rnd(4));
  std::string e = outcome([&] {
    if (x.kind == 3)
      dynamic_cast<Smp::ISimpleArrayField *>(x.f)->SetValue(i, any);
    else
      dynamic_cast<Smp::ISimpleField *>(x.f)->SetValue(any);
  });
  bool hit = noMemory && allocFired();
  armAlloc(-1);
  if (e.empty())
    put(n, i, v);
  else if (hit && e == "std:std::bad_alloc")
    countFault("allocation failed"), partly([&] { put(n, i, v); });
  else
    fail("set", "setting %s failed: %s", x.path.c_str(), e.c_str());
}
int find(const Smp::IField *f) {
  for (int n : cx->alive)
    if (cx->nodes[n].f == f)
      return n;
  return -1;
}
void assign(bool noMemory) {
  // by the operators of the field
  std::vector<int> live;
  for (size_t c = 0; c < cx->comps.size(); ++c)
    if (cx->comps[c])
      live.push_back((int)c);
  auto &st = cx->comps[live[rnd(live.size())]]->setters;
  Setter &s = st[rnd(st.size())];
  int n = find(s.leaf);
  Node &x = cx->nodes[n];
  long v = (long)range(-1000, 1000);
  if (s.result && std::abs(x.val[s.index]) > 20000)
    return; // would leave the range of the type
  log("%s[%d] %s %ld%s", x.path.c_str(), s.index, s.what, v, noMemory ? " without memory" : "");
  auto all = [&] {
    for (int i = 0; i < s.span; ++i)
      put(n, s.index + i, s.result ? s.result(x.val[s.index], v) : v);
  };
  if (noMemory)
    armAlloc((int64_t)rnd(4));
  std::string e = outcome([&] { s.set(v); });
  bool hit = noMemory && allocFired();
  armAlloc(-1);
  if (e.empty())
    all();
  else if (hit && e == "std:std::bad_alloc")
    countFault("allocation failed"), partly(all);
  else
    fail("assign", "assigning to %s failed: %s", x.path.c_str(), e.c_str());
}
void force() {
  std::vector<int> c;
  for (int n : cx->alive)
    if (cx->nodes[n].forcible)
      c.push_back(n);
  if (c.empty())
    return;
  int n = c[rnd(c.size())];
  Node &x = cx->nodes[n];
  auto *f = dynamic_cast<Smp::IForcibleField *>(x.f);
  long v = (long)range(-1000, 1000);
  switch (rnd(4)) {
  case 0:
    log("force %s to %ld", x.path.c_str(), v);
    f->Force(value(x.type, v));
    x.forced = false;
    put(n, 0, v);
    x.forced = true;
    break;
  case 1:
    log("unforce %s", x.path.c_str());
    f->Unforce();
    x.forced = false;
    break;
  case 2:
    log("freeze %s", x.path.c_str());
    f->Freeze();
    x.forced = true;
    break;
  case 3: {
    log("force %s to a value of another type", x.path.c_str());
    std::string e = outcome([&] { f->Force(other(x.type)); });
    if (e.empty())
      fail("force", "%s was forced to a value of another type", x.path.c_str());
  }
  }
}
void refer(bool noMem) {
  std::vector<int> live;
  for (size_t c = 0; c < cx->comps.size(); ++c)
    if (cx->comps[c])
      live.push_back((int)c);
  int c = live[rnd(live.size())], k = (int)rnd(2), t = live[rnd(live.size())];
  auto &v = cx->refs[k][c];
  auto *r = cx->comps[c]->GetReference(k ? "crefs" : "refs");
  bool add = chance(70), full = k && v.size() == 3;
  auto it = std::find(v.begin(), v.end(), t);
  log("%s %s %s", cx->comps[c]->GetName(), add ? "refers to" : "no longer refers to", cx->comps[t]->GetName());
  if (noMem)
    armAlloc((int64_t)rnd(4));
  std::string e = outcome([&] { add ? r->AddComponent(cx->comps[t].get()) : r->RemoveComponent(cx->comps[t].get()); });
  bool hit = noMem && allocFired();
  armAlloc(-1);
  const char *want = add ? full ? "Smp:ReferenceFull" : "" : it == v.end() ? "Smp:NotReferenced" : "";
  if (hit && e == "std:std::bad_alloc")
    countFault("allocation failed");
  else if (e != want)
    fail("references", "%s a reference: '%s', '%s' expected", add ? "adding" : "removing", e.c_str(), want);
  if (!e.empty())
    return;
  probe("references changed", 1);
  if (add)
    v.push_back(t);
  else
    v.erase(it);
}
void removeLinks(int c, int target, bool noMem) {
  for (auto &r : cx->refs)
    r[c].erase(std::remove(r[c].begin(), r[c].end(), target), r[c].end());
  for (int n : cx->alive)
    if (cx->nodes[n].comp == c)
      for (auto *v : {&cx->nodes[n].to, &cx->nodes[n].whole, &cx->nodes[n].rawTo})
        v->erase(std::remove_if(v->begin(), v->end(), [&](int t) { return inside(cx->nodes[t].comp, target); }), v->end());
  auto *l = static_cast<Smp::ILinkingComponent *>(cx->comps[c].get());
  if (noMem) {
    armAlloc((int64_t)rnd(4));
    std::string e = outcome([&] { l->RemoveLinks(cx->comps[target].get()); });
    bool hit = allocFired();
    armAlloc(-1);
    if (hit)
      countFault("allocation failed");
    if (!e.empty() && !(hit && e == "std:std::bad_alloc"))
      fail("links", "RemoveLinks raised %s", e.c_str());
    if (e.empty())
      return;
  }
  l->RemoveLinks(cx->comps[target].get());
}
void unlinkAndDelete(bool del, bool noMem) {
  std::vector<int> live;
  for (size_t c = 0; c < cx->comps.size(); ++c)
    if (cx->comps[c])
      live.push_back((int)c);
  int target = live[rnd(live.size())];
  if (!del) {
    int c = live[rnd(live.size())];
    log("remove the links of %s to %s", cx->comps[c]->GetName(), cx->comps[target]->GetName());
    removeLinks(c, target, noMem);
    probe("links removed", 1);
    return;
  }
  for (size_t c = 0; c < cx->above.size(); ++c)
    if (cx->comps[c] && (int)c != target && inside((int)c, target))
      return; // has others below it
  if (live.size() < 2)
    return;
  log("delete %s", cx->comps[target]->GetName());
  for (int c : live)
    removeLinks(c, target, noMem);
  cx->alive.erase(std::remove_if(cx->alive.begin(), cx->alive.end(), [&](int n) { return cx->nodes[n].comp == target; }), cx->alive.end());
  for (auto &n : cx->nodes)
    if (n.comp == target)
      n.to.clear(), n.whole.clear(), n.rawTo.clear();
  cx->comps[target].reset();
  probe("component deleted", 1);
}
} // namespace
} // namespace wl
void wl_flow() {
  using namespace wl;
  Ctx c;
  cx = &c;
  Xsmp::Publication::TypeRegistry tr;
  types(&tr);
  int n = (int)range(1, 3);
  for (int i = 0; i < n; ++i) {
    c.above.push_back(-1);
    c.comps.push_back(std::make_unique<Comp>(("m" + std::to_string(i)).c_str(), nullptr, &tr));
    c.comps[i]->start();
    for (auto *f : c.comps[i]->fields())
      build(f, i, -1, false);
    for (auto *f : c.comps[i]->raws)
      build(f, i, -1, true);
  }
  compare("start");
  bool faults = chance(50);
  int ops = (int)range(5, 120);
  for (int i = 0; i < ops; ++i) {
    int op = newOp();
    bool noMem = faults && chance(30);
    const char *what = "";
    int kind = (int)rnd(14);
    if (!keep(op))
      continue;
    switch (kind) {
    case 0:
    case 1:
    case 2:
    case 3:
      what = "connecting", connect(noMem);
      break;
    case 4:
    case 5:
      what = "pushing", push(noMem);
      break;
    case 6:
    case 7:
      what = "setting", set(noMem);
      break;
    case 8:
    case 9:
      what = "assigning", assign(noMem);
      break;
    case 10:
      what = "forcing", force();
      break;
    case 11:
      what = "removing links", unlinkAndDelete(chance(20), noMem);
      break;
    case 12:
      what = "disconnecting", disconnect();
      break;
    case 13:
      what = "referring", refer(noMem);
    }
    compare(what);
  }
}

// P29: registered types, published features and requests, against a model of
// the types and a second copy of the published memory.
#include "env.h"
#include <Smp/IArrayField.h>
#include <Smp/IDynamicInvocation.h>
#include <Smp/IOperation.h>
#include <Smp/IParameter.h>
#include <Smp/IProperty.h>
#include <Smp/IRequest.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Request.h>
#include <cmath>
#include <cstring>
#include <limits>
namespace wl {
namespace {
using PK = Smp::PrimitiveTypeKind;
using Dir = Smp::Publication::ParameterDirectionKind;
constexpr Smp::Uuid U(unsigned n) { return Smp::Uuid{0x13, 0x20, 0x30, 0x40, 0x50000000ull + n}; }
constexpr Smp::ViewKind VIEWS[] = {Smp::ViewKind::VK_None, Smp::ViewKind::VK_Debug, Smp::ViewKind::VK_Expert, Smp::ViewKind::VK_All};
constexpr int PRIMS = 17; // 0 .. 15 the primitive types, 16 void
const PK KINDS[] = {PK::PTK_Char8, PK::PTK_Bool, PK::PTK_Int8, PK::PTK_UInt8, PK::PTK_Int16, PK::PTK_UInt16, PK::PTK_Int32, PK::PTK_UInt32, PK::PTK_Int64,
                    PK::PTK_UInt64, PK::PTK_Float32, PK::PTK_Float64, PK::PTK_Duration, PK::PTK_DateTime, PK::PTK_String8, PK::PTK_None};
size_t sizeOf(PK k) {
  switch (k) {
  case PK::PTK_Char8:
  case PK::PTK_Bool:
  case PK::PTK_Int8:
  case PK::PTK_UInt8:
    return 1;
  case PK::PTK_Int16:
  case PK::PTK_UInt16:
    return 2;
  case PK::PTK_Int32:
  case PK::PTK_UInt32:
  case PK::PTK_Float32:
    return 4;
  default:
    return 8;
  }
}
struct Part {
  std::string name;
  int type;
  size_t offset;
  Smp::ViewKind view;
  bool state, in, out;
};
struct Type {
  enum Cls { Prim, Integer, Float, Enum, Text, Array, Struct } cls = Prim;
  Smp::Uuid uuid;
  std::string name;
  PK kind = PK::PTK_None;
  int64_t mn = 0, mx = 0;
  double fmn = 0, fmx = 0;
  bool mi = true, xi = true;
  std::map<int, std::string> literals;
  size_t len = 0;
  int item = -1;
  size_t count = 0;
  bool simple = false, isClass = false;
  std::vector<Part> parts;
  size_t size = 0;
  int depth = 0;
  bool storable = true; // a field of this type can be published
  Smp::Publication::IType *real = nullptr;
};
// one value in the published memory
struct Leaf {
  Smp::IField *field;
  int index; // in a simple array, or -1
  size_t at;
  int type;
  bool store;
  std::string path;
};
struct Feature {
  std::string name;
  Smp::IField *field;
  size_t at = 0;
  bool mem = true;
};
struct Param {
  std::string name;
  int type;
  Dir dir;
};
struct Oper {
  std::string name, desc;
  Smp::ViewKind view = Smp::ViewKind::VK_None;
  std::vector<Param> params;
  int ret = -1;
  std::string retName;
};
struct Prop {
  std::string name;
  int type;
  Smp::AccessKind access;
  std::string desc;
  Smp::ViewKind view;
};
struct Open { // an open request
  Smp::IRequest *r;
  std::string oper, prop;
  bool get = false;
  std::vector<Smp::AnySimple> vals;
  std::vector<Param> params; // those of the operation when it was created
  bool stale = false;        // the operation was published again since
};
struct Owner;
struct Ctx {
  std::vector<Type> types;
  std::vector<Feature> fields;
  std::vector<Leaf> leaves;
  std::vector<Oper> opers;
  std::vector<Prop> props;
  std::vector<Open> open;
  char *mem, *want;
  size_t used = 0;
  Owner *owner;
  Xsmp::Publication::TypeRegistry *tr;
  Xsmp::Publication::Publication *pub;
  std::vector<std::unique_ptr<Xsmp::Field<Smp::Int32>>> own;
  // what the component does in the next invocation
  std::function<void(Smp::IRequest *)> body;
  int invoked = 0;
};
Ctx *cx;
constexpr size_t ARENA = 16384;
struct Owner : Xsmp::Model {
  using Xsmp::Model::Model;
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(1);
    return u;
  }
  void Invoke(Smp::IRequest *r) override {
    ++cx->invoked;
    if (cx->body)
      cx->body(r);
  }
};
Smp::AnySimple any(PK k, int64_t i, double d, const char *s) {
  switch (k) {
  case PK::PTK_Char8:
    return {k, (Smp::Char8)i};
  case PK::PTK_Bool:
    return {k, (Smp::Bool)(i & 1)};
  case PK::PTK_Int8:
    return {k, (Smp::Int8)i};
  case PK::PTK_UInt8:
    return {k, (Smp::UInt8)i};
  case PK::PTK_Int16:
    return {k, (Smp::Int16)i};
  case PK::PTK_UInt16:
    return {k, (Smp::UInt16)i};
  case PK::PTK_Int32:
    return {k, (Smp::Int32)i};
  case PK::PTK_UInt32:
    return {k, (Smp::UInt32)i};
  case PK::PTK_Int64:
  case PK::PTK_Duration:
  case PK::PTK_DateTime:
    return {k, (Smp::Int64)i};
  case PK::PTK_UInt64:
    return {k, (Smp::UInt64)i};
  case PK::PTK_Float32:
    return {k, (Smp::Float32)d};
  case PK::PTK_Float64:
    return {k, (Smp::Float64)d};
  case PK::PTK_String8:
    return {k, (Smp::String8)s};
  default:
    return {};
  }
}
// the bytes of a value
std::string bytes(const Smp::AnySimple &v) {
  if (v.type == PK::PTK_String8)
    return std::string(v.value.string8Value ? v.value.string8Value : "");
  return std::string((const char *)&v.value, v.type == PK::PTK_None ? 0 : sizeOf(v.type));
}
bool same(const Smp::AnySimple &a, const Smp::AnySimple &b) { return a.type == b.type && bytes(a) == bytes(b); }
std::string show(const Smp::AnySimple &v) {
  if (v.type == PK::PTK_String8)
    return "\"" + bytes(v) + "\"";
  if (v.type == PK::PTK_None)
    return "none";
  if (v.type == PK::PTK_Float32)
    return std::to_string(v.value.float32Value);
  if (v.type == PK::PTK_Float64)
    return std::to_string(v.value.float64Value);
  int64_t i = 0;
  memcpy(&i, &v.value, sizeOf(v.type));
  return std::to_string(i);
}
// a value of the kind of a type, on, near or beyond its limits
Smp::AnySimple some(const Type &t) {
  int64_t i;
  switch (rnd(5)) {
  case 0:
    i = t.mn - 1 + (int64_t)rnd(3);
    break;
  case 1:
    i = t.mx - 1 + (int64_t)rnd(3);
    break;
  case 2:
    i = (int64_t)rnd(8);
    break;
  case 3:
    i = range(-200, 200);
    break;
  default:
    i = (int64_t)(rnd(1ull << 62) * 4 + rnd(4));
  }
  double d = 0;
  switch (rnd(7)) {
  case 0:
    d = t.fmn;
    break;
  case 1:
    d = t.fmx;
    break;
  case 2:
    d = std::nextafter(t.fmn, chance(50) ? -1e9 : 1e9);
    break;
  case 3:
    d = std::nextafter(t.fmx, chance(50) ? -1e9 : 1e9);
    break;
  case 4:
    d = (double)range(-100, 100) / 4;
    break;
  case 5:
    d = chance(50) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
    break;
  case 6:
    d = 0;
  }
  size_t n = t.cls == Type::Text && chance(50) ? t.len + rnd(3) : rnd(12);
  if (n && chance(30))
    --n;
  std::string s;
  for (size_t k = 0; k < n; ++k)
    s += (char)('a' + rnd(26));
  if (t.kind == PK::PTK_String8 && chance(3))
    return any(t.kind, 0, 0, nullptr);
  return any(t.kind, i, d, s.c_str());
}
bool literal(const Type &t, const Smp::AnySimple &v) {
  int64_t i = 0;
  switch (v.type) {
  case PK::PTK_Int8:
    i = v.value.int8Value;
    break;
  case PK::PTK_Int16:
    i = v.value.int16Value;
    break;
  case PK::PTK_Int32:
    i = v.value.int32Value;
    break;
  default:
    i = v.value.int64Value;
  }
  return i >= INT32_MIN && i <= INT32_MAX && t.literals.count((int)i);
}
// may a request hold this value for a parameter of the type
bool inRange(const Type &t, const Smp::AnySimple &v) {
  if (v.type != t.kind)
    return false;
  switch (t.cls) {
  case Type::Integer: {
    if (v.type == PK::PTK_UInt64)
      return v.value.uInt64Value <= (uint64_t)INT64_MAX && (int64_t)v.value.uInt64Value >= t.mn && (int64_t)v.value.uInt64Value <= t.mx;
    int64_t i = 0;
    switch (v.type) {
    case PK::PTK_Int8:
      i = v.value.int8Value;
      break;
    case PK::PTK_UInt8:
      i = v.value.uInt8Value;
      break;
    case PK::PTK_Int16:
      i = v.value.int16Value;
      break;
    case PK::PTK_UInt16:
      i = v.value.uInt16Value;
      break;
    case PK::PTK_Int32:
      i = v.value.int32Value;
      break;
    case PK::PTK_UInt32:
      i = v.value.uInt32Value;
      break;
    default:
      i = v.value.int64Value;
    }
    return i >= t.mn && i <= t.mx;
  }
  case Type::Float: {
    double d = v.type == PK::PTK_Float32 ? v.value.float32Value : v.value.float64Value;
    return (t.mi ? d >= t.fmn : d > t.fmn) && (t.xi ? d <= t.fmx : d < t.fmx);
  }
  case Type::Enum:
    return literal(t, v);
  case Type::Text:
    return bytes(v).size() <= t.len;
  default:
    return true;
  }
}
int pickType(bool known = true) {
  if (!known && chance(8))
    return -1; // one that is not registered
  return chance(40) ? (int)rnd(PRIMS - 1) : (int)rnd(cx->types.size());
}
Smp::Uuid uuidOf(int t) { return t < 0 ? U(9999) : cx->types[t].uuid; }
std::string name() {
  static const char *bad[] = {"", "1a", "a b", "a.b", "_x", "[x]", "a[0]", "a/"};
  if (chance(5))
    return bad[rnd(8)];
  return std::string(1, (char)('a' + rnd(20))) + (chance(30) ? "_1" : "");
}
bool goodName(const std::string &n) {
  if (n.empty() || !isalpha((unsigned char)n[0]))
    return false;
  for (char c : n)
    if (!isalnum((unsigned char)c) && c != '_')
      return false;
  return true;
}
std::string expectOutcome(const char *what, const std::string &got, const std::string &want, bool hit) {
  if (hit && got == "std:std::bad_alloc") {
    countFault("allocation failed");
    return got;
  }
  if (got != want)
    fail("outcome", "%s: %s, %s expected", what, got.empty() ? "success" : got.c_str(), want.empty() ? "success" : want.c_str());
  return got;
}
template <class Fn> std::string run(const char *what, const std::string &want, bool noMem, Fn fn) {
  if (noMem)
    armAlloc((int64_t)rnd(8));
  std::string got = outcome(fn);
  bool hit = noMem && allocFired();
  armAlloc(-1);
  return expectOutcome(what, got, want, hit);
}
// ------------------------------------------------------------------------ types
void addType(bool noMem) {
  if (cx->types.size() > 40)
    return;
  Type t;
  t.uuid = chance(10) ? cx->types[rnd(cx->types.size())].uuid : U(100 + (unsigned)cx->types.size());
  t.name = "T" + std::to_string(cx->types.size());
  bool badName = chance(4);
  if (badName)
    t.name = "9" + t.name;
  std::string want;
  for (auto &x : cx->types)
    if (x.uuid == t.uuid)
      want = "Smp:TypeAlreadyRegistered";
  if (want.empty() && badName)
    want = "Smp:InvalidObjectName";
  auto *tr = cx->tr;
  std::function<Smp::Publication::IType *()> make;
  switch (rnd(7)) {
  case 0: {
    t.cls = Type::Integer;
    t.kind = KINDS[rnd(16)];
    bool ok = t.kind >= PK::PTK_Int8 && t.kind <= PK::PTK_UInt64;
    if (!ok)
      want = "Smp:InvalidPrimitiveType";
    size_t s = sizeOf(t.kind);
    int64_t top = s == 1 ? 127 : s == 2 ? 32767 : s == 4 ? INT32_MAX : INT64_MAX;
    t.mn = (int64_t)rnd(3) - 1 ? range(-100, 100) : -top;
    t.mx = t.mn + (int64_t)rnd(3) - 1 ? std::max<int64_t>(t.mn, range(-100, 120)) : top;
    t.size = s;
    make = [=] { return tr->AddIntegerType(t.name.c_str(), "", t.uuid, t.mn, t.mx, "m", t.kind); };
    break;
  }
  case 1: {
    t.cls = Type::Float;
    t.kind = chance(80) ? (chance(50) ? PK::PTK_Float32 : PK::PTK_Float64) : KINDS[rnd(16)];
    if (t.kind != PK::PTK_Float32 && t.kind != PK::PTK_Float64)
      want = "Smp:InvalidPrimitiveType";
    t.fmn = (double)range(-40, 40) / 4;
    t.fmx = t.fmn + (double)rnd(40) / 4;
    t.mi = chance(50);
    t.xi = chance(50);
    t.size = sizeOf(t.kind);
    make = [=] { return tr->AddFloatType(t.name.c_str(), "", t.uuid, t.fmn, t.fmx, t.mi, t.xi, "m", t.kind); };
    break;
  }
  case 2: {
    t.cls = Type::Enum;
    static const Smp::Int16 SIZES[] = {4, 1, 2, 8, 3, 0};
    Smp::Int16 s = SIZES[chance(50) ? 0 : rnd(6)];
    t.kind = s == 1 ? PK::PTK_Int8 : s == 2 ? PK::PTK_Int16 : s == 8 ? PK::PTK_Int64 : PK::PTK_Int32;
    if ((s == 3 || s == 0) && want != "Smp:TypeAlreadyRegistered")
      want = "Smp:InvalidPrimitiveType"; // found out before the name
    t.size = (size_t)s;
    make = [=] { return tr->AddEnumerationType(t.name.c_str(), "", t.uuid, s); };
    break;
  }
  case 3:
    t.cls = Type::Text;
    t.kind = PK::PTK_String8;
    t.len = rnd(10);
    t.size = t.len + 1;
    make = [=] { return tr->AddStringType(t.name.c_str(), "", t.uuid, (Smp::Int64)t.len); };
    break;
  case 4: {
    t.cls = Type::Array;
    t.item = pickType(false);
    if (t.item >= 0 && cx->types[t.item].depth > 2)
      return;
    t.simple = chance(50);
    t.count = rnd(5);
    const Type *i = t.item < 0 ? nullptr : &cx->types[t.item];
    if (want.empty() && !i)
      want = "Smp:TypeNotRegistered";
    if (want.empty() && (t.item == 14 || t.item == 15))
      want = "Smp:IncompatibleType";
    if (i && !i->storable)
      return;
    size_t is = i ? i->size : 0;
    t.size = is * t.count;
    t.depth = i ? i->depth + 1 : 0;
    Smp::Uuid iu = uuidOf(t.item);
    make = [=] { return tr->AddArrayType(t.name.c_str(), "", t.uuid, iu, (Smp::Int64)is, (Smp::Int64)t.count, t.simple); };
    break;
  }
  case 5: { // a class
    t.cls = Type::Struct;
    t.isClass = true;
    int base = chance(50) ? 15 : pickType(false); // 15: none
    bool self = chance(6);
    Smp::Uuid bu = self ? t.uuid : base == 15 ? Smp::Uuids::Uuid_Void : uuidOf(base);
    if (!self && base >= 0 && base != 15 && !cx->types[base].parts.empty())
      return; // what a class has from its base is not judged
    if (want.empty() && bu == t.uuid)
      want = "Smp:IncompatibleType";
    else if (want.empty() && base < 0)
      want = "Smp:TypeNotRegistered";
    else if (want.empty() && base != 15 && !cx->types[base].isClass)
      want = "Smp:IncompatibleType";
    make = [=] { return tr->AddClassType(t.name.c_str(), "", t.uuid, bu); };
    break;
  }
  default:
    t.cls = Type::Struct;
    make = [=] { return tr->AddStructureType(t.name.c_str(), "", t.uuid); };
  }
  log("add type %s (class %d)%s", t.name.c_str(), (int)t.cls, noMem ? " without memory" : "");
  Smp::Publication::IType *made = nullptr;
  std::string got = run("adding a type", want, noMem, [&] { made = make(); });
  Quiet q;
  auto *reg = tr->GetType(t.uuid);
  if (!got.empty()) {
    probe("refused", 1);
    bool known = false;
    for (auto &x : cx->types)
      if (x.uuid == t.uuid)
        known = true;
    if (!known && reg)
      fail("type", "type %s is registered though adding it failed with %s", t.name.c_str(), got.c_str());
    return;
  }
  if (reg != made || !made || made->GetUuid() != t.uuid || made->GetName() != t.name || made->GetPrimitiveTypeKind() != t.kind)
    fail("type", "type %s is not registered as it was added", t.name.c_str());
  t.real = made;
  if (t.isClass && !dynamic_cast<Smp::Publication::IClassType *>(made))
    fail("type", "%s is no class type", t.name.c_str());
  if (t.cls == Type::Array) {
    auto *a = dynamic_cast<Smp::Publication::IArrayType *>(made);
    if (!a || a->GetSize() != t.count || a->GetItemType() != cx->types[t.item].real)
      fail("type", "array type %s has another size or item type than it was added with", t.name.c_str());
  }
  if (t.cls == Type::Enum) {
    auto *e = dynamic_cast<Smp::Publication::IEnumerationType *>(made);
    int n = (int)rnd(5);
    for (int i = 0; i < n; ++i) {
      int v = (int)range(-3, 6);
      std::string l = "L" + std::to_string(i);
      std::string o = run("adding a literal", t.literals.count(v) ? "Smp:DuplicateLiteral" : "", noMem && chance(20), [&] { e->AddLiteral(l.c_str(), "", v); });
      if (o.empty())
        t.literals[v] = l;
    }
  }
  if (t.cls == Type::Struct) {
    auto *s = dynamic_cast<Smp::Publication::IStructureType *>(made);
    int n = (int)rnd(5);
    for (int i = 0; i < n; ++i) {
      int p = pickType();
      const Type &x = cx->types[p];
      if (!x.storable || p == 14 || p == 15 || x.depth > 2)
        continue;
      Part f{"p" + std::to_string(i), p, (t.size + 7) / 8 * 8, VIEWS[rnd(4)], chance(70), chance(20), chance(20)};
      std::string o = run("adding a field to a type", "", noMem && chance(20), [&] { s->AddField(f.name.c_str(), "", x.uuid, (Smp::Int64)f.offset, f.view, f.state, f.in, f.out); });
      if (!o.empty())
        continue;
      t.parts.push_back(f);
      t.size = f.offset + x.size;
      t.depth = std::max(t.depth, x.depth + 1);
    }
  }
  if (t.size > 1500)
    t.storable = false;
  cx->types.push_back(t);
}
// ----------------------------------------------------------------------- fields
void collect(Smp::IField *f, int ti, size_t at, Smp::ViewKind view, bool state, bool in, bool out, bool store, const Smp::IObject *parent, const std::string &path) {
  const Type &t = cx->types[ti];
  if (!f)
    fail("field", "%s is missing", path.c_str());
  if (f->GetParent() != parent || f->GetView() != view || f->IsState() != state || f->IsInput() != in || f->IsOutput() != out || f->GetType() != t.real)
    fail("field", "%s: parent, view, state, input, output or type is not as published", path.c_str());
  store = store && state;
  if (t.cls == Type::Struct) {
    auto *s = dynamic_cast<Smp::IStructureField *>(f);
    if (!s || s->GetFields()->size() != t.parts.size())
      fail("field", "%s is no structure with %zu fields", path.c_str(), t.parts.size());
    for (size_t i = 0; i < t.parts.size(); ++i) {
      auto &p = t.parts[i];
      auto *k = s->GetField(p.name.c_str());
      if (k != s->GetFields()->at(i))
        fail("field", "%s.%s by its name is another field than by its position", path.c_str(), p.name.c_str());
      collect(k, p.type, at + p.offset, p.view, p.state, p.in || in, p.out || out, store, f, path + "." + p.name);
    }
  } else if (t.cls == Type::Array && t.simple && cx->types[t.item].kind != PK::PTK_None) {
    auto *s = dynamic_cast<Smp::ISimpleArrayField *>(f);
    if (!s || s->GetSize() != t.count)
      fail("field", "%s is no simple array of %zu", path.c_str(), t.count);
    for (size_t i = 0; i < t.count; ++i)
      cx->leaves.push_back({f, (int)i, at + i * cx->types[t.item].size, t.item, store, path + "[" + std::to_string(i) + "]"});
  } else if (t.cls == Type::Array) {
    auto *s = dynamic_cast<Smp::IArrayField *>(f);
    if (!s || s->GetSize() != t.count)
      fail("field", "%s is no array of %zu", path.c_str(), t.count);
    for (size_t i = 0; i < t.count; ++i)
      collect(s->GetItem(i), t.item, at + i * cx->types[t.item].size, view, state, in, out, store, f, path + "[" + std::to_string(i) + "]");
  } else {
    auto *s = dynamic_cast<Smp::ISimpleField *>(f);
    if (!s || s->GetPrimitiveTypeKind() != t.kind)
      fail("field", "%s is no value of its kind", path.c_str());
    cx->leaves.push_back({f, -1, at, ti, store, path});
  }
}
size_t place(size_t n) {
  size_t at = (cx->used + 15) / 16 * 16;
  if (at + n + 16 > ARENA)
    return ARENA;
  return at;
}
bool taken(const std::string &n) {
  for (auto &f : cx->fields)
    if (f.name == n)
      return true;
  return false;
}
void publishField(bool noMem) {
  std::string n = name();
  bool dup = taken(n);
  auto view = VIEWS[rnd(4)];
  bool state = chance(70), in = chance(40), out = chance(40);
  size_t before = cx->pub->GetFields()->size();
  std::string got, want;
  size_t at = 0;
  int t = -1;
  Feature f;
  f.name = n;
  PK simple{};
  size_t count = 0;
  int kind = (int)rnd(10);
  if (kind == 0) { // one implemented by the component
    if (!goodName(n))
      return;
    auto fld = std::make_unique<Xsmp::Field<Smp::Int32>>(cx->tr, Smp::Uuids::Uuid_Int32, n.c_str(), "", cx->owner, view);
    log("publish own field %s%s", n.c_str(), noMem ? " without memory" : "");
    got = run("publishing an own field", dup ? "Smp:DuplicateName" : "", noMem, [&] { cx->pub->PublishField(fld.get()); });
    if (got.empty()) {
      f.field = fld.get();
      f.mem = false;
      cx->own.push_back(std::move(fld));
      cx->fields.push_back(f);
    }
  } else if (kind == 1) { // array without a type
    simple = KINDS[rnd(16)];
    count = rnd(6);
    at = place(count * sizeOf(simple));
    if (at == ARENA)
      return;
    if (!goodName(n))
      want = "Smp:InvalidObjectName";
    else if (simple == PK::PTK_String8 || simple == PK::PTK_None)
      want = "Smp:IncompatibleType";
    else if (dup)
      want = "Smp:DuplicateName";
    log("publish array %s of %zu%s", n.c_str(), count, noMem ? " without memory" : "");
    got = run("publishing an array", want, noMem, [&] { cx->pub->PublishArray(n.c_str(), "", (Smp::Int64)count, cx->mem + at, simple, view, state, in, out); });
    if (got.empty()) {
      cx->used = at + count * sizeOf(simple);
      f.field = cx->pub->GetFields()->at(n.c_str());
      f.at = at;
      auto *s = dynamic_cast<Smp::ISimpleArrayField *>(f.field);
      if (!s || s->GetSize() != count || s->GetParent() != cx->owner || s->GetView() != view || s->IsState() != state || s->IsInput() != in || s->IsOutput() != out)
        fail("field", "array %s is not as published", n.c_str());
      int ti = 0;
      while (cx->types[ti].kind != simple)
        ++ti;
      for (size_t i = 0; i < count; ++i)
        cx->leaves.push_back({f.field, (int)i, at + i * sizeOf(simple), ti, state, n + "[" + std::to_string(i) + "]"});
      cx->fields.push_back(f);
    }
  } else {
    t = pickType(false);
    const Type *x = t < 0 ? nullptr : &cx->types[t];
    if (x && !x->storable)
      return;
    at = place(x ? x->size : 8);
    if (at == ARENA)
      return;
    if (!x)
      want = "Smp:TypeNotRegistered";
    else if (t == 15)
      want = "Smp:InvalidFieldType";
    else if (!goodName(n))
      want = "Smp:InvalidObjectName";
    else if (t == 14)
      want = "Smp:IncompatibleType";
    else if (dup)
      want = "Smp:DuplicateName";
    log("publish field %s of type %s%s", n.c_str(), x ? x->name.c_str() : "-", noMem ? " without memory" : "");
    got = run("publishing a field", want, noMem, [&] {
      void *p = cx->mem + at;
      bool direct = chance(30) && t < 12;
      if (x && x->real && chance(20))
        return x->real->Publish(cx->pub, n.c_str(), "", p, view, state, in, out);
      if (!direct)
        return cx->pub->PublishField(n.c_str(), "", p, uuidOf(t), view, state, in, out);
      switch (x ? x->kind : PK::PTK_None) {
#define D(K, T) \
  case PK::PTK_##K: \
    return cx->pub->PublishField(n.c_str(), "", (Smp::T *)p, view, state, in, out);
        D(Char8, Char8)
        D(Bool, Bool)
        D(Int8, Int8)
        D(UInt8, UInt8)
        D(Int16, Int16)
        D(UInt16, UInt16)
        D(Int32, Int32)
        D(UInt32, UInt32)
        D(Int64, Int64)
        D(UInt64, UInt64)
        D(Float32, Float32)
        D(Float64, Float64)
#undef D
      default:
        cx->pub->PublishField(n.c_str(), "", p, uuidOf(t), view, state, in, out);
      }
    });
    if (got.empty()) {
      cx->used = at + x->size;
      f.field = cx->pub->GetFields()->at(n.c_str());
      f.at = at;
      cx->fields.push_back(f);
      collect(f.field, t, at, view, state, in, out, true, cx->owner, n);
      probe("fields", 1);
    }
  }
  if (!got.empty())
    probe("refused", 1);
  Quiet q;
  if (size_t now = cx->pub->GetFields()->size(); now != before + got.empty())
    fail("field", "%zu fields instead of %zu after publishing %s: %s", now, before + got.empty(), n.c_str(), got.c_str());
}
void compareMemory(const char *after) {
  Quiet q;
  if (memcmp(cx->mem, cx->want, ARENA)) {
    size_t i = 0;
    while (cx->mem[i] == cx->want[i])
      ++i;
    const char *where = "no field";
    std::string w;
    for (auto &l : cx->leaves)
      if (l.at <= i && i < l.at + cx->types[l.type].size)
        w = l.path, where = w.c_str();
    fail("memory", "after %s: byte %zu of the memory is %d, %d expected (%s)", after, i, cx->mem[i], cx->want[i], where);
  }
}
void lookup() {
  Quiet q;
  for (auto &f : cx->fields) {
    if (cx->pub->GetField(f.name.c_str()) != f.field || cx->pub->GetFields()->at(f.name.c_str()) != f.field)
      fail("lookup", "field %s is not found by its name", f.name.c_str());
  }
  if (cx->pub->GetFields()->size() != cx->fields.size())
    fail("lookup", "%zu fields, %zu expected", cx->pub->GetFields()->size(), cx->fields.size());
  size_t n = 0;
  for (auto *f : *cx->pub->GetFields()) {
    ++n;
    if (!taken(f->GetName()))
      fail("lookup", "field %s is listed but was not published", f->GetName());
  }
  if (n != cx->fields.size())
    fail("lookup", "%zu fields listed, %zu expected", n, cx->fields.size());
  if (!cx->leaves.empty()) {
    auto &l = cx->leaves[rnd(cx->leaves.size())];
    if (l.index < 0 && cx->pub->GetField(l.path.c_str()) != l.field)
      fail("lookup", "field %s is not found by its path", l.path.c_str());
  }
  if (std::string e = outcome([&] { (void)cx->pub->GetField("nothing_such"); }); e != "Smp:InvalidFieldName")
    fail("lookup", "looking up an unknown field: %s", e.c_str());
}
Smp::AnySimple current(const Leaf &l) {
  const Type &t = cx->types[l.type];
  if (t.kind == PK::PTK_String8)
    return any(t.kind, 0, 0, cx->want + l.at);
  Smp::AnySimple v = any(t.kind, 0, 0, "");
  memcpy((void *)&v.value, cx->want + l.at, sizeOf(t.kind));
  return v;
}
void write(const Leaf &l, const Smp::AnySimple &v) {
  const Type &t = cx->types[l.type];
  std::string b = bytes(v);
  if (t.kind == PK::PTK_String8) {
    b = b.substr(0, t.len);
    b += '\0';
  }
  memcpy(cx->want + l.at, b.data(), b.size());
}
void access(bool noMem) {
  if (cx->leaves.empty())
    return;
  auto &l = cx->leaves[rnd(cx->leaves.size())];
  const Type &t = cx->types[l.type];
  auto *simple = dynamic_cast<Smp::ISimpleField *>(l.field);
  auto *array = dynamic_cast<Smp::ISimpleArrayField *>(l.field);
  size_t len = array ? array->GetSize() : 1;
  switch (rnd(6)) {
  case 0: { // the component changes its memory
    Smp::AnySimple v = some(t);
    log("the component sets %s to %s", l.path.c_str(), show(v).c_str());
    write(l, v);
    memcpy(cx->mem + l.at, cx->want + l.at, t.size);
    break;
  }
  case 1:
  case 2: { // read
    Smp::AnySimple v, w = current(l);
    log("read %s%s", l.path.c_str(), noMem ? " without memory" : "");
    std::string got = run("reading a field", "", noMem, [&] { v = l.index < 0 ? simple->GetValue() : array->GetValue((Smp::UInt64)l.index); });
    if (got.empty() && !same(v, w))
      fail("value", "%s reads as %s, %s expected", l.path.c_str(), show(v).c_str(), show(w).c_str());
    if (array && chance(20)) {
      std::string o = outcome([&] { (void)array->GetValue(len); });
      if (o != "Smp:InvalidArrayIndex")
        fail("value", "reading %s beyond its end: %s", l.path.c_str(), o.c_str());
    }
    break;
  }
  case 3:
  case 4: { // write
    Smp::AnySimple v = some(t);
    std::string want;
    if (t.cls == Type::Enum && !literal(t, v))
      want = array ? "Smp:InvalidArrayValue" : "Smp:InvalidFieldValue";
    // (a string is true as a Bool: all simple values convert to Bool)
    if (chance(8) && t.kind != PK::PTK_Bool) {
      v = t.kind == PK::PTK_String8 ? any(PK::PTK_Int32, 1, 0, "") : any(PK::PTK_String8, 0, 0, "text");
      want = "?";
    }
    Smp::UInt64 index = (Smp::UInt64)std::max(l.index, 0);
    if (array && chance(5))
      index = len + rnd(2), want = "Smp:InvalidArrayIndex";
    log("write %s to %s%s", show(v).c_str(), l.path.c_str(), noMem ? " without memory" : "");
    if (noMem)
      armAlloc((int64_t)rnd(3));
    std::string got = outcome([&] { l.index < 0 ? simple->SetValue(v) : array->SetValue(index, v); });
    bool hit = noMem && allocFired();
    armAlloc(-1);
    if (want == "?" && !got.empty())
      want = got;
    // no enumeration holds more than 32 bits: the value may also be refused as such
    if (t.cls == Type::Enum && want != "" && got == "Smp:InvalidAnyType")
      want = got;
    expectOutcome(("writing " + l.path).c_str(), got, want, hit);
    if (got.empty())
      write(l, v);
    else
      probe("refused", 1);
    break;
  }
  default: { // the whole array
    if (!array)
      return;
    const Leaf *first = &l - l.index;
    size_t n = chance(10) ? len + 1 : len, bad = chance(30) && len ? rnd(len) : len;
    std::vector<Smp::AnySimple> v;
    std::string want;
    for (size_t i = 0; i < n; ++i) {
      v.push_back(some(t));
      if (i < bad && t.cls == Type::Enum) {
        if (t.literals.empty())
          return;
        auto it = t.literals.begin();
        std::advance(it, rnd(t.literals.size()));
        v.back() = any(t.kind, it->first, 0, "");
      }
      if (i == bad)
        v[i] = t.kind == PK::PTK_Int32 ? any(PK::PTK_Bool, 1, 0, "") : any(PK::PTK_Int32, 1, 0, "");
    }
    if (t.cls == Type::Enum)
      for (auto &x : v)
        if (!literal(t, x))
          want = "Smp:InvalidArrayValue";
    if (bad < n)
      want = "Smp:InvalidArrayValue";
    if (n != len)
      want = "Smp:InvalidArraySize";
    log("write all %zu values of %s%s", n, l.path.c_str(), bad < n ? ", one of another type" : "");
    std::string got = outcome([&] { array->SetValues(n, v.data()); });
    if (t.cls == Type::Enum && want == "Smp:InvalidArrayValue" && got == "Smp:InvalidAnyType")
      want = got;
    expectOutcome("writing an array", got, want, false);
    if (got.empty())
      for (size_t i = 0; i < len; ++i)
        write(first[i], v[i]);
    else
      probe("refused", 1);
    compareMemory("writing an array");
    std::vector<Smp::AnySimple> r(len);
    array->GetValues(len, r.data());
    for (size_t i = 0; i < len; ++i)
      if (!same(r[i], current(first[i])))
        fail("value", "%s reads as %s, %s expected", first[i].path.c_str(), show(r[i]).c_str(), show(current(first[i])).c_str());
  }
  }
}
struct Saver : Smp::IStorageWriter {
  std::string data;
  void Store(void *p, Smp::UInt64 n) override { data.append((char *)p, n); }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};
struct Loader : Smp::IStorageReader {
  std::string data;
  size_t at = 0;
  void Restore(void *p, Smp::UInt64 n) override {
    if (at + n > data.size())
      fail("store", "more is read back than was stored");
    memcpy(p, data.data() + at, n), at += n;
  }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};
void storeAndRestore() {
  Quiet q;
  log("store and restore");
  for (auto &f : cx->fields) {
    if (!f.mem)
      continue;
    Saver s;
    f.field->Store(&s);
    std::string want;
    std::string p1 = f.name + ".", p2 = f.name + "[";
    for (auto &l : cx->leaves)
      if (l.store && (l.path == f.name || !l.path.compare(0, p1.size(), p1) || !l.path.compare(0, p2.size(), p2)))
        want.append(cx->want + l.at, cx->types[l.type].size);
    if (s.data != want)
      fail("store", "%s stores %zu bytes, not the %zu of its values that are kept", f.name.c_str(), s.data.size(), want.size());
    // other values, and back again
    Loader r;
    r.data = s.data;
    for (auto &l : cx->leaves)
      if (!l.path.compare(0, p1.size(), p1) || !l.path.compare(0, p2.size(), p2) || l.path == f.name)
        for (size_t i = 0; i < cx->types[l.type].size && l.store; ++i)
          cx->mem[l.at + i] ^= 0x55;
    f.field->Restore(&r);
    if (r.at != r.data.size())
      fail("store", "%s reads back %zu of %zu bytes", f.name.c_str(), r.at, r.data.size());
  }
  compareMemory("store and restore");
}
// ------------------------------------------------------- operations, properties
Oper *oper(const std::string &n) {
  for (auto &o : cx->opers)
    if (o.name == n)
      return &o;
  return nullptr;
}
Prop *prop(const std::string &n) {
  for (auto &p : cx->props)
    if (p.name == n)
      return &p;
  return nullptr;
}
void close(size_t i) {
  if (chance(50))
    cx->owner->DeleteRequest(cx->open[i].r);
  else
    cx->pub->DeleteRequest(cx->open[i].r);
  cx->open.erase(cx->open.begin() + (long)i);
}
void publishOperation(bool noMem) {
  std::string n = name();
  if (chance(20))
    n = (chance(50) ? "get_" : "set_") + n;
  if (chance(25) && !cx->open.empty() && !cx->open[0].oper.empty())
    n = cx->open[0].oper; // one that requests were made for
  Oper *o = oper(n);
  bool keepOpen = chance(60);
  for (size_t i = cx->open.size(); i-- > 0;)
    if (cx->open[i].oper == n && !keepOpen)
      close(i);
  log("publish operation %s%s", n.c_str(), noMem ? " without memory" : "");
  size_t before = cx->pub->GetOperations()->size();
  std::string desc = "about " + std::to_string(rnd(100));
  auto view = VIEWS[rnd(4)];
  Smp::Publication::IPublishOperation *p = nullptr;
  std::string got = run("publishing an operation", goodName(n) ? "" : "Smp:InvalidObjectName", noMem, [&] { p = cx->pub->PublishOperation(n.c_str(), desc.c_str(), view); });
  if (!got.empty()) {
    if (cx->pub->GetOperations()->size() != before)
      fail("operation", "an operation was added though publishing it failed");
    if (o)
      if (auto *op = cx->pub->GetOperations()->at(n.c_str()); op->GetDescription() != o->desc || op->GetView() != o->view || op->GetParameters()->size() != o->params.size())
        fail("operation", "publishing operation %s again failed and changed it", n.c_str());
    return;
  }
  if (!o)
    cx->opers.push_back({n}), o = &cx->opers.back();
  o->desc = desc, o->view = view;
  auto old = o->params;
  o->params.clear();
  o->ret = -1;
  for (auto &q : cx->open)
    if (q.oper == n)
      q.stale = true;
  if (chance(50))
    old.clear();
  int k = old.empty() ? (int)rnd(5) : (int)old.size();
  for (int i = 0; i < k; ++i) {
    std::string pn = chance(85) ? "p" + std::to_string(rnd(6)) : name();
    int t = pickType(false);
    Dir d = (Dir)rnd(4);
    if (!old.empty()) // much as before
      pn = old[(size_t)i].name, t = chance(80) ? old[(size_t)i].type : t, d = old[(size_t)i].dir;
    std::string want;
    bool dup = (o->ret >= 0 && o->retName == pn);
    for (auto &x : o->params)
      dup = dup || x.name == pn;
    if (t < 0)
      want = "Smp:TypeNotRegistered";
    else if (d == Dir::PDK_Return && o->ret >= 0)
      want = "Smp:InvalidParameterDirection";
    else if (dup)
      want = "Smp:DuplicateName";
    else if (!goodName(pn))
      want = "Smp:InvalidObjectName";
    std::string e = run("publishing a parameter", want, noMem && chance(30), [&] { p->PublishParameter(pn.c_str(), "", uuidOf(t), d); });
    if (!e.empty()) {
      probe("refused", 1);
      continue;
    }
    if (d == Dir::PDK_Return)
      o->ret = t, o->retName = pn;
    else
      o->params.push_back({pn, t, d});
  }
  Quiet q;
  auto *op = cx->pub->GetOperations()->at(n.c_str());
  if (!op || op->GetParameters()->size() != o->params.size() || !op->GetReturnParameter() != (o->ret < 0) || op->GetDescription() != desc || op->GetView() != view)
    fail("operation", "operation %s is not as published", n.c_str());
  for (size_t i = 0; i < o->params.size(); ++i) {
    auto *x = op->GetParameters()->at(i);
    if (x->GetName() != o->params[i].name || x->GetType() != cx->types[o->params[i].type].real || x->GetDirection() != o->params[i].dir ||
        op->GetParameter(o->params[i].name.c_str()) != x)
      fail("operation", "parameter %s of %s is not as published", o->params[i].name.c_str(), n.c_str());
  }
  if (op->GetParameter("nothing_such"))
    fail("operation", "%s has an unknown parameter", n.c_str());
  if (o->ret >= 0 && op->GetParameter(o->retName.c_str()) != op->GetReturnParameter())
    fail("operation", "the returned value of %s is not found by its name", n.c_str());
  probe("operations", 1);
}
void publishProperty(bool noMem) {
  std::string n = name();
  int t = pickType(false);
  auto a = (Smp::AccessKind)rnd(3);
  std::string desc = "about " + std::to_string(rnd(100));
  auto view = VIEWS[rnd(4)];
  bool keepOpen = chance(60);
  for (size_t i = cx->open.size(); i-- > 0;)
    if (cx->open[i].prop == n && !keepOpen)
      close(i);
  std::string want = t < 0 ? "Smp:TypeNotRegistered" : goodName(n) ? "" : "Smp:InvalidObjectName";
  log("publish property %s%s", n.c_str(), noMem ? " without memory" : "");
  std::string got = run("publishing a property", want, noMem, [&] { cx->pub->PublishProperty(n.c_str(), desc.c_str(), uuidOf(t), a, view); });
  if (got.empty()) {
    if (Prop *p = prop(n))
      p->type = t, p->access = a, p->desc = desc, p->view = view;
    else
      cx->props.push_back({n, t, a, desc, view});
  }
  Quiet q;
  if (cx->pub->GetProperties()->size() != cx->props.size())
    fail("property", "%zu properties, %zu expected", cx->pub->GetProperties()->size(), cx->props.size());
  for (auto &p : cx->props) {
    auto *r = cx->pub->GetProperties()->at(p.name.c_str());
    if (!r || r->GetType() != cx->types[p.type].real || r->GetAccess() != p.access || r->GetDescription() != p.desc || r->GetView() != p.view || r->GetParent() != static_cast<Smp::IObject *>(cx->owner))
      fail("property", "property %s is not as published", p.name.c_str());
  }
}
bool invokable(const Oper &o) {
  for (auto &p : o.params)
    if (cx->types[p.type].kind == PK::PTK_None)
      return false;
  return o.ret < 0 || cx->types[o.ret].kind != PK::PTK_None;
}
void createRequest(bool noMem) {
  std::string n;
  if (chance(50) && !cx->opers.empty())
    n = cx->opers[rnd(cx->opers.size())].name;
  else if (chance(80) && !cx->props.empty())
    n = (chance(50) ? "get_" : "set_") + cx->props[rnd(cx->props.size())].name;
  else
    n = name();
  if (cx->open.size() > 8)
    return;
  Oper *o = oper(n);
  Prop *p = nullptr;
  Open q;
  bool exists = false;
  if (o)
    exists = invokable(*o), q.oper = n;
  else if (n.size() > 4 && (p = prop(n.substr(4))) && (n.substr(0, 4) == "get_" || n.substr(0, 4) == "set_")) {
    q.get = n[0] == 'g';
    q.prop = n.substr(4);
    exists = p->access == Smp::AccessKind::AK_ReadWrite || p->access == (q.get ? Smp::AccessKind::AK_ReadOnly : Smp::AccessKind::AK_WriteOnly);
  }
  log("create request %s%s", n.c_str(), noMem ? " without memory" : "");
  q.r = nullptr;
  std::string got = run("creating a request", "", noMem, [&] { q.r = cx->owner->CreateRequest(n.c_str()); });
  if (!got.empty())
    return;
  if ((q.r != nullptr) != exists)
    fail("request", "creating a request %s: %s expected", n.c_str(), exists ? "one" : "none");
  if (!q.r)
    return;
  q.vals.resize(o ? o->params.size() : q.get ? 0 : 1);
  if (o)
    q.params = o->params;
  if (q.r->GetOperationName() != n || q.r->GetParameterCount() != (Smp::Int32)q.vals.size())
    fail("request", "request %s has %d parameters, %zu expected", n.c_str(), q.r->GetParameterCount(), q.vals.size());
  for (size_t i = 0; o && i < o->params.size(); ++i)
    if (q.r->GetParameterIndex(o->params[i].name.c_str()) != (Smp::Int32)i)
      fail("request", "parameter %s of %s is at %d, %zu expected", o->params[i].name.c_str(), n.c_str(), q.r->GetParameterIndex(o->params[i].name.c_str()), i);
  if (o && q.r->GetParameterIndex("nothing_such") != -1)
    fail("request", "an unknown parameter was found");
  cx->open.push_back(q);
  probe("requests", 1);
}
int typeOf(const Open &q, size_t i) { return q.prop.empty() ? q.params[i].type : prop(q.prop)->type; }
void checkRequest(const Open &q) {
  Quiet qq;
  for (size_t i = 0; i < q.vals.size(); ++i)
    if (Smp::AnySimple v = q.r->GetParameterValue((Smp::Int32)i); !same(v, q.vals[i]))
      fail("request", "parameter %zu of %s is %s, %s expected", i, q.r->GetOperationName(), show(v).c_str(), show(q.vals[i]).c_str());
}
Smp::AnySimple valueFor(const Type &t, bool &ok) {
  Smp::AnySimple v = some(t);
  if (t.cls == Type::Enum && !t.literals.empty() && chance(50))
    v = any(t.kind, t.literals.begin()->first, 0, "");
  if (chance(5))
    v = any(t.kind == PK::PTK_Bool ? PK::PTK_Int8 : PK::PTK_Bool, 1, 0, "");
  ok = inRange(t, v);
  return v;
}
void setParameter(Open &q, bool noMem) {
  if (q.vals.empty() || chance(5)) {
    Smp::Int32 i = chance(50) ? -1 : (Smp::Int32)q.vals.size();
    std::string e = outcome([&] { q.r->SetParameterValue(i, any(PK::PTK_Int32, 1, 0, "")); });
    if (e != "Smp:InvalidParameterIndex")
      fail("request", "setting parameter %d of %s: %s", i, q.r->GetOperationName(), e.c_str());
    return;
  }
  size_t i = rnd(q.vals.size());
  const Type &t = cx->types[typeOf(q, i)];
  bool ok;
  Smp::AnySimple v = valueFor(t, ok);
  log("set parameter %zu of %s to %s%s", i, q.r->GetOperationName(), show(v).c_str(), noMem ? " without memory" : "");
  if (noMem)
    armAlloc((int64_t)rnd(3));
  std::string e = outcome([&] { q.r->SetParameterValue((Smp::Int32)i, v); });
  bool hit = noMem && allocFired();
  armAlloc(-1);
  if (hit && e == "std:std::bad_alloc")
    countFault("allocation failed");
  else if (e.empty() != ok)
    fail("request", "setting parameter %zu of %s (type %s) to %s: %s", i, q.r->GetOperationName(), t.name.c_str(), show(v).c_str(), e.empty() ? "taken" : e.c_str());
  else if (!ok && e != "Smp:InvalidParameterValue" && e != "Smp:InvalidAnyType")
    fail("request", "setting parameter %zu of %s to %s: %s", i, q.r->GetOperationName(), show(v).c_str(), e.c_str());
  if (e.empty())
    q.vals[i] = v;
  checkRequest(q);
}
Smp::AnySimple through(Smp::IRequest *r, const char *n, PK k) { // as a component reads it
  switch (k) {
#define D(K, T) \
  case PK::PTK_##K: \
    return {k, Xsmp::Request::get<Smp::T>(cx->owner, r, n, k)};
    D(Char8, Char8)
    D(Bool, Bool)
    D(Int8, Int8)
    D(UInt8, UInt8)
    D(Int16, Int16)
    D(UInt16, UInt16)
    D(Int32, Int32)
    D(UInt32, UInt32)
    D(Int64, Int64)
    D(Duration, Int64)
    D(DateTime, Int64)
    D(UInt64, UInt64)
    D(Float32, Float32)
    D(Float64, Float64)
#undef D
  default:
    return r->GetParameterValue(r->GetParameterIndex(n));
  }
}
// a request for an operation that was published again: it keeps what it holds,
// and is carried out if it still fits
void invokeStale(Open &q) {
  Oper *o = oper(q.oper);
  std::string want = q.params.size() != o->params.size() ? "Smp:InvalidParameterCount" : "";
  for (size_t i = 0; want.empty() && i < o->params.size(); ++i) {
    auto &p = o->params[i];
    if (p.dir == Dir::PDK_Out)
      continue;
    auto it = std::find_if(q.params.begin(), q.params.end(), [&](const Param &x) { return x.name == p.name; });
    if (it == q.params.end())
      want = "Smp:InvalidParameterIndex";
    else if (q.vals[(size_t)(it - q.params.begin())].type != cx->types[p.type].kind)
      want = "Smp:InvalidParameterType";
  }
  bool body = false;
  cx->body = [&](Smp::IRequest *r) {
    body = true;
    if (r != q.r)
      fail("invoke", "another request is invoked");
    checkRequest(q);
  };
  log("invoke %s, published again since", q.r->GetOperationName());
  std::string e = outcome([&] { cx->pub->GetOperations()->at(o->name.c_str())->Invoke(q.r); });
  cx->body = nullptr;
  if (e != want || body != want.empty())
    fail("invoke", "invoking %s, published again: '%s', '%s' expected", q.r->GetOperationName(), e.c_str(), want.c_str());
  checkRequest(q);
  probe("invocations after publishing again", 1);
}
// requests that do not belong to the operation
void misuse(Open &q) {
  auto *ops = cx->pub->GetOperations();
  if (ops->size() == 0)
    return;
  auto *op = ops->at(rnd(ops->size()));
  bool body = false;
  cx->body = [&](Smp::IRequest *) { body = true; };
  Smp::IRequest *r = chance(30) ? nullptr : q.r;
  if (!r || op->GetName() != std::string(r->GetOperationName())) {
    std::string e = outcome([&] { op->Invoke(r); });
    if (e != "Smp:InvalidOperationName" || body)
      fail("invoke", "invoking %s with %s: '%s'", op->GetName(), r ? r->GetOperationName() : "no request", e.c_str());
  }
  cx->body = nullptr;
  std::string e = outcome([&] { (void)q.r->GetParameterValue(chance(50) ? -1 : (Smp::Int32)q.vals.size()); });
  if (e != "Smp:InvalidParameterIndex")
    fail("request", "reading a parameter %s does not have: '%s'", q.r->GetOperationName(), e.c_str());
  if (!q.prop.empty() && !q.get) {
    e = outcome([&] { q.r->SetReturnValue(any(PK::PTK_Int32, 1, 0, "")); });
    if (std::string g = outcome([&] { (void)q.r->GetReturnValue(); }); e != "Smp:VoidOperation" || g != e)
      fail("request", "the result of %s, that has none: '%s', '%s'", q.r->GetOperationName(), e.c_str(), g.c_str());
  }
  checkRequest(q);
}
void invoke(Open &q) {
  if (chance(15))
    return misuse(q);
  if (q.stale)
    return invokeStale(q);
  Oper *o = oper(q.oper);
  bool thrown = chance(10);
  Smp::AnySimple result;
  bool body = false;
  cx->invoked = 0;
  cx->body = [&](Smp::IRequest *r) {
    body = true;
    if (r != q.r)
      fail("invoke", "another request is invoked");
    if (o) {
      for (size_t i = 0; i < o->params.size(); ++i) {
        auto &p = o->params[i];
        const Type &t = cx->types[p.type];
        if (p.dir != Dir::PDK_Out || same(q.vals[i], q.vals[i])) {
          if (q.vals[i].type == t.kind) {
            Smp::AnySimple v = through(r, p.name.c_str(), t.kind);
            if (!same(v, q.vals[i]) && !(v.type == q.vals[i].type && show(v) == show(q.vals[i])))
              fail("invoke", "parameter %s of %s arrives as %s, %s expected", p.name.c_str(), o->name.c_str(), show(v).c_str(), show(q.vals[i]).c_str());
          }
        }
        if (p.dir != Dir::PDK_In) {
          bool ok;
          Smp::AnySimple v = valueFor(t, ok);
          std::string e = outcome([&] { r->SetParameterValue((Smp::Int32)i, v); });
          if (e.empty() != ok)
            fail("invoke", "output %s of %s set to %s: %s", p.name.c_str(), o->name.c_str(), show(v).c_str(), e.c_str());
          if (ok)
            q.vals[i] = v;
        }
      }
      bool ok = false;
      Smp::AnySimple v = o->ret >= 0 ? valueFor(cx->types[o->ret], ok) : any(PK::PTK_Int32, 1, 0, "");
      std::string e = outcome([&] { r->SetReturnValue(v); });
      if (e.empty() != ok)
        fail("invoke", "the result %s of %s: %s", show(v).c_str(), o->name.c_str(), e.c_str());
      if (ok)
        result = v;
    } else if (q.get) {
      bool ok;
      Smp::AnySimple v = valueFor(cx->types[prop(q.prop)->type], ok);
      std::string e = outcome([&] { r->SetReturnValue(v); });
      if (e.empty() != ok)
        fail("invoke", "the value %s of property %s: %s", show(v).c_str(), q.prop.c_str(), e.c_str());
      if (ok)
        result = v;
    }
    if (thrown)
      throw std::runtime_error("in the operation");
  };
  log("invoke %s", q.r->GetOperationName());
  // all inputs have to be there
  std::string want;
  if (o)
    for (size_t i = 0; i < o->params.size(); ++i)
      if (want.empty() && o->params[i].dir != Dir::PDK_Out && q.vals[i].type != cx->types[o->params[i].type].kind)
        want = "Smp:InvalidParameterType";
  if (want.empty() && thrown)
    want = "std:in the operation";
  auto before = q.vals;
  std::string e = outcome([&] {
    if (o)
      cx->pub->GetOperations()->at(o->name.c_str())->Invoke(q.r);
    else
      cx->owner->Invoke(q.r);
  });
  cx->body = nullptr;
  if (want == "std:in the operation" ? e.compare(0, 4, "std:") : e != want)
    fail("invoke", "invoking %s: %s, %s expected", q.r->GetOperationName(), e.c_str(), want.c_str());
  if (body != (want.empty() || thrown) && want != "Smp:InvalidParameterType")
    fail("invoke", "%s was%s called", q.r->GetOperationName(), body ? "" : " not");
  if (want == "Smp:InvalidParameterType" && body)
    fail("invoke", "%s was called without its inputs", q.r->GetOperationName());
  checkRequest(q);
  if (e.empty() && (o ? o->ret >= 0 : q.get)) {
    Smp::AnySimple r = q.r->GetReturnValue();
    if (result.type != PK::PTK_None && !same(r, result))
      fail("invoke", "%s returned %s, %s expected", q.r->GetOperationName(), show(r).c_str(), show(result).c_str());
    probe("invocations", 1);
  } else if (o && o->ret < 0) {
    if (std::string v = outcome([&] { (void)q.r->GetReturnValue(); }); v != "Smp:VoidOperation")
      fail("invoke", "the result of %s, that has none: %s", o->name.c_str(), v.c_str());
  }
}
void useProperty() {
  if (cx->props.empty())
    return;
  Prop &p = cx->props[rnd(cx->props.size())];
  auto *r = cx->pub->GetProperties()->at(p.name.c_str());
  const Type &t = cx->types[p.type];
  bool get = chance(50), ok, called = false;
  Smp::AnySimple v = valueFor(t, ok), w;
  log("%s property %s (%s)", get ? "get" : "set", p.name.c_str(), show(v).c_str());
  cx->body = [&](Smp::IRequest *q) {
    called = true;
    if (q->GetOperationName() != (get ? "get_" : "set_") + p.name)
      fail("property", "%s is invoked for property %s", q->GetOperationName(), p.name.c_str());
    if (get)
      q->SetReturnValue(v);
    else
      w = q->GetParameterValue(0);
  };
  bool may = p.access == Smp::AccessKind::AK_ReadWrite || p.access == (get ? Smp::AccessKind::AK_ReadOnly : Smp::AccessKind::AK_WriteOnly);
  std::string e = outcome([&] {
    if (get)
      w = r->GetValue();
    else
      r->SetValue(v);
  });
  cx->body = nullptr;
  if (e.empty() != (may && ok))
    fail("property", "%s property %s with %s: %s", get ? "get" : "set", p.name.c_str(), show(v).c_str(), e.empty() ? "done" : e.c_str());
  if (called != (may && (ok || get)))
    fail("property", "the component was%s called for property %s", called ? "" : " not", p.name.c_str());
  if (e.empty() && !same(v, w))
    fail("property", "property %s carries %s, %s expected", p.name.c_str(), show(w).c_str(), show(v).c_str());
  if (e.empty())
    probe("property uses", 1);
}
} // namespace
} // namespace wl
static void wl_pubsRun() {
  using namespace wl;
  Ctx c;
  cx = &c;
  std::vector<char> mem(ARENA), want(ARENA);
  c.mem = mem.data(), c.want = want.data();
  Owner owner("owner");
  c.owner = &owner;
  {
    Xsmp::Publication::TypeRegistry tr;
    c.tr = &tr;
    for (int i = 0; i < 16; ++i) {
      Type t;
      t.kind = KINDS[i];
      t.real = tr.GetType(KINDS[i]);
      if (!t.real || t.real->GetPrimitiveTypeKind() != t.kind)
        fail("type", "primitive type %d is not there", i);
      t.name = t.real->GetName();
      t.uuid = t.real->GetUuid();
      t.size = sizeOf(t.kind);
      t.storable = i < 14;
      t.mn = -100, t.mx = 100;
      c.types.push_back(t);
    }
    Xsmp::Publication::Publication pub(&owner, &tr);
    c.pub = &pub;
    owner.Publish(&pub);
    bool faults = chance(50);
    int ops = (int)range(10, 150);
    for (int i = 0; i < ops; ++i) {
      int op = newOp();
      bool noMem = faults && chance(25);
      int kind = (int)rnd(16);
      if (!keep(op))
        continue;
      switch (kind) {
      case 0:
      case 1:
        addType(noMem);
        break;
      case 2:
      case 3:
      case 4:
        publishField(noMem);
        break;
      case 5:
      case 6:
      case 7:
        access(noMem);
        break;
      case 8:
        publishOperation(noMem);
        break;
      case 9:
        publishProperty(noMem);
        break;
      case 10:
        createRequest(noMem);
        break;
      case 11:
      case 12:
        if (!c.open.empty())
          setParameter(c.open[rnd(c.open.size())], noMem);
        break;
      case 13:
        if (!c.open.empty()) {
          if (size_t k = rnd(c.open.size()); chance(20))
            close(k);
          else
            invoke(c.open[k]);
        }
        break;
      case 14:
        useProperty();
        break;
      case 15:
        storeAndRestore();
      }
      compareMemory("the operation");
      lookup();
    }
    while (!c.open.empty())
      close(0);
    pub.Unpublish();
    if (pub.GetFields()->size() || pub.GetOperations()->size() || pub.GetProperties()->size())
      fail("unpublish", "features are left after unpublishing");
  }
}

void wl_pubs() {
  size_t before = sim::liveBlocks();
  wl_pubsRun();
  if (sim::liveBlocks() != before)
    sim::fail("leak", "%d blocks were left behind", (int)(sim::liveBlocks() - before));
}

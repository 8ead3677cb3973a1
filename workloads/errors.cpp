// P32: what the exceptions say, against the refused request.
#include "env.h"
#include <Smp/CannotDelete.h>
#include <Smp/CannotRemove.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/IFactory.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IPublication.h>
#include <Smp/IRequest.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidFieldValue.h>
#include <Smp/InvalidLibrary.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/InvalidSimulatorState.h>
#include <Smp/InvalidTarget.h>
#include <Smp/LibraryNotFound.h>
#include <Smp/NotContained.h>
#include <Smp/NotReferenced.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/ReferenceFull.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Array.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Request.h>
#include <Xsmp/Service.h>
#include <Xsmp/String.h>
#include <cinttypes>
#include <cstring>
#include <exception>
#include <mutex>
namespace wl {
namespace {
using PK = Smp::PrimitiveTypeKind;
using CS = Smp::ComponentStateKind;
using namespace Smp::Services;
using Smp::Publication::ITypeRegistry;
constexpr Smp::Uuid U(unsigned n) { return Smp::Uuid{0x32, 0x20, 0x30, 0x40, 0x50000000ull + n}; }
constexpr auto V = Smp::ViewKind::VK_All;
using Arr = Xsmp::Array<Smp::Int32, 3>;
using SArr = Xsmp::Array<Smp::Int16, 4>::simple;
using Text = Xsmp::String<12>;

std::string str(const char *s) { return s ? s : "(null)"; }
std::string num(long long v) { return std::to_string(v); }
std::string ptr(const void *p) {
  char b[32];
  snprintf(b, sizeof b, "%p", p);
  return b;
}
std::string obj(const Smp::IObject *o) { return ptr(o ? dynamic_cast<const void *>(o) : nullptr); }
std::string kind(PK k) { return "k" + num((int)k); }
std::string val(const Smp::AnySimple &v) {
  std::string s = kind(v.GetType()) + ":";
  switch (v.GetType()) {
  case PK::PTK_None: return s;
  case PK::PTK_String8: return s + str(v.value.string8Value);
  case PK::PTK_Float32: return s + std::to_string(v.value.float32Value);
  case PK::PTK_Float64: return s + std::to_string(v.value.float64Value);
  case PK::PTK_Bool: return s + (v.value.boolValue ? "1" : "0");
  case PK::PTK_Char8: return s + num(v.value.char8Value);
  case PK::PTK_Int8: return s + num(v.value.int8Value);
  case PK::PTK_UInt8: return s + num(v.value.uInt8Value);
  case PK::PTK_Int16: return s + num(v.value.int16Value);
  case PK::PTK_UInt16: return s + num(v.value.uInt16Value);
  case PK::PTK_Int32: return s + num(v.value.int32Value);
  case PK::PTK_UInt32: return s + num(v.value.uInt32Value);
  default: return s + num(v.value.int64Value);
  }
}
std::string uid(const Smp::Uuid &u) {
  std::string s;
  for (size_t i = 0; i < sizeof u; ++i) {
    char b[4];
    snprintf(b, sizeof b, "%02x", ((const unsigned char *)&u)[i]);
    s += b;
  }
  return s;
}
// everything an exception says with types
template <class X, class F> void say(const std::exception &e, const char *kindName, std::string &out, F details) {
  if (auto *x = dynamic_cast<const X *>(&e)) {
    if (!out.empty())
      out += " and ";
    out += std::string(kindName) + "{" + details(*x) + "}";
  }
}
#define SAY(T, expr) say<T>(e, #T, o, [](const T &x) -> std::string { return expr; })
std::string details(const std::exception &e) {
  using namespace Smp;
  using namespace Smp::Publication;
  std::string o;
  (void)e;
  SAY(CannotDelete, str(x.GetContainerName()) + "," + obj(x.GetComponent()) + "," + num(x.GetLowerLimit()));
  SAY(CannotRemove, str(x.GetReferenceName()) + "," + obj(x.GetComponent()) + "," + num(x.GetLowerLimit()));
  SAY(ContainerFull, str(x.GetContainerName()) + "," + num(x.GetContainerSize()));
  SAY(DuplicateName, str(x.GetDuplicateName()));
  SAY(DuplicateUuid, str(x.GetOldName()) + "," + str(x.GetNewName()));
  SAY(EventSinkAlreadySubscribed, obj(x.GetEventSource()) + "," + obj(x.GetEventSink()));
  SAY(EventSinkNotSubscribed, obj(x.GetEventSource()) + "," + obj(x.GetEventSink()));
  SAY(InvalidEventSink, obj(x.GetEventSource()) + "," + obj(x.GetEventSink()));
  SAY(FieldAlreadyConnected, obj(x.GetSource()) + "," + obj(x.GetTarget()));
  SAY(InvalidTarget, obj(x.GetSource()) + "," + obj(x.GetTarget()));
  SAY(InvalidAnyType, kind(x.GetInvalidType()) + "," + kind(x.GetExpectedType()));
  SAY(InvalidArrayIndex, num(x.GetInvalidIndex()) + "," + num(x.GetArraySize()));
  SAY(InvalidArraySize, num(x.GetArraySize()) + "," + num(x.GetInvalidSize()));
  SAY(InvalidArrayValue, num(x.GetInvalidValueIndex()) + "," + val(x.GetInvalidValue()));
  SAY(InvalidComponentState, num((int)x.GetInvalidState()) + "," + num((int)x.GetExpectedState()));
  SAY(InvalidFieldName, str(x.GetFieldName()));
  SAY(InvalidFieldType, "");
  SAY(InvalidFieldValue, val(x.GetInvalidFieldValue()));
  SAY(InvalidLibrary, str(x.GetLibraryName()));
  SAY(LibraryNotFound, str(x.GetLibraryName()));
  SAY(InvalidObjectName, str(x.GetInvalidName()));
  SAY(InvalidObjectType, obj(x.GetInvalidObject()));
  SAY(InvalidOperationName, str(x.GetOperationName()));
  SAY(InvalidParameterCount, str(x.GetOperationName()) + "," + num(x.GetOperationParameters()) + "," + num(x.GetRequestParameters()));
  SAY(InvalidParameterIndex, str(x.GetOperationName()) + "," + num(x.GetParameterIndex()) + "," + num(x.GetParameterCount()));
  SAY(InvalidParameterType, str(x.GetOperationName()) + "," + str(x.GetParameterName()) + "," + kind(x.GetInvalidType()) + "," + kind(x.GetExpectedType()));
  SAY(InvalidParameterValue, str(x.GetParameterName()) + "," + val(x.GetValue()));
  SAY(InvalidReturnValue, str(x.GetOperationName()) + "," + val(x.GetValue()));
  SAY(InvalidSimulatorState, num((int)x.GetInvalidState()));
  SAY(NotContained, str(x.GetContainerName()) + "," + obj(x.GetComponent()));
  SAY(NotReferenced, str(x.GetReferenceName()) + "," + obj(x.GetComponent()));
  SAY(ReferenceFull, str(x.GetReferenceName()) + "," + num(x.GetReferenceSize()));
  SAY(DuplicateLiteral, str(x.GetLiteralName()) + "," + num(x.GetLiteralValue()));
  SAY(InvalidPrimitiveType, str(x.GetTypeName()) + "," + kind(x.GetType()));
  SAY(TypeAlreadyRegistered, str(x.GetTypeName()) + "," + obj(x.GetType()));
  SAY(TypeNotRegistered, uid(x.GetUuid()));
  SAY(VoidOperation, str(x.GetOperationName()));
  SAY(EntryPointAlreadySubscribed, obj(x.GetEntryPoint()) + "," + str(x.GetEventName()));
  SAY(EntryPointNotSubscribed, obj(x.GetEntryPoint()) + "," + str(x.GetEventName()));
  SAY(InvalidCycleTime, "");
  SAY(InvalidEventId, num(x.GetInvalidEventId()));
  SAY(InvalidEventName, "");
  SAY(InvalidEventTime, "");
  SAY(InvalidSimulationTime, num(x.GetCurrentTime()) + "," + num(x.GetProvidedTime()) + "," + num(x.GetMaximumTime()));
  return o;
}
// all of it, with the sender and the texts
std::string whole(const std::exception_ptr &p, bool texts) {
  try {
    std::rethrow_exception(p);
  } catch (const Smp::Exception &e) {
    std::string o = details(e);
    auto *std_ = dynamic_cast<const std::exception *>(&e);
    if (!std_)
      return "no std::exception";
    std::string name = str(e.GetName()), desc = str(e.GetDescription()), msg = str(e.GetMessage()), what = str(std_->what());
    if (o.empty())
      o = name + "{}";
    else if (o.compare(0, name.size() + 1, name + "{") != 0)
      o += " named " + name;
    o += " from " + obj(e.GetSender());
    if (msg.empty() || what.find(name) == std::string::npos || what.find(msg) == std::string::npos)
      o += " without a message";
    return texts ? o + " | " + desc + " | " + msg + " | " + what : o;
  } catch (const std::exception &e) {
    return std::string("std:") + e.what();
  } catch (...) {
    return "unknown";
  }
}
struct Kept {
  std::exception_ptr p;
  std::string want, text;
};
struct Node : Xsmp::Model, Xsmp::Composite, Xsmp::Aggregate, Xsmp::EventProvider, Xsmp::EventConsumer {
  Xsmp::Container<Node> kids;
  Xsmp::Reference<Node> refs;
  Xsmp::EventSource<Smp::Int32> src{"src", "", static_cast<Xsmp::EventProvider *>(this), PK::PTK_Int32};
  Xsmp::EventSource<> vsrc{"vsrc", "", static_cast<Xsmp::EventProvider *>(this)};
  Xsmp::EventSink<Smp::Int32> snk{"snk", "", static_cast<Xsmp::EventConsumer *>(this), [](Smp::IObject *, Smp::Int32) {}, PK::PTK_Int32};
  Xsmp::EventSink<> vsnk{"vsnk", "", static_cast<Xsmp::EventConsumer *>(this), [](Smp::IObject *) {}};
  std::unique_ptr<Xsmp::Publication::Publication> pub;
  std::unique_ptr<Xsmp::Field<Smp::Int32>::output> out;
  std::unique_ptr<Xsmp::Field<Smp::Int32>::input> in;
  std::unique_ptr<Xsmp::Field<Arr>> arr;
  std::unique_ptr<Xsmp::Field<SArr>> sarr;
  Smp::Int16 raw[5]{};
  Smp::Int32 rin = 0, rout = 0, col = 1;
  Smp::Float64 din = 0;
  Node(const char *n, Smp::IComposite *p, int lower, int upper) : Xsmp::Model(n, "", p), kids{"kids", "", static_cast<Xsmp::Composite *>(this), lower, upper}, refs{"refs", "", static_cast<Xsmp::Aggregate *>(this), lower, upper} {}
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(1);
    return u;
  }
};
struct Plain : Xsmp::Model {
  using Xsmp::Model::Model;
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(2);
    return u;
  }
};
struct Made : Plain {
  Made(Smp::String8 n, Smp::String8 d, Smp::IComposite *p, Smp::ISimulator *) : Plain(n, d, p) {}
};
// what one thread works with
struct Tree {
  std::unique_ptr<Node> n, other;
  std::unique_ptr<Plain> plain;
  std::vector<std::unique_ptr<Node>> outside; // never contained or referenced
  std::vector<Node *> kids, refs;
  int lower, upper, id;
  std::vector<Smp::IRequest *> reqs; // of the operations "op", "other" and "proc"
  Smp::IOperation *op, *proc, *more;
  Smp::IProperty *prop;
  Smp::IRequest *get, *set; // of the property
};
struct Ctx {
  Env *e = nullptr;
  Xsmp::Publication::TypeRegistry *tr = nullptr;
  std::deque<Tree> trees;
  std::mutex m;
  std::vector<Kept> kept; // under m
  Smp::IService *service = nullptr; // never added
  Smp::Publication::IType *small = nullptr;
  Smp::Publication::IEnumerationType *col = nullptr;
  Xsmp::EntryPoint *ep = nullptr, *epOff = nullptr;
  EventId user = 0;
  std::string eventName;
  bool running = false, calls = false;
  int refused = 0;
};
Ctx *cx;
thread_local std::vector<Kept> hand;
// a name in memory that is gone after the call
struct Gone {
  char *p;
  explicit Gone(const std::string &s) : p(strdup(s.c_str())) {}
  ~Gone() {
    memset(p, '#', strlen(p));
    free(p);
  }
  operator const char *() const { return p; }
};
// hands the exceptions of this thread over to all of them
void handOver() {
  std::lock_guard<std::mutex> l(cx->m);
  Quiet q;
  for (auto &k : hand)
    if (cx->kept.size() < 60)
      cx->kept.push_back(std::move(k));
  hand.clear();
}
template <class F> void refuse(const std::string &what, const Smp::IObject *sender, bool noMem, F fn, const Smp::IObject *orFrom = nullptr) {
  std::string want, want2;
  {
    Quiet q;
    want = what + " from " + obj(sender);
    want2 = what + " from " + obj(orFrom ? orFrom : sender);
  }
  std::exception_ptr p;
  bool hit = false;
  if (noMem)
    armAlloc((int64_t)rnd(25));
  try {
    fn();
  } catch (...) {
    hit = allocFired();
    armAlloc(-1);
    p = std::current_exception();
  }
  if (noMem)
    armAlloc(-1);
  Quiet q;
  if (!p)
    fail("not-refused", "%s expected, but the call succeeded", want.c_str());
  std::string got = whole(p, false);
  log("%s", what.c_str());
  if (hit) {
    countFault("allocation failed");
    if (got.compare(0, 18, "std:std::bad_alloc") == 0)
      return;
  }
  if (got == want2)
    want = want2;
  if (got != want)
    fail("details", "%s expected, got %s", want.c_str(), got.c_str());
  ++cx->refused;
  if (!chance(40))
    return;
  Kept k{p, want, whole(p, true)};
  hand.push_back(std::move(k));
}
// looks at an exception kept, perhaps in another thread
void readAgain() {
  Kept k;
  {
    std::lock_guard<std::mutex> l(cx->m);
    Quiet q;
    if (cx->kept.empty())
      return;
    k = cx->kept[rnd(cx->kept.size())];
  }
  std::string got = whole(k.p, true);
  Quiet q;
  probe("kept exceptions read again", 1);
  if (got != k.text)
    fail("changed", "an exception said '%s', and later '%s'", k.text.c_str(), got.c_str());
}
std::string word(const char *p) { return p + num((long long)rnd(100000)); }
Smp::AnySimple i32(long long v) { return {PK::PTK_Int32, (Smp::Int32)v}; }
Smp::AnySimple i16(long long v) { return {PK::PTK_Int16, (Smp::Int16)v}; }
std::string cat(std::initializer_list<std::string> l) {
  std::string s;
  for (auto &x : l)
    s += (s.empty() ? "" : ",") + x;
  return s;
}
std::string X(const char *kindName, std::initializer_list<std::string> l) { return std::string(kindName) + "{" + cat(l) + "}"; }

void containers(Tree &t, bool m) {
  Node &n = *t.n;
  switch (rnd(6)) {
  case 0:
    if ((int)t.kids.size() == t.upper)
      refuse(X("ContainerFull", {"kids", num(t.upper)}), &n.kids, m, [&] { n.kids.AddComponent(t.outside[0].get()); });
    break;
  case 1:
    if ((int)t.kids.size() < t.upper && !t.kids.empty()) {
      std::string s = t.kids[rnd(t.kids.size())]->GetName();
      auto twin = std::make_unique<Node>(s.c_str(), &n, 0, 1);
      refuse(X("DuplicateName", {s}), &n.kids, m, [&] { n.kids.AddComponent(twin.get()); });
    }
    break;
  case 2:
    refuse(X("InvalidObjectType", {obj(t.plain.get())}), &n.kids, m, [&] { n.kids.AddComponent(t.plain.get()); });
    break;
  case 3: {
    auto *o = t.outside[rnd(t.outside.size())].get();
    refuse(X("NotContained", {"kids", obj(o)}), &n.kids, m, [&] { n.kids.DeleteComponent(o); });
    break;
  }
  case 4:
    if ((int)t.kids.size() == t.lower && t.lower) {
      auto *o = t.kids[rnd(t.kids.size())];
      refuse(X("CannotDelete", {"kids", obj(o), num(t.lower)}), &n.kids, m, [&] { n.kids.DeleteComponent(o); });
    }
    break;
  default:
    if ((int)t.kids.size() < t.upper)
      refuse("InvalidParent{}", &n.kids, m, [&] { n.kids.AddComponent(t.outside[0].get()); });
  }
}
void references(Tree &t, bool m) {
  Node &n = *t.n;
  auto &r = n.refs;
  switch (rnd(4)) {
  case 0:
    if ((int)t.refs.size() == t.upper)
      refuse(X("ReferenceFull", {"refs", num(t.upper)}), &r, m, [&] { r.AddComponent(t.outside[0].get()); });
    break;
  case 1:
    if ((int)t.refs.size() < t.upper)
      refuse(X("InvalidObjectType", {obj(t.plain.get())}), &r, m, [&] { r.AddComponent(t.plain.get()); });
    break;
  case 2: {
    Smp::IComponent *o = chance(70) ? (Smp::IComponent *)t.outside.back().get() : t.plain.get();
    refuse(X("NotReferenced", {"refs", obj(o)}), &r, m, [&] { r.RemoveComponent(o); });
    break;
  }
  default:
    if ((int)t.refs.size() == t.lower && t.lower) {
      auto *o = t.refs[rnd(t.refs.size())];
      refuse(X("CannotRemove", {"refs", obj(o), num(t.lower)}), &r, m, [&] { r.RemoveComponent(o); });
    }
  }
}
void sinks(Tree &t, bool m) {
  Node &n = *t.n, &o = *t.other;
  Smp::IEventSource *src = &n.src, *vsrc = &n.vsrc;
  switch (rnd(5)) {
  case 0:
    refuse(X("InvalidEventSink", {obj(src), obj(&o.vsnk)}), src, m, [&] { src->Subscribe(&o.vsnk); });
    break;
  case 1:
    refuse(X("InvalidEventSink", {obj(vsrc), obj(&o.snk)}), vsrc, m, [&] { vsrc->Subscribe(&o.snk); });
    break;
  case 2:
    refuse(X("EventSinkAlreadySubscribed", {obj(src), obj(&n.snk)}), src, m, [&] { src->Subscribe(&n.snk); });
    break;
  case 3: {
    Smp::IEventSink *k = chance(50) ? (Smp::IEventSink *)&o.snk : &o.vsnk;
    refuse(X("EventSinkNotSubscribed", {obj(src), obj(k)}), src, m, [&] { src->Unsubscribe(k); });
    break;
  }
  default:
    refuse(X("InvalidAnyType", {kind(PK::PTK_Int16), kind(PK::PTK_None)}), nullptr, m, [&] { static_cast<Smp::IEventSink &>(n.vsnk).Notify(&n, i16(3)); });
  }
}
void fields(Tree &t, bool m) {
  Node &n = *t.n, &o = *t.other;
  auto *raw = dynamic_cast<Smp::ISimpleArrayField *>(n.pub->GetField("raw"));
  auto *rin = n.pub->GetField("rin");
  auto *din = n.pub->GetField("din");
  auto *rout = n.pub->GetField("rout");
  auto *col = dynamic_cast<Smp::ISimpleField *>(n.pub->GetField("col"));
  auto *cols = dynamic_cast<Smp::ISimpleArrayField *>(n.pub->GetField("cols"));
  Smp::ISimpleArrayField *sarr = n.sarr.get();
  auto *big = chance(33) ? cols : chance(50) ? raw : sarr;
  Smp::UInt64 size = big == cols ? 2 : big == raw ? 5 : 4, at = size + rnd(1000);
  Smp::AnySimple vals[10];
  for (auto &v : vals)
    v = i16(1);
  auto one = big == cols ? i32(1) : i16(1);
  switch (rnd(12)) {
  case 0:
    refuse(X("InvalidArrayIndex", {num((long long)at), num((long long)size)}), big, m, [&] { chance(50) ? (void)big->GetValue(at) : big->SetValue(at, one); });
    break;
  case 1: {
    Smp::UInt64 l = rnd(10);
    if (l == size)
      ++l;
    for (auto &v : vals)
      v = one;
    refuse(X("InvalidArraySize", {num((long long)size), num((long long)l)}), big, m, [&] { chance(50) ? big->GetValues(l, vals) : big->SetValues(l, vals); });
    break;
  }
  case 2: {
    Smp::IArrayField *a = n.arr.get();
    Smp::UInt64 i = 3 + rnd(50);
    refuse(X("InvalidArrayIndex", {num((long long)i), "3"}), a, m, [&] { (void)a->GetItem(i); });
    break;
  }
  case 3: {
    std::string s = word("nofield");
    Gone g(s);
    refuse(X("InvalidFieldName", {s}), static_cast<Smp::IModel *>(&n), m, [&] { (void)n.pub->GetField(g); });
    break;
  }
  case 4: {
    Smp::AnySimple v = i32(range(10, 99));
    refuse(X("InvalidFieldValue", {val(v)}), col, m, [&] { col->SetValue(v); });
    break;
  }
  case 5: {
    Smp::AnySimple v[2] = {i32(1), i32(2)};
    size_t bad = rnd(2);
    v[bad] = i32(range(10, 99));
    refuse(X("InvalidArrayValue", {num((long long)bad), val(v[bad])}), cols, m, [&] { chance(50) ? cols->SetValues(2, v) : cols->SetValue(bad, v[bad]); });
    break;
  }
  case 6: {
    size_t bad = rnd(4);
    vals[bad] = {PK::PTK_String8, "text"};
    refuse(X("InvalidArrayValue", {num((long long)bad), val(vals[bad])}), sarr, m, [&] { sarr->SetValues(4, vals); });
    break;
  }
  case 7:
    refuse(X("FieldAlreadyConnected", {obj(n.out.get()), obj(o.in.get())}), n.out.get(), m, [&] { n.out->Connect(o.in.get()); });
    break;
  case 8: {
    Smp::IField *to = chance(50) ? (Smp::IField *)n.sarr.get() : din;
    refuse(X("InvalidTarget", {obj(n.out.get()), obj(to)}), n.out.get(), m, [&] { n.out->Connect(to); });
    break;
  }
  case 9: {
    auto *f = dynamic_cast<Smp::IDataflowField *>(rout);
    refuse(X("FieldAlreadyConnected", {obj(f), obj(rin)}), f, m, [&] { f->Connect(rin); });
    break;
  }
  case 10: {
    auto *f = dynamic_cast<Smp::IDataflowField *>(rout);
    refuse(X("InvalidTarget", {obj(f), obj(din)}), f, m, [&] { f->Connect(din); });
    break;
  }
  default: {
    std::string s = chance(50) ? "raw" : "rin";
    Gone g(s);
    refuse(X("DuplicateName", {s}), static_cast<Smp::IModel *>(&n), m, [&] { n.pub->PublishField(g, "", &n.rin, V); }, n.GetFields());
  }
  }
}
void operations(Tree &t, bool m) {
  auto *r = t.reqs[0]; // of op(Small a, Float64 b, in Text c) returning Int32
  Smp::IObject *o = t.op;
  switch (rnd(17)) {
  case 10: {
    bool get = chance(50);
    auto *q = get ? t.get : t.set;
    int i = chance(50) ? (int)range(1, 90) : -(int)range(1, 9);
    refuse(X("InvalidParameterIndex", {"prop", num(i), get ? "0" : "1"}), t.prop, m, [&] { chance(50) ? (void)q->GetParameterValue(i) : q->SetParameterValue(i, i16(2)); });
    break;
  }
  case 11:
    refuse(X("VoidOperation", {"prop"}), t.prop, m, [&] { chance(50) ? (void)t.set->GetReturnValue() : t.set->SetReturnValue(i16(1)); });
    break;
  case 12: {
    auto v = i16(chance(50) ? range(101, 999) : range(-999, -101));
    refuse(X("InvalidParameterValue", {"prop", val(v)}), t.prop, m, [&] { t.set->SetParameterValue(0, v); });
    break;
  }
  case 13: {
    auto v = i16(range(200, 999));
    refuse(X("InvalidReturnValue", {"prop", val(v)}), t.prop, m, [&] { t.get->SetReturnValue(v); });
    break;
  }
  case 14:
    refuse(X("InvalidAnyType", {kind(PK::PTK_Float64), kind(PK::PTK_Int16)}), t.prop, m, [&] { t.set->SetParameterValue(0, Smp::AnySimple{PK::PTK_Float64, 0.5}); });
    break;
  case 0: {
    int i = chance(50) ? (int)range(3, 90) : -(int)range(1, 9);
    refuse(X("InvalidParameterIndex", {"op", num(i), "3"}), o, m, [&] { chance(50) ? (void)r->GetParameterValue(i) : r->SetParameterValue(i, i16(2)); });
    break;
  }
  case 1: {
    auto v = i16(chance(50) ? range(101, 999) : range(-999, -101));
    refuse(X("InvalidParameterValue", {"a", val(v)}), o, m, [&] { r->SetParameterValue(0, v); });
    break;
  }
  case 2: {
    std::string s((size_t)range(13, 40), 'x');
    Smp::AnySimple v{PK::PTK_String8, s.c_str()};
    refuse(X("InvalidParameterValue", {"c", val(v)}), o, m, [&] { r->SetParameterValue(2, v); });
    break;
  }
  case 3:
    refuse(X("InvalidAnyType", {kind(PK::PTK_Int32), kind(PK::PTK_Float64)}), o, m, [&] { r->SetParameterValue(1, i32(2)); });
    break;
  case 4: {
    auto *q = t.reqs[2];
    refuse(X("VoidOperation", {"proc"}), t.proc, m, [&] { chance(50) ? (void)q->GetReturnValue() : q->SetReturnValue(i32(1)); });
    break;
  }
  case 5: {
    auto v = i16(range(200, 999));
    refuse(X("InvalidReturnValue", {"more", val(v)}), t.more, m, [&] { t.reqs[1]->SetReturnValue(v); });
    break;
  }
  case 6:
    refuse(X("InvalidOperationName", {"more"}), o, m, [&] { t.op->Invoke(t.reqs[1]); });
    break;
  case 7: // never set
    refuse(X("InvalidParameterType", {"proc", "p", kind(PK::PTK_None), kind(PK::PTK_Int32)}), t.proc, m, [&] { t.proc->Invoke(t.reqs[2]); });
    break;
  case 8: {
    std::string s = word("noop");
    struct Req : Smp::IRequest {
      const char *n;
      Smp::String8 GetOperationName() const override { return n; }
      Smp::Int32 GetParameterCount() const override { return 7; }
      Smp::Int32 GetParameterIndex(Smp::String8) const override { return -1; }
      void SetParameterValue(Smp::Int32, Smp::AnySimple) override {}
      Smp::AnySimple GetParameterValue(Smp::Int32) const override { return {}; }
      void SetReturnValue(Smp::AnySimple) override {}
      Smp::AnySimple GetReturnValue() const override { return {}; }
    } q;
    if (chance(40)) {
      q.n = "op";
      refuse(X("InvalidParameterCount", {"op", "3", "7"}), o, m, [&] { t.op->Invoke(&q); });
    } else {
      Gone g(s);
      q.n = g;
      bool viaComponent = chance(50);
      refuse(X("InvalidOperationName", {s}), viaComponent ? (Smp::IObject *)static_cast<Smp::IModel *>(t.n.get()) : o, m, [&] { viaComponent ? static_cast<Smp::IDynamicInvocation *>(t.n.get())->Invoke(&q) : t.op->Invoke(&q); });
    }
    break;
  }
  case 15: { // a request of another make
    struct Q : Smp::IRequest {
      PK k;
      Smp::String8 GetOperationName() const override { return "proc"; }
      Smp::Int32 GetParameterCount() const override { return 1; }
      Smp::Int32 GetParameterIndex(Smp::String8) const override { return 0; }
      void SetParameterValue(Smp::Int32, Smp::AnySimple) override {}
      Smp::AnySimple GetParameterValue(Smp::Int32) const override {
        return k == PK::PTK_UInt8 ? Smp::AnySimple{k, Smp::UInt8{1}} : Smp::AnySimple{k, Smp::Int64{1}};
      }
      void SetReturnValue(Smp::AnySimple) override {}
      Smp::AnySimple GetReturnValue() const override { return {}; }
    } q;
    q.k = chance(50) ? PK::PTK_UInt8 : PK::PTK_Int64;
    refuse(X("InvalidParameterType", {"proc", "p", kind(q.k), kind(PK::PTK_Int32)}), t.proc, m, [&] { t.proc->Invoke(&q); });
    break;
  }
  default: {
    std::string s = chance(50) ? "a" : "b";
    Gone g(s);
    refuse(X("DuplicateName", {s}), o, m, [&] { dynamic_cast<Smp::Publication::IPublishOperation *>(t.op)->PublishParameter(g, "", Smp::Uuids::Uuid_Int32); }, t.op->GetParameters());
  }
  }
}
void types(Tree &t, bool m) {
  auto *tr = cx->tr;
  switch (rnd(6)) {
  case 5: { // the field never exists
    auto *o = static_cast<Smp::IModel *>(t.n.get());
    refuse("InvalidFieldType{}", o, m, [&] {
      switch (rnd(3)) {
      case 0: delete new Xsmp::Field<Smp::Int32>(tr, U(1000), "late", "", o, V); break;
      case 1: delete new Xsmp::Field<Arr>(tr, U(10), "late", "", o, V); break;
      default: delete new Xsmp::Field<SArr>(tr, U(11), "late", "", o, V);
      }
    });
    break;
  }
  case 0: {
    auto u = U(1000 + (unsigned)rnd(1000));
    refuse(X("TypeNotRegistered", {uid(u)}), static_cast<Smp::IModel *>(t.n.get()), m, [&] { chance(50) ? t.n->pub->PublishField("later", "", &t.n->rin, u, V) : t.n->pub->PublishProperty("later", "", u, Smp::AccessKind::AK_ReadOnly); });
    break;
  }
  case 1: {
    std::string s = word("Type");
    Gone g(s);
    refuse(X("TypeAlreadyRegistered", {s, obj(cx->small)}), tr, m, [&] { tr->AddIntegerType(g, "", U(10), 0, 1, "", PK::PTK_Int16); });
    break;
  }
  case 2: {
    std::string s = word("Type");
    Gone g(s);
    PK k = chance(50) ? PK::PTK_Float32 : PK::PTK_Bool;
    refuse(X("InvalidPrimitiveType", {s, kind(k)}), tr, m, [&] { tr->AddIntegerType(g, "", U(60), 0, 1, "", k); });
    break;
  }
  case 3: {
    std::string s = word("Type");
    Gone g(s);
    PK k = chance(50) ? PK::PTK_Int32 : PK::PTK_String8;
    refuse(X("InvalidPrimitiveType", {s, kind(k)}), tr, m, [&] { tr->AddFloatType(g, "", U(61), 0, 1, true, true, "", k); });
    break;
  }
  default: // the literal that has the value already
    refuse(X("DuplicateLiteral", {"blue", "5"}), dynamic_cast<Smp::IObject *>(cx->col), m, [&] { cx->col->AddLiteral("blue", "", 5); });
  }
}
void components(Tree &t, bool m) {
  switch (rnd(5)) {
  case 0: { // its name is checked
    const char *bad[] = {"1a", "", "a-b", "a b", "[x]", "_a", "[1]]", "a[", "\xc3\xa9"};
    std::string s = chance(20) ? word("a.") : bad[rnd(9)];
    Gone g(s);
    refuse(X("InvalidObjectName", {s}), chance(50) ? nullptr : nullptr, m, [&] { Plain p(g, "", nullptr); });
    break;
  }
  case 1: {
    Plain p("p", "", nullptr);
    int k = (int)rnd(3);
    refuse(X("InvalidComponentState", {num((int)CS::CSK_Created), num((int)(k == 0 ? CS::CSK_Publishing : k == 1 ? CS::CSK_Configured : CS::CSK_Connected))}), static_cast<Smp::IModel *>(&p), m, [&] { k == 0 ? p.Configure(nullptr, nullptr) : k == 1 ? p.Connect(cx->e->s) : p.Disconnect(); });
    Quiet q; // its sender is gone
    hand.clear();
    break;
  }
  case 2: {
    Smp::Publication::ITypeRegistry *tr = cx->tr;
    Node &n = *t.n;
    (void)tr;
    refuse(X("InvalidComponentState", {num((int)CS::CSK_Publishing), num((int)CS::CSK_Created)}), static_cast<Smp::IModel *>(&n), m, [&] { n.Publish(n.pub.get()); });
    break;
  }
  default: {
    // values of other types
    Smp::AnySimple s{PK::PTK_String8, "text"}, b{PK::PTK_Bool, true}, i = i32((long long)range(300, 90000));
    switch (rnd(4)) {
    case 0:
      refuse(X("InvalidAnyType", {kind(PK::PTK_String8), kind(PK::PTK_Int64)}), nullptr, m, [&] { (void)static_cast<Smp::Int64>(s); });
      break;
    case 1:
      refuse(X("InvalidAnyType", {kind(PK::PTK_String8), kind(PK::PTK_Float64)}), nullptr, m, [&] { (void)static_cast<Smp::Float64>(s); });
      break;
    case 2:
      refuse(X("InvalidAnyType", {kind(PK::PTK_Bool), kind(PK::PTK_Char8)}), nullptr, m, [&] { (void)static_cast<Smp::Char8>(b); });
      break;
    default:
      refuse(X("InvalidAnyType", {kind(PK::PTK_Int32), kind(PK::PTK_String8)}), nullptr, m, [&] { (void)static_cast<Smp::String8>(i); });
    }
  }
  }
}
void wrongState(bool m, int what) {
  Env &e = *cx->e;
  auto *p = cx->trees[0].plain.get();
  refuse(X("InvalidSimulatorState", {num((int)Smp::SimulatorStateKind::SSK_Executing)}), e.s, m, [&] {
    switch (what) {
    case 0: return e.s->AddModel(p);
    default: return e.s->AddService(cx->service);
    }
  });
}
void services(bool m) {
  Env &e = *cx->e;
  EventId bad = 5000000 + (EventId)rnd(1000000);
  switch (rnd(10)) {
  case 0:
    refuse(X("InvalidEventId", {num(bad)}), e.xsch, m, [&] {
      switch (rnd(5)) {
      case 0: return e.sch->RemoveEvent(bad);
      case 1: return e.sch->SetEventSimulationTime(bad, 5000);
      case 2: return e.sch->SetEventCycleTime(bad, 5);
      case 3: return e.sch->SetEventRepeat(bad, 5);
      default: return e.sch->SetEventZuluTime(bad, real());
      }
    });
    break;
  case 1:
    refuse(X("InvalidEventId", {num(bad)}), e.em, m, [&] { rnd(2) ? e.em->Subscribe(bad, cx->ep) : e.em->Emit(bad); });
    break;
  case 2:
    refuse("InvalidEventName{}", e.em, m, [&] { (void)e.em->QueryEventId(chance(50) ? "" : nullptr); });
    break;
  case 3:
    refuse(X("EntryPointAlreadySubscribed", {obj(cx->ep), cx->eventName}), e.em, m, [&] { e.em->Subscribe(cx->user, cx->ep); });
    break;
  case 4: {
    bool hold = chance(50);
    refuse(X("EntryPointNotSubscribed", {obj(cx->epOff), hold ? "SMP_EnterStandby" : cx->eventName}), e.em, m, [&] { e.em->Unsubscribe(hold ? IEventManager::SMP_EnterStandbyId : cx->user, cx->epOff); });
    break;
  }
  case 5: {
    auto *ep = cx->epOff;
    refuse("InvalidCycleTime{}", e.xsch, m, [&] { e.sch->AddSimulationTimeEvent(ep, 1000000000, -(Smp::Duration)rnd(50), -1); });
    break;
  }
  case 6:
    refuse("InvalidEventTime{}", e.xsch, m, [&] { e.sch->AddSimulationTimeEvent(cx->epOff, -1 - (Smp::Duration)rnd(50)); });
    break;
  case 7: {
    std::string s = word("nolib");
    Gone g(s);
    auto st = e.st();
    if (st != Smp::SimulatorStateKind::SSK_Standby)
      break;
    refuse(X("LibraryNotFound", {s}), e.s, m, [&] { e.s->LoadLibrary(g); });
    break;
  }
  case 8: {
    std::string s = word("Maker");
    std::lock_guard<std::mutex> l(cx->m);
    Gone g(s);
    auto *f = Xsmp::Factory::Create<Made>(g, "", e.s, U(2));
    refuse(X("DuplicateUuid", {"Plains", s}), dynamic_cast<const Smp::IObject *>(e.s->GetFactories()), false, [&] { e.s->RegisterFactory(f); }, e.s);
    break;
  }
  default:
    if (cx->running)
      wrongState(m, 0);
  }
}
void build(Tree &t, int id) {
  auto *tr = cx->tr;
  t.id = id;
  t.upper = (int)range(1, 4);
  t.lower = (int)range(0, t.upper);
  int nk = chance(40) ? t.upper : chance(50) ? t.lower : (int)range(t.lower, t.upper), nr = chance(40) ? t.upper : chance(50) ? t.lower : (int)range(t.lower, t.upper);
  t.n = std::make_unique<Node>(("n" + num(id)).c_str(), nullptr, t.lower, t.upper);
  t.other = std::make_unique<Node>(("o" + num(id)).c_str(), nullptr, 0, 1);
  t.plain = std::make_unique<Plain>("plain", "", nullptr);
  for (int i = 0; i < 2; ++i)
    t.outside.push_back(std::make_unique<Node>(("out" + num(i)).c_str(), nullptr, 0, 1));
  for (int i = 0; i < nk; ++i) {
    auto *k = new Node(("kid" + num(i)).c_str(), t.n.get(), 0, 1);
    t.n->kids.AddComponent(k);
    t.kids.push_back(k);
  }
  for (int i = 0; i < nr; ++i) {
    auto *r = t.other.get();
    if (!t.kids.empty() && chance(50))
      r = t.kids[rnd(t.kids.size())];
    t.n->refs.AddComponent(r);
    t.refs.push_back(r);
  }
  for (Node *n : {t.n.get(), t.other.get()}) {
    auto *o = static_cast<Smp::IModel *>(n);
    n->pub = std::make_unique<Xsmp::Publication::Publication>(o, tr);
    n->Publish(n->pub.get());
    n->out = std::make_unique<Xsmp::Field<Smp::Int32>::output>(tr, Smp::Uuids::Uuid_Int32, "out", "", o, V);
    n->in = std::make_unique<Xsmp::Field<Smp::Int32>::input>(tr, Smp::Uuids::Uuid_Int32, "in", "", o, V);
    n->arr = std::make_unique<Xsmp::Field<Arr>>(tr, U(12), "arr", "", o, V);
    n->sarr = std::make_unique<Xsmp::Field<SArr>>(tr, U(13), "sarr", "", o, V);
    for (Smp::IField *f : {(Smp::IField *)n->out.get(), (Smp::IField *)n->in.get(), (Smp::IField *)n->arr.get(), (Smp::IField *)n->sarr.get()})
      n->pub->PublishField(f);
    n->pub->PublishArray("raw", "", 5, n->raw, PK::PTK_Int16, V, true, false, false);
    n->pub->PublishField("rin", "", &n->rin, V, true, true, false);
    n->pub->PublishField("rout", "", &n->rout, V, true, false, true);
    n->pub->PublishField("din", "", &n->din, V, true, true, false);
    n->pub->PublishField("col", "", &n->col, U(11), V);
    n->pub->PublishField("cols", "", n->raw, U(15), V);
  }
  Node &n = *t.n;
  n.src.Subscribe(&n.snk);
  n.out->Connect(t.other->in.get());
  dynamic_cast<Smp::IDataflowField *>(n.pub->GetField("rout"))->Connect(n.pub->GetField("rin"));
  using D = Smp::Publication::ParameterDirectionKind;
  auto *p = n.pub->PublishOperation("op", "", V);
  p->PublishParameter("a", "", U(10)), p->PublishParameter("b", "", Smp::Uuids::Uuid_Float64), p->PublishParameter("c", "", U(14)), p->PublishParameter("r", "", Smp::Uuids::Uuid_Int32, D::PDK_Return);
  p = n.pub->PublishOperation("more", "", V);
  p->PublishParameter("r", "", U(10), D::PDK_Return);
  p = n.pub->PublishOperation("proc", "", V);
  p->PublishParameter("p", "", Smp::Uuids::Uuid_Int32);
  n.pub->PublishProperty("prop", "", U(10), Smp::AccessKind::AK_ReadWrite);
  t.prop = n.pub->GetProperties()->at("prop");
  t.op = n.pub->GetOperations()->at("op"), t.more = n.pub->GetOperations()->at("more"), t.proc = n.pub->GetOperations()->at("proc");
  t.reqs = {t.op->CreateRequest(), t.more->CreateRequest(), t.proc->CreateRequest()};
  t.get = n.pub->CreateRequest("get_prop"), t.set = n.pub->CreateRequest("set_prop");
}
void work(int id, int ops) {
  for (int i = 0; i < ops; ++i) {
    int op = newOp();
    int k = (int)rnd(18);
    bool m = chance(15);
    if (!keep(op))
      continue;
    Tree &t = cx->trees[(size_t)id];
    switch (k) {
    case 0: case 1: containers(t, m); break;
    case 2: references(t, m); break;
    case 3: sinks(t, m); break;
    case 4: case 5: case 6: fields(t, m); break;
    case 7: case 8: case 9: operations(t, m); break;
    case 10: types(t, m); break;
    case 11: components(t, m); break;
    case 12: case 13: case 14: services(m); break;
    default: readAgain();
    }
    handOver();
    if (chance(20))
      yield();
  }
}
} // namespace
} // namespace wl
void wl_errors() {
  using namespace wl;
  Ctx c;
  cx = &c;
  captureStreams();
  Env e;
  c.e = &e;
  Xsmp::Publication::TypeRegistry tr;
  c.tr = &tr;
  c.small = tr.AddIntegerType("Small", "", U(10), -100, 100, "", PK::PTK_Int16);
  c.col = tr.AddEnumerationType("Col", "", U(11), 4);
  c.col->AddLiteral("red", "", 1), c.col->AddLiteral("green", "", 2), c.col->AddLiteral("blue", "", 5);
  tr.AddArrayType("Arr", "", U(12), Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 3);
  tr.AddArrayType("SArr", "", U(13), Smp::Uuids::Uuid_Int16, sizeof(Smp::Int16), 4, true);
  tr.AddStringType("Text", "", U(14), 12);
  tr.AddArrayType("Cols", "", U(15), U(11), sizeof(Smp::Int32), 2, true);
  e.s->RegisterFactory(Xsmp::Factory::Create<Made>("Plains", "", e.s, U(2)));
  struct Extra : Xsmp::Service {
    using Xsmp::Service::Service;
    const Smp::Uuid &GetUuid() const override {
      static constexpr Smp::Uuid u = U(3);
      return u;
    }
  } extra("extra", "", e.s, nullptr);
  c.service = &extra;
  c.ep = e.ep("ep", [] {});
  c.epOff = e.ep("epOff", [] {});
  c.eventName = word("event");
  c.user = e.em->QueryEventId(c.eventName.c_str());
  e.em->Subscribe(c.user, c.ep);
  bool run = chance(60), connected = run || chance(50);
  if (connected)
    e.s->Connect();
  int threads = (int)range(1, 3), ops = (int)range(20, 120);
  for (int i = 0; i < threads; ++i)
    c.trees.emplace_back(), build(c.trees.back(), i);
  std::vector<int> ids;
  for (int i = 1; i < threads; ++i)
    ids.push_back(spawn([i, ops] { work(i, ops); }));
  work(0, ops);
  for (int id : ids)
    join(id);
  if (run) {
    int left = (int)range(1, 30);
    e.em->Subscribe(IEventManager::SMP_PreSimTimeChangeId, e.ep("pre", [&] {
      int op = newOp();
      bool m = chance(15), late = chance(50);
      if (!keep(op))
        return;
      Smp::Duration now = e.tk->GetSimulationTime(), next = e.sch->GetNextScheduledEventTime();
      Smp::Duration to = late ? next + 1 + (Smp::Duration)rnd(99) : now - 1 - (Smp::Duration)rnd(99);
      refuse(X("InvalidSimulationTime", {num(now), num(to), num(next)}), dynamic_cast<Smp::IObject *>(e.tk), m, [&] { e.tk->SetSimulationTime(to); });
      probe("refused times", 1);
      handOver();
    }));
    e.sch->AddSimulationTimeEvent(e.ep("tick", [&] {
      c.running = true;
      if (--left > 0) {
        work(0, 2);
        int op = newOp();
        bool m = chance(15);
        int what = (int)rnd(2);
        if (keep(op))
          wrongState(m, what);
      }
      else if (left == 0)
        e.s->Hold(true);
      c.running = false;
    }), 0, 1000000, -1);
    e.s->Run();
    if (left > 0)
      fail("run", "the run ended %d ticks early", left);
  }
  probe("refused", c.refused);
  for (size_t i = 0; i < c.kept.size(); ++i)
    if (whole(c.kept[i].p, true) != c.kept[i].text)
      fail("changed", "an exception said '%s', and later '%s'", c.kept[i].text.c_str(), whole(c.kept[i].p, true).c_str());
  for (auto &t : c.trees) {
    for (size_t i = 0; i < 3; ++i)
      (i == 0 ? t.op : i == 1 ? t.more : t.proc)->DeleteRequest(t.reqs[i]);
    t.n->pub->DeleteRequest(t.get), t.n->pub->DeleteRequest(t.set);
  }
  c.kept.clear();
  c.trees.clear();
  e.destroy();
  finishOk();
}

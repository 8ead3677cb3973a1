// P30: the path of every object leads to that object, from the root and from
// every component, in trees that grow and shrink, against the tree as built.
#include "env.h"
#include <Smp/IArrayField.h>
#include <Smp/IDynamicInvocation.h>
#include <Smp/IFailure.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
#include <Smp/IPublication.h>
#include <Smp/IStructureField.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Array.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Reference.h>
#include <algorithm>
namespace wl {
namespace {
constexpr Smp::Uuid U(unsigned n) { return Smp::Uuid{0x13, 0x20, 0x30, 0x40, 0x50000000ull + n}; }
constexpr auto V = Smp::ViewKind::VK_All;
using Arr = Xsmp::Array<Smp::Int32, 3>;
struct Inner {
  Smp::Int32 a;
  Arr arr;
  template <typename B> struct _Field : public B {
    _Field(Smp::Publication::ITypeRegistry *tr, Smp::Uuid u, Smp::String8 name, Smp::String8 description = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Inner &v = {})
        : B(tr, u, name, description, parent, view), a{tr, Smp::Uuids::Uuid_Int32, "a", "", this, view, v.a}, arr{tr, U(1), "arr", "", this, view, v.arr} {}
    _Field(const _Field &) = delete;
    _Field &operator=(const _Field &) = delete;
    typename B::template Field<Smp::Int32> a;
    typename B::template Field<Arr> arr;
  };
};
using InArr = Xsmp::Array<Inner, 12>;
void types(Smp::Publication::ITypeRegistry *tr) {
  tr->AddArrayType("Arr", "", U(1), Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 3);
  auto *i = tr->AddStructureType("Inner", "", U(2));
  i->AddField("a", "", Smp::Uuids::Uuid_Int32, offsetof(Inner, a), V, true, false, false);
  i->AddField("arr", "", U(1), offsetof(Inner, arr), V, true, false, false);
  tr->AddArrayType("InArr", "", U(3), U(2), sizeof(Inner), 12);
}
const char *pool[] = {"a", "b", "arr", "x", "Logger", "y1", "run", "Long_Name_nineteen_9", "ab", "A"};
std::string someName() { return pool[rnd(sizeof pool / sizeof *pool)]; }

struct N;
struct Obj {
  Smp::IObject *o;
  std::string path;
  N *owner;      // the component, or the component the object belongs to
  bool item = false;
  std::vector<std::string> up; // names of the fields between the component and the object
};
struct N : Xsmp::Model, Xsmp::Composite, Xsmp::Aggregate, Xsmp::EntryPointPublisher, Xsmp::EventProvider, Xsmp::EventConsumer, Xsmp::FallibleModel {
  N *above;
  Xsmp::Container<N> kids, more;
  Xsmp::Reference<N> refs;
  std::vector<N *> children, referenced;
  std::set<std::string> names; // of everything but components
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps;
  std::vector<std::unique_ptr<Xsmp::EventSource<>>> sources;
  std::vector<std::unique_ptr<Xsmp::EventSink<>>> sinks;
  std::vector<std::unique_ptr<Smp::IField>> fields;
  std::vector<std::unique_ptr<Inner>> memory;
  Smp::Int32 words[16]{};
  std::vector<Obj> objs; // below this component
  Smp::IPublication *receiver = nullptr;
  std::string want; // path
  N(const char *name, Smp::IComposite *parent, N *aboveNode, const std::string &path)
      : Xsmp::Model(name, "", parent), above(aboveNode), kids("kids", "", (Xsmp::Composite *)this, 0, -1), more("more", "", (Xsmp::Composite *)this, 0, -1), refs("refs", "", (Xsmp::Aggregate *)this, 0, -1), want(path) {}
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(9);
    return u;
  }
  Smp::ISimulator *sim = nullptr;
  std::string fresh() {
    for (int i = 0; i < 4; ++i) {
      auto n = someName();
      if (names.insert(n).second)
        return n;
    }
    auto n = "n" + std::to_string(names.size()) + "_";
    names.insert(n);
    return n;
  }
  void add(Smp::IObject *o, const std::string &path, bool item = false) {
    if (!o)
      fail("lookup", "%s is not there after its publication", path.c_str());
    objs.push_back({o, path, this, item, {}});
    if (auto *s = dynamic_cast<Smp::IStructureField *>(o))
      for (auto *f : *s->GetFields())
        add(f, path + "." + f->GetName());
    if (auto *a = dynamic_cast<Smp::IArrayField *>(o))
      for (size_t i = 0; i < a->GetSize(); ++i)
        add(a->GetItem(i), path + "[" + std::to_string(i) + "]", true);
  }
  void something(Smp::Publication::ITypeRegistry *tr) { // one more thing with a path
    std::string n = fresh(), p = (want == "/" ? "" : want) + "." + n;
    switch (receiver ? rnd(11) : rnd(4)) {
    case 0:
      eps.push_back(std::make_unique<Xsmp::EntryPoint>(n.c_str(), "", (Xsmp::EntryPointPublisher *)this, [] {}));
      add(eps.back().get(), p);
      break;
    case 1:
      sources.push_back(std::make_unique<Xsmp::EventSource<>>(n.c_str(), "", (Xsmp::EventProvider *)this));
      add(sources.back().get(), p);
      break;
    case 2:
      sinks.push_back(std::make_unique<Xsmp::EventSink<>>(n.c_str(), "", (Xsmp::EventConsumer *)this, [](Smp::IObject *) {}));
      add(sinks.back().get(), p);
      break;
    case 3: {
      auto f = std::make_unique<Xsmp::Field<Smp::Bool>::failure>(tr, Smp::Uuids::Uuid_Bool, n.c_str(), "", this, V);
      add(f.get(), p);
      fields.push_back(std::move(f));
      break;
    }
    case 4:
      own<Smp::Int32>(tr, Smp::Uuids::Uuid_Int32, n, p);
      break;
    case 5:
      own<Inner>(tr, U(2), n, p);
      break;
    case 6:
      own<InArr>(tr, U(3), n, p);
      break;
    case 7: // by address
      memory.push_back(std::make_unique<Inner>());
      receiver->PublishField(n.c_str(), "", memory.back().get(), U(2), V, true, false, false);
      add(receiver->GetField(n.c_str()), p);
      break;
    case 8: {
      auto *r = chance(50) ? receiver->PublishStructure(n.c_str(), "", V, true) : receiver->PublishArray(n.c_str(), "", V, true);
      bool array = dynamic_cast<Smp::IArrayField *>(r);
      int k = (int)rnd(12);
      for (int i = 0; i < k; ++i) {
        std::string in = array ? "[" + std::to_string(i) + "]" : "f" + std::to_string(i);
        if (i == 2) {
          auto *rr = r->PublishStructure(in.c_str(), "", V, true);
          rr->PublishField("deep_in_an_anonymous_field", "", &words[0], V, true, false, false);
        } else
          r->PublishField(in.c_str(), "", &words[i], V, true, false, false);
      }
      add(receiver->GetField(n.c_str()), p);
      break;
    }
    case 9:
      receiver->PublishOperation(n.c_str(), "", V);
      add(GetOperations()->at(n.c_str()), p);
      break;
    default:
      receiver->PublishProperty(n.c_str(), "", Smp::Uuids::Uuid_Int32, Smp::AccessKind::AK_ReadWrite, V);
      add(GetProperties()->at(n.c_str()), p);
    }
  }
  template <class T> void own(Smp::Publication::ITypeRegistry *tr, Smp::Uuid u, const std::string &n, const std::string &p) {
    auto f = std::make_unique<Xsmp::Field<T>>(tr, u, n.c_str(), "", this, V);
    receiver->PublishField(f.get());
    add(f.get(), p);
    fields.push_back(std::move(f));
  }
  void Publish(Smp::IPublication *r) override {
    Xsmp::Model::Publish(r);
    receiver = r;
  }
  ~N() override;
  bool kid(const std::string &n) {
    for (auto *c : children)
      if (n == c->GetName())
        return true;
    return false;
  }
};
struct Ctx {
  Env *e;
  std::vector<N *> nodes;     // all
  std::vector<N *> top;       // models of the simulator
  const N *deleting = nullptr;
  std::set<std::string> dead; // paths of deleted components
};
Ctx *cx;
N::~N() {
  if (cx->deleting == this && GetState() == Smp::ComponentStateKind::CSK_Connected)
    fail("delete", "%s is deleted while it is connected", want.c_str());
}
Smp::IObject *look(const char *what, const std::string &path, N *from, bool noMem, bool &failed) {
  Smp::IObject *o = nullptr;
  failed = false;
  auto *r = cx->e->s->GetResolver();
  std::string got;
  if (noMem)
    armAlloc((int64_t)rnd(6));
  got = outcome([&] { o = from ? r->ResolveRelative(path.c_str(), from) : r->ResolveAbsolute(path.c_str()); });
  bool hit = noMem && allocFired();
  armAlloc(-1);
  probe("lookups", 1);
  if (hit && got == "std:std::bad_alloc") {
    failed = true;
    countFault("allocation failed");
    return nullptr;
  }
  if (!got.empty())
    fail("lookup", "%s '%s'%s%s: %s", what, path.c_str(), from ? " from " : "", from ? from->want.c_str() : "", got.c_str());
  return o;
}
std::string name(const Smp::IObject *o) {
  if (!o)
    return "nothing";
  for (auto *n : cx->nodes) {
    if (o == n)
      return "component " + n->want;
    for (auto &x : n->objs)
      if (x.o == o)
        return "object " + x.path;
  }
  return "something else";
}
void check(const std::string &path, N *from, const Smp::IObject *want, bool noMem) {
  bool failed;
  auto *o = look("looking up", path, from, noMem, failed);
  if (failed)
    return;
  // compare the objects, whatever base they are seen through
  if (dynamic_cast<const void *>(o) != dynamic_cast<const void *>(want))
    fail("lookup", "'%s'%s%s leads to %s, %s expected", path.c_str(), from ? " from " : "", from ? from->want.c_str() : "", name(o).c_str(), name(want).c_str());
}
// the steps that lead from the root to the object: names with their separators
std::vector<std::string> steps(const std::string &path) {
  std::vector<std::string> v;
  for (size_t i = 0; i < path.size();) {
    size_t j = path.find_first_of("/.[", i + 1);
    if (j == std::string::npos)
      j = path.size();
    v.push_back(path.substr(i, j - i));
    i = j;
  }
  return v;
}
N *anyNode() { return cx->nodes[rnd(cx->nodes.size())]; }
// an object: a component or something of a component
Obj anyObject() {
  N *n = anyNode();
  if (n->objs.empty() || chance(20))
    return {n, n->want, n, false, {}};
  return n->objs[rnd(n->objs.size())];
}
void addNode(N *above) {
  std::string nm = someName();
  auto &sib = above ? above->children : cx->top;
  for (auto *c : sib)
    if (nm == c->GetName())
      return;
  std::string path = (above ? above->want : "") + "/" + nm;
  log("new component %s", path.c_str());
  auto *n = new N(nm.c_str(), above ? (Smp::IComposite *)above : cx->e->s, above, path);
  bool taken = above && above->names.count(nm); // by something else
  auto got = outcome([&] {
    if (above)
      (chance(50) ? above->kids : above->more).AddComponent(n);
    else
      cx->e->s->AddModel(n);
  });
  if (taken) { // by something that is found there
    if (got != "Smp:DuplicateName")
      fail("add", "%s, the name of something else there, is %s", path.c_str(), got.empty() ? "accepted" : got.c_str());
    if (above->kids.GetComponent(nm.c_str()) || above->more.GetComponent(nm.c_str()))
      fail("add", "%s was refused and is there", path.c_str());
    delete n;
    return;
  }
  if (!got.empty())
    fail("add", "%s is refused: %s", path.c_str(), got.c_str());
  sib.push_back(n);
  cx->nodes.push_back(n);
  cx->dead.erase(path);
}
void drop(N *n) {
  for (auto *c : n->children)
    drop(c);
  for (auto *o : cx->nodes) {
    auto &r = o->referenced;
    auto it = std::find(r.begin(), r.end(), n);
    if (it != r.end()) {
      o->refs.RemoveComponent(n);
      r.erase(it);
    }
  }
  cx->dead.insert(n->want);
  cx->nodes.erase(std::find(cx->nodes.begin(), cx->nodes.end(), n));
}
void deleteNode() {
  N *n = anyNode();
  if (!n->above || cx->nodes.size() < 3)
    return;
  log("delete %s", n->want.c_str());
  N *a = n->above;
  drop(n);
  a->children.erase(std::find(a->children.begin(), a->children.end(), n));
  cx->deleting = n;
  (a->kids.GetComponent(n->GetName()) == n ? a->kids : a->more).DeleteComponent(n);
  cx->deleting = nullptr;
}
// is the name of a component on the way also the name of something else there
bool ambiguous(N *n) {
  for (; n; n = n->above)
    if (n->above) {
      if (n->above->names.count(n->GetName()))
        return true;
      for (auto *r : n->above->referenced)
        if (!strcmp(r->GetName(), n->GetName()))
          return true;
    }
  return false;
}
// relative path from a component to an object
std::string relative(N *from, const Obj &to) {
  std::vector<N *> a, b;
  for (N *n = from; n; n = n->above)
    a.push_back(n);
  for (N *n = to.owner; n; n = n->above)
    b.push_back(n);
  N *common = nullptr;
  while (!a.empty() && !b.empty() && a.back() == b.back())
    common = a.back(), a.pop_back(), b.pop_back();
  std::string p;
  for (size_t i = 0; i < a.size(); ++i)
    p += "../";
  std::string rest = to.path.substr(common ? common->want.size() : 0);
  if (p.empty())
    return rest[0] == '.' ? rest : "." + rest;
  if (rest[0] == '.') // there is no way to write a point after ".."
    return p + "../" + common->GetName() + rest;
  p.pop_back();
  return p + rest;
}
// a letter followed by letters, digits and underscores, or an index
bool validName(const char *n) {
  if (!n)
    return false;
  auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
  auto digit = [](char c) { return c >= '0' && c <= '9'; };
  std::string s = n;
  if (s.size() > 2 && s[0] == '[' && s.back() == ']')
    return std::all_of(s.begin() + 1, s.end() - 1, digit);
  return !s.empty() && letter(s[0]) && std::all_of(s.begin(), s.end(), [&](char c) { return letter(c) || digit(c) || c == '_'; });
}
void names(Smp::Publication::ITypeRegistry *tr, bool noMem) {
  static const char *bits[] = {"a", "Z", "_", "0", "9", "[", "]", ".", " ", "-", "\xe9", "/", "[1", "[12]", "x_1", "\n"};
  std::string text;
  for (int k = (int)rnd(5); k; --k)
    text += bits[rnd(sizeof bits / sizeof *bits)];
  const char *n = chance(6) ? nullptr : text.c_str();
  bool ok = validName(n);
  N tmp("tmp", cx->e->s, nullptr, "/tmp");
  std::unique_ptr<Smp::IObject> o;
  int kind = (int)rnd(9);
  log("an object of kind %d named %s%s", kind, n ? n : "(null)", ok ? "" : ", refused");
  if (noMem)
    armAlloc((int64_t)rnd(8));
  auto got = outcome([&] {
    switch (kind) {
    case 0: o = std::make_unique<Xsmp::EntryPoint>(n, "", (Xsmp::EntryPointPublisher *)&tmp, [] {}); break;
    case 1: o = std::make_unique<Xsmp::EventSource<>>(n, "", (Xsmp::EventProvider *)&tmp); break;
    case 2: o = std::make_unique<Xsmp::EventSink<>>(n, "", (Xsmp::EventConsumer *)&tmp, [](Smp::IObject *) {}); break;
    case 3: o = std::make_unique<Xsmp::Field<Smp::Bool>::failure>(tr, Smp::Uuids::Uuid_Bool, n, "", &tmp, V); break;
    case 4: o = std::make_unique<Xsmp::Field<Smp::Int32>>(tr, Smp::Uuids::Uuid_Int32, n, "", &tmp, V); break;
    case 5: o = std::make_unique<Xsmp::Field<Inner>>(tr, U(2), n, "", &tmp, V); break;
    case 6: o = std::make_unique<Xsmp::Container<N>>(n, "", (Xsmp::Composite *)&tmp, 0, -1); break;
    case 7: o = std::make_unique<Xsmp::Reference<N>>(n, "", (Xsmp::Aggregate *)&tmp, 0, -1); break;
    default: o = std::make_unique<N>(n, &tmp, nullptr, "/tmp/x"); break;
    }
  });
  bool hit = noMem && allocFired();
  armAlloc(-1);
  probe(ok ? "named" : "name refused", 1);
  if (hit && got == "std:std::bad_alloc") {
    countFault("allocation failed");
    return;
  }
  if (got != (ok ? "" : "Smp:InvalidObjectName"))
    fail("name", "an object of kind %d named '%s': %s", kind, n ? n : "(null)", got.empty() ? "accepted" : got.c_str());
  if (ok && strcmp(o->GetName(), n))
    fail("name", "an object named '%s' says that its name is '%s'", n, o->GetName());
}
} // namespace
} // namespace wl
void wl_paths() {
  using namespace wl;
  Env env;
  Ctx c;
  cx = &c;
  c.e = &env;
  auto *tr = env.s->GetTypeRegistry();
  types(tr);
  addNode(nullptr);
  for (int i = (int)range(1, 12); i; --i)
    addNode(chance(20) ? nullptr : anyNode());
  bool faults = chance(40), standby = false;
  int ops = (int)range(10, 80);
  for (int i = 0; i < ops; ++i) {
    int op = newOp();
    bool noMem = faults && chance(30);
    int kind = (int)rnd(16);
    if (!keep(op))
      continue;
    switch (kind) {
    case 0:
      addNode(chance(10) && !standby ? nullptr : anyNode());
      break;
    case 1:
      if (chance(40))
        deleteNode();
      break;
    case 2:
    case 3:
    case 4: {
      N *n = anyNode();
      size_t before = n->objs.size();
      n->something(tr);
      log("%s gets %s", n->want.c_str(), n->objs.size() > before ? n->objs[before].path.c_str() : "nothing");
      break;
    }
    case 5:
      if (!standby && chance(50)) {
        log("publish");
        env.s->Publish();
      } else if (!standby && chance(40)) {
        log("connect");
        env.s->Configure();
        env.s->Connect();
        standby = true;
      } else if (standby) {
        N *n = anyNode();
        log("reconnect %s", n->want.c_str());
        env.s->Reconnect(n);
      }
      break;
    case 6: {
      N *n = anyNode(), *t = anyNode();
      if (n == t)
        break;
      auto it = std::find(n->referenced.begin(), n->referenced.end(), t);
      if (it == n->referenced.end()) {
        for (auto *x : n->referenced)
          if (t && !strcmp(x->GetName(), t->GetName()))
            t = nullptr;
        if (t)
          n->refs.AddComponent(t), n->referenced.push_back(t), log("%s refers to %s", n->want.c_str(), t->want.c_str());
      } else
        n->refs.RemoveComponent(t), n->referenced.erase(it), log("%s no longer refers to %s", n->want.c_str(), t->want.c_str());
      break;
    }
    case 7: { // the names of objects are their paths
      Obj o = anyObject();
      std::string p = Xsmp::Helper::GetPath(o.o);
      if (p != o.path)
        fail("path", "the path of %s is given as %s", o.path.c_str(), p.c_str());
      if (strcmp(o.o->GetName(), steps(o.path).back().c_str() + (o.item ? 0 : 1)))
        fail("path", "the name of %s is %s", o.path.c_str(), o.o->GetName());
      break;
    }
    case 8: { // nothing there
      Obj o = anyObject();
      if (ambiguous(o.owner))
        break;
      std::string p = o.path;
      auto *a = dynamic_cast<Smp::IArrayField *>(o.o);
      size_t len = a ? a->GetSize() : 0;
      N *from = nullptr;
      switch (rnd(12)) {
      case 0:
        p += chance(50) ? ".nothing" : "/nothing";
        break;
      case 1:
        p += "[" + std::to_string(len + rnd(3)) + "]";
        break;
      case 2:
        p += "[-" + std::to_string(len + 1 + rnd(2)) + "]";
        break;
      case 3: {
        static const char *junk[] = {"[", "[]", "]", "[0", "[1x]", "[x]", "[0]]", "[99999999999999999999]", "[0]a"};
        p += junk[rnd(9)];
        break;
      }
      case 4:
        p = p.substr(1); // not absolute
        break;
      case 5:
        from = anyNode();
        break; // not relative
      case 6:
        if (c.dead.empty())
          continue;
        p = *std::next(c.dead.begin(), (long)rnd(c.dead.size()));
        for (auto *n : c.nodes)
          for (auto *x : n->referenced) // a reference is followed like a child
            if (p.find(std::string("/") + x->GetName()) != std::string::npos)
              p = "/nothing";
        for (auto *n : c.nodes) // something else of the parent may have this name
          if (!p.compare(0, n->want.size() + 1, n->want + "/") && n->names.count(steps(p.substr(n->want.size()))[0].substr(1))) {
            p = "/nothing";
            break;
          }
        break;
      case 7:
        from = anyNode(), p = "..";
        for (N *n = from; n; n = n->above)
          p += "/..";
        break;
      case 8: // a component is not reached with a point
        if (o.o != o.owner || !o.owner->above || o.owner->above->names.count(o.owner->GetName()))
          continue;
        p = o.owner->above->want + "." + o.owner->GetName();
        break;
      case 9:
        p = "", from = nullptr;
        break;
      case 10:
        p = "/" + std::string(1, (char)('0' + rnd(10)));
        break;
      default:
        p = p + "x";
        for (auto *n : c.nodes) {
          if (n->want == p)
            p += "_none";
          for (auto &x : n->objs)
            if (x.path == p)
              p += "_none";
        }
        if (o.item)
          continue;
        if (auto *n = o.owner; o.o == n && n->above && n->above->names.count(steps(p).back().substr(1)))
          continue;
      }
      check(p, from, nullptr, noMem);
      break;
    }
    case 9: { // other ways to write the same
      Obj o = anyObject();
      std::string p;
      auto st = steps(o.path);
      bool clear = !ambiguous(o.owner) && !o.owner->kid(o.o == o.owner ? "" : steps(o.path.substr(o.owner->want.size()))[0].substr(1));
      for (size_t k = 0; k < st.size(); ++k) {
        auto &x = st[k];
        if (x[0] == '[') {
          // counted from the end
          size_t len = 0;
          std::string up;
          for (size_t m = 0; m < k; ++m)
            up += st[m];
          for (auto &y : o.owner->objs)
            if (y.path == up)
              len = dynamic_cast<Smp::IArrayField *>(y.o)->GetSize();
          if (chance(30) && len)
            p += "[-" + std::to_string(len - (size_t)atoi(x.c_str() + 1)) + "]";
          else
            p += (chance(20) ? "/" : chance(20) ? "." : "") + x;
        } else if (x[0] == '.')
          p += (chance(30) && clear ? "/" : chance(20) && clear ? "./" : ".") + x.substr(1);
        else
          p += (chance(20) ? "//" : chance(20) ? "/./" : "/") + x.substr(1);
        if (chance(15) && k + 1 < st.size() && st[k + 1][0] != '[' && x[0] != '[')
          p += "/../" + x.substr(1);
      }
      if (!clear && (p.find("..") != std::string::npos))
        break;
      if (chance(10))
        p += "/";
      log("other path %s", p.c_str());
      check(p, nullptr, o.o, noMem);
      break;
    }
    case 10: { // through a reference
      N *n = anyNode();
      if (n->referenced.empty())
        break;
      N *t = n->referenced[rnd(n->referenced.size())];
      if (n->kid(t->GetName()) || n->names.count(t->GetName()))
        break;
      check(n->want + "/" + t->GetName(), nullptr, t, noMem);
      if (!ambiguous(n))
        check(n->want + "." + t->GetName(), nullptr, nullptr, noMem);
      check(t->GetName(), n, t, noMem);
      if (!t->objs.empty()) {
        auto &o = t->objs[rnd(t->objs.size())];
        check(n->want + "/" + t->GetName() + o.path.substr(t->want.size()), nullptr, o.o, noMem);
      }
      break;
    }
    case 11: {
      Obj o = anyObject();
      N *from = anyNode();
      std::string p = relative(from, o);
      if (p[0] == '.' && p[1] == '/' && chance(50) && !ambiguous(o.owner))
        p = p.substr(2);
      log("from %s: %s", from->want.c_str(), p.c_str());
      check(p, from, o.o, noMem);
      break;
    }
    case 12:
      names(tr, noMem);
      break;
    case 13: { // containers and references are reached with an underscore
      N *n = anyNode();
      const Smp::IObject *to[] = {&n->kids, &n->more, &n->refs, nullptr};
      static const char *as[] = {"_kids", "_more", "_refs", "_none"};
      size_t k = rnd(4);
      log("%s of %s", as[k], n->want.c_str());
      if (chance(50))
        check(as[k], n, to[k], noMem);
      else
        check(n->want + "/" + as[k], nullptr, to[k], noMem);
      if (k < 3)
        check(n->want + "/" + as[k] + "/..", nullptr, n, noMem);
      break;
    }
    default: {
      Obj o = anyObject();
      log("at %s", o.path.c_str());
      check(o.path, nullptr, o.o, noMem);
      if (chance(5)) {
        check("/", nullptr, env.s, noMem);
        check("/XsmpScheduler", nullptr, dynamic_cast<Smp::IService *>(env.sch), noMem);
      }
    }
    }
  }
  // everything is found at the end
  for (auto *n : c.nodes) {
    check(n->want, nullptr, n, false);
    for (auto &o : n->objs)
      check(o.path, nullptr, o.o, false), check(relative(n, o), n, o.o, false);
  }
  probe("objects", [&] {
    size_t k = 0;
    for (auto *n : c.nodes)
      k += n->objs.size();
    return k;
  }());
  env.destroy();
}

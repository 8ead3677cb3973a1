// P31: the models, services and factories of a simulator, against plain lists.
#include "env.h"
#include <Smp/DuplicateName.h>
#include <Smp/IContainer.h>
#include <Smp/IFactory.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Model.h>
#include <Xsmp/Service.h>
#include <algorithm>
namespace wl {
namespace {
using K = Smp::SimulatorStateKind;
using namespace Smp::Services;
constexpr Smp::Uuid U(unsigned n) { return Smp::Uuid{0x31, 0x20, 0x30, 0x40, 0x50000000ull + n}; }
struct Thing { // a component made here
  Smp::IComponent *c = nullptr;
  std::string name;
  int kinds = 0; // bits of the standard services it implements
  bool dead = false, owned = false, model = false;
};
struct Fac {
  Smp::IFactory *f = nullptr;
  unsigned uuid;
  std::string name;
  bool dead = false, owned = false, wrong = false;
};
struct Ctx {
  Xsmp::Simulator *s = nullptr;
  std::deque<Thing> things;
  std::deque<Fac> facs;
  std::vector<int> models, services, factories;
  int std[6] = {-1, -1, -1, -1, -1, -1};
  bool destroying = false, servicesGone = false;
  const Smp::ComponentCollection *keptModels = nullptr, *keptServices = nullptr;
  const Smp::FactoryCollection *keptFactories = nullptr;
  int made = 0; // instances alive
};
Ctx *cx;
void died(int id) {
  Quiet q;
  Thing &t = cx->things[id];
  if (t.dead)
    fail("destroyed-twice", "%s was destroyed twice", t.name.c_str());
  t.dead = true;
  if (t.owned && !cx->destroying)
    fail("destroyed", "%s was destroyed although it belongs to the simulator", t.name.c_str());
  if (t.owned && t.model && cx->servicesGone)
    fail("order", "model %s was destroyed after a service", t.name.c_str());
  if (t.owned && !t.model)
    cx->servicesGone = true;
}
struct Mod : Xsmp::Model {
  int id;
  Mod(int i, const char *n, Smp::IComposite *p) : Xsmp::Model(n, "", p), id(i) {}
  ~Mod() override { died(id); }
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(1);
    return u;
  }
};
struct LogI : virtual ILogger {
  LogMessageKind QueryLogMessageKind(Smp::String8) override { return 0; }
  void Log(const Smp::IObject *, Smp::String8, LogMessageKind) override {}
};
struct EvI : virtual IEventManager {
  EventId QueryEventId(Smp::String8) override { return 0; }
  void Subscribe(EventId, const Smp::IEntryPoint *) override {}
  void Unsubscribe(EventId, const Smp::IEntryPoint *) override {}
  void Emit(EventId, Smp::Bool) override {}
};
struct LinkI : virtual ILinkRegistry {
  void AddLink(Smp::IComponent *, const Smp::IComponent *) override {}
  Smp::UInt32 GetLinkCount(const Smp::IComponent *, const Smp::IComponent *) const override { return 0; }
  Smp::Bool RemoveLink(Smp::IComponent *, const Smp::IComponent *) override { return false; }
  const Smp::ComponentCollection *GetLinkSources(const Smp::IComponent *) const override { return nullptr; }
  Smp::Bool CanRemove(const Smp::IComponent *) override { return true; }
  void RemoveLinks(const Smp::IComponent *) override {}
};
struct ResI : virtual IResolver {
  Smp::IObject *ResolveAbsolute(Smp::String8) override { return nullptr; }
  Smp::IObject *ResolveRelative(Smp::String8, const Smp::IComponent *) override { return nullptr; }
};
struct SchI : virtual IScheduler {
  EventId AddImmediateEvent(const Smp::IEntryPoint *) override { return 1; }
  EventId AddSimulationTimeEvent(const Smp::IEntryPoint *, Smp::Duration, Smp::Duration, Smp::Int64) override { return 1; }
  EventId AddMissionTimeEvent(const Smp::IEntryPoint *, Smp::Duration, Smp::Duration, Smp::Int64) override { return 1; }
  EventId AddEpochTimeEvent(const Smp::IEntryPoint *, Smp::DateTime, Smp::Duration, Smp::Int64) override { return 1; }
  EventId AddZuluTimeEvent(const Smp::IEntryPoint *, Smp::DateTime, Smp::Duration, Smp::Int64) override { return 1; }
  void SetEventSimulationTime(EventId, Smp::Duration) override {}
  void SetEventMissionTime(EventId, Smp::Duration) override {}
  void SetEventEpochTime(EventId, Smp::DateTime) override {}
  void SetEventZuluTime(EventId, Smp::DateTime) override {}
  void SetEventCycleTime(EventId, Smp::Duration) override {}
  void SetEventRepeat(EventId, Smp::Int64) override {}
  void RemoveEvent(EventId) override {}
  EventId GetCurrentEventId() const override { return -1; }
  Smp::Duration GetNextScheduledEventTime() const override { return 0; }
};
struct TimeI : virtual ITimeKeeper {
  Smp::Duration GetSimulationTime() const override { return 0; }
  Smp::DateTime GetEpochTime() const override { return 0; }
  Smp::DateTime GetMissionStartTime() const override { return 0; }
  Smp::Duration GetMissionTime() const override { return 0; }
  Smp::DateTime GetZuluTime() const override { return 0; }
  void SetSimulationTime(Smp::Duration) override {}
  void SetEpochTime(Smp::DateTime) override {}
  void SetMissionStartTime(Smp::DateTime) override {}
  void SetMissionTime(Smp::Duration) override {}
};
template <class... I> struct Svc : Xsmp::Service, I... {
  int id;
  Svc(int i, const char *n, Smp::IComposite *p) : Xsmp::Service(n, "", p, nullptr), id(i) {}
  ~Svc() override { died(id); }
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(2);
    return u;
  }
};
// a parent that is not the simulator
struct Other : Xsmp::Model, Xsmp::Composite {
  Other() : Xsmp::Model("other", "", nullptr) {}
  const Smp::Uuid &GetUuid() const override {
    static constexpr Smp::Uuid u = U(3);
    return u;
  }
};
// instances of factories
struct Made : Xsmp::Model {
  std::string d;
  unsigned n;
  Made(unsigned k, Smp::String8 name, Smp::String8 desc, Smp::IComposite *parent) : Xsmp::Model(name, desc, parent), n(k), u(U(100 + k)) {
    Quiet q;
    ++cx->made;
  }
  ~Made() override {
    Quiet q;
    --cx->made;
  }
  Smp::Uuid u;
  const Smp::Uuid &GetUuid() const override { return u; }
};
template <int N> struct MadeBy : Made {
  MadeBy(Smp::String8 name, Smp::String8 desc, Smp::IComposite *parent, Smp::ISimulator *s) : Made(N, name, desc, parent) {
    if (s != cx->s)
      fail("create", "an instance was given another simulator");
  }
};
// a factory that tells when it is destroyed
struct Watched : Smp::IFactory {
  int id;
  std::unique_ptr<Smp::IFactory> in;
  Watched(int i, Smp::IFactory *f) : id(i), in(f) {}
  ~Watched() override {
    Quiet q;
    Fac &f = cx->facs[id];
    if (f.dead)
      fail("destroyed-twice", "factory %s was destroyed twice", f.name.c_str());
    f.dead = true;
    if (f.owned && !cx->destroying)
      fail("destroyed", "factory %s was destroyed although it is registered", f.name.c_str());
  }
  Smp::String8 GetName() const override { return in->GetName(); }
  Smp::String8 GetDescription() const override { return in->GetDescription(); }
  Smp::IObject *GetParent() const override { return in->GetParent(); }
  Smp::Uuid GetUuid() const override { return in->GetUuid(); }
  Smp::String8 GetTypeName() const override { return in->GetTypeName(); }
  Smp::IComponent *CreateInstance(Smp::String8 n, Smp::String8 d, Smp::IComposite *p) override { return in->CreateInstance(n, d, p); }
  void DeleteInstance(Smp::IComponent *c) override { in->DeleteInstance(c); }
};
const char *names[] = {"a", "b", "A", "ab", "Logger", "Scheduler", "a_1"};
const char *anyName() { return names[rnd(7)]; }
const char *stdNames[] = {"logger", "event manager", "link registry", "resolver", "scheduler", "time keeper"};
const void *stdService(int k) {
  const Smp::ISimulator *s = cx->s;
  switch (k) {
  case 0:
    return dynamic_cast<const void *>(s->GetLogger());
  case 1:
    return dynamic_cast<const void *>(s->GetEventManager());
  case 2:
    return dynamic_cast<const void *>(s->GetLinkRegistry());
  case 3:
    return dynamic_cast<const void *>(s->GetResolver());
  case 4:
    return dynamic_cast<const void *>(s->GetScheduler());
  default:
    return dynamic_cast<const void *>(s->GetTimeKeeper());
  }
}
bool mayAdd() {
  K k = cx->s->GetState();
  return k == K::SSK_Building || k == K::SSK_Connecting || k == K::SSK_Standby;
}
void compareList(const Smp::ComponentCollection *c, const std::vector<int> &want, const char *what) {
  bool ok = c && c->size() == want.size();
  size_t i = 0;
  if (ok)
    for (auto *x : *c) {
      ok = ok && i < want.size() && x == cx->things[want[i]].c && c->at(i) == x && c->at(cx->things[want[i]].name.c_str()) == x;
      ++i;
    }
  if (!ok || i != want.size() || c->at(i))
    fail("list", "the %s are not the %zu that were added, in this order (%zu listed)", what, want.size(), c ? c->size() : 0);
}
void compare() {
  Quiet q;
  auto *s = cx->s;
  auto *m = s->GetContainer("Models"), *v = s->GetContainer("Services");
  if (!m || !v || s->GetContainers()->size() != 2 || s->GetContainer("Factories"))
    fail("containers", "the simulator does not have its two containers");
  if (m->GetCount() != (long)cx->models.size() || v->GetCount() != (long)cx->services.size())
    fail("count", "%ld models and %ld services are counted, %zu and %zu were added", (long)m->GetCount(), (long)v->GetCount(), cx->models.size(), cx->services.size());
  if (!cx->keptModels)
    cx->keptModels = m->GetComponents(), cx->keptServices = v->GetComponents(), cx->keptFactories = s->GetFactories();
  compareList(m->GetComponents(), cx->models, "models"), compareList(cx->keptModels, cx->models, "models");
  compareList(v->GetComponents(), cx->services, "services"), compareList(cx->keptServices, cx->services, "services");
  for (const char *n : {"a", "b", "A", "ab", "Logger", "Scheduler", "a_1", "", "a ", "Models", "Services"}) {
    Smp::IComponent *mod = nullptr, *ser = nullptr;
    for (int i : cx->models)
      if (cx->things[i].name == n)
        mod = cx->things[i].c;
    for (int i : cx->services)
      if (cx->things[i].name == n)
        ser = cx->things[i].c;
    if (s->GetService(n) != ser || v->GetComponent(n) != ser)
      fail("lookup", "the service of the name '%s' is not the one that was added", n);
    if (m->GetComponent(n) != mod)
      fail("lookup", "the model of the name '%s' is not the one that was added", n);
  }
  if (s->GetService(nullptr))
    fail("lookup", "there is a service without a name");
  for (int k = 0; k < 6; ++k) {
    const void *want = cx->std[k] < 0 ? nullptr : dynamic_cast<const void *>(cx->things[cx->std[k]].c);
    if (stdService(k) != want)
      fail("standard", "the %s is %s", stdNames[k], want ? "not the first one that was added" : "there, none was added");
  }
  // factories
  for (auto *c : {s->GetFactories(), cx->keptFactories}) {
    bool ok = c->size() == cx->factories.size();
    size_t i = 0;
    if (ok)
      for (auto *f : *c) {
        ok = ok && i < cx->factories.size() && f == cx->facs[cx->factories[i]].f && c->at(i) == f;
        ++i;
      }
    if (!ok || i != cx->factories.size() || c->at(i))
      fail("factories", "the factories are not the %zu that were registered, in this order (%zu listed)", cx->factories.size(), c->size());
    for (const char *n : {"a", "b", "A", "ab", "Logger", "Scheduler", "a_1", "zz"}) {
      Smp::IFactory *first = nullptr;
      for (int k : cx->factories)
        if (!first && cx->facs[k].name == n)
          first = cx->facs[k].f;
      if (c->at(n) != first)
        fail("factories", "the factory of the name %s is not the first one registered by it", n);
    }
  }
  for (unsigned u = 0; u < 6; ++u) {
    Smp::IFactory *want = nullptr;
    for (int k : cx->factories)
      if (cx->facs[k].uuid == u)
        want = cx->facs[k].f;
    if (s->GetFactory(U(100 + u)) != want)
      fail("factories", "the factory of type %u is not the one that was registered", u);
  }
}
// with failing allocations; true if it was refused for lack of memory
template <class Fn> std::string attempt(bool noMemory, bool &hit, Fn fn) {
  if (noMemory)
    armAlloc((int64_t)rnd(10));
  std::string e = outcome(fn);
  hit = noMemory && allocFired();
  armAlloc(-1);
  if (hit && e == "std:std::bad_alloc") {
    countFault("allocation failed");
    return "memory";
  }
  return e;
}
Smp::IService *service(int kind, int id, const char *n, Smp::IComposite *p, int &bits) {
  switch (kind) {
  case 0:
    return bits = 0, new Svc<>(id, n, p);
  case 1:
    return bits = 1, new Svc<LogI>(id, n, p);
  case 2:
    return bits = 2, new Svc<EvI>(id, n, p);
  case 3:
    return bits = 4, new Svc<LinkI>(id, n, p);
  case 4:
    return bits = 8, new Svc<ResI>(id, n, p);
  case 5:
    return bits = 16, new Svc<SchI>(id, n, p);
  case 6:
    return bits = 32, new Svc<TimeI>(id, n, p);
  case 7:
    return bits = 1 | 8, new Svc<LogI, ResI>(id, n, p);
  case 8:
    return bits = 2 | 4, new Svc<EvI, LinkI>(id, n, p);
  default:
    return bits = 16 | 32, new Svc<SchI, TimeI>(id, n, p);
  }
}
void dispose(int id) {
  if (!cx->things[id].dead)
    delete cx->things[id].c;
}
void add(Smp::IComposite *elsewhere, bool model, bool noMemory) {
  int kind = (int)rnd(10);
  const char *n = anyName();
  bool stray = chance(10), mixed = chance(10), direct = mixed || chance(20);
  Smp::IComposite *parent = stray ? elsewhere : cx->s;
  // one that is there already
  auto &list = model ? cx->models : cx->services;
  bool again = !list.empty() && chance(8);
  int id;
  Smp::IModel *m = nullptr;
  Smp::IService *v = nullptr;
  {
    Quiet q;
    if (again) {
      id = list[rnd(list.size())];
      stray = false;
      m = dynamic_cast<Smp::IModel *>(cx->things[id].c), v = dynamic_cast<Smp::IService *>(cx->things[id].c);
    } else {
      id = (int)cx->things.size();
      cx->things.emplace_back();
      Thing &t = cx->things[id];
      t.name = n, t.model = model;
      if (model)
        t.c = m = new Mod(id, n, parent);
      else
        t.c = v = service(kind, id, n, parent, t.kinds);
    }
  }
  Thing &t = cx->things[id];
  bool taken = false;
  for (auto &x : cx->things)
    taken = taken || (x.owned && x.name == t.name);
  bool may = direct || mayAdd();
  // directly into the container; the simulator takes no notice of it
  std::string want = !may ? "Smp:InvalidSimulatorState" : mixed ? "Smp:InvalidObjectType" : taken ? "Smp:DuplicateName" : stray ? "Smp:InvalidParent" : "";
  if (direct && !mixed && !model && t.kinds)
    direct = false, want = !mayAdd() ? "Smp:InvalidSimulatorState" : taken ? "Smp:DuplicateName" : stray ? "Smp:InvalidParent" : "";
  log("add %s %s%s%s%s%s", model ? "model" : "service", t.name.c_str(), direct ? " directly" : "", mixed ? " to the wrong container" : "", again ? " again" : "", noMemory ? " without memory" : "");
  bool hit;
  std::string e = attempt(noMemory, hit, [&] {
    if (direct)
      cx->s->GetContainer((mixed != model) ? "Models" : "Services")->AddComponent(t.c);
    else if (model)
      cx->s->AddModel(m);
    else
      cx->s->AddService(v);
  });
  Quiet q;
  if (e == "memory") {
    if (want.empty() && !again)
      dispose(id);
    else if (!again)
      dispose(id);
    return;
  }
  if (e != want && !(want == "Smp:InvalidParent" && e == "Smp:DuplicateName"))
    fail("added", "adding %s %s%s: '%s', '%s' expected", model ? "model" : "service", t.name.c_str(), again ? " again" : "", e.c_str(), want.c_str());
  if (t.dead)
    fail("destroyed", "%s was destroyed when it was added", t.name.c_str());
  if (!e.empty()) {
    probe("refused");
    if (!again)
      dispose(id);
    return;
  }
  t.owned = true;
  list.push_back(id);
  for (int k = 0; k < 6; ++k)
    if (t.kinds >> k & 1 && cx->std[k] < 0)
      cx->std[k] = id, probe("standard service");
}
template <int N> Smp::IFactory *factory(const char *n, bool wrong) { return Xsmp::Factory::Create<MadeBy<N>>(n, "d", cx->s, U(wrong ? 105 : 100 + N)); }
void addFactory(bool noMemory) {
  unsigned u = (unsigned)rnd(5);
  const char *n = anyName();
  bool wrong = chance(10);
  int id;
  {
    Quiet q;
    id = (int)cx->facs.size();
    cx->facs.emplace_back();
    Fac &f = cx->facs[id];
    f.name = n, f.uuid = wrong ? 5 : u, f.wrong = wrong;
    f.f = new Watched(id, u == 0 ? factory<0>(n, wrong) : u == 1 ? factory<1>(n, wrong) : u == 2 ? factory<2>(n, wrong) : u == 3 ? factory<3>(n, wrong) : factory<4>(n, wrong));
    if (f.f->GetParent() != cx->s || f.f->GetUuid() != U(100 + f.uuid) || f.name != f.f->GetName() || strcmp(f.f->GetDescription(), "d"))
      fail("factory", "a factory is not as it was created");
    if (std::string(f.f->GetTypeName()).find("MadeBy<" + std::to_string(u) + ">") == std::string::npos)
      fail("factory", "the factory of type %u makes %s", u, f.f->GetTypeName());
  }
  Fac &f = cx->facs[id];
  bool taken = false;
  for (int k : cx->factories)
    taken = taken || cx->facs[k].uuid == f.uuid;
  log("register factory %s of type %u%s", n, f.uuid, noMemory ? " without memory" : "");
  bool hit;
  std::string e = attempt(noMemory, hit, [&] { cx->s->RegisterFactory(f.f); });
  Quiet q;
  std::string want = taken ? "Smp:DuplicateUuid" : "";
  if (e == "memory" || (e == want && taken)) {
    if (!f.dead) // left to the caller
      delete f.f;
    probe("factory refused");
    return;
  }
  if (e != want)
    fail("register", "registering a factory of type %u: '%s', '%s' expected", f.uuid, e.c_str(), want.c_str());
  if (f.dead)
    fail("destroyed", "a factory was destroyed when it was registered");
  f.owned = true;
  cx->factories.push_back(id);
}
void create(Smp::IComposite *elsewhere, bool noMemory) {
  unsigned u = (unsigned)rnd(6);
  const char *bad[] = {"", "1a", "a b", "a.b", "_a"};
  bool invalid = chance(15);
  const char *n = invalid ? bad[rnd(5)] : anyName();
  Smp::IComposite *parent = chance(40) ? elsewhere : cx->s;
  Fac *f = nullptr;
  for (int k : cx->factories)
    if (cx->facs[k].uuid == u)
      f = &cx->facs[k];
  if (noMemory && f && f->wrong)
    return;
  int alive = cx->made;
  Smp::IComponent *c = nullptr;
  log("create an instance '%s' of type %u%s", n, u, noMemory ? " without memory" : "");
  bool hit;
  bool direct = f && chance(30);
  std::string e = attempt(noMemory, hit, [&] { c = direct ? f->f->CreateInstance(n, "text", parent) : cx->s->CreateInstance(U(100 + u), n, "text", parent); });
  Quiet q;
  std::string want = f && invalid ? "Smp:InvalidObjectName" : f && f->wrong ? "Smp:InvalidFactory" : "";
  if (e == "memory") {
    if (cx->made != alive)
      fail("create", "an instance was left behind when memory ran out");
    return;
  }
  if (e != want)
    fail("create", "creating an instance '%s' of type %u: '%s', '%s' expected", n, u, e.c_str(), want.c_str());
  if (!e.empty() || !f) {
    if (c || cx->made != alive)
      fail("create", "an instance was made although %s", f ? "it was refused" : "there is no factory");
    return;
  }
  if (!c || cx->made != alive + 1)
    fail("create", "%d instances were made", cx->made - alive);
  if (c->GetUuid() != U(100 + u) || strcmp(c->GetName(), n) || strcmp(c->GetDescription(), "text") || c->GetParent() != parent || c->GetState() != Smp::ComponentStateKind::CSK_Created)
    fail("create", "the instance '%s' is not as it was asked for", n);
  probe("instance");
  f->f->DeleteInstance(c);
  if (cx->made != alive)
    fail("create", "an instance was not deleted");
}
void remove() {
  bool model = chance(70);
  auto &list = model ? cx->models : cx->services;
  if (list.empty())
    return;
  size_t i = rnd(list.size());
  int id = list[i];
  Thing &t = cx->things[id];
  for (int k : cx->std)
    if (k == id)
      return; // the standard services stay
  log("delete %s", t.name.c_str());
  bool wrong = chance(15);
  std::string e;
  if (!wrong)
    t.owned = false;
  e = outcome([&] { cx->s->GetContainer(model != wrong ? "Models" : "Services")->DeleteComponent(t.c); });
  Quiet q;
  if (wrong) {
    if (e != "Smp:NotContained" || t.dead)
      fail("deleted", "deleting %s from the container it is not in: '%s'", t.name.c_str(), e.c_str());
    return;
  }
  if (!e.empty() || !t.dead)
    fail("deleted", "deleting %s: '%s', %s", t.name.c_str(), e.c_str(), t.dead ? "destroyed" : "not destroyed");
  list.erase(list.begin() + (long)i);
  probe("deleted");
}
} // namespace
} // namespace wl
void wl_reg() {
  using namespace wl;
  captureStreams();
  Ctx c;
  cx = &c;
  c.s = new Xsmp::Simulator("sim");
  std::unique_ptr<Other> other;
  {
    Quiet q;
    other = std::make_unique<Other>();
  }
  compare();
  bool faults = chance(50);
  int ops = (int)range(3, 60);
  for (int i = 0; i < ops; ++i) {
    int o = newOp();
    bool noMem = faults && chance(30);
    int kind = (int)rnd(16), sub = (int)rnd(5);
    if (!keep(o))
      continue;
    switch (kind) {
    case 0:
    case 1:
    case 2:
      add(other.get(), true, noMem);
      break;
    case 3:
    case 4:
    case 5:
    case 6:
      add(other.get(), false, noMem);
      break;
    case 7:
    case 8:
    case 9:
      addFactory(noMem);
      break;
    case 10:
    case 11:
      create(other.get(), noMem);
      break;
    case 12:
      remove();
      break;
    case 13:
      if (sub == 0 && c.s->GetState() == K::SSK_Building)
        log("publish"), c.s->Publish();
      else if (sub == 1 && c.s->GetState() == K::SSK_Building)
        log("configure"), c.s->Configure();
      else if (sub <= 2 && c.s->GetState() == K::SSK_Building)
        log("connect"), c.s->Connect();
      else if (c.s->GetState() == K::SSK_Standby && sub == 3)
        log("run"), c.s->Run();
      else if (c.s->GetState() == K::SSK_Executing)
        log("hold"), c.s->Hold(true);
      break;
    case 14:
      if (c.s->GetState() == K::SSK_Standby && chance(30))
        log("exit"), c.s->Exit();
      break;
    case 15:
      if (chance(10))
        log("abort"), c.s->Abort();
      break;
    }
    compare();
  }
  c.destroying = true;
  log("destroy the simulator");
  delete c.s;
  Quiet q;
  for (auto &t : c.things)
    if (!t.dead)
      fail("not-destroyed", "%s was not destroyed with the simulator", t.name.c_str());
  for (auto &f : c.facs)
    if (!f.dead)
      fail("not-destroyed", "factory %s was not destroyed with the simulator", f.name.c_str());
}

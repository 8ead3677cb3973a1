// P20: bringing components up and taking them down, over trees that grow while
// they are walked, with generated-like classes of several levels.
#include "env.h"
#include <Smp/IPublication.h>
#include <Smp/Services/ILogger.h>
#include <Xsmp/ComponentHelper.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/Model.h>
#include <Xsmp/Service.h>
namespace wl {
namespace {
using K = Smp::SimulatorStateKind;
using C = Smp::ComponentStateKind;
constexpr Smp::Uuid uuid{0x11, 0x20, 0x30, 0x40, 0x50000001};
const char *phaseName[] = {"published", "configured", "connected", "disconnected"};
struct BU;
BU *bu;
struct Node {
  Smp::IComponent *c = nullptr;
  Smp::IComposite *grow = nullptr; // where children can be added
  Smp::IContainer *into = nullptr;
  int parent = -1, done[4] = {0, 0, 0, 0}, levels = 0;
  bool must = true; // to be connected by the walk in progress or done
  std::vector<int> calls[4]; // of the levels of a generated class
};
void phase(int id, int ph, Smp::ISimulator *given);
void level(int id, int ph, int lev);
struct RawModel : Xsmp::Model, Xsmp::Composite {
  int id;
  Xsmp::Container<Smp::IComponent> kids, more;
  RawModel(int i, const char *n, Smp::IObject *parent)
      : Xsmp::Model(n, "", dynamic_cast<Smp::IComposite *>(parent)), id(i), kids("kids", "", static_cast<Xsmp::Composite *>(this), 0, -1), more("more", "", static_cast<Xsmp::Composite *>(this), 0, -1) {}
  void Publish(Smp::IPublication *r) override {
    Xsmp::Model::Publish(r);
    phase(id, 0, GetSimulator());
  }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override {
    Xsmp::Model::Configure(l, k);
    phase(id, 1, GetSimulator());
  }
  void Connect(Smp::ISimulator *s) override {
    Xsmp::Model::Connect(s);
    phase(id, 2, GetSimulator());
  }
  void Disconnect() override {
    phase(id, 3, GetSimulator());
    Xsmp::Model::Disconnect();
  }
  const Smp::Uuid &GetUuid() const override { return uuid; }
};
struct RawService : Xsmp::Service {
  int id;
  RawService(int i, const char *n, Smp::IComposite *parent) : Xsmp::Service(n, "", parent, nullptr), id(i) {}
  void Publish(Smp::IPublication *r) override {
    Xsmp::Service::Publish(r);
    phase(id, 0, GetSimulator());
  }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override {
    Xsmp::Service::Configure(l, k);
    phase(id, 1, GetSimulator());
  }
  void Connect(Smp::ISimulator *s) override {
    Xsmp::Service::Connect(s);
    phase(id, 2, GetSimulator());
  }
  void Disconnect() override {
    phase(id, 3, GetSimulator());
    Xsmp::Service::Disconnect();
  }
  const Smp::Uuid &GetUuid() const override { return uuid; }
};
// like the classes of the code generator: XGen calls the Do functions of X
#define GEN(NAME, USER, BASE) \
  struct USER; \
  struct NAME : BASE { \
    using BASE::BASE; \
    friend class ::Xsmp::Component::Helper; \
    void Publish(Smp::IPublication *r) override { \
      BASE::Publish(r); \
      helperPublish(this, r); \
    } \
    void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override { \
      BASE::Configure(l, k); \
      helperConfigure(this, l, k); \
    } \
    void Connect(Smp::ISimulator *s) override { \
      BASE::Connect(s); \
      helperConnect(this, s); \
    } \
    void Disconnect() override { \
      helperDisconnect(this); \
      BASE::Disconnect(); \
    } \
    static void helperPublish(NAME *, Smp::IPublication *); \
    static void helperConfigure(NAME *, Smp::Services::ILogger *, Smp::Services::ILinkRegistry *); \
    static void helperConnect(NAME *, Smp::ISimulator *); \
    static void helperDisconnect(NAME *); \
  };
#define GENIMPL(NAME, USER) \
  void NAME::helperPublish(NAME *c, Smp::IPublication *r) { Xsmp::Component::Helper::Publish<USER>(c, r); } \
  void NAME::helperConfigure(NAME *c, Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) { Xsmp::Component::Helper::Configure<USER>(c, l, k); } \
  void NAME::helperConnect(NAME *c, Smp::ISimulator *s) { Xsmp::Component::Helper::Connect<USER>(c, s); } \
  void NAME::helperDisconnect(NAME *c) { Xsmp::Component::Helper::Disconnect<USER>(c); }
struct GBase : Xsmp::Model {
  int id;
  GBase(int i, const char *n, Smp::IObject *parent) : Xsmp::Model(n, "", dynamic_cast<Smp::IComposite *>(parent)), id(i) {}
  // stands for what the generator puts into every class
  void Publish(Smp::IPublication *r) override {
    Xsmp::Model::Publish(r);
    phase(id, 0, GetSimulator());
  }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override {
    Xsmp::Model::Configure(l, k);
    phase(id, 1, GetSimulator());
  }
  void Connect(Smp::ISimulator *s) override {
    Xsmp::Model::Connect(s);
    phase(id, 2, GetSimulator());
  }
  void Disconnect() override {
    phase(id, 3, GetSimulator());
    Xsmp::Model::Disconnect();
  }
  const Smp::Uuid &GetUuid() const override { return uuid; }
};
GEN(AGen, A, GBase)
struct A : AGen { // everything, with all arguments
  using AGen::AGen;
  friend class ::Xsmp::Component::Helper;

private:
  void DoPublish(Smp::IPublication *r) { level(id, r ? 0 : 9, 0); }
  void DoConfigure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) { level(id, l && k ? 1 : 9, 0); }
  void DoConnect(Smp::ISimulator *s) { level(id, s && s == GetSimulator() ? 2 : 9, 0); }
  void DoDisconnect() { level(id, GetSimulator() ? 3 : 9, 0); }
};
GENIMPL(AGen, A)
GEN(BGen, B, A)
struct B : BGen { // without arguments, or only the first
  using BGen::BGen;
  friend class ::Xsmp::Component::Helper;

private:
  void DoPublish() { level(id, 0, 1); }
  void DoConfigure(Smp::Services::ILogger *l) { level(id, l ? 1 : 9, 1); }
  void DoConnect() { level(id, GetSimulator() ? 2 : 9, 1); }
  void DoDisconnect() { level(id, GetSimulator() ? 3 : 9, 1); }
};
GENIMPL(BGen, B)
GEN(DGen, D, B)
struct D : DGen { // nothing of its own but the configuration
  using DGen::DGen;
  friend class ::Xsmp::Component::Helper;

private:
  void DoConfigure(Smp::Services::ILinkRegistry *k) { level(id, k ? 1 : 9, 2); }
};
GENIMPL(DGen, D)
GEN(EGen, E, GBase)
struct E : EGen { // two of them
  using EGen::EGen;
  friend class ::Xsmp::Component::Helper;

private:
  void DoPublish() { level(id, 0, 0); }
  void DoConfigure() { level(id, 1, 0); }
};
GENIMPL(EGen, E)
const std::vector<int> none, one{0}, two{0, 1}, rev{1, 0}, three{0, 1, 2};
// levels called per kind of class and phase
const std::vector<int> *want[5][4] = {{&none, &none, &none, &none}, {&one, &one, &one, &one}, {&two, &two, &two, &rev}, {&two, &three, &two, &rev}, {&one, &one, &none, &none}};

struct BU {
  Env e{errLogConfig};
  std::deque<Node> nodes;
  std::vector<int> kindOf;
  int budget = 0, warnings = 0;
  std::vector<int> pending, running; // initialisation entry points
  size_t runPos = 0;
  int nInits = 0, aborts = 0;
  bool walking = false, connected = false, aborted = false, exiting = false, misusing = false;
  int root = -1; // of the walk
  bool isUnder(int id, int top) {
    for (; id >= 0; id = nodes[(size_t)id].parent)
      if (id == top)
        return true;
    return top < 0;
  }
  // everything brought up by the walk that is ending
  void walked(const char *what) {
    for (size_t i = 0; i < nodes.size(); ++i) {
      auto &n = nodes[i];
      if (!n.must || !isUnder((int)i, root))
        continue;
      for (int p = 0; p < 3; ++p)
        if (n.done[p] != 1)
          sim::fail("not-brought-up", "%s is not %s when %s", n.c->GetName(), phaseName[p], what);
      if (n.c->GetState() != C::CSK_Connected)
        sim::fail("not-brought-up", "%s is not in the connected state when %s", n.c->GetName(), what);
    }
  }
  // add a component somewhere
  void add(bool under) {
    int where = -1, kind = (int)rnd(6);
    {
      Quiet q;
      std::vector<int> can;
      for (size_t i = 0; i < nodes.size(); ++i)
        if (nodes[i].grow && (!under || isUnder((int)i, root)))
          can.push_back((int)i);
      bool top = e.st() == K::SSK_Building || e.st() == K::SSK_Connecting || e.st() == K::SSK_Standby;
      if (under && root >= 0)
        top = false;
      size_t r = rnd(can.size() + (top ? 1 : 0) + 1);
      if (r < can.size())
        where = can[r];
      else if (!top)
        return;
    }
    bool more = chance(30);
    int id = (int)nodes.size();
    char name[16];
    snprintf(name, sizeof name, "n%d", id);
    Smp::IObject *parent = where < 0 ? (Smp::IObject *)static_cast<Smp::ISimulator *>(e.s) : static_cast<Smp::IObject *>(nodes[(size_t)where].c);
    if (kind == 5 && where >= 0)
      kind = 0;
    nodes.emplace_back();
    kindOf.push_back(kind);
    auto &n = nodes.back();
    n.parent = where;
    n.must = walking;
    switch (kind) {
    case 0: {
      auto *m = new RawModel(id, name, parent);
      n.c = m;
      n.grow = m;
      break;
    }
    case 1: n.c = new A(id, name, parent); break;
    case 2: n.c = new B(id, name, parent); break;
    case 3: n.c = new D(id, name, parent); break;
    case 4: n.c = new E(id, name, parent); break;
    default: n.c = new RawService(id, name, e.s); break;
    }
    log("n%d (kind %d) added to %s", id, kind, parent->GetName());
    if (where < 0) {
      if (kind == 5)
        e.s->AddService(dynamic_cast<Smp::IService *>(n.c));
      else
        e.s->AddModel(dynamic_cast<Smp::IModel *>(n.c));
    } else {
      auto *p = dynamic_cast<RawModel *>(nodes[(size_t)where].c);
      (more ? p->more : p->kids).AddComponent(n.c);
    }
    probe(walking ? "components added during a walk" : "components added");
  }
  void addInit() {
    bool ok = e.st() == K::SSK_Building || e.st() == K::SSK_Connecting || e.st() == K::SSK_Standby;
    int k = nInits++, nth = (int)rnd(4), thrower = (int)rnd(20);
    Xsmp::EntryPoint *ep;
    {
      Quiet q;
      if (ok)
        pending.push_back(k);
      else
        ++warnings;
    }
    ep = e.ep("init" + std::to_string(k), [this, k, nth, thrower] { onInit(k, nth, thrower); });
    e.s->AddInitEntryPoint(ep);
    if (ok && chance(10)) { // twice: called twice
      {
        Quiet q;
        pending.push_back(k);
      }
      e.s->AddInitEntryPoint(ep);
    }
  }
  void onInit(int k, int nth, int thrower) {
    {
      Quiet q;
      log("init %d", k);
      if (aborted)
        sim::fail("init-after-abort", "initialisation entry point %d was called after an abort", k);
      if (runPos >= running.size() || running[runPos] != k)
        sim::fail("init-order", "initialisation entry point %d was called instead of %d", k, runPos < running.size() ? running[runPos] : -1);
      ++runPos;
      if (e.st() != K::SSK_Initialising)
        sim::fail("init-state", "initialisation entry point called in %s state", stateName(e.st()));
      probe("initialisation entry points");
    }
    if (nth == 0 && budget-- > 0)
      addInit();
    if (thrower == 0) {
      aborted = true;
      log("throws");
      countFault("throwing initialisation entry point");
      throw std::runtime_error("init");
    }
    if (thrower == 1) {
      aborted = true;
      log("aborts");
      e.s->Abort();
    }
  }
  // a call that the state of the component does not allow
  void misuse() {
    if (nodes.empty())
      return;
    int n = newOp();
    size_t id = rnd(nodes.size());
    int call = (int)rnd(4);
    bool noMemory = chance(20);
    if (!keep(n) || !nodes[id].c)
      return;
    auto *c = nodes[id].c;
    C st = c->GetState();
    bool null = false;
    if ((st == C::CSK_Created && call == 0) || (st == C::CSK_Publishing && call == 1) || (st == C::CSK_Configured && call == 2) || (st == C::CSK_Connected && call == 3)) {
      if (call)
        return;
      null = true; // no receiver
    }
    const auto *fields = c->GetFields();
    misusing = true;
    if (noMemory)
      armAlloc((int64_t)rnd(10));
    std::string got = outcome([&] {
      switch (call) {
      case 0: c->Publish(nullptr); break;
      case 1: c->Configure(e.log, e.lr); break;
      case 2: c->Connect(e.s); break;
      default: c->Disconnect();
      }
    });
    bool hit = noMemory && allocFired();
    armAlloc(-1);
    misusing = false;
    Quiet q;
    if (hit && got == "std:std::bad_alloc")
      countFault("allocation failed");
    else if (got != (null ? "Smp:NullPointerException" : "Smp:InvalidComponentState"))
      sim::fail("misuse", "%s, in state %d, was %s again: '%s'", c->GetName(), (int)st, phaseName[call], got.c_str());
    if (c->GetState() != st || c->GetFields() != fields)
      sim::fail("misuse", "the state of %s was changed by a call that was refused", c->GetName());
    probe("calls refused in the wrong state");
  }
  void maybeGrow() {
    if (chance(15))
      misuse();
    if (budget <= 0 || !chance(40))
      return;
    --budget;
    int n = newOp();
    int what = (int)rnd(4);
    if (!keep(n))
      return;
    if (what == 0)
      addInit();
    else
      add(false);
  }
  void initialise(bool connect) {
    if (chance(30))
      misuse();
    {
      Quiet q;
      running.swap(pending);
      pending.clear();
      runPos = 0;
    }
    if (connect)
      e.s->Connect();
    else
      e.s->Initialise();
    Quiet q;
    if (!aborted && runPos != running.size())
      sim::fail("init-missing", "initialisation entry point %d was not called", running[runPos]);
    auto want = aborted ? K::SSK_Aborting : K::SSK_Standby;
    if (e.st() != want)
      sim::fail("wrong-state", "%s state after the initialisation", stateName(e.st()));
  }
};
void phase(int id, int ph, Smp::ISimulator *given) {
  if (bu->misusing)
    return;
  {
    Quiet q;
    auto &n = bu->nodes[(size_t)id];
    log("n%d is %s", id, phaseName[ph]);
    if (n.done[ph]++)
      sim::fail("twice", "%s is %s for the second time", n.c->GetName(), phaseName[ph]);
    if (ph > 0 && ph < 3 && !n.done[ph - 1])
      sim::fail("phase-order", "%s is %s but not %s", n.c->GetName(), phaseName[ph], phaseName[ph - 1]);
    if (ph == 3 && !n.done[2])
      sim::fail("phase-order", "%s is disconnected without having been connected", n.c->GetName());
    if (ph < 3 && n.parent >= 0 && !bu->nodes[(size_t)n.parent].done[ph])
      sim::fail("parent-order", "%s is %s before its parent", n.c->GetName(), phaseName[ph]);
    if ((ph == 2 || ph == 3) && !given)
      sim::fail("no-simulator", "%s has no simulator while it is %s", n.c->GetName(), phaseName[ph]);
    if (ph == 3 && !bu->exiting)
      sim::fail("phase-order", "%s is disconnected by no exit", n.c->GetName());
    if (ph == 2 && bu->aborted && !bu->walking)
      sim::fail("phase-order", "%s is connected after an abort", n.c->GetName());
  }
  bu->maybeGrow();
}
void level(int id, int ph, int lev) {
  if (bu->misusing)
    return;
  Quiet q;
  if (ph == 9)
    sim::fail("arguments", "n%d: a Do function was called without its arguments", id);
  bu->nodes[(size_t)id].calls[ph].push_back(lev);
}
} // namespace
} // namespace wl

namespace wl {
struct Peek : Xsmp::Component {
  static Smp::ISimulator *of(const Xsmp::Component *c) { return (c->*(&Peek::GetSimulator))(); }
};
static Smp::ISimulator *simulatorOf(const Xsmp::Component *c) { return Peek::of(c); } // what its code sees
} // namespace wl
void wl_bringup() {
  using namespace wl;
  BU x;
  bu = &x;
  auto *conn = x.e.ep("walked", [&] {
    Quiet q;
    x.walked("connecting is announced to have finished");
    x.walking = false;
  });
  auto *leave = x.e.ep("leaveStandby", [&] {
    if (x.budget > 0 && chance(20)) {
      --x.budget;
      int k = x.nInits++;
      {
        Quiet q;
        x.running.push_back(k);
      }
      // only an initialisation leaves the state in this workload when one is wanted
      auto *ep = x.e.ep("init" + std::to_string(k), [&x, k] { x.onInit(k, 1, 5); });
      x.e.s->AddInitEntryPoint(ep);
    }
  });
  x.e.em->Subscribe(Smp::Services::IEventManager::SMP_LeaveConnectingId, conn);
  x.budget = (int)range(0, 12);
  x.walking = true;
  for (int i = (int)range(1, 6); i > 0; --i) {
    int n = newOp();
    int what = (int)rnd(5);
    if (!keep(n))
      continue;
    if (what == 0)
      x.addInit();
    else if (what == 1)
      chance(50) ? x.e.s->Publish() : x.e.s->Configure();
    else
      x.add(false);
  }
  if (chance(30))
    x.e.s->Publish();
  if (chance(30))
    x.e.s->Configure();
  // init entry points added during the walk take part in the same initialisation
  auto *merge = x.e.ep("merge", [&] {
    Quiet q;
    x.running.insert(x.running.end(), x.pending.begin(), x.pending.end());
    x.pending.clear();
  });
  x.e.em->Subscribe(Smp::Services::IEventManager::SMP_LeaveConnectingId, merge);
  x.initialise(true);
  x.walking = false;
  bool stby = !x.aborted;
  if (stby) {
    x.e.em->Unsubscribe(Smp::Services::IEventManager::SMP_LeaveConnectingId, merge);
    auto *rec = x.e.ep("reconnected", [&] {
      Quiet q;
      x.walked("reconnecting is announced to have finished");
      x.walking = false;
    });
    x.e.em->Subscribe(Smp::Services::IEventManager::SMP_LeaveReconnectingId, rec);
    for (int i = (int)range(0, 8); i > 0 && !x.aborted; --i) {
      int n = newOp();
      int what = (int)rnd(6);
      x.budget = (int)range(0, 3);
      if (!keep(n))
        continue;
      if (what == 0)
        x.addInit();
      else if (what == 1) {
        bool more = chance(30);
        if (more)
          x.e.em->Subscribe(Smp::Services::IEventManager::SMP_LeaveStandbyId, leave);
        x.initialise(false);
        if (more)
          x.e.em->Unsubscribe(Smp::Services::IEventManager::SMP_LeaveStandbyId, leave);
      } else if (what <= 3)
        x.add(false);
      else {
        // bring up one of those that are not
        std::vector<int> can;
        for (size_t k = 0; k < x.nodes.size(); ++k)
          if (x.nodes[k].parent < 0 || x.nodes[(size_t)x.nodes[k].parent].done[2])
            can.push_back((int)k);
        if (can.empty())
          continue;
        x.root = can[rnd(can.size())];
        for (size_t k = 0; k < x.nodes.size(); ++k)
          if (x.isUnder((int)k, x.root))
            x.nodes[k].must = true;
        x.walking = true;
        log("reconnect n%d", x.root);
        x.e.s->Reconnect(x.nodes[(size_t)x.root].c);
        Quiet q;
        if (x.walking)
          sim::fail("not-announced", "the end of the reconnecting was not announced");
        if (x.e.st() != K::SSK_Standby)
          sim::fail("wrong-state", "%s state after reconnecting", stateName(x.e.st()));
        probe("reconnections");
      }
    }
  }
  x.budget = 0;
  x.exiting = true;
  std::vector<bool> conned;
  for (auto &n : x.nodes)
    conned.push_back(n.done[2]);
  if (stby && !x.aborted && chance(50)) {
    x.e.s->Exit();
    for (size_t i = 0; i < x.nodes.size(); ++i)
      if (conned[i] && x.nodes[i].c->GetState() != C::CSK_Disconnected)
        sim::fail("not-taken-down", "n%d is not disconnected after the exit", (int)i);
      else if (auto *c = dynamic_cast<Xsmp::Component *>(x.nodes[i].c); conned[i] && c && simulatorOf(c))
        sim::fail("not-taken-down", "n%d is disconnected and still has a simulator", (int)i);
  }
  x.e.destroy();
  for (size_t i = 0; i < x.nodes.size(); ++i) {
    auto &n = x.nodes[i];
    if (n.done[3] != (conned[i] ? 1 : 0))
      sim::fail("not-taken-down", "n%d was disconnected %d times", (int)i, n.done[3]);
    for (int p = 0; p < 4; ++p) {
      const auto &w = n.done[p] && x.kindOf[i] < 5 ? *want[x.kindOf[i]][p] : none;
      if (n.calls[p] != w)
        sim::fail("do-functions", "n%d (kind %d): the Do functions were called %d times instead of %d when it was %s", (int)i, x.kindOf[i], (int)n.calls[p].size(), (int)w.size(), phaseName[p]);
    }
  }
  std::istringstream in(errLog());
  std::string l;
  int n = 0, errs = 0;
  while (std::getline(in, l)) {
    n += l.find("|Warning|") != std::string::npos && l.find("Init EntryPoint") != std::string::npos;
    errs += l.find("|Error|") != std::string::npos && l.find("init") != std::string::npos;
  }
  if (n != x.warnings)
    sim::fail("warnings", "%d warnings were logged for %d refused entry points", n, x.warnings);
}

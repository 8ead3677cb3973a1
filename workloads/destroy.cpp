// P10: destroying a simulator in any state of its life, with events pending or
// due, entry points of the wall-clock thread in progress, messages queued,
// links and subscriptions left.
#include "env.h"
#include <Smp/IPublication.h>
#include <Smp/Services/ILinkRegistry.h>
#include <Smp/Services/ILogger.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Model.h>
#include <Xsmp/Simulator.h>
#include <atomic>
#include <cinttypes>
namespace wl {
namespace {
using K = Smp::SimulatorStateKind;
using EM = Smp::Services::IEventManager;
constexpr Smp::Uuid uuid{0x11, 0x20, 0x30, 0x40, 0x50000007};
struct D;
struct World {
  Env *e = nullptr;
  bool destroyed = false, leaving = false, mayExit = false, exitStarted = false;
  std::atomic<bool> exitDone{false}; // tells the other thread
  bool connected = false, exited = false;
  int alive = 0, budget = 60, nlog = 0, failPhase = -1, failId = -1;
  std::vector<D *> models;
  std::vector<std::string> logged;
  std::vector<int> zuluCalls;
};
World *w;
void act(D *m, int which);
struct D : Xsmp::Model, Xsmp::Composite {
  int id;
  std::atomic<int> calls{0};
  bool tidy; // takes back its events and subscriptions when it is destroyed
  Xsmp::Container<Smp::IComponent> kids;
  Xsmp::EventSource<int32_t> source;
  Xsmp::EventSink<int32_t> sink;
  Xsmp::EntryPoint ep0, ep1, ep2;
  Smp::Services::ILogger *lg = nullptr;
  Smp::Services::IScheduler *sch = nullptr;
  Smp::Services::IEventManager *em = nullptr;
  std::vector<EventId> ids;
  D(int i, const char *n, Smp::IObject *parent, bool t)
      : Xsmp::Model(n, "", dynamic_cast<Smp::IComposite *>(parent)), id(i), tidy(t), kids("kids", "", static_cast<Xsmp::Composite *>(this), 0, -1),
        source("source", "", static_cast<Xsmp::Composite *>(this), Smp::PrimitiveTypeKind::PTK_Int32), sink("sink", "", static_cast<Xsmp::Composite *>(this), [this](Smp::IObject *, int32_t) { ++calls; }, Smp::PrimitiveTypeKind::PTK_Int32),
        ep0("ep0", "", static_cast<Xsmp::Composite *>(this), [this] { act(this, 0); }), ep1("ep1", "", static_cast<Xsmp::Composite *>(this), [this] { act(this, 1); }),
        ep2("ep2", "", static_cast<Xsmp::Composite *>(this), [this] { act(this, 2); }) {
    Quiet q;
    ++w->alive;
    w->models.push_back(this);
  }
  ~D() override {
    {
      Quiet q;
      log("model %d destroyed", id);
      --w->alive;
    }
    if (tidy && em) {
      // its services are still there
      for (auto ev : ids)
        outcome([&] { sch->RemoveEvent(ev); });
      for (auto *ep : {&ep0, &ep1, &ep2})
        outcome([&] { em->Unsubscribe(EM::SMP_EnterAbortingId, ep); });
    }
  }
  void phase(int ph) {
    if (w->failPhase == ph && w->failId == id) {
      Quiet q;
      probe("phase failed");
      throw std::runtime_error("phase");
    }
  }
  void Publish(Smp::IPublication *r) override {
    Xsmp::Model::Publish(r);
    phase(0);
  }
  void Configure(Smp::Services::ILogger *l, Smp::Services::ILinkRegistry *k) override {
    Xsmp::Model::Configure(l, k);
    phase(1);
  }
  void Connect(Smp::ISimulator *s) override {
    Xsmp::Model::Connect(s);
    lg = s->GetLogger();
    sch = s->GetScheduler();
    em = s->GetEventManager();
    phase(2);
  }
  Smp::IEventSource *src() { return &source; }
  const Smp::Uuid &GetUuid() const override { return uuid; }
};
Xsmp::EntryPoint *ep(D *m, int k) { return k == 0 ? &m->ep0 : k == 1 ? &m->ep1 : &m->ep2; }
i64 zulu() { return real() - 946728000 * SEC; }
D *anyModel() { return w->models[rnd(w->models.size())]; }
void message(const Smp::IObject *from) {
  std::string text;
  {
    Quiet q;
    text = "m" + std::to_string(w->nlog++) + ".";
    log("log %s", text.c_str());
  }
  w->e->log->Log(from, text.c_str(), (int)(w->nlog % 5));
  Quiet q;
  w->logged.push_back(text);
}
void wallEvent(D *m) {
  i64 d;
  int cyc, k;
  {
    Quiet q;
    d = chance(50) ? (i64)rnd(2 * MS) : (i64)rnd(200000);
    cyc = chance(30) ? (int)rnd(3) : 0;
    k = (int)rnd(3);
    log("wall-clock event in %" PRId64 " x%d", d, cyc + 1);
  }
  EventId id = -1;
  // it may be in the past before it is posted
  if (outcome([&] { id = w->e->sch->AddZuluTimeEvent(ep(m, k), w->e->tk->GetZuluTime() + d, 100000 + d, cyc); }).empty()) {
    Quiet q;
    m->ids.push_back(id);
  }
}
struct Failure {};
void use(D *m, bool inEp) {
  int k, n, x;
  {
    Quiet q;
    if (--w->budget < 0)
      return;
    k = (int)rnd(12);
    n = (int)range(1, 4);
    x = (int)rnd(3);
  }
  Env &e = *w->e;
  switch (k) {
  case 0: case 1:
    for (int i = 0; i < n; ++i)
      message(m);
    break;
  case 2: case 3:
    wallEvent(m);
    break;
  case 4: {
    EventId id = x == 0 ? e.sch->AddImmediateEvent(ep(m, n % 3)) : e.sch->AddSimulationTimeEvent(ep(m, n % 3), (i64)n * 100000, 100000, x == 1 ? 1 : 0);
    Quiet q;
    m->ids.push_back(id);
    break;
  }
  case 5:
    outcome([&] { e.em->Subscribe(x == 0 ? EM::SMP_EnterExitingId : x == 1 ? EM::SMP_EnterAbortingId : EM::SMP_LeaveStandbyId, ep(m, n % 3)); });
    break;
  case 6: {
    EventId id = e.em->QueryEventId(x ? "a" : "b");
    outcome([&] { e.em->Subscribe(id, ep(m, n % 3)); });
    if (!inEp)
      e.em->Emit(id);
    break;
  }
  case 7: {
    D *o;
    {
      Quiet q;
      o = anyModel();
    }
    if (x)
      e.lr->AddLink(m, o);
    else
      e.lr->RemoveLink(m, o);
    break;
  }
  case 8:
    e.tk->GetEpochTime();
    e.tk->SetMissionStartTime(n);
    break;
  case 9:
    sleepNs((i64)n * (x ? 1000 : 300000));
    break;
  case 10:
    if (inEp && n == 1) {
      {
        Quiet q;
        log("fails");
        probe("failing entry point");
      }
      if (x == 0)
        throw Failure{};
      else if (x == 1)
        throw std::runtime_error("failed");
      else
        e.s->Abort();
    }
    break;
  default:
    if (inEp)
      e.s->Hold(x == 0);
  }
}
void act(D *m, int which) {
  int n;
  bool exits = false;
  {
    Quiet q;
    if (w->destroyed)
      fail("after-destruction", "an entry point was called after the destruction");
    log("entry point %d.%d in %s", m->id, which, stateName(w->e->st()));
    n = (int)rnd(3);
    if (w->mayExit && self() != 0 && !w->leaving && !w->exitStarted && w->e->st() == K::SSK_Standby)
      exits = w->exitStarted = true;
  }
  ++m->calls;
  if (exits) {
    w->e->s->Exit();
    {
      Quiet q;
      log("exit called");
      probe("exit by a wall-clock event");
      n = (int)rnd(4);
    }
    w->exitDone = true;
    if (n == 0)
      throw Failure{};
    if (n == 1)
      sleepNs(50000);
    ++m->calls;
    return;
  }
  for (; n > 0; --n)
    use(m, true);
  ++m->calls;
}
const char *cfg = "log.rootLogger=f\nlog.appender.f=FileAppender\nlog.appender.f.File=all.log\n"
                  "log.appender.f.layout=PatternLayout\nlog.appender.f.layout.conversionPattern=%m%n\n";
} // namespace
} // namespace wl
using namespace wl;
void wl_destroy() {
  World world;
  w = &world;
  {
    Quiet q;
    captureStreams();
    world.models.reserve(64);
    world.logged.reserve(512);
  }
  // another simulator in the same process, not affected by the destruction
  std::unique_ptr<Env> other;
  std::atomic<int> otherRuns{0};
  if (chance(25)) {
    other = std::make_unique<Env>("log.rootLogger=f\nlog.appender.f=FileAppender\nlog.appender.f.File=other.log\n"
                                  "log.appender.f.layout=PatternLayout\nlog.appender.f.layout.conversionPattern=%m%n\n");
    other->s->Publish();
    other->s->Configure();
    other->s->Connect();
    auto *ep = other->ep("other", [&otherRuns] { ++otherRuns; });
    other->sch->AddSimulationTimeEvent(ep, MS, MS, 2);
    i64 d = (i64)rnd(5 * MS) + MS;
    while (!outcome([&] { other->sch->AddZuluTimeEvent(ep, other->tk->GetZuluTime() + d); }).empty()) {
    }
  }
  {
    Env e(cfg);
    world.e = &e;
    auto *models = dynamic_cast<Xsmp::Container<Smp::IModel> *>(e.s->GetContainer("Models"));
    if (!models)
      fail("internal", "no models");
    int nm = (int)range(1, 4);
    for (int i = 0; i < nm; ++i) {
      auto name = "m" + std::to_string(i);
      D *parent = i && chance(50) ? anyModel() : nullptr;
      auto *m = new D(i, name.c_str(), parent ? (Smp::IObject *)static_cast<Xsmp::Composite *>(parent) : e.s, chance(60));
      if (parent)
        parent->kids.AddComponent(m);
      else
        e.s->AddModel(m);
    }
    for (int i = (int)rnd(4); i > 0; --i) {
      D *a = anyModel(), *b = anyModel();
      outcome([&] { a->source.Subscribe(&b->sink); });
    }
    if (chance(15)) {
      world.failPhase = (int)rnd(3);
      world.failId = (int)rnd(nm);
    }
    // the state in which it is going to be destroyed
    enum { CREATED, PUBLISHED, CONFIGURED, CONNECTED };
    int until = chance(75) ? CONNECTED : (int)rnd(3);
    bool ok = true;
    if (ok && until >= PUBLISHED && chance(70))
      ok = outcome([&] { e.s->Publish(); }).empty();
    if (ok && until >= CONFIGURED && chance(70))
      ok = outcome([&] { e.s->Configure(); }).empty();
    if (ok && until >= CONNECTED)
      ok = outcome([&] { e.s->Connect(); }).empty();
    world.connected = ok && e.st() == K::SSK_Standby;
    for (int i = (int)rnd(4); i > 0; --i)
      message(anyModel());
    std::atomic<int> exiting{0}, aborting{0};
    e.em->Subscribe(EM::SMP_EnterExitingId, e.ep("exiting", [&exiting] { ++exiting; }));
    e.em->Subscribe(EM::SMP_EnterAbortingId, e.ep("aborting", [&aborting] { ++aborting; }));
    if (world.connected) {
      int threads = (int)rnd(3);
      struct Op {
        int id, thread, model;
      };
      std::vector<Op> ops;
      for (int i = (int)range(0, 16); i > 0; --i)
        ops.push_back({newOp(), (int)rnd(threads + 1), (int)rnd(nm)});
      for (int i = (int)rnd(4); i > 0; --i)
        wallEvent(anyModel());
      std::vector<int> th;
      for (int t = 1; t <= threads; ++t)
        th.push_back(spawn([&, t] {
          for (const auto &o : ops)
            if (o.thread == t && keep(o.id))
              use(world.models[o.model], false);
        }));
      for (const auto &o : ops)
        if (o.thread == 0 && keep(o.id)) {
          use(world.models[o.model], false);
          if (chance(25))
            e.s->Run((i64)range(1, 8) * 100000);
        }
      // the services are not used by other threads any more
      for (int t : th)
        join(t);
      if (chance(10))
        outcome([&] { e.s->Store("state"); });
      if (chance(15))
        e.s->Abort();
      int how = (int)rnd(4);
      if (how == 0 && e.st() == K::SSK_Standby) {
        e.s->Exit();
      } else if (how == 1) {
        wallEvent(anyModel());
        world.mayExit = true;
        for (int i = 0; i < 20 && !world.exitDone; ++i)
          sleepNs(MS / 4);
        world.leaving = true;
        while (world.exitStarted && !world.exitDone)
          sleepNs(MS / 4);
      } else if (how == 2)
        sleepNs((i64)rnd(2 * MS));
      world.leaving = true;
      probe(stateName(e.st()));
    } else {
      if (chance(20))
        e.s->Abort();
      probe(stateName(e.st()));
    }
    bool standby = e.st() == K::SSK_Standby;
    log("destroyed in %s", stateName(e.st()));
    uint64_t from = steps();
    i64 t0 = mono(), i0 = injected();
    e.destroy();
    world.destroyed = true;
    if (mono() - t0 - (injected() - i0) > 100 * MS || steps() - from > 300000)
      fail("late", "the destruction took %" PRId64 " ns, %" PRIu64 " steps", mono() - t0, steps() - from);
    // left in good order, unless a failure comes before
    if (exiting > 1 || aborting > 1 || (standby && !exiting && !aborting))
      fail("announcement", "%d announcements of the exit, %d of an abort", exiting.load(), aborting.load());
    if (liveThreads() != (other ? 3 : 1))
      fail("threads", "%d threads after the destruction", liveThreads());
    if (world.alive)
      fail("models", "%d models left", world.alive);
    if (fs::openHandles() != (other ? 1 : 0))
      fail("handles", "%d files open", fs::openHandles());
    std::string text = fs::readFile("all.log");
    for (const auto &m : world.logged) {
      size_t at = text.find(m), n = 0;
      for (; at != std::string::npos; at = text.find(m, at + 1))
        n += at == 0 || text[at - 1] == '\n';
      if (n != 1)
        fail("messages", "message %s is %zu times in the log", m.c_str(), n);
    }
    sleepNs(20 * MS);
  }
  if (other) {
    other->log->Log(other->s, "still there", 0);
    other->s->Run(5 * MS);
    sleepNs(10 * MS);
    settle();
    if (otherRuns != 4)
      fail("other", "the events of another simulator ran %d times", otherRuns.load());
    other->destroy();
    if (liveThreads() != 1)
      fail("threads", "%d threads after the destruction", liveThreads());
    if (fs::readFile("other.log").find("still there\n") == std::string::npos)
      fail("other", "the message of another simulator is not in its log");
    probe("another simulator");
  }
}

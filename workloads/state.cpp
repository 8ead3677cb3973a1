// P19: the state machine of the simulator. Every operation, also when called
// from handlers, entry points and initialisation entry points, against a
// reference machine.
#include "model.h"
#include <Smp/Services/ILogger.h>
#include <Xsmp/Service.h>
namespace wl {
namespace {
using K = Smp::SimulatorStateKind;
enum Ev { LConn = 1, EInit, LInit, EStby, LStby, EExec, LExec, EStor, LStor, ERest, LRest, EExit, EAbrt, EReco = 16, LReco = 17 };
const int EVS[] = {LConn, EInit, LInit, EStby, LStby, EExec, LExec, EStor, LStor, ERest, LRest, EExit, EAbrt, EReco, LReco};
const char *evName(int e) {
  switch (e) {
  case LConn: return "LeaveConnecting";
  case EInit: return "EnterInitialising";
  case LInit: return "LeaveInitialising";
  case EStby: return "EnterStandby";
  case LStby: return "LeaveStandby";
  case EExec: return "EnterExecuting";
  case LExec: return "LeaveExecuting";
  case EStor: return "EnterStoring";
  case LStor: return "LeaveStoring";
  case ERest: return "EnterRestoring";
  case LRest: return "LeaveRestoring";
  case EExit: return "EnterExiting";
  case EAbrt: return "EnterAborting";
  case EReco: return "EnterReconnecting";
  case LReco: return "LeaveReconnecting";
  }
  return "?";
}
bool isLeave(int e) { return e == LConn || e == LInit || e == LStby || e == LExec || e == LStor || e == LRest || e == LReco; }
enum Op { oPublish, oConfigure, oConnect, oInit, oRun, oHold, oHoldDef, oStore, oRestore, oReco, oExit, oAbort, oAddInit, oAddModel, oAddService, NOP };
const char *opName(int o) {
  static const char *n[] = {"Publish", "Configure", "Connect", "Initialise", "Run", "Hold(true)", "Hold(false)", "Store", "Restore", "Reconnect", "Exit", "Abort", "AddInitEntryPoint", "AddModel", "AddService"};
  return n[o];
}
struct Step {
  enum { Emit, Cas, Inits } kind;
  int ev;
  K from, to;
};
struct Frame {
  int op;
  bool internal = false;
  std::vector<Step> steps;
  size_t pc = 0;
  int ev = -1; // the emission in progress
  std::vector<int> todo;
  size_t pos = 0;
  bool inits = false;
  std::vector<int> initTodo;
  size_t initPos = 0;
  bool fits = true; // the file is of the components there are when it is read
};
struct XSvc : Xsmp::Service {
  using Xsmp::Service::Service;
  const Smp::Uuid &GetUuid() const override { return uuidPair; }
};
struct SM {
  Env e;
  TModel *m = nullptr;
  K st = K::SSK_Building;
  std::vector<Frame> frames;
  std::map<int, std::vector<int>> subs; // event -> handlers (entry points of m)
  int nh = 0, evOf[64], budget = 6, warnings = 0, abortSeen = 0, abortMust = 0;
  int nextModel = 0, stored = -1, count = 0;
  std::vector<int> initPending;
  bool aborted = false, exited = false;
  explicit SM(const char *cfg) : e(cfg) {}
  int handler(int ev) {
    evOf[nh] = ev;
    return nh++;
  }
  const char *ctx() {
    static char b[200];
    snprintf(b, sizeof b, "%s", frames.empty() ? "top level" : opName(frames.back().op));
    return b;
  }
  int last() {
    for (auto it = frames.rbegin(); it != frames.rend(); ++it)
      if (it->ev >= 0)
        return it->ev;
    return -1;
  }
  bool allowed(int op) {
    bool stby = st == K::SSK_Standby && last() != LStby;
    switch (op) {
    case oPublish: case oConfigure: case oConnect: return st == K::SSK_Building;
    case oInit: case oStore: case oRestore: case oReco: case oExit: return stby;
    case oRun: return stby && last() != EStby;
    case oHold: case oHoldDef: return st == K::SSK_Executing && last() != LExec;
    case oAbort: return st != K::SSK_Aborting;
    default: return st == K::SSK_Building || st == K::SSK_Connecting || st == K::SSK_Standby;
    }
  }
  std::vector<Step> steps(int op) {
    auto mid = [](int enter, K state, int leave) {
      return std::vector<Step>{{Step::Emit, LStby, {}, {}}, {Step::Cas, enter, K::SSK_Standby, state}, {Step::Emit, leave, {}, {}}, {Step::Cas, EStby, state, K::SSK_Standby}};
    };
    switch (op) {
    case oConnect:
      return {{Step::Emit, LConn, {}, {}}, {Step::Cas, EInit, K::SSK_Connecting, K::SSK_Initialising}, {Step::Inits, 0, {}, {}}, {Step::Emit, LInit, {}, {}}, {Step::Cas, EStby, K::SSK_Initialising, K::SSK_Standby}};
    case oInit:
      return {{Step::Emit, LStby, {}, {}}, {Step::Cas, EInit, K::SSK_Standby, K::SSK_Initialising}, {Step::Inits, 0, {}, {}}, {Step::Emit, LInit, {}, {}}, {Step::Cas, EStby, K::SSK_Initialising, K::SSK_Standby}};
    case oRun: return {{Step::Emit, LStby, {}, {}}, {Step::Cas, EExec, K::SSK_Standby, K::SSK_Executing}};
    case oHold: return {{Step::Emit, LExec, {}, {}}, {Step::Cas, EStby, K::SSK_Executing, K::SSK_Standby}};
    case oStore: return mid(EStor, K::SSK_Storing, LStor);
    case oRestore: return mid(ERest, K::SSK_Restoring, LRest);
    case oReco: return mid(EReco, K::SSK_Reconnecting, LReco);
    case oExit: return {{Step::Emit, LStby, {}, {}}, {Step::Cas, EExit, K::SSK_Standby, K::SSK_Exiting}};
    default: return {};
    }
  }
  void emit(Frame &f, int ev) {
    f.ev = ev;
    f.todo = subs[ev];
    f.pos = 0;
  }
  // to the next thing that can be observed; false: the operation is over
  bool next(Frame &f) {
    for (;;) {
      if (f.ev >= 0) {
        if (f.pos < f.todo.size())
          return true;
        if (f.op == oRun && f.ev == EExec)
          return false; // the scheduler executes from here on
        f.ev = -1;
      }
      if (f.inits) {
        if (f.initPos < f.initTodo.size())
          return true;
        f.inits = false;
      }
      if (f.pc >= f.steps.size())
        return false;
      auto s = f.steps[f.pc++];
      if (s.kind == Step::Emit) {
        if (s.ev == LStor)
          stored = count; // the file is complete
        if (s.ev == LRest)
          f.fits = stored == count;
        emit(f, s.ev);
      }
      else if (s.kind == Step::Inits) {
        f.inits = true;
        f.initTodo.swap(initPending);
      } else {
        if (st != s.from) {
          f.pc = f.steps.size();
          return false;
        }
        st = s.to;
        emit(f, s.ev);
      }
    }
  }
  void checkState(const char *what) {
    if (e.st() != st)
      sim::fail("wrong-state", "%s: the simulator is in %s state instead of %s", what, stateName(e.st()), stateName(st));
  }
  void popInternal() {
    while (!frames.empty() && frames.back().internal && !next(frames.back()))
      frames.pop_back();
  }
  void onCall(int h) {
    int ev = evOf[h];
    {
      Quiet q;
      log("handler %d of %s in %s", h, evName(ev), stateName(e.st()));
      if (aborted) {
        if (e.st() != K::SSK_Aborting)
          sim::fail("wrong-state", "%s was announced in %s state after an abort", evName(ev), stateName(e.st()));
        bool open = isLeave(ev);
        for (auto &f : frames)
          open |= f.ev == ev;
        if (ev == EAbrt)
          ++abortSeen;
        else if (!open)
          sim::fail("unexpected-event", "%s was announced after an abort", evName(ev));
      } else {
        popInternal();
        if (frames.empty())
          sim::fail("unexpected-event", "%s was announced outside of any operation", evName(ev));
        if (!next(frames.back())) {
          auto &f = frames.back();
          if (f.op == oRun && f.ev == EExec && ev == LExec && st == K::SSK_Executing) {
            // the end of the run or a deferred hold
            Frame g;
            g.op = oHold;
            g.internal = true;
            g.steps = steps(oHold);
            frames.push_back(g);
            next(frames.back());
          } else
            sim::fail("unexpected-event", "%s was announced, %s had nothing more to announce", evName(ev), opName(f.op));
        }
        auto &f = frames.back();
        if (f.ev != ev || f.todo[f.pos] != h)
          sim::fail("wrong-event", "%s announces %s to handler %d, expected was %s to handler %d", opName(f.op), evName(ev), h, f.ev >= 0 ? evName(f.ev) : "an initialisation entry point",
                    f.ev >= 0 ? f.todo[f.pos] : -1);
        ++f.pos;
        char b[80];
        snprintf(b, sizeof b, "handler of %s", evName(ev));
        checkState(b);
      }
    }
    probe("announcements");
    act();
  }
  void onInit(int k) {
    {
      Quiet q;
      log("init entry point %d", k);
      if (!aborted) {
        popInternal();
        if (frames.empty() || !next(frames.back()) || !frames.back().inits || frames.back().initTodo[frames.back().initPos] != k)
          sim::fail("init-order", "initialisation entry point %d was called unexpectedly", k);
        ++frames.back().initPos;
        checkState("initialisation entry point");
      }
    }
    probe("initialisation entry points");
    act();
  }
  void onScheduled() {
    {
      Quiet q;
      log("scheduled entry point");
      popInternal();
      if (aborted)
        sim::fail("executed-after-abort", "an entry point was called after the abort");
      if (frames.empty() || frames.back().op != oRun || next(frames.back()))
        sim::fail("executed-early", "a scheduled entry point was called while %s was being announced", frames.empty() ? "nothing" : evName(frames.back().ev));
      if (st != K::SSK_Executing)
        sim::fail("executed-late", "a scheduled entry point was called in %s state", stateName(st));
      checkState("scheduled entry point");
    }
    probe("scheduled entry points");
    act();
  }
  // one random operation from here
  void act() {
    if (budget <= 0 || !chance(35))
      return;
    --budget;
    int n = newOp();
    int o = (int)rnd(NOP);
    if (o == oAbort && chance(50))
      o = oStore;
    if (st == K::SSK_Executing && chance(50))
      o = chance(50) ? oHold : oHoldDef;
    if (st == K::SSK_Standby && chance(30))
      o = oExit;
    if (!keep(n))
      return;
    if (o == oRun && allowed(oRun))
      return; // a run from inside a run is not judged
    probe("operations from inside");
    op(o);
  }
  void op(int o) {
    bool ok = allowed(o);
    int warn = ok || o == oAddModel || o == oAddService || o == oAbort ? 0 : 1;
    bool judged = !aborted;
    size_t depth = 0;
    {
      Quiet q;
      log("%s (%s)", opName(o), ok ? "allowed" : "refused");
      warnings += warn;
      if (o == oConnect && ok)
        st = K::SSK_Connecting;
      depth = frames.size();
      Frame f;
      f.op = o;
      if (ok)
        f.steps = steps(o);
      frames.push_back(f);
      if (o == oAbort && ok) {
        exited = st == K::SSK_Exiting;
        st = K::SSK_Aborting;
        aborted = true;
        abortMust = (int)subs[EAbrt].size();
        judged = false;
      }
      if (!ok)
        probe("refused");
    }
    int k = 0;
    auto got = outcome([&] {
      switch (o) {
      case oPublish: e.s->Publish(); break;
      case oConfigure: e.s->Configure(); break;
      case oConnect: e.s->Connect(); break;
      case oInit: e.s->Initialise(); break;
      case oRun: e.s->Run((i64)(count % 7) * MS); break;
      case oHold: e.s->Hold(true); break;
      case oHoldDef: e.s->Hold(false); break;
      case oStore: e.s->Store("st"); break;
      case oRestore: e.s->Restore("st"); break;
      case oReco: e.s->Reconnect(m); break;
      case oExit: e.s->Exit(); break;
      case oAbort: e.s->Abort(); break;
      case oAddInit: {
        Xsmp::EntryPoint *ep;
        {
          Quiet q;
          k = (int)e.eps.size();
          if (ok)
            initPending.push_back(k);
        }
        ep = e.ep("init" + std::to_string(k), [this, k] { onInit(k); });
        e.s->AddInitEntryPoint(ep);
        break;
      }
      case oAddModel: case oAddService: {
        char name[16];
        snprintf(name, sizeof name, "x%d", nextModel++);
        if (o == oAddModel) {
          auto *x = new TModel(name, e.s, e.s->GetTypeRegistry(), 1, 2, [](TModel *, int) {});
          try {
            e.s->AddModel(x);
            ++count;
          } catch (...) {
            delete x;
            throw;
          }
        } else {
          auto *x = new XSvc(name, "", e.s, e.s);
          try {
            e.s->AddService(x);
            ++count;
          } catch (...) {
            delete x;
            throw;
          }
        }
        break;
      }
      }
    });
    Quiet q;
    log("%s returned %s", opName(o), got.c_str());
    if (judged && !aborted) {
      popInternal();
      if (frames.size() != depth + 1)
        sim::fail("unexpected-event", "%s returned in the middle of another operation", opName(o));
      auto &f = frames.back();
      if (next(f))
        sim::fail("missing-event", "%s returned without %s", opName(o), f.inits && f.ev < 0 ? "an initialisation entry point" : (std::string("announcing ") + evName(f.ev)).c_str());
      std::string want;
      if ((o == oAddModel || o == oAddService) && !ok)
        want = "Smp:InvalidSimulatorState";
      if (o == oRestore && ok && !f.fits)
        want = "Smp:CannotRestore";
      if (got != want)
        sim::fail("wrong-result", "%s in %s state gave '%s' instead of '%s'", opName(o), stateName(st), got.c_str(), want.c_str());
      if (o == oRun && ok && st == K::SSK_Executing)
        sim::fail("missing-event", "the run returned without having left the Executing state");
      checkState(opName(o));
    } else if (e.st() != K::SSK_Aborting)
      sim::fail("wrong-state", "%s state after an abort", stateName(e.st()));
    frames.resize(depth);
  }
};
} // namespace
} // namespace wl

void wl_state() {
  using namespace wl;
  SM x(errLogConfig);
  int H = 0;
  int many[64];
  for (int ev : EVS) {
    many[ev] = (int)range(1, 2);
    H += many[ev];
  }
  registerTypes(x.e.s->GetTypeRegistry());
  int sched = H, total = H + 2;
  x.m = new TModel("obs", x.e.s, x.e.s->GetTypeRegistry(), total, 3, [&x, sched](TModel *, int k) {
    if (k < sched)
      x.onCall(k);
    else
      x.onScheduled();
  });
  x.e.s->AddModel(x.m);
  // some handlers are registered before the services are connected
  std::vector<int> late;
  for (int ev : EVS)
    for (int i = 0; i < many[ev]; ++i) {
      int h = x.handler(ev);
      if (chance(60) || ev == LConn || ev == EInit || ev == LInit) {
        x.e.em->Subscribe(ev, x.m->eps[(size_t)h].get());
        x.subs[ev].push_back(h);
      } else
        late.push_back(h);
    }
  x.budget = 2;
  for (int i = (int)range(0, 4); i > 0; --i) {
    int n = newOp();
    int o = (int)rnd(NOP);
    if (o == oConnect || o == oAbort)
      o = chance(50) ? oPublish : oAddInit;
    if (keep(n))
      x.op(o);
  }
  x.op(oConnect);
  x.budget = 6;
  if (x.st == K::SSK_Standby)
    for (int h : late) {
      x.e.em->Subscribe(x.evOf[h], x.m->eps[(size_t)h].get());
      x.subs[x.evOf[h]].push_back(h);
    }
  x.stored = -1; // a state stored before the last subscription is not used
  fs::remove("st/simulator.bin");
  for (int i = (int)range(2, 9); i > 0; --i) {
    int n = newOp();
    int o = (int)rnd(NOP);
    if ((o == oAbort || o == oExit || o == oAddModel || o == oAddService) && chance(60))
      o = oRun;
    bool post = chance(60);
    i64 at = range(0, 6) * MS, rep = range(0, 2);
    int ep = sched + (int)rnd(2);
    if (!keep(n))
      continue;
    if (post && x.st == K::SSK_Standby)
      x.e.sch->AddSimulationTimeEvent(x.m->eps[(size_t)ep].get(), at, MS, rep);
    x.op(o);
  }
  bool ab = x.aborted;
  // all are disconnected after an exit: an abort is announced to all or to none
  if (ab && x.abortSeen != x.abortMust && !(x.exited && !x.abortSeen))
    sim::fail("abort-announced", "the abort was announced to %d of %d handlers", x.abortSeen, x.abortMust);
  if (!ab) {
    // still usable
    if (x.st == K::SSK_Standby) {
      x.budget = 0;
      for (int o : {oInit, oRun, oStore, oRestore, oReco})
        x.op(o);
      probe("usable at the end");
    } else if (x.st != K::SSK_Exiting)
      sim::fail("wrong-state", "the simulator was left in %s state", stateName(x.st));
    x.budget = 0;
  }
  int warnings = x.warnings;
  if (!x.aborted) {
    // the destructor leaves the Standby state with an Exit
    Frame f;
    f.op = oExit;
    if (x.st == K::SSK_Standby)
      f.steps = x.steps(oExit);
    x.frames.push_back(f);
  }
  x.e.destroy();
  if (!x.aborted && x.next(x.frames.back()))
    sim::fail("missing-event", "the simulator was destroyed without announcing %s", evName(x.frames.back().ev));
  std::istringstream in(errLog());
  std::string l;
  int n = 0;
  while (std::getline(in, l))
    n += l.find("|Warning|") != std::string::npos && (l.find("Could not") != std::string::npos || l.find("Unable to Add") != std::string::npos);
  if (n != warnings)
    sim::fail("warnings", "%d warnings were logged for %d refused operations", n, warnings);
}

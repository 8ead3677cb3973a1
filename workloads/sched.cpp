// Sequential scheduler semantics: random programs of entry points, checked
// online against an executable reference model of the scheduler.
#include "env.h"
using namespace wl;
namespace {
enum Kind { K_SIM, K_MISSION, K_EPOCH };
enum Act {
  A_ADD_SIM, A_ADD_IMM, A_ADD_MISSION, A_ADD_EPOCH, A_REMOVE, A_TIME, A_CYCLE, A_REPEAT, A_HOLD_IMM, A_HOLD_DEF,
  A_SET_EPOCH, A_SET_MISSION, A_SET_MSTART, A_SELF_TIME, A_SELF_REMOVE, A_SELF_REPEAT, A_ADD_BAD, A_NACT
};
struct Profile {
  int w[A_NACT];
  int imm;    // percent of phases that end with Hold events instead of Run(d)
  int mem;    // percent of calls that run out of memory
};
struct Action {
  int op;      // minimiser handle
  int act;
  unsigned sel; // target selector
  i64 dt, cycle, rep;
  int prog;
  int onExec; // -1 always, else only at that execution number
  int mem = -1; // allocations until the memory runs out
};
struct Inst {
  int seq;
  EventId id = -1;
  int kind = K_SIM;
  i64 t = 0, time = 0, cycle = 0, rep = 0;
  bool alive = false, immediate = false, retimedNow = false, isProtected = false;
  bool selfRemoved = false, selfRetimed = false;
  int prog = -1;
  int execs = 0;
  Xsmp::EntryPoint *ep = nullptr;
};
struct W {
  Env e;
  std::vector<std::vector<Action>> progs;
  std::deque<Inst> inst;
  std::deque<int> immQ;
  i64 S = 0, estart = 0, mstart = 0;
  bool executing = false, held = false, holdDef = false;
  int current = -1;
  int total = 0;
  i64 runEnd = -1; // end of a timed run
  int mem = -1;    // of the action being executed
  bool hit = false;
  i64 epoch() const { return S - estart; }
  i64 mission() const { return S - estart - mstart; }
  bool skippable(const Inst &x) const {
    return (x.kind == K_EPOCH && x.time < epoch()) || (x.kind == K_MISSION && x.time < mission());
  }
  void advance(Inst &x) { // after an execution or a skip
    if (x.rep == 0) {
      x.alive = false;
      return;
    }
    if (x.rep > 0)
      --x.rep;
    x.t += x.cycle;
    x.time += x.cycle;
    x.immediate = false;
    x.retimedNow = false;
  }
  i64 minTime() const {
    i64 m = INT64_MAX;
    for (auto &x : inst)
      if (x.alive && !x.immediate && x.seq != current && x.t < m)
        m = x.t;
    return m;
  }
  // events of the instant S whose turn has come and which must be skipped
  void skipBefore(int seq) {
    for (bool again = true; again;) {
      again = false;
      for (auto &x : inst)
        if (x.alive && !x.immediate && x.t == S && (seq < 0 || x.seq < seq || x.retimedNow) && skippable(x) &&
            x.seq != current) {
          probe("skipped");
          advance(x);
          again = true;
        }
    }
  }
  void onExec(Inst &x);
  void act(const Action &a, Inst *selfEv);
  Inst *target(unsigned sel) {
    if (inst.empty())
      return nullptr;
    // prefer live events
    std::vector<Inst *> live;
    for (auto &x : inst)
      if (x.alive && !x.isProtected)
        live.push_back(&x);
    if (!live.empty() && sel % 8 != 7)
      return live[(sel / 8) % live.size()];
    Inst *x = &inst[(sel / 8) % inst.size()];
    return x->isProtected ? nullptr : x;
  }
  Inst *post(int kind, i64 when, i64 cycle, i64 rep, int prog, bool imm);
  void checkTimes(const char *at);
  // an id that was never handed out
  EventId unknownId(unsigned sel) {
    if (executing) // a timed run and a deferred hold end with events as well
      return 987654;
    EventId top = 0;
    for (auto &x : inst)
      top = std::max(top, x.id);
    for (EventId id = top + 1 - (EventId)(sel % 5);; ++id) {
      bool used = id < 1;
      for (auto &x : inst)
        used |= x.id == id;
      if (!used)
        return id;
    }
  }
};
void W::checkTimes(const char *at) {
  if (e.tk->GetSimulationTime() != S)
    fail("sim-time", "%s: simulation time is %lld, the model says %lld", at, (long long)e.tk->GetSimulationTime(),
         (long long)S);
  if (e.tk->GetEpochTime() != epoch() || e.tk->GetMissionTime() != mission())
    fail("time-base", "%s: epoch %lld (expected %lld), mission %lld (expected %lld)", at,
         (long long)e.tk->GetEpochTime(), (long long)epoch(), (long long)e.tk->GetMissionTime(),
         (long long)mission());
}
Inst *W::post(int kind, i64 when, i64 cycle, i64 rep, int prog, bool imm) {
  if (inst.size() >= 60)
    return nullptr;
  inst.emplace_back();
  Inst &x = inst.back();
  x.seq = (int)inst.size() - 1;
  x.kind = kind;
  x.cycle = cycle;
  x.rep = rep;
  x.prog = prog;
  x.immediate = imm;
  Inst *px = &x;
  x.ep = e.ep("e" + std::to_string(x.seq), [this, px] { onExec(*px); });
  std::string exp, got;
  if (imm) {
    x.t = x.time = S;
    x.cycle = x.rep = 0;
    got = scarce(mem, hit, [&] { x.id = e.sch->AddImmediateEvent(x.ep); });
  } else {
    bool past = kind == K_SIM ? when < 0 : kind == K_MISSION ? when < mission() : when < epoch();
    bool badCycle = rep != 0 && cycle <= 0;
    x.time = kind == K_SIM ? S + when : when;
    x.t = kind == K_SIM ? S + when : kind == K_MISSION ? S + when - mission() : S + when - epoch();
    got = scarce(mem, hit, [&] {
      x.id = kind == K_SIM       ? e.sch->AddSimulationTimeEvent(x.ep, when, cycle, rep)
             : kind == K_MISSION ? e.sch->AddMissionTimeEvent(x.ep, when, cycle, rep)
                                 : e.sch->AddEpochTimeEvent(x.ep, when, cycle, rep);
    });
    if ((past || badCycle) && !outOfMemory(hit, got)) {
      bool ok = (past && got == "InvalidEventTime") || (badCycle && got == "InvalidCycleTime");
      if (!ok)
        fail("refusal", "posting an event %s%s gave '%s'", past ? "in the past" : "", badCycle ? " with a bad cycle time" : "",
             got.c_str());
      probe("refused");
      log("post #%d refused %s", x.seq, got.c_str());
      return nullptr;
    }
  }
  if (outOfMemory(hit, got)) {
    probe("post without memory");
    log("post #%d refused: %s", x.seq, got.c_str());
    return nullptr;
  }
  if (got != "")
    fail("refusal", "posting event #%d failed: %s", x.seq, got.c_str());
  for (auto &y : inst)
    if (&y != &x && y.id == x.id)
      fail("id-reused", "event id %lld given twice", (long long)x.id);
  x.alive = true;
  log("post #%d id=%lld kind=%d t=%lld cycle=%lld rep=%lld imm=%d", x.seq, (long long)x.id, kind, (long long)x.t,
      (long long)x.cycle, (long long)x.rep, imm);
  if (imm)
    immQ.push_back(x.seq);
  return &x;
}
void W::onExec(Inst &x) {
  Quiet q;
  log("exec #%d id=%lld S=%lld", x.seq, (long long)x.id, (long long)e.tk->GetSimulationTime());
  if (++total > 5000)
    fail("runaway", "more than 5000 executions");
  if (!executing)
    fail("ran-outside", "event #%d ran while the simulation was not executing", x.seq);
  if (held)
    fail("ran-after-hold", "event #%d ran after an immediate hold", x.seq);
  if (current >= 0)
    fail("overlap", "event #%d started inside event #%d", x.seq, current);
  i64 now = e.tk->GetSimulationTime();
  if (!x.alive)
    fail("extra-execution", "event #%d ran although it was removed or complete (S=%lld)", x.seq, (long long)now);
  if (now < S)
    fail("time-backwards", "simulation time went from %lld to %lld", (long long)S, (long long)now);
  if (e.st() != Smp::SimulatorStateKind::SSK_Executing)
    fail("ran-outside", "event #%d ran in state %s", x.seq, stateName(e.st()));
  if (x.immediate) {
    if (immQ.empty() || immQ.front() != x.seq)
      fail("immediate-order", "immediate event #%d ran out of posting order", x.seq);
    immQ.pop_front();
    if (now != S)
      fail("immediate-time", "immediate event #%d ran at %lld, posted at %lld", x.seq, (long long)now, (long long)S);
    probe("immediate");
  } else {
    if (!immQ.empty())
      fail("immediate-late", "event #%d ran before the pending immediate event #%d", x.seq, immQ.front());
    // everything still due at S that is not run any more must be skippable
    if (x.t != S) {
      skipBefore(-1);
      for (auto &y : inst)
        if (y.alive && y.t == S && y.seq != x.seq)
          fail("lost", "event #%d due at %lld was passed over", y.seq, (long long)S);
      if (holdDef)
        fail("advanced-after-hold", "event #%d at %lld ran after a deferred hold at %lld", x.seq, (long long)x.t,
             (long long)S);
      if (runEnd >= 0 && x.t > runEnd)
        fail("past-run-end", "event #%d at %lld ran in a run that ends at %lld", x.seq, (long long)x.t,
             (long long)runEnd);
      // skips at intermediate instants
      for (;;) {
        i64 m = minTime();
        if (m >= x.t)
          break;
        S = m;
        i64 before = m;
        skipBefore(-1);
        if (minTime() == before)
          fail("time-order", "event #%d at %lld ran before an event due at %lld", x.seq, (long long)x.t, (long long)before);
      }
      S = x.t;
    }
    skipBefore(x.retimedNow ? 0 : x.seq);
    if (!x.alive || x.t != S)
      fail("ran-late", "event #%d ran although its time base had moved past it", x.seq);
    if (now != x.t)
      fail("wrong-time", "event #%d due at %lld ran at simulation time %lld", x.seq, (long long)x.t, (long long)now);
    if (skippable(x))
      fail("ran-late", "event #%d ran although its time base had moved past it", x.seq);
    for (auto &y : inst)
      if (y.alive && !y.immediate && y.t == S && y.seq < x.seq && !y.retimedNow && !x.retimedNow)
        fail("posting-order", "event #%d ran before event #%d, posted first for the same time %lld", x.seq, y.seq,
             (long long)S);
  }
  checkTimes("in an entry point");
  if (e.sch->GetCurrentEventId() != x.id)
    fail("current-id", "the current event id is %lld inside event %lld", (long long)e.sch->GetCurrentEventId(),
         (long long)x.id);
  current = x.seq;
  x.immediate = false;
  x.retimedNow = false;
  x.selfRemoved = x.selfRetimed = false;
  int n = x.execs++;
  if (x.prog >= 0 && (total < 150 || x.isProtected))
    for (auto &a : progs[(size_t)x.prog])
      if (keep(a.op) && (a.onExec < 0 || a.onExec == n))
        act(a, &x);
  if (e.sch->GetCurrentEventId() != x.id)
    fail("current-id", "the current event id is %lld at the end of event %lld", (long long)e.sch->GetCurrentEventId(),
         (long long)x.id);
  current = -1;
  if (x.selfRemoved)
    x.alive = false;
  else if (x.selfRetimed) {
    if (x.rep > 0)
      --x.rep;
  } else
    advance(x);
}
void W::act(const Action &a, Inst *selfEv) {
  hit = false;
  mem = a.mem;
  auto expect = [&](const char *what, const std::string &got, const std::string &exp) {
    // the error itself may have been impossible to report
    if (got != exp && !(exp != "" && outOfMemory(hit, got)))
      fail("refusal", "%s gave '%s', expected '%s'", what, got.c_str(), exp.c_str());
  };
  switch (a.act) {
  case A_ADD_SIM:
    post(K_SIM, a.dt, a.cycle, a.rep, a.prog, false);
    break;
  case A_ADD_BAD:
    if (a.sel & 1)
      post(K_SIM, -1 - a.dt, a.cycle, 0, a.prog, false);
    else
      post(K_SIM, a.dt, a.sel & 2 ? 0 : -a.cycle, a.rep ? a.rep : 1, a.prog, false);
    break;
  case A_ADD_IMM:
    post(K_SIM, 0, 0, 0, a.prog, true);
    break;
  case A_ADD_MISSION:
    post(K_MISSION, mission() + a.dt - (a.sel % 11 == 0 ? 3 * MS : 0), a.cycle, a.rep, a.prog, false);
    break;
  case A_ADD_EPOCH:
    post(K_EPOCH, epoch() + a.dt - (a.sel % 11 == 0 ? 3 * MS : 0), a.cycle, a.rep, a.prog, false);
    break;
  case A_REMOVE: {
    Inst *x = target(a.sel);
    EventId id = x && x->id != -1 ? x->id : unknownId(a.sel);
    if (x && x->seq == current)
      return;
    auto got = scarce(mem, hit, [&] { e.sch->RemoveEvent(id); });
    expect("removing an event", got, x && x->alive ? "" : "InvalidEventId");
    if (x && x->alive) {
      log("remove #%d", x->seq);
      if (x->immediate) {
        probe("remove immediate");
        for (auto it = immQ.begin(); it != immQ.end(); ++it)
          if (*it == x->seq) {
            immQ.erase(it);
            break;
          }
      } else if (x->t == S && current >= 0)
        probe("remove same instant");
      x->alive = false;
    } else
      probe("remove dead id");
    break;
  }
  case A_SELF_REMOVE:
    if (!selfEv || selfEv->selfRemoved || selfEv->selfRetimed)
      return;
    expect("removing the current event", scarce(mem, hit, [&] { e.sch->RemoveEvent(selfEv->id); }), "");
    log("self remove #%d", selfEv->seq);
    selfEv->selfRemoved = true;
    probe("remove self");
    break;
  case A_SELF_REPEAT: {
    if (!selfEv || selfEv->selfRemoved || selfEv->selfRetimed)
      return;
    auto got = scarce(mem, hit, [&] { e.sch->SetEventRepeat(selfEv->id, a.rep); });
    bool bad = a.rep != 0 && selfEv->cycle <= 0;
    expect("setting the repeat of the current event", got, bad ? "InvalidCycleTime" : "");
    if (!bad)
      selfEv->rep = a.rep;
    log("self repeat #%d %lld", selfEv->seq, (long long)a.rep);
    probe("self repeat");
    break;
  }
  case A_SELF_TIME:
  case A_TIME: {
    Inst *x = a.act == A_SELF_TIME ? selfEv : target(a.sel);
    if (!x || (x->seq == current && (x->selfRemoved || a.act == A_TIME)))
      return;
    // the operation may be of the right or of the wrong kind
    int kind = a.sel % 5 == 0 ? (x->kind + 1) % 3 : x->kind;
    i64 back = a.sel % 7 == 0 ? 4 * MS : 0;
    i64 v = kind == K_SIM ? a.dt - back : kind == K_MISSION ? mission() + a.dt - back : epoch() + a.dt - back;
    EventId id = x->id != -1 ? x->id : unknownId(a.sel);
    auto got = scarce(mem, hit, [&] {
      if (kind == K_SIM)
        e.sch->SetEventSimulationTime(id, v);
      else if (kind == K_MISSION)
        e.sch->SetEventMissionTime(id, v);
      else
        e.sch->SetEventEpochTime(id, v);
    });
    bool ok = x->alive && kind == x->kind;
    log("retime #%d to %lld (dt %lld) -> %s", x->seq, (long long)v, (long long)(a.dt - back), got.c_str());
    if (outOfMemory(hit, got)) {
      probe("retime without memory");
      return;
    }
    expect("changing the time of an event", got, ok ? "" : "InvalidEventId");
    if (!ok) {
      probe("retime refused");
      return;
    }
    if (x->immediate) {
      probe("retime immediate");
      for (auto it = immQ.begin(); it != immQ.end(); ++it)
        if (*it == x->seq) {
          immQ.erase(it);
          break;
        }
      x->immediate = false;
    }
    if (x->seq == current) {
      probe("retime self");
      x->selfRetimed = true;
    }
    if (a.dt - back < 0) {
      probe("retime into the past");
      if (x->seq == current)
        x->selfRemoved = true;
      else
        x->alive = false;
      return;
    }
    if (x->t == S && current >= 0 && x->seq != current)
      probe("retime same instant");
    x->t = S + a.dt - back;
    x->time = kind == K_SIM ? x->t : v;
    x->retimedNow = false; // keeps its turn: the order is that of the first posting
    break;
  }
  case A_CYCLE: {
    Inst *x = target(a.sel);
    EventId id = x && x->id != -1 ? x->id : unknownId(a.sel);
    if (x && x->seq == current)
      return;
    i64 c = a.sel % 6 == 0 ? -(i64)(a.sel & 1) : a.cycle;
    auto got = scarce(mem, hit, [&] { e.sch->SetEventCycleTime(id, c); });
    bool live = x && x->alive;
    bool bad = live && x->rep != 0 && c <= 0;
    expect("changing a cycle time", got, !live ? "InvalidEventId" : bad ? "InvalidCycleTime" : "");
    if (live && !bad) {
      x->cycle = c;
      log("cycle #%d %lld", x->seq, (long long)c);
      probe("cycle changed");
    }
    break;
  }
  case A_REPEAT: {
    Inst *x = target(a.sel);
    EventId id = x && x->id != -1 ? x->id : unknownId(a.sel);
    if (x && x->seq == current)
      return;
    auto got = scarce(mem, hit, [&] { e.sch->SetEventRepeat(id, a.rep); });
    bool live = x && x->alive;
    bool bad = live && a.rep != 0 && x->cycle <= 0;
    expect("changing a repeat count", got, !live ? "InvalidEventId" : bad ? "InvalidCycleTime" : "");
    if (live && !bad) {
      x->rep = a.rep;
      log("repeat #%d %lld", x->seq, (long long)a.rep);
      probe("repeat changed");
    }
    break;
  }
  case A_HOLD_IMM:
  case A_HOLD_DEF: {
    if (!executing)
      return;
    log("hold %s", a.act == A_HOLD_IMM ? "immediate" : "deferred");
    auto got = outcome([&] { e.s->Hold(a.act == A_HOLD_IMM); });
    expect("hold", got, "");
    if (held) {
      probe("hold while held");
      break;
    }
    if (a.act == A_HOLD_IMM) {
      held = true;
      probe("hold immediate");
      if (holdDef)
        probe("hold after deferred hold");
    } else {
      if (holdDef)
        probe("deferred hold twice");
      holdDef = true;
      probe("hold deferred");
    }
    break;
  }
  case A_SET_EPOCH:
    e.tk->SetEpochTime(epoch() + a.dt - (i64)(a.sel % 3) * MS);
    estart = S - (epoch() + a.dt - (i64)(a.sel % 3) * MS);
    log("epoch base moved");
    probe("epoch moved");
    break;
  case A_SET_MISSION: {
    i64 v = mission() + a.dt - (i64)(a.sel % 3) * MS;
    e.tk->SetMissionTime(v);
    mstart = S - estart - v;
    log("mission base moved");
    probe("mission moved");
    break;
  }
  case A_SET_MSTART: {
    i64 v = mstart - a.dt + (i64)(a.sel % 3) * MS;
    e.tk->SetMissionStartTime(v);
    mstart = v;
    log("mission start moved");
    probe("mission moved");
    break;
  }
  }
}

void schedMain(const Profile &p) {
  setStepLimit(3000000);
  W w;
  {
    Quiet q;
    w.e.s->Connect();
  }
  w.S = w.e.tk->GetSimulationTime();
  w.estart = w.S - w.e.tk->GetEpochTime();
  w.mstart = w.e.tk->GetMissionStartTime();
  int wsum = 0;
  for (int x : p.w)
    wsum += x;
  auto gen = [&](bool inEp) {
    Action a;
    a.op = newOp();
    for (;;) {
      int k = (int)rnd((uint64_t)wsum);
      a.act = 0;
      while (k >= p.w[a.act])
        k -= p.w[a.act++];
      if (inEp || (a.act != A_HOLD_IMM && a.act != A_HOLD_DEF && a.act != A_SELF_TIME && a.act != A_SELF_REMOVE &&
                   a.act != A_SELF_REPEAT))
        break;
    }
    a.sel = (unsigned)rnd(1000);
    static const i64 dts[] = {0, 0, 1, 1, 2, 3, 5};
    a.dt = dts[rnd(7)] * MS;
    a.cycle = range(1, 3) * MS;
    static const i64 reps[] = {0, 0, 1, 2, 4, -1};
    a.rep = reps[rnd(6)];
    a.prog = (int)rnd(w.progs.size() + 1) - 1;
    if (p.mem && chance((unsigned)p.mem))
      a.mem = (int)rnd(6);
    a.onExec = inEp ? (chance(60) ? (int)rnd(2) : -1) : -1;
    return a;
  };
  w.progs.resize((size_t)range(1, 5));
  for (auto &pr : w.progs)
    for (int i = (int)range(0, 3); i > 0; --i)
      pr.push_back(gen(true));
  int phases = (int)range(1, 4);
  for (int ph = 0; ph < phases; ++ph) {
    int n = (int)range(ph ? 0 : 1, 6);
    for (int i = 0; i < n; ++i) {
      Action a = gen(false);
      if (keep(a.op)) {
        Quiet q;
        w.act(a, nullptr);
      }
    }
    // run
    i64 dur = range(0, 8) * MS;
    bool timed = !chance(p.imm);
    int op = newOp();
    if (!keep(op))
      continue;
    w.executing = true;
    w.held = w.holdDef = false;
    i64 start = w.S;
    if (timed) {
      w.runEnd = start + dur;
      log("run %lld", (long long)dur);
      w.e.s->Run(dur);
    } else {
      Quiet q;
      w.runEnd = -1;
      Action h;
      h.op = op;
      h.act = chance(50) ? A_HOLD_IMM : A_HOLD_DEF;
      h.onExec = -1;
      h.sel = 0;
      w.progs.push_back({h});
      w.executing = false;
      Inst *x = w.post(K_SIM, dur, 0, 0, (int)w.progs.size() - 1, false);
      w.executing = true;
      if (!x)
        break;
      x->isProtected = true;
      log("run");
      w.e.s->Run();
    }
    Quiet q;
    w.executing = false;
    auto st = w.e.st();
    log("returned S=%lld state %s", (long long)w.e.tk->GetSimulationTime(), stateName(st));
    if (st != Smp::SimulatorStateKind::SSK_Standby)
      fail("state-after-run", "the simulator is in state %s after a run\n%s", stateName(st), errLog().c_str());
    if (!w.held) {
      i64 now = w.e.tk->GetSimulationTime();
      i64 stop = w.holdDef ? w.S : start + dur;
      if (timed && !w.holdDef && now != stop)
        fail("run-length", "a run of %lld started at %lld ended at %lld", (long long)dur, (long long)start, (long long)now);
      // instants with nothing but skipped events
      for (i64 m; (m = w.minTime()) < stop;) {
        w.S = m;
        w.skipBefore(-1);
        if (w.minTime() == m)
          fail("lost", "an event due at %lld did not run in a run to %lld", (long long)m, (long long)stop);
      }
      w.S = stop;
      w.skipBefore(-1);
      if (w.minTime() <= stop)
        fail("lost", "an event due at %lld did not run in a run to %lld", (long long)w.minTime(), (long long)stop);
      if (!w.immQ.empty())
        fail("lost", "immediate event #%d did not run", w.immQ.front());
    }
    w.checkTimes("after a run");
    if (w.e.sch->GetCurrentEventId() != -1)
      fail("current-id", "the current event id is %lld after a run", (long long)w.e.sch->GetCurrentEventId());
    if (w.immQ.empty()) {
      i64 next = w.e.sch->GetNextScheduledEventTime();
      if (next != w.minTime())
        fail("next-time", "the next event is reported for %lld, it is due at %lld", (long long)next,
             (long long)w.minTime());
    }
    w.runEnd = -1;
  }
  probe("executions", (uint64_t)w.total);
  w.e.destroy();
}
} // namespace
//                          sim imm mis epo rem tim cyc rep hoI hoD sEp sMi sMS sTi sRm sRp bad
static const Profile pOrder = {{20, 3, 0, 0, 1, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 1}, 30, 0};
static const Profile pRepeat = {{20, 2, 1, 1, 1, 0, 1, 1, 3, 3, 0, 0, 0, 0, 1, 2, 1}, 60, 0};
static const Profile pModify = {{12, 4, 2, 2, 8, 8, 4, 4, 1, 1, 0, 0, 0, 3, 2, 3, 2}, 30, 15};
static const Profile pBase = {{4, 1, 12, 12, 2, 4, 1, 1, 1, 1, 4, 4, 4, 1, 1, 1, 1}, 30, 10};
static const Profile pImm = {{8, 16, 0, 0, 2, 1, 0, 1, 3, 3, 0, 0, 0, 0, 1, 0, 0}, 40, 10};
static const Profile pHold = {{14, 4, 1, 1, 1, 1, 0, 0, 6, 6, 0, 0, 0, 0, 0, 0, 0}, 50, 0};
void wl_sched_order() { schedMain(pOrder); }
void wl_sched_repeat() { schedMain(pRepeat); }
void wl_sched_modify() { schedMain(pModify); }
void wl_sched_base() { schedMain(pBase); }
void wl_sched_imm() { schedMain(pImm); }
void wl_sched_hold() { schedMain(pHold); }

// Wall-clock events, with a clock that may be moved, and pacing of the
// simulation against the wall clock.
#include "env.h"
using namespace wl;
namespace {
i64 zulu() { return real() - 946728000 * SEC; }
struct Ev {
  int n;
  EventId id = -1;
  i64 due = 0, cycle = 0, rep = 0;
  bool failed = false, posted = false;
  uint64_t inv = 0, ret = 0;
  i64 retReal = 0;
  std::vector<i64> starts;
  bool removed = false, curAtRemove = false;
  bool changed = false; // removed or re-timed, or being so
  bool retimed = false, busy = false;
  uint64_t rtInv = 0, rtRet = 0;
  i64 rtDue = 0, rtMax = 0;
  bool rtCur = false, rtPast = false;
  size_t rtStarts = 0;
  int prog = 0;
  bool inside = false;
  // moved by its own execution: execution baseK is due at base
  i64 base = 0;
  size_t baseK = 0;
  int selfMoves = 0, extra = 0; // extra: moved by its last execution
  bool maybeGone = false;
  i64 total() const { return rep + 1 + extra; }
  i64 dueOf(i64 k) const { return selfMoves ? base + (k - (i64)baseK) * cycle : due + k * cycle; }
};
struct Z {
  Env e;
  std::deque<Ev> evs;
  i64 maxZulu = 0;
  bool jumped = false;
  int running = 0;
  uint64_t lastEnd = 0;
  int total = 0;
  bool destroyed = false;
  void sample() { maxZulu = std::max(maxZulu, zulu()); }
  Ev *post(i64 dt, i64 cycle, i64 rep, int prog);
  void remove(Ev &x);
  void retime(Ev &x, i64 dt);
  void start(Ev &x);
};
i64 memory() { return chance(10) ? (i64)rnd(6) : -1; }
Ev *Z::post(i64 dt, i64 cycle, i64 rep, int prog) {
  Ev *x;
  Xsmp::EntryPoint *ep;
  i64 z0;
  {
    Quiet q;
    evs.emplace_back();
    x = &evs.back();
    x->n = (int)evs.size() - 1;
    x->cycle = cycle;
    x->rep = rep;
    x->prog = prog;
    Ev *px = x;
    ep = e.ep("z" + std::to_string(x->n), [this, px] { start(*px); });
    sample();
    z0 = zulu();
    x->due = z0 + dt;
    log("T%d post z%d dt %lld cycle %lld rep %lld", self(), x->n, (long long)dt, (long long)cycle, (long long)rep);
    x->inv = stamp();
  }
  EventId id = -1;
  bool hit;
  auto got = scarce(memory(), hit, [&] { id = e.sch->AddZuluTimeEvent(ep, x->due, cycle, rep); });
  Quiet q;
  x->id = id;
  sample();
  x->retReal = zulu();
  x->ret = stamp();
  log("T%d posted z%d id %lld %s", self(), x->n, (long long)id, got.c_str());
  x->failed = got != "";
  x->posted = true;
  bool mustRefuse = !jumped && x->due < z0, mayRefuse = x->due < maxZulu || (jumped && dt < 0);
  bool badCycle = rep != 0 && cycle <= 0;
  if (outOfMemory(hit, got)) {
    probe("post without memory");
    if (!x->starts.empty())
      fail("ran-refused", "a Zulu event that could not be posted ran");
    return nullptr;
  }
  if (got == "") {
    if (mustRefuse || badCycle)
      fail("refusal", "posting a Zulu event %s was not refused", badCycle ? "with a bad cycle time" : "in the past");
  } else if (!((got == "InvalidEventTime" && mayRefuse) || (got == "InvalidCycleTime" && badCycle)))
    fail("refusal", "posting a Zulu event for %lld at %lld gave '%s'", (long long)x->due, (long long)z0, got.c_str());
  else {
    probe("refused");
    if (!x->starts.empty())
      fail("ran-refused", "a refused Zulu event ran");
    return nullptr;
  }
  return x;
}
void Z::remove(Ev &x) {
  EventId cur0 = e.sch->GetCurrentEventId();
  bool running0;
  {
    Quiet q;
    if (x.busy)
      return;
    x.busy = x.changed = true;
    running0 = x.inside || cur0 == x.id;
    log("T%d remove z%d", self(), x.n);
  }
  bool hit;
  auto got = scarce(memory(), hit, [&] { e.sch->RemoveEvent(x.id); });
  EventId cur = e.sch->GetCurrentEventId();
  Quiet q;
  x.busy = false;
  if (outOfMemory(hit, got)) // for the error
    got = "InvalidEventId";
  log("T%d remove z%d: '%s' current %lld", self(), x.n, got.c_str(), (long long)cur);
  if (got == "") {
    if (x.removed && !running0 && cur != x.id)
      fail("refusal", "z%d could be removed twice", x.n);
    x.removed = true;
    x.curAtRemove = cur == x.id;
    probe("removed");
  } else if (got != "InvalidEventId" || !(x.removed || x.rtPast || (x.rep >= 0 && (i64)x.starts.size() >= x.total()) || x.maybeGone))
    fail("refusal", "removing z%d, executed %zu of %lld times, gave '%s'", x.n, x.starts.size(), (long long)x.rep + 1, got.c_str());
}
void Z::retime(Ev &x, i64 dt) {
  i64 z0;
  {
    Quiet q;
    if (x.busy || x.retimed || x.rep != 0 || x.removed || x.prog == 4)
      return;
    x.busy = x.changed = x.retimed = true;
    sample();
    z0 = zulu();
    x.rtDue = chance(12) ? x.due : z0 + dt; // sometimes to the time it has already
    dt = x.rtDue - z0;
    x.rtStarts = x.starts.size();
    log("T%d retime z%d dt %lld", self(), x.n, (long long)dt);
    x.rtInv = stamp();
  }
  bool hit;
  auto got = scarce(memory(), hit, [&] { e.sch->SetEventZuluTime(x.id, x.rtDue); });
  EventId cur = e.sch->GetCurrentEventId();
  Quiet q;
  x.busy = false;
  sample();
  x.rtRet = stamp();
  x.rtCur = cur == x.id;
  log("T%d retimed z%d '%s'", self(), x.n, got.c_str());
  if (got == "") {
    probe(dt < 0 ? "re-timed into the past" : dt < 10 * MS ? "re-timed soon" : "re-timed late");
    x.rtPast = x.rtDue < maxZulu || (jumped && dt < 0);
  } else {
    x.retimed = false;
    if (outOfMemory(hit, got))
      probe("re-timed without memory");
    else if (got != "InvalidEventId" || !(x.removed || !x.starts.empty()))
      fail("refusal", "re-timing z%d gave '%s'", x.n, got.c_str());
  }
}
void Z::start(Ev &x) {
  {
    Quiet q;
    sample();
    log("start z%d zulu %lld", x.n, (long long)zulu());
    if (destroyed)
      fail("ran-after-destroy", "a Zulu event ran after the simulator was destroyed");
    if (running++)
      fail("overlap", "z%d was called while another entry point was running", x.n);
    if (++total > 2000)
      fail("runaway", "more than 2000 executions");
    if (x.failed)
      fail("ran-refused", "a refused Zulu event ran");
    auto st = e.st();
    if (st != Smp::SimulatorStateKind::SSK_Standby && st != Smp::SimulatorStateKind::SSK_Executing)
      fail("zulu-state", "a Zulu event ran in state %s", stateName(st));
    if (x.removed && !std::exchange(x.curAtRemove, false))
      fail("ran-after-remove", "z%d started after it had been removed", x.n);
    size_t k = x.starts.size();
    i64 due = x.dueOf((i64)k);
    bool viaNew = false;
    if (x.retimed) {
      due = x.rtDue;
      viaNew = true;
      // before the change took effect the old time counts
      if (k == 0 && (!x.rtRet || x.rtCur))
        due = std::min(due, x.due);
      if (k == x.rtStarts)
        ;
    } else if (x.rep >= 0 && (i64)k >= x.total())
      fail("extra-execution", "z%d (repeat %lld) ran %zu times", x.n, (long long)x.rep, k + 1);
    if (maxZulu < due)
      fail("zulu-early", "z%d due at %lld started at %lld", x.n, (long long)due, (long long)zulu());
    if (!viaNew)
      for (auto &y : evs) {
        if (y.n == x.n || !y.posted || y.failed || y.changed || x.changed)
          continue;
        size_t ky = y.starts.size();
        if (y.rep >= 0 && (i64)ky > y.rep)
          continue;
        i64 ydue = y.due + (i64)ky * y.cycle;
        bool inTable = (y.ret < lastEnd || (!jumped && y.retReal < due));
        if (!inTable)
          continue;
        if (ydue < due)
          fail("zulu-order", "z%d due at %lld started before z%d due at %lld", x.n, (long long)due, y.n, (long long)ydue);
        if (ydue == due && y.ret < x.inv)
          fail("zulu-order", "z%d started before z%d, posted first for the same time", x.n, y.n);
      }
    x.starts.push_back(zulu());
    x.inside = true;
    EventId cur = e.sch->GetCurrentEventId();
    if (x.posted && cur != x.id)
      fail("current-id", "the current event id is %lld inside z%d (%lld)", (long long)cur, x.n, (long long)x.id);
  }
  yield();
  if (x.prog == 1 && [&] { Quiet q; return evs.size(); }() < 25)
    post(MS, 0, 0, 0);
  else if (x.prog == 2)
    sleepNs(3 * MS);
  else if (x.prog == 3 && x.rep != 0) {
    auto got = outcome([&] { e.sch->RemoveEvent(x.id); });
    Quiet q;
    if (got == "") {
      x.removed = x.changed = true;
      probe("removed itself");
    }
  }
  else if (x.prog == 4 && x.posted && x.selfMoves < 2 && !x.busy && !x.removed && !x.maybeGone) {
    static const i64 ds[] = {0, 1, MS, 3 * MS, 20 * MS, -MS};
    i64 d = ds[rnd(6)], to;
    size_t k;
    {
      Quiet q;
      x.busy = x.changed = true;
      sample();
      to = zulu() + d;
      k = x.starts.size();
      log("z%d moves itself by %lld", x.n, (long long)d);
    }
    auto got = outcome([&] { e.sch->SetEventZuluTime(x.id, to); });
    Quiet q;
    sample();
    x.busy = false;
    if (got != "")
      fail("refusal", "z%d could not move itself: %s", x.n, got.c_str());
    ++x.selfMoves;
    if (x.rep >= 0 && (i64)k >= x.total())
      ++x.extra;
    x.base = to;
    x.baseK = k;
    if (to < maxZulu || jumped)
      x.maybeGone = true; // it may have come too late
    else
      probe("moved itself", 1);
    if (d < 0 && !jumped)
      x.removed = true;
  }
  Quiet q;
  --running;
  x.inside = false;
  lastEnd = stamp();
  log("end z%d", x.n);
}
} // namespace

void wl_zulu() {
  Z z;
  bool jumps = chance(30);
  int mode = jumps ? 0 : (int)rnd(3); // 0 standby only, 1 and 2 with runs
  struct Op {
    int op, what, target;
    i64 dt, cycle, rep, pause;
    int prog;
  };
  auto gen = [&](bool first) {
    Op o;
    o.op = newOp();
    o.what = first ? 0 : (int)rnd(jumps ? 10 : 9);
    o.target = (int)rnd(1000);
    static const i64 dts[] = {0, 1, 1, 2, 3, 10, 50, -1, 3600000};
    o.dt = dts[rnd(9)] * MS + (chance(30) ? 0 : (i64)rnd(MS));
    o.cycle = chance(5) ? 0 : range(1, 4) * MS;
    static const i64 reps[] = {0, 0, 0, 1, 3, -1};
    o.rep = reps[rnd(jumps ? 5 : 6)];
    o.pause = chance(50) ? (i64)rnd(4) * MS : 0;
    o.prog = (int)rnd(7);
    return o;
  };
  int nth = (int)range(1, 3);
  std::vector<std::vector<Op>> scripts((size_t)nth);
  for (auto &s : scripts)
    for (int n = (int)range(1, 6); n > 0; --n)
      s.push_back(gen(s.empty()));
  auto body = [&z](const std::vector<Op> &s) {
    std::vector<Ev *> mine;
    for (auto &o : s) {
      if (!keep(o.op))
        continue;
      if (o.pause)
        sleepNs(o.pause);
      Ev *x = mine.empty() ? nullptr : mine[(size_t)o.target % mine.size()];
      if (o.what <= 4 || (!x && o.what < 9)) {
        Ev *y = z.post(o.dt, o.cycle, o.rep, o.prog);
        Quiet q;
        if (y)
          mine.push_back(y);
      } else if (o.what <= 6)
        z.remove(*x);
      else if (o.what <= 8)
        z.retime(*x, o.dt);
      else {
        Quiet q;
        z.sample();
        z.jumped = true;
        static const i64 js[] = {-3600, -1, 1, 5, 3600};
        jumpReal(js[(size_t)o.target % 5] * SEC / (o.target % 2 ? 1 : 1000));
        z.sample();
      }
    }
  };
  {
    Quiet q;
    z.e.s->Connect();
  }
  std::vector<int> th;
  for (auto &s : scripts)
    th.push_back(spawn([&body, &s] { body(s); }));
  if (mode) {
    int n = 0;
    auto *ep = z.e.ep("s", [&] {
      {
        Quiet q;
        if (z.running++)
          fail("overlap", "an event was executed while a Zulu event was running");
        ++n;
      }
      yield();
      if (mode == 2)
        sleepNs(MS);
      Quiet q;
      --z.running;
    });
    z.e.sch->AddSimulationTimeEvent(ep, 0, MS, -1);
    z.e.s->Run(6 * MS);
    if (n != 7)
      fail("count", "a cyclic event of the simulation ran %d times in 6 ms", n);
  }
  for (int t : th)
    join(t);
  // after everything near is due, all of it has run
  i64 last = zulu();
  for (size_t i = 0;; ++i) {
    Quiet q;
    if (i >= z.evs.size())
      break;
    Ev &x = z.evs[i];
    for (i64 d : {x.failed ? 0 : x.rep >= 0 ? x.dueOf(x.total() - 1) : x.due, x.retimed ? x.rtDue : 0})
      if (d < zulu() + 600 * SEC && d > last)
        last = d;
  }
  if (last > zulu() + MS)
    sleepNs(MS);
  for (size_t i = 0, n = [&] { Quiet q; return z.evs.size(); }(); i < n; ++i) {
    Ev *px; // more are added meanwhile
    bool go;
    {
      Quiet q;
      px = &z.evs[i];
      go = !px->failed && px->posted && px->rep < 0 && !px->removed;
      if (go)
        px->changed = true;
    }
    Ev &x = *px;
    if (go) {
      auto got = outcome([&] { z.e.sch->RemoveEvent(x.id); });
      EventId cur = z.e.sch->GetCurrentEventId();
      Quiet q;
      if (got != "" && !x.removed && !x.maybeGone)
        fail("lost-id", "the endless event z%d is unknown", x.n);
      x.removed = true;
      x.curAtRemove = cur == x.id;
    }
  }
  // after a clock jump an hour and more may pass until the next look at it
  sleepNs(last - zulu() + (z.jumped ? 20000 * SEC : 0));
  settle();
  sleepNs(60 * SEC);
  settle();
  {
    Quiet q;
    for (auto &x : z.evs) {
      if (x.failed || x.removed || x.rtPast || x.maybeGone)
        continue;
      i64 due = x.retimed ? x.rtDue : x.dueOf(x.total() - 1);
      if (due > (x.selfMoves && !z.jumped ? last + 30 * SEC : last))
        continue;
      if (x.retimed) {
        if (x.starts.empty() || x.starts.size() > 2 || (x.starts.size() == 2 && x.rtStarts == 0 && !x.rtCur && false))
          fail("count", "the re-timed event z%d ran %zu times", x.n, x.starts.size());
      } else if ((i64)x.starts.size() != x.total())
        fail("count", "z%d (repeat %lld), complete since %lld ns, ran %zu times", x.n, (long long)x.rep, (long long)(zulu() - due), x.starts.size());
      probe("complete");
    }
  }
  z.e.destroy();
  Quiet q;
  z.destroyed = true;
}

// ------------------------------------------------------------------ pacing
void wl_pace() {
  Env e;
  {
    Quiet q;
    e.s->Connect();
  }
  bool jumps = chance(30);
  static const double speeds[] = {1, 1, 0.5, 2, 10, 100, 0.01, 0.3, 1e-9, 5000, -1};
  double s = speeds[rnd(11)];
  auto clampS = [](double v) { return v < 0.01 ? 0.01 : v > 100 ? 100. : v; };
  int n = (int)range(1, 6);
  int op0 = newOp();
  if (keep(op0)) {
    e.xsch->SetTargetSpeed(s);
    if (e.xsch->GetTargetSpeed() != clampS(s))
      fail("speed", "speed %g was set, %g is read back", s, e.xsch->GetTargetSpeed());
  }
  double speed = e.xsch->GetTargetSpeed();
  i64 S0 = 0, r0 = 0, st0 = 0, inj0 = 0, prevS = -1;
  int done = 0;
  bool jumped = false;
  struct E {
    i64 t, cycle, rep;
    int execs = 0;
  };
  std::deque<E> evs;
  static const i64 units[] = {1, 1000, MS, 20 * MS, SEC};
  i64 unit = units[rnd(5)];
  auto check = [&](i64 t) {
    Quiet q;
    i64 now = e.tk->GetSimulationTime();
    if (now != t)
      fail("wrong-time", "an event due at %lld ran at %lld", (long long)t, (long long)now);
    if (now < prevS)
      fail("time-order", "an event due at %lld ran after simulation time %lld", (long long)t, (long long)prevS);
    prevS = now;
    ++done;
    if (jumped)
      return;
    double want = (double)(now - S0) / speed, got = (double)(real() - r0);
    if (got < want - 2. * done - want * 1e-9)
      fail("too-early", "%lld ns of simulation time were executed in %.0f ns of wall-clock time at speed %g", (long long)(now - S0), got, speed);
    double late = got - want, allow = (double)((i64)(steps() - (uint64_t)st0) * 20 + injected() - inj0) + 1000. + 10. * done;
    if (late > allow)
      fail("too-late", "an event %lld ns after the start was executed %.0f ns late (%.0f ns explained by the scheduling)", (long long)(now - S0), late, allow);
  };
  for (int i = 0; i < n; ++i) {
    int op = newOp();
    i64 t = range(0, 10) * unit, c = range(1, 5) * unit, r = chance(60) ? 0 : range(1, 3);
    if (!keep(op))
      continue;
    evs.push_back({t, c, r});
    E *x = &evs.back();
    e.sch->AddSimulationTimeEvent(e.ep("p" + std::to_string(i), [&check, x] { check(x->t + x->cycle * x->execs++); }), t, c, r);
  }
  int opc = newOp();
  int client = -1;
  bool stop = false;
  if (jumps || chance(40)) {
    bool on = keep(opc);
    i64 gap = range(1, 5) * unit;
    client = spawn([&, on, gap] {
      for (int i = 0; i < 4; ++i) {
        {
          Quiet q;
          if (stop)
            return;
        }
        sleepNs(gap);
        if (on && jumps) {
          Quiet q;
          jumped = true;
          static const i64 js[] = {-3600, -1, 1, 60};
          jumpReal(js[rnd(4)] * (chance(50) ? SEC : unit));
        } else if (on) // wakes the scheduler for nothing
          e.sch->AddSimulationTimeEvent(e.ep("w" + std::to_string(i), [] {}), 40 * unit, 0, 0);
      }
    });
  }
  int phases = (int)range(1, 3);
  for (int p = 0; p < phases; ++p) {
    int op = newOp();
    i64 d = range(1, 20) * unit, pause = range(0, 3) * unit;
    if (!keep(op))
      continue;
    {
      Quiet q;
      S0 = e.tk->GetSimulationTime();
      r0 = real();
      st0 = (i64)steps();
      inj0 = injected();
      done = 0;
      jumped = jumped && client >= 0 && !threadDone(client);
      log("run %lld speed %g", (long long)d, speed);
    }
    e.s->Run(d);
    if (e.tk->GetSimulationTime() != S0 + d)
      fail("run-length", "a run of %lld ended at %lld", (long long)d, (long long)e.tk->GetSimulationTime() - S0);
    {
      Quiet q;
      prevS = S0 + d;
      if (!jumped) {
        double want = (double)d / speed, got = (double)(real() - r0);
        if (got < want - 2. * done - 2 - want * 1e-9)
          fail("too-early", "a run of %lld ns took %.0f ns of wall-clock time at speed %g", (long long)d, got, speed);
      }
      for (auto &x : evs) {
        i64 due = (S0 + d - x.t) < 0 ? 0 : std::min(x.rep, (S0 + d - x.t) / x.cycle) + 1;
        if (x.execs != due)
          fail("count", "an event (first %lld, cycle %lld, repeat %lld) ran %d times until %lld", (long long)x.t, (long long)x.cycle,
               (long long)x.rep, x.execs, (long long)(S0 + d));
      }
    }
    if (pause)
      sleepNs(pause);
    if (chance(30)) {
      double v = speeds[rnd(11)];
      e.xsch->SetTargetSpeed(v);
      if (e.xsch->GetTargetSpeed() != clampS(v))
        fail("speed", "speed %g was set, %g is read back", v, e.xsch->GetTargetSpeed());
      speed = e.xsch->GetTargetSpeed();
    }
  }
  {
    Quiet q;
    stop = true;
  }
  if (client >= 0)
    join(client);
  e.destroy();
}

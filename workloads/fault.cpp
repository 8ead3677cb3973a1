// Entry points that fail: in the scheduler, in the wall-clock thread and in
// event handlers, together with aborts requested by other threads.
#include "env.h"
#include <Xsmp/Exception.h>
#include <Xsmp/Helper.h>
using namespace wl;
namespace {
using K = Smp::SimulatorStateKind;
using IEM = Smp::Services::IEventManager;
struct Fx;
struct Point { // an entry point
  enum Role { Sched, Zulu, Sub, Global, Abort } role;
  std::string name;
  Xsmp::EntryPoint *ep = nullptr;
  int failAt = -1, how = 0; // fails in this execution, in this way
  int execs = 0, thrown = 0;
  int prog = 0;
};
struct Fx {
  Env e{errLogConfig};
  std::deque<Point> pts;
  EventId u = -1;
  std::vector<Point *> subs, aborts;
  std::map<int, std::vector<Point *>> calls; // per thread, of one emission
  int announced = 0;
  bool aborted = false; // the announcement has been made completely
  bool chosen = false;  // an event had been chosen by then
  int executing = 0;
  bool mayAbort = false;
  int throwers = 0;
  void body(Point &p);
  void emit();
  void act(Point &p);
};
void Fx::emit() {
  {
    Quiet q;
    calls[self()].clear();
    log("T%d emit", self());
  }
  auto got = outcome([&] { e.em->Emit(u); });
  Quiet q;
  if (got != "")
    fail("exception-escaped", "Emit let an exception through: %s", got.c_str());
  auto &c = calls[self()];
  if (c != subs) {
    std::string t;
    for (auto *p : c)
      t += " " + p->name;
    fail("subscriber-skipped", "an emission with a failing subscriber called%s of %zu subscribers", t.c_str(), subs.size());
  }
  probe(throwers ? "emission after a failure" : "emission");
}
void Fx::act(Point &p) {
  switch (p.prog) {
  case 1:
    emit();
    break;
  case 2:
    e.sch->AddImmediateEvent(pts[0].ep);
    break;
  case 3:
    yield();
    break;
  default:
    break;
  }
}
void Fx::body(Point &p) {
  int k;
  {
    Quiet q;
    k = p.execs++;
    log("T%d start %s #%d", self(), p.name.c_str(), k);
    if (p.execs > 500)
      fail("runaway", "%s was called more than 500 times", p.name.c_str());
    if (p.role == Point::Sched || p.role == Point::Zulu) {
      if (executing++)
        fail("overlap", "two scheduled entry points at once");
      if (aborted && !std::exchange(chosen, false))
        fail("ran-after-abort", "%s was called by the scheduler after the simulation had been aborted", p.name.c_str());
    }
    if (p.role == Point::Sub)
      calls[self()].push_back(&p);
    if (p.role == Point::Abort) {
      if (e.st() != K::SSK_Aborting)
        fail("announced-in", "the abort was announced in state %s", stateName(e.st()));
      if (&p == aborts.front() && ++announced > 1)
        fail("announced-twice", "the abort was announced twice");
      if (&p == aborts.back()) {
        aborted = true;
        EventId cur = e.sch->GetCurrentEventId();
        chosen = cur != -1 && !executing;
        if (chosen)
          probe("abort while an event was chosen");
      }
    }
  }
  if (k != p.failAt) {
    try {
      act(p);
    } catch (...) {
      Quiet q;
      fail("exception-escaped", "a call made by %s threw", p.name.c_str());
    }
  }
  bool t = k == p.failAt;
  {
    Quiet q;
    if (p.role == Point::Sched || p.role == Point::Zulu)
      --executing;
    if (t) {
      log("T%d %s throws %d", self(), p.name.c_str(), p.how);
      countFault("failing entry point");
      ++p.thrown;
      ++throwers;
    }
  }
  if (t)
    switch (p.how) {
    case 0:
      Xsmp::Exception::throwInvalidEventId(e.s, 12345);
    case 1:
      throw std::runtime_error("boom");
    case 2:
      throw 42;
    case 3:
      throw std::bad_alloc();
    default:
      throw "text";
    }
}
} // namespace
void wl_fault() {
  Fx f;
  {
    Quiet q;
    f.e.s->Connect();
    f.u = f.e.em->QueryEventId("user");
  }
  auto add = [&](Point::Role r, const char *pre, int pct) {
    f.pts.emplace_back();
    Point *p = &f.pts.back();
    p->role = r;
    p->name = pre + std::to_string(f.pts.size());
    int op = newOp();
    if (chance(pct) && keep(op))
      p->failAt = (int)rnd(3);
    p->how = (int)rnd(5);
    static const int progs[] = {0, 0, 0, 1, 2, 3};
    p->prog = r == Point::Abort || r == Point::Sub ? 0 : progs[rnd(6)];
    p->ep = f.e.ep(p->name, [&f, p] { f.body(*p); });
    return p;
  };
  add(Point::Sched, "imm", 5)->prog = 0;
  for (int n = (int)range(1, 3); n > 0; --n)
    f.subs.push_back(add(Point::Sub, "sub", 15));
  for (auto *p : f.subs)
    f.e.em->Subscribe(f.u, p->ep);
  for (int n = (int)range(1, 3); n > 0; --n) {
    f.aborts.push_back(add(Point::Abort, "ab", 0));
    int op = newOp();
    if (chance(20) && keep(op))
      f.aborts.back()->failAt = 0;
    f.e.em->Subscribe(IEM::SMP_EnterAbortingId, f.aborts.back()->ep);
  }
  static const EventId glob[] = {IEM::SMP_EnterExecutingId, IEM::SMP_LeaveExecutingId, IEM::SMP_EnterStandbyId, IEM::SMP_LeaveStandbyId,
                                 IEM::SMP_PreSimTimeChangeId, IEM::SMP_PostSimTimeChangeId, IEM::SMP_EnterInitialisingId};
  for (int n = (int)rnd(3); n > 0; --n)
    f.e.em->Subscribe(glob[rnd(7)], add(Point::Global, "glob", 15)->ep);
  int nsched = (int)range(1, 4);
  for (int i = 0; i < nsched; ++i) {
    auto *p = add(Point::Sched, "ev", 25);
    i64 t = range(0, 4) * MS, c = range(1, 3) * MS, r = (i64)rnd(4) - 1;
    if (chance(15))
      f.e.sch->AddImmediateEvent(p->ep);
    else
      f.e.sch->AddSimulationTimeEvent(p->ep, t, c, r);
  }
  int nz = (int)rnd(3);
  for (int i = 0; i < nz; ++i) {
    auto *p = add(Point::Zulu, "zulu", 25);
    i64 t = range(1, 6) * MS, c = range(1, 3) * MS, r = (i64)rnd(3);
    outcome([&] { f.e.sch->AddZuluTimeEvent(p->ep, f.e.tk->GetZuluTime() + t, c, r); });
  }
  struct Op {
    int op, what;
    i64 pause;
  };
  std::vector<int> th;
  int nth = (int)rnd(3);
  std::vector<std::vector<Op>> scripts((size_t)nth);
  bool aborter = chance(30);
  for (auto &s : scripts)
    for (int n = (int)range(1, 4); n > 0; --n)
      s.push_back({newOp(), (int)rnd(aborter ? 4 : 2), (i64)rnd(4) * MS});
  for (auto &s : scripts)
    th.push_back(spawn([&f, ps = &s] {
      for (auto &o : *ps) {
        if (!keep(o.op))
          continue;
        if (o.pause)
          sleepNs(o.pause);
        if (o.what <= 1)
          f.emit();
        else if (o.what == 2) {
          {
            Quiet q;
            f.mayAbort = true;
            log("T%d abort", self());
          }
          f.e.s->Abort();
          if (f.e.st() != K::SSK_Aborting)
            fail("state-after-abort", "state %s after an abort", stateName(f.e.st()));
        } else
          f.e.s->Hold(chance(50));
      }
    }));
  bool late = chance(50); // one that stops an endless run
  int runs = (int)range(1, 3);
  for (int r = 0; r < runs; ++r) {
    int op = newOp();
    i64 d = range(0, 6) * MS;
    int what = (int)rnd(8);
    if (!keep(op))
      continue;
    log("run %lld", (long long)d);
    auto got = outcome([&] {
      if (what == 0)
        f.e.s->Initialise();
      else
        f.e.s->Run(d);
    });
    if (got != "")
      fail("exception-escaped", "Run let an exception through: %s", got.c_str());
    Quiet q;
    if (f.executing && f.e.st() != K::SSK_Aborting && nz == 0)
      fail("returned-early", "the run returned while an entry point was running");
    if (f.e.st() != K::SSK_Standby && f.e.st() != K::SSK_Aborting)
      fail("state-after-run", "state %s after a run", stateName(f.e.st()));
    log("run returned in %s", stateName(f.e.st()));
  }
  for (int t : th)
    join(t);
  if (late) {
    sleepNs(20 * MS);
    settle();
  }
  {
    Quiet q;
    bool any = f.throwers > 0 || f.mayAbort;
    // what was thrown last may not have been handled yet
    if (!late && nz) {
      sleepNs(MS);
      settle();
    }
    any = f.throwers > 0 || f.mayAbort;
    if (any != (f.e.st() == K::SSK_Aborting))
      fail("state-after-failure", "%d failing calls, and the simulator is in state %s", f.throwers, stateName(f.e.st()));
    if (any && f.announced != 1)
      fail("announced", "the abort was announced %d times", f.announced);
    if (any)
      probe("aborted");
    if (f.mayAbort)
      probe("aborted by a thread");
  }
  if (f.throwers || f.mayAbort) {
    // and nothing undoes it
    int n = 0;
    for (auto &p : f.pts)
      n += p.role == Point::Sched || p.role == Point::Zulu ? p.execs : 0;
    switch (rnd(5)) {
    case 0: f.e.s->Initialise(); break;
    case 1: f.e.s->Hold(true); break;
    case 2: f.e.s->Exit(); break;
    case 3: f.e.s->Run(); break;
    default: f.e.s->Run(3 * MS);
    }
    if (f.e.st() != K::SSK_Aborting)
      fail("state-after-abort", "an operation took the simulator from Aborting to %s", stateName(f.e.st()));
    for (auto &p : f.pts)
      n -= p.role == Point::Sched || p.role == Point::Zulu ? p.execs : 0;
    if (n)
      fail("ran-after-abort", "scheduled events were executed by a run after the abort");
  }
  f.e.destroy();
  Quiet q;
  // one error record naming the entry point per failure
  std::string text = errLog();
  for (auto &p : f.pts) {
    int n = 0;
    std::string mark = p.name + "|Error|";
    std::istringstream in(text);
    for (std::string line; std::getline(in, line);) {
      auto at = line.find("|Error|");
      if (at != std::string::npos && line.substr(0, at).size() >= p.name.size() &&
          line.compare(at - p.name.size(), p.name.size(), p.name) == 0 && (at == p.name.size() || !isalnum((unsigned char)line[at - p.name.size() - 1])))
        ++n;
    }
    if (n != p.thrown)
      fail("failure-log", "%s failed %d times, %d error records name it:\n%s", p.name.c_str(), p.thrown, n, text.substr(0, 800).c_str());
  }
}

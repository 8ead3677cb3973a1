// Holds requested by several threads and by entry points while the simulation
// runs; timed and untimed runs.
#include "env.h"
using namespace wl;
namespace {
struct HoldRec {
  bool immediate;
  int run;
  uint64_t inv, ret;
  i64 Sret;
};
struct Cyc {
  i64 first, cycle;
  int execs = 0;
};
struct H {
  Env e;
  int run = -1;       // index of the current or last run
  bool inRun = false; // Run was called and has not returned
  uint64_t runInv = 0;
  bool stopped = false;      // an immediate hold returned during this run
  i64 holdLimit = INT64_MAX; // a deferred hold returned during this run
  bool anyImm = false, anyDef = false;
  bool wantImm = false; // an immediate hold may have taken effect
  int executing = 0;
  std::deque<Cyc> cyc;
  i64 lastS = 0;
  bool done = false, last = false;
  int pending[2] = {0, 0}; // holds under way, deferred and immediate
  bool chosen = false;     // an event had been chosen when the hold returned
  i64 S() { return e.tk->GetSimulationTime(); }
  void hold(bool immediate, bool inEp);
  void start(const char *n, int k) {
    Quiet q;
    i64 now = S();
    log("start %s%d S=%lld", n, k, (long long)now);
    if (executing++)
      fail("overlap", "two entry points at once");
    if (!inRun)
      fail("ran-outside", "an event was executed while no run was in progress");
    if (stopped && !std::exchange(chosen, false))
      fail("ran-after-hold",
           "an event was started after an immediate hold had returned");
    if (now > holdLimit)
      fail("advanced-after-hold",
           "an event was executed at %lld after a deferred hold at %lld",
           (long long)now, (long long)holdLimit);
    if (now < lastS)
      fail("time-backwards", "simulation time went back");
    lastS = now;
  }
  void end() {
    Quiet q;
    --executing;
  }
};
void H::hold(bool immediate, bool inEp) {
  int r0;
  bool exec0;
  {
    Quiet q;
    r0 = run;
    exec0 = inRun && e.st() == Smp::SimulatorStateKind::SSK_Executing;
    if (inRun) {
      (immediate ? anyImm : anyDef) = true;
    }
    ++pending[immediate];
    log("T%d hold %d", self(), immediate);
  }
  auto got = outcome([&] { e.s->Hold(immediate); });
  EventId cur = e.sch->GetCurrentEventId();
  Quiet q;
  --pending[immediate];
  log("T%d hold %d returned", self(), immediate);
  if (got != "")
    fail("refusal", "Hold failed: %s", got.c_str());
  if (inRun && run == r0 && exec0) {
    if (immediate) {
      if (!stopped)
        chosen = cur != -1 && !executing;
      stopped = true;
      probe("immediate hold during a run");
    } else {
      i64 s = S();
      if (s < holdLimit)
        holdLimit = s;
      probe(anyImm ? "deferred hold with immediate holds"
                   : "deferred hold during a run");
    }
  } else
    probe("hold between runs");
}
} // namespace

void wl_conc_hold() {
  H h;
  {
    Quiet q;
    h.e.s->Connect();
  }
  static const double speeds[] = {1, 10, 100, 100};
  h.e.xsch->SetTargetSpeed(speeds[rnd(4)]);
  int ncyc = (int)range(1, 3);
  for (int i = 0; i < ncyc; ++i) {
    h.cyc.emplace_back();
    auto *c = &h.cyc.back();
    c->first = range(0, 3) * MS;
    c->cycle = range(1, 3) * MS;
    int hk = (int)rnd(6), at = (int)rnd(6);
    int op = newOp();
    bool on = keep(op);
    auto *ep = h.e.ep("c" + std::to_string(i), [&h, c, i, hk, at, on] {
      h.start("c", i);
      i64 due = c->first + c->cycle * c->execs;
      {
        Quiet q;
        if (h.S() != due)
          fail("wrong-time",
               "execution %d of cyclic event %d, due at %lld, happened at %lld",
               c->execs, i, (long long)due, (long long)h.S());
        ++c->execs;
      }
      if (on && !h.last && c->execs % 6 == at) {
        if (hk == 0)
          h.hold(true, true);
        else if (hk == 1)
          h.hold(false, true);
        else if (hk == 2)
          yield();
      }
      h.end();
    });
    h.e.sch->AddSimulationTimeEvent(ep, c->first, c->cycle, -1);
  }
  struct Op {
    int op;
    bool imm;
    i64 pause;
    int what;
  };
  int nth = (int)range(1, 3);
  std::vector<std::vector<Op>> scripts((size_t)nth);
  for (auto &s : scripts)
    for (int n = (int)range(1, 5); n > 0; --n)
      s.push_back({newOp(), chance(50), (i64)rnd(5) * MS / 2, (int)rnd(6)});
  std::vector<int> th;
  int active = nth;
  int posted = 0;
  for (auto &s : scripts)
    th.push_back(spawn([&, ps = &s] {
      for (auto &o : *ps) {
        if (!keep(o.op))
          continue;
        if (o.pause)
          sleepNs(o.pause);
        if (o.what == 0) { // an event that is never due at the current instant
          Xsmp::EntryPoint *ep;
          {
            Quiet q;
            ep = h.e.ep("x" + std::to_string(posted++), [&h] {
              h.start("x", 0);
              h.end();
            });
          }
          h.e.sch->AddSimulationTimeEvent(ep, MS / 2, 0, 0);
        } else
          h.hold(o.imm, false);
      }
      Quiet q;
      --active;
    }));
  // the one that ends every unbounded run
  th.push_back(spawn([&] {
    for (;;) {
      sleepNs((i64)(7 * MS / h.e.xsch->GetTargetSpeed()));
      bool go;
      {
        Quiet q;
        if (h.done)
          break;
        go = h.inRun && (active == 0 || chance(25));
      }
      if (go)
        h.hold(chance(50), false);
    }
  }));
  int runs = (int)range(1, 4);
  for (int r = 0; r < runs; ++r) {
    int op = newOp();
    bool timed = chance(50);
    i64 d = range(0, 6) * MS;
    bool quiet = r == runs - 1;
    if (!keep(op))
      continue;
    if (quiet) {
      timed = true;
      for (size_t i = 0; i + 1 < th.size(); ++i)
        join(th[i]);
      {
        Quiet q;
        h.done = true;
      }
      join(th.back());
    }
    i64 s0;
    {
      Quiet q;
      s0 = h.S();
      h.stopped = false;
      h.holdLimit = INT64_MAX;
      h.anyImm = h.pending[1] > 0;
      h.anyDef = h.pending[0] > 0;
      ++h.run;
      h.inRun = true;
      log("run %s %lld", timed ? "timed" : "untimed", (long long)d);
    }
    if (timed)
      h.e.s->Run(d);
    else
      h.e.s->Run();
    Quiet q;
    h.inRun = false;
    i64 s1 = h.S();
    log("run returned S=%lld", (long long)s1);
    auto st = h.e.st();
    if (st != Smp::SimulatorStateKind::SSK_Standby)
      fail("state-after-run", "the simulator is in state %s after a run",
           stateName(st));
    if (h.executing)
      fail("returned-early",
           "the run returned while an entry point was running");
    if (s1 > h.holdLimit)
      fail("advanced-after-hold",
           "a run ended at %lld after a deferred hold at %lld", (long long)s1,
           (long long)h.holdLimit);
    if (timed && s1 > s0 + d)
      fail("run-length", "a run of %lld from %lld ended at %lld", (long long)d,
           (long long)s0, (long long)s1);
    if (timed && !h.anyImm && !h.anyDef && s1 != s0 + d)
      fail("run-length", "a run of %lld from %lld ended at %lld", (long long)d,
           (long long)s0, (long long)s1);
    if (!h.anyImm) {
      // a deferred hold or the end of the time: the instant is complete
      for (auto &c : h.cyc)
        if (c.first + c.cycle * c.execs <= s1)
          fail("instant-incomplete",
               "a run ended at %lld with an event due at %lld", (long long)s1,
               (long long)(c.first + c.cycle * c.execs));
    }
    if (h.e.sch->GetCurrentEventId() != -1)
      fail("current-id", "a current event id after a run");
  }
  // whatever happened: one more undisturbed run
  {
    Quiet q;
    h.done = h.last = true;
  }
  for (int t : th)
    if (!threadDone(t))
      join(t);
  i64 s0 = h.S(), d = 5 * MS;
  h.stopped = false;
  h.holdLimit = INT64_MAX;
  h.anyImm = h.pending[1] > 0;
  h.anyDef = h.pending[0] > 0;
  ++h.run;
  h.inRun = true;
  log("last run");
  h.e.s->Run(d);
  h.inRun = false;
  if (h.S() != s0 + d)
    fail("run-length", "an undisturbed run of %lld from %lld ended at %lld",
         (long long)d, (long long)s0, (long long)h.S());
  for (auto &c : h.cyc)
    if (c.execs != (h.S() - c.first) / c.cycle + 1)
      fail("count",
           "a cyclic event (first %lld, cycle %lld) ran %d times until %lld",
           (long long)c.first, (long long)c.cycle, c.execs, (long long)h.S());
  h.e.destroy();
}

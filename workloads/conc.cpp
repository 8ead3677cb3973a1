// The scheduler used from several threads at once, checked against what every
// interleaving allows: windows spanned by the call and the return of each
// operation.
#include "env.h"
using namespace wl;
namespace {
enum Kind { K_SIM, K_IMM, K_MISSION, K_EPOCH, K_ZULU };
struct Start {
  uint64_t seq;
  i64 S, real;
};
struct Change { // one operation on an event
  enum { REMOVE, TIME, CYCLE, REPEAT } what;
  uint64_t inv = 0, ret = 0; // ret 0: not returned yet
  i64 Sinv = 0, Sret = 0, val = 0;
  int startsInv = 0, startsRet = 0;
  bool ok = false;
  bool current = false; // it was the current event when the change returned
};
struct Ev {
  int n = 0;
  int kind = K_SIM;
  EventId id = -1;
  uint64_t inv = 0, ret = 0;
  i64 Sinv = 0, Sret = 0, dt = 0, cycle = 0, rep = 0;
  bool failed = false;
  std::vector<Start> starts;
  std::vector<Change> changes;
  int prog = -1;
  bool busy = false; // a change is under way
  const Change *removed() const {
    for (auto &c : changes)
      if (c.what == Change::REMOVE && c.ok)
        return &c;
    return nullptr;
  }
};
// 1 January 2000, 12:00
i64 zulu() { return real() - 946728000 * SEC; }
struct Conc {
  Env e;
  std::deque<Ev> evs;
  i64 estart = 0, mstart = 0;
  int running = 0;
  uint64_t total = 0;
  i64 lastS = 0;
  int nestLimit = 40;
  i64 S() { return e.tk->GetSimulationTime(); }
  Ev *post(int kind, i64 dt, i64 cycle, i64 rep, int prog);
  void onStart(Ev &x);
  void change(Ev &x, int what, i64 val);
  void finalCheck(i64 Send);
};
i64 memory() { return chance(10) ? (i64)rnd(6) : -1; }
Ev *Conc::post(int kind, i64 dt, i64 cycle, i64 rep, int prog) {
  Ev *x;
  Xsmp::EntryPoint *ep;
  {
    Quiet q;
    evs.emplace_back();
    x = &evs.back();
    x->n = (int)evs.size() - 1;
    x->kind = kind;
    x->cycle = cycle;
    x->rep = rep;
    x->prog = prog;
    Ev *px = x;
    ep = e.ep("e" + std::to_string(x->n), [this, px] { onStart(*px); });
    x->Sinv = S();
    if (kind == K_ZULU)
      x->dt = zulu() + dt;
    else if (kind == K_MISSION)
      x->dt = x->Sinv - estart - mstart + dt;
    else if (kind == K_EPOCH)
      x->dt = x->Sinv - estart + dt;
    else
      x->dt = dt;
    log("T%d post e%d kind %d dt %lld cycle %lld rep %lld", self(), x->n, kind, (long long)x->dt, (long long)cycle, (long long)rep);
    x->inv = stamp();
  }
  EventId id = -1;
  bool hit;
  std::string got = scarce(memory(), hit, [&] {
    switch (kind) {
    case K_SIM: id = e.sch->AddSimulationTimeEvent(ep, x->dt, cycle, rep); break;
    case K_IMM: id = e.sch->AddImmediateEvent(ep); break;
    case K_MISSION: id = e.sch->AddMissionTimeEvent(ep, x->dt, cycle, rep); break;
    case K_EPOCH: id = e.sch->AddEpochTimeEvent(ep, x->dt, cycle, rep); break;
    case K_ZULU: id = e.sch->AddZuluTimeEvent(ep, x->dt, cycle, rep); break;
    }
  });
  Quiet q;
  x->id = id;
  x->Sret = S();
  x->ret = stamp();
  log("T%d posted e%d id %lld %s", self(), x->n, (long long)id, got.c_str());
  if (outOfMemory(hit, got)) {
    x->failed = true;
    if (!x->starts.empty())
      fail("ran-refused", "event e%d ran although it could not be posted", x->n);
    probe("post without memory");
    return nullptr;
  }
  if (got != "") {
    bool past = got == "InvalidEventTime" &&
                ((kind == K_MISSION && x->dt + estart + mstart < x->Sret) || (kind == K_EPOCH && x->dt + estart < x->Sret) ||
                 (kind == K_ZULU && x->dt < zulu()));
    if (!past)
      fail("refusal", "posting event e%d failed: %s", x->n, got.c_str());
    x->failed = true;
    if (!x->starts.empty())
      fail("ran-refused", "event e%d ran although posting it was refused", x->n);
    probe("refused, time passed");
    return nullptr;
  }
  for (auto &y : evs)
    if (y.n != x->n && !y.failed && y.ret && y.id == id)
      fail("id-reused", "event id %lld was given to e%d and e%d", (long long)id, y.n, x->n);
  return x;
}
void Conc::onStart(Ev &x) {
  {
    Quiet q;
    i64 now = S();
    log("start e%d S=%lld", x.n, (long long)now);
    if (running++)
      fail("overlap", "entry point of e%d was called while another entry point was running", x.n);
    if (++total > 4000)
      fail("runaway", "more than 4000 executions");
    if (x.failed)
      fail("ran-refused", "event e%d ran although posting it was refused", x.n);
    if (x.kind != K_ZULU) {
      if (now < lastS)
        fail("time-backwards", "simulation time went from %lld to %lld", (long long)lastS, (long long)now);
      lastS = now;
    }
    for (auto &c : x.changes)
      if (c.what == Change::REMOVE && c.ok && c.ret && !std::exchange(c.current, false))
        fail("ran-after-remove", "event e%d started after it had been removed", x.n);
    x.starts.push_back({stamp(), now, zulu()});
    EventId cur = e.sch->GetCurrentEventId();
    if (x.ret && cur != x.id)
      fail("current-id", "the current event id is %lld inside event %lld", (long long)cur, (long long)x.id);
  }
  yield();
  if (x.prog == 1 && (int)evs.size() < nestLimit)
    post(K_IMM, 0, 0, 0, -1);
  else if (x.prog == 2 && (int)evs.size() < nestLimit)
    post(K_SIM, MS * (x.n % 3), 0, 0, -1);
  else if (x.prog == 3)
    sleepNs(MS / 3);
  yield();
  Quiet q;
  --running;
  log("end e%d", x.n);
}
void Conc::change(Ev &x, int what, i64 val) {
  Change *c;
  {
    Quiet q;
    x.changes.reserve(8);
    if (x.changes.size() >= 8 || x.busy)
      return;
    x.busy = true;
    x.changes.emplace_back();
    c = &x.changes.back();
    c->what = (decltype(c->what))what;
    c->val = val;
    c->Sinv = S();
    c->startsInv = (int)x.starts.size();
    log("T%d change e%d what %d val %lld", self(), x.n, what, (long long)val);
    c->inv = stamp();
  }
  bool hit;
  std::string got = scarce(memory(), hit, [&] {
    switch (what) {
    case Change::REMOVE: e.sch->RemoveEvent(x.id); break;
    case Change::TIME: e.sch->SetEventSimulationTime(x.id, val); break;
    case Change::CYCLE: e.sch->SetEventCycleTime(x.id, val); break;
    case Change::REPEAT: e.sch->SetEventRepeat(x.id, val); break;
    }
  });
  // the scheduler may have chosen the event already
  EventId cur = e.sch->GetCurrentEventId();
  Quiet q;
  c->current = cur == x.id;
  c->Sret = S();
  c->startsRet = (int)x.starts.size();
  c->ret = stamp();
  c->ok = got == "";
  x.busy = false;
  log("T%d changed e%d %s", self(), x.n, got.c_str());
  if (outOfMemory(hit, got) && what == Change::TIME)
    probe("change without memory");
  else if (!c->ok) {
    if (outOfMemory(hit, got)) // for the error
      got = "InvalidEventId";
    if (got != "InvalidEventId")
      fail("refusal", "changing event e%d (%d) gave %s", x.n, what, got.c_str());
    // only right when the event may be complete or was removed
    bool gone = x.removed() || (x.rep >= 0 && (int)x.starts.size() > x.rep);
    for (auto &d : x.changes)
      if (d.what == Change::REPEAT && d.ok && (int)x.starts.size() > d.val)
        gone = true;
    if (!gone)
      fail("lost-id", "event e%d was unknown although it had only run %zu of %lld times", x.n, x.starts.size(), (long long)x.rep + 1);
    probe("change refused, event over");
  } else {
    static const char *names[] = {"remove accepted", "retime accepted", "cycle accepted", "repeat accepted"};
    probe(names[what]);
    if (what == Change::REMOVE && c->startsInv != c->startsRet)
      probe("remove raced with a start");
  }
}
// everything that had to run by simulation time Send has run
void Conc::finalCheck(i64 Send) {
  Quiet q;
  for (auto &x : evs) {
    if (x.failed)
      continue;
    const Change *rm = x.removed();
    const Change *rt = nullptr, *cy = nullptr, *rp = nullptr;
    for (auto &c : x.changes)
      if (c.ok)
        (c.what == Change::TIME ? rt : c.what == Change::CYCLE ? cy : c.what == Change::REPEAT ? rp : rm) = &c;
    auto &st = x.starts;
    i64 base = x.kind == K_MISSION ? x.dt + estart + mstart : x.kind == K_EPOCH ? x.dt + estart : 0;
    auto lo = [&](i64 Sinv, i64 dt) { return x.kind == K_IMM ? Sinv : base ? base : Sinv + dt; };
    auto hi = [&](i64 Sret, i64 dt) { return x.kind == K_IMM ? Sret : base ? base : Sret + dt; };
    if (x.kind == K_ZULU) {
      for (auto &s : st)
        if (s.real < x.dt)
          fail("zulu-early", "event e%d ran %lld ns early", x.n, (long long)(x.dt - s.real));
      if (st.size() > 1 || (st.empty() && !rm))
        fail("count", "Zulu event e%d ran %zu times instead of once", x.n, st.size());
      continue;
    }
    if (rt) { // single execution, moved
      i64 l = rt->Sinv + rt->val, h = rt->Sret + rt->val;
      // one start in the new window, and perhaps one in the old window that
      // had begun, or had been chosen, before
      const Start *after = nullptr;
      for (auto &s : st)
        if (s.seq > rt->inv && s.S >= l && s.S <= h)
          after = &s;
      int before = 0;
      for (auto &s : st)
        if (&s != after && (before++ || !(s.seq < rt->ret || rt->current) || s.S < lo(x.Sinv, x.dt) || s.S > hi(x.Sret, x.dt)))
          fail("retime", "event e%d, moved to [%lld,%lld], also ran at %lld", x.n, (long long)l, (long long)h, (long long)s.S);
      if (!rm && !after)
        fail("retime", "event e%d did not run in its new window [%lld,%lld]", x.n, (long long)l, (long long)h);
      continue;
    }
    // times
    for (size_t k = 0; k < st.size(); ++k) {
      if (k == 0) {
        if (st[0].S < lo(x.Sinv, x.dt) || st[0].S > hi(x.Sret, x.dt))
          fail("wrong-time", "event e%d posted between S=%lld and %lld with dt %lld ran at %lld", x.n, (long long)x.Sinv, (long long)x.Sret,
               (long long)x.dt, (long long)st[0].S);
        continue;
      }
      i64 gap = st[k].S - st[k - 1].S;
      bool mayOld = !cy || st[k - 1].seq < cy->ret, mayNew = cy && st[k].seq > cy->inv;
      if (!((mayOld && gap == x.cycle) || (mayNew && gap == cy->val)))
        fail("cycle", "event e%d: executions %zu and %zu are %lld apart (cycle %lld%s%lld)", x.n, k - 1, k, (long long)gap, (long long)x.cycle,
             cy ? ", changed to " : " ", cy ? (long long)cy->val : 0);
    }
    // number
    i64 minN, maxN;
    if (rp) {
      minN = rp->startsInv + rp->val;
      maxN = rp->startsRet + rp->val + 1;
      if (x.rep >= 0 && minN > 0)
        minN = std::min(minN, maxN);
    } else if (x.rep >= 0)
      minN = maxN = x.rep + 1;
    else { // until the end of the last run
      minN = 0;
      maxN = INT64_MAX;
      if (!rm && !st.empty() && !cy)
        minN = maxN = (Send - st[0].S) / x.cycle + 1;
      if (!rm && st.empty())
        minN = 1;
    }
    if (rm)
      minN = std::min<i64>(rm->startsInv, minN);
    if ((i64)st.size() < minN || (i64)st.size() > maxN)
      fail("count", "event e%d (rep %lld) ran %zu times, allowed %lld to %lld", x.n, (long long)x.rep, st.size(), (long long)minN, (long long)maxN);
  }
}
struct Op {
  int op, what, target;
  i64 dt, cycle, rep, pause;
  int kind, prog;
};
} // namespace

void wl_conc() {
  Conc c;
  {
    Quiet q;
    c.e.s->Connect();
  }
  c.estart = c.S() - c.e.tk->GetEpochTime();
  c.mstart = c.e.tk->GetMissionStartTime();
  static const double speeds[] = {1, 1, 10, 100};
  c.e.xsch->SetTargetSpeed(speeds[rnd(4)]);
  int nth = (int)range(1, 3);
  int kinds = (int)rnd(4); // 0 simulation time only, 1 + immediate, 2 + bases, 3 all
  auto genPost = [&](Op &o) {
    int k = (int)rnd(10);
    o.kind = kinds == 0 ? K_SIM : k < 5 ? K_SIM : k < 7 ? K_IMM : kinds == 1 ? K_SIM : k < 8 ? K_MISSION : k < 9 || kinds == 2 ? K_EPOCH : K_ZULU;
    static const i64 dts[] = {0, 0, 1, 2, 3, 5, 8};
    o.dt = dts[rnd(7)] * MS;
    o.cycle = range(1, 3) * MS;
    static const i64 reps[] = {0, 0, 0, 1, 3, -1};
    o.rep = o.kind == K_IMM || o.kind == K_ZULU ? 0 : reps[rnd(6)];
    o.prog = (int)rnd(7);
  };
  std::vector<std::vector<Op>> scripts((size_t)nth);
  for (auto &s : scripts)
    for (int n = (int)range(2, 7); n > 0; --n) {
      Op o;
      o.op = newOp();
      o.what = s.empty() ? 0 : (int)rnd(10);
      o.target = (int)rnd(1000);
      o.pause = chance(50) ? (i64)rnd(4) * MS / 2 : 0;
      genPost(o);
      s.push_back(o);
    }
  auto body = [&c](const std::vector<Op> &s) {
    std::vector<Ev *> mine;
    for (auto &o : s) {
      if (!keep(o.op))
        continue;
      if (o.pause)
        sleepNs(o.pause);
      Ev *x = nullptr;
      if (!mine.empty())
        x = mine[(size_t)o.target % mine.size()];
      if (o.what <= 4 || !x) {
        x = c.post(o.kind, o.dt, o.cycle, o.rep, o.prog);
        Quiet q;
        if (x)
          mine.push_back(x);
      } else if (o.what <= 6) {
        // any event with a known id, also of another thread
        if (o.what == 6) {
          Quiet q;
          Ev *y = &c.evs[(size_t)o.target % c.evs.size()];
          if (y->ret && !y->failed)
            x = y;
        }
        c.change(*x, Change::REMOVE, 0);
      } else if (o.what == 7) {
        bool free = x->kind == K_SIM && x->rep == 0 && x->changes.empty();
        if (free)
          c.change(*x, Change::TIME, o.dt);
      } else if (o.what == 8) {
        if (x->rep != 0 && x->changes.empty()) {
          if (o.target & 1)
            c.change(*x, Change::CYCLE, o.cycle + 4 * MS);
          else
            c.change(*x, Change::REPEAT, o.target % 4);
        }
      } else {
        i64 s0 = c.S();
        i64 nx = c.e.sch->GetNextScheduledEventTime();
        if (nx < s0)
          fail("next-time", "the next event is reported for %lld at simulation time %lld", (long long)nx, (long long)s0);
        EventId cur = c.e.sch->GetCurrentEventId();
        Quiet q;
        if (cur != -1 && (cur < 0 || cur > (EventId)c.evs.size() + 5000))
          log("current id %lld", (long long)cur);
      }
    }
  };
  int pre = (int)range(0, 2);
  for (int i = 0; i < pre; ++i) {
    Op o;
    o.op = newOp();
    genPost(o);
    if (keep(o.op))
      c.post(o.kind, o.dt, o.cycle, o.rep, o.prog);
  }
  std::vector<int> th;
  bool early = chance(40);
  auto start = [&] {
    for (auto &s : scripts)
      th.push_back(spawn([&body, &s] { body(s); }));
  };
  if (early)
    start();
  int phases = (int)range(1, 3);
  for (int p = 0; p < phases; ++p) {
    int op = newOp();
    i64 d = range(0, 6) * MS;
    if (!early && p == 0)
      start();
    if (!keep(op))
      continue;
    i64 s0 = c.S();
    log("run %lld", (long long)d);
    c.e.s->Run(d);
    i64 s1 = c.S();
    if (s1 != s0 + d)
      fail("run-length", "a run of %lld from %lld ended at %lld", (long long)d, (long long)s0, (long long)s1);
  }
  for (int t : th)
    join(t);
  // let everything run out
  {
    Quiet q;
    c.nestLimit = 0;
  }
  log("final run");
  i64 s0 = c.S(), d = 40 * MS;
  c.e.s->Run(d);
  i64 s1 = c.S();
  if (s1 != s0 + d)
    fail("run-length", "the last run ended at %lld instead of %lld", (long long)s1, (long long)(s0 + d));
  // wall-clock events
  i64 last = 0;
  for (auto &x : c.evs)
    if (x.kind == K_ZULU && x.dt > last)
      last = x.dt;
  if (last >= zulu())
    sleepNs(last - zulu() + 1);
  settle();
  sleepNs(30 * SEC); // delays injected between computing a wait and waiting
  settle();
  c.finalCheck(s1);
  probe("executions", c.total);
  c.e.destroy();
  // nothing may run any more
  uint64_t t = c.total;
  sleepNs(SEC);
  if (c.total != t)
    fail("ran-after-destroy", "an entry point was called after the simulator was destroyed");
}

// P16: the time keeper. All settings, readings and advances of one run must be
// explained by one sequence of changes of (simulation time, epoch offset,
// mission start), whatever thread they come from.
#include "env.h"
#include <algorithm>
#include <cinttypes>
namespace wl {
namespace {
using EM = Smp::Services::IEventManager;
enum { SIM, EPOCH, MISSION, START, SET_EPOCH, SET_START, SET_MISSION, SET_SIM, ADVANCE, RESTORE };
const char *opName[] = {"sim", "epoch", "mission", "start", "setEpoch", "setStart", "setMission", "setSim", "advance", "restore"};
struct State {
  i64 sim, start, off; // epoch time = sim + off, mission time = epoch - start
  bool operator<(const State &o) const { return std::tie(sim, start, off) < std::tie(o.sim, o.start, o.off); }
};
struct Rec {
  int kind;
  uint64_t inv, ret;
  i64 v; // value read or set
  bool may; // perhaps without effect
  State to; // RESTORE
};
struct Ctx {
  Env *e = nullptr;
  std::vector<Rec> recs;
  bool posters = false, running = false, alone = false;
  int budget = 0;
  uint64_t advInv = 0;     // an advance is in progress since
  int nSetEpoch = 0, nSetMission = 0, epochAnnounced = 0, missionAnnounced = 0;
  std::map<int, int> inEpoch, inMission; // announcements expected by thread
  int pending = 0, preCalls = 0, postCalls = 0;
  i64 lastSim = 0;
};
Ctx *cx;
i64 unit;
i64 T(int n) { return (i64)n * unit; }
i64 record(int kind, i64 v, uint64_t inv, bool may = false) {
  cx->recs.push_back({kind, inv, stamp(), v, may, {}});
  log("%s %" PRId64, opName[kind], v);
  return v;
}
uint64_t now() {
  Quiet q;
  return stamp();
}
i64 readTime(int kind) {
  auto *tk = cx->e->tk;
  uint64_t inv = now();
  i64 v = kind == SIM ? tk->GetSimulationTime() : kind == EPOCH ? tk->GetEpochTime() : kind == MISSION ? tk->GetMissionTime() : tk->GetMissionStartTime();
  Quiet q;
  return record(kind, v, inv);
}
void set(int kind, i64 v, bool check) {
  auto *tk = cx->e->tk;
  uint64_t inv = now();
  int before;
  {
    Quiet q;
    before = kind == SET_EPOCH ? cx->inEpoch[self()]++ : cx->inMission[self()]++;
    (void)before;
    ++(kind == SET_EPOCH ? cx->nSetEpoch : cx->nSetMission);
    log("%s %" PRId64 "...", opName[kind], v);
  }
  size_t at;
  {
    Quiet q; // recorded before the announcement, closed after it
    at = cx->recs.size();
    cx->recs.push_back({kind, inv, UINT64_MAX, v, false, {}});
  }
  std::string out = outcome([&] {
    if (kind == SET_EPOCH)
      tk->SetEpochTime(v);
    else if (kind == SET_START)
      tk->SetMissionStartTime(v);
    else
      tk->SetMissionTime(v);
  });
  {
    Quiet q;
    if (cx->recs[at].ret == UINT64_MAX)
      cx->recs[at].ret = stamp();
    if (!out.empty())
      fail("exception", "%s raised %s", opName[kind], out.c_str());
    int &left = kind == SET_EPOCH ? cx->inEpoch[self()] : cx->inMission[self()];
    if (left != 0)
      fail("announcement", "%s was announced %d times", opName[kind], 1 - left);
  }
  if (check && cx->alone) {
    i64 got = readTime(kind == SET_EPOCH ? EPOCH : kind == SET_START ? START : MISSION);
    if (got != v)
      fail("set-value", "%s to %" PRId64 ", then it is %" PRId64, opName[kind], v, got);
  }
}
// closes the calls of this thread whose announcement has started
void announced(bool epoch) {
  Quiet q;
  int &left = epoch ? cx->inEpoch[self()] : cx->inMission[self()];
  ++(epoch ? cx->epochAnnounced : cx->missionAnnounced);
  log("  %s announced", epoch ? "epoch" : "mission");
  if (left != 1)
    fail("announcement", "a change of the %s time was announced %s", epoch ? "epoch" : "mission", left > 1 ? "late" : "again or without a cause");
  --left;
}
void setSim() {
  auto *tk = cx->e->tk;
  // a change of the time has been announced, its end has not
  bool changing = cx->preCalls != cx->postCalls;
  i64 cur = 0, next = 0;
  if (cx->alone) {
    cur = tk->GetSimulationTime();
    next = cx->e->sch->GetNextScheduledEventTime();
  } else
    cur = tk->GetSimulationTime();
  i64 v;
  {
    Quiet q;
    i64 hi = cx->alone ? std::min(next, cur + T(6)) : cur + T(3);
    int k = (int)rnd(6);
    v = k == 0 ? cur - 1 - (i64)rnd(5) : k == 1 ? hi + 1 + (i64)rnd(3) : k == 2 ? cur : k == 3 ? hi : cur + (i64)rnd((uint64_t)(hi - cur) + 1);
    if (chance(5))
      v = -v;
  }
  uint64_t inv = now();
  std::string out = outcome([&] { tk->SetSimulationTime(v); });
  Quiet q;
  log("setSim %" PRId64 " (%s): %s", v, changing ? "changing" : "fixed", out.c_str());
  if (!out.empty() && out != "InvalidSimulationTime")
    fail("exception", "SetSimulationTime raised %s", out.c_str());
  if (cx->alone) {
    if (changing) {
      bool ok = v >= cur && v <= next;
      if (ok != out.empty())
        fail("set-sim", "setting %" PRId64 " with %" PRId64 " now and %" PRId64 " next gave '%s'", v, cur, next, out.c_str());
    } else if (!out.empty())
      fail("set-sim", "a call outside of a time change raised %s", out.c_str());
    if (tk->GetSimulationTime() != (changing && out.empty() ? v : cur))
      fail("set-sim", "the simulation time is %" PRId64 " after setting %" PRId64, (i64)tk->GetSimulationTime(), v);
    if (changing && out.empty())
      record(SET_SIM, v, inv);
    return;
  }
  if (out.empty())
    record(SET_SIM, v, inv, true);
}
void post();
void act() {
  int k;
  {
    Quiet q;
    if (--cx->budget < 0)
      return;
    k = (int)rnd(16);
  }
  auto value = [] {
    Quiet q;
    return chance(20) ? -T((int)rnd(9)) : T((int)rnd(50)) + (i64)rnd(3);
  };
  switch (k) {
  case 0: case 1: case 2: case 3:
    readTime(k);
    break;
  case 4: case 5:
    readTime(SIM);
    readTime(EPOCH);
    break;
  case 6:
    readTime(EPOCH);
    readTime(MISSION);
    break;
  case 7: case 8:
    set(SET_EPOCH, value(), true);
    break;
  case 9:
    set(SET_START, value(), true);
    break;
  case 10: case 11:
    set(SET_MISSION, value(), true);
    break;
  case 12: case 13:
    if (!cx->posters || cx->alone)
      setSim();
    break;
  case 14:
    if (cx->alone || cx->posters)
      post();
    break;
  default: {
    i64 lo = real(), z = cx->e->tk->GetZuluTime() + 946728000 * SEC, hi = real();
    if (z < lo || z > hi)
      fail("zulu", "zulu time %" PRId64 " read between %" PRId64 " and %" PRId64, z, lo, hi);
    break;
  }
  }
}
struct Event {
  i64 lo, hi;
  Xsmp::EntryPoint *ep;
};
std::deque<Event> *evs;
void post() {
  Event *ev;
  i64 d;
  {
    Quiet q;
    d = T((int)rnd(6)) + (chance(20) ? 1 : 0);
    evs->push_back({0, INT64_MAX, nullptr});
    ev = &evs->back();
    ev->ep = cx->e->ep("e" + std::to_string(evs->size()), [ev] {
      i64 t = readTime(SIM);
      {
        Quiet q;
        --cx->pending;
        if (t < ev->lo || t > ev->hi)
          fail("event-time", "an event due between %" PRId64 " and %" PRId64 " ran at %" PRId64, ev->lo, ev->hi, t);
      }
      for (int k = (int)rnd(3); k > 0; --k)
        act();
    });
    ++cx->pending;
    log("post in %" PRId64, d);
  }
  ev->lo = cx->e->tk->GetSimulationTime() + d;
  cx->e->sch->AddSimulationTimeEvent(ev->ep, d);
  i64 t = cx->e->tk->GetSimulationTime() + d;
  Quiet q;
  ev->hi = t;
}
struct Search {
  const std::vector<Rec> &v;
  std::set<std::pair<std::vector<bool>, State>> seen;
  size_t visited = 0;
  bool go(std::vector<bool> &done, size_t from, const State &s) {
    while (from < v.size() && done[from])
      ++from;
    if (from == v.size())
      return true;
    if (++visited > 300000)
      return true; // undecided
    if (!seen.insert({done, s}).second)
      return false;
    uint64_t first = UINT64_MAX;
    for (size_t i = from; i < v.size() && v[i].inv <= first; ++i)
      if (!done[i])
        first = std::min(first, v[i].ret);
    for (size_t i = from; i < v.size() && v[i].inv <= first; ++i) {
      if (done[i])
        continue;
      const Rec &r = v[i];
      State n = s;
      bool ok = true;
      switch (r.kind) {
      case SIM: ok = r.v == s.sim; break;
      case EPOCH: ok = r.v == s.sim + s.off; break;
      case MISSION: ok = r.v == s.sim + s.off - s.start; break;
      case START: ok = r.v == s.start; break;
      case SET_EPOCH: n.off = r.v - s.sim; break;
      case SET_START: n.start = r.v; break;
      case SET_MISSION: n.start = s.sim + s.off - r.v; break;
      case SET_SIM:
      case ADVANCE:
        ok = r.v >= s.sim;
        n.sim = r.v;
        break;
      default: n = r.to;
      }
      done[i] = true;
      if (ok && go(done, from, n))
        return true;
      if (r.may && go(done, from, s))
        return true;
      done[i] = false;
    }
    return false;
  }
};
void judge(const State &s0) {
  Quiet q;
  auto v = cx->recs;
  for (auto &r : v)
    if (r.ret == UINT64_MAX)
      fail("internal", "a call has not returned");
  std::sort(v.begin(), v.end(), [](const Rec &a, const Rec &b) { return a.inv < b.inv; });
  Search s{v, {}, 0};
  std::vector<bool> done(v.size(), false);
  if (!s.go(done, 0, s0)) {
    std::string h;
    for (const auto &r : v)
      h += std::string(opName[r.kind]) + "[" + std::to_string(r.inv) + "," + std::to_string(r.ret) + "]=" + std::to_string(r.v) + " ";
    fail("times", "no sequence of changes explains %s", h.c_str());
  }
  if (s.visited > 300000)
    probe("undecided");
}
State current() {
  auto *tk = cx->e->tk;
  State s;
  s.sim = tk->GetSimulationTime();
  s.start = tk->GetMissionStartTime();
  s.off = tk->GetEpochTime() - s.sim;
  if (tk->GetMissionTime() != s.sim + s.off - s.start)
    fail("times", "mission time %" PRId64 " with epoch %" PRId64 " and start %" PRId64, (i64)tk->GetMissionTime(), s.sim + s.off, s.start);
  return s;
}
} // namespace
} // namespace wl
using namespace wl;
// readers while a state is restored
static void restoring(Env &e, Ctx &c) {
  auto *tk = e.tk;
  tk->SetEpochTime(T((int)rnd(30)));
  tk->SetMissionStartTime(T((int)rnd(30)));
  State a = current();
  e.s->Store("state");
  e.s->Run(T((int)range(1, 5)));
  tk->SetEpochTime(T((int)rnd(30)) + 1);
  tk->SetMissionTime(T((int)rnd(30)));
  State b = current();
  int threads = (int)range(1, 3);
  c.alone = false;
  bool restored = false;
  auto of = [](const State &s, int kind) { return kind == SIM ? s.sim : kind == EPOCH ? s.sim + s.off : kind == MISSION ? s.sim + s.off - s.start : s.start; };
  std::vector<int> th;
  struct Op {
    int id, thread, kind;
  };
  std::vector<Op> ops;
  for (int i = (int)range(2, 12); i > 0; --i)
    ops.push_back({newOp(), (int)rnd(threads), (int)rnd(4)});
  for (int t = 0; t < threads; ++t)
    th.push_back(spawn([&, t] {
      for (const auto &o : ops)
        if (o.thread == t && keep(o.id)) {
          readTime(o.kind);
          for (int n = 0; n < 40 && !restored; ++n) {
            i64 v = o.kind == SIM ? tk->GetSimulationTime() : o.kind == EPOCH ? tk->GetEpochTime() : o.kind == MISSION ? tk->GetMissionTime() : tk->GetMissionStartTime();
            i64 x = of(a, o.kind), y = of(b, o.kind);
            if (v != x && v != y)
              fail("times", "%s is %" PRId64 " while a state with %" PRId64 " instead of %" PRId64 " is restored", opName[o.kind], v, x, y);
          }
        }
    }));
  uint64_t inv = now();
  e.s->Restore("state");
  {
    Quiet q;
    restored = true;
    c.recs.push_back({RESTORE, inv, stamp(), 0, false, a});
  }
  for (int t : th)
    join(t);
  State d = current();
  if (d < a || a < d)
    fail("restored", "the restored times are not the stored ones");
  probe("restored under readers");
  judge(b);
  e.destroy();
}
void wl_timek() {
  Env e;
  Ctx c;
  cx = &c;
  c.e = &e;
  unit = chance(50) ? 7 * MS : chance(50) ? 7000 : 70;
  std::deque<Event> events;
  evs = &events;
  c.alone = true;
  e.s->Publish();
  e.s->Configure();
  e.s->Connect();
  if (chance(12))
    return restoring(e, c);
  int threads = (int)rnd(4);
  c.posters = threads && chance(40);
  c.alone = threads == 0;
  e.em->Subscribe(EM::SMP_EpochTimeChangedId, e.ep("epoch", [&c] {
    announced(true);
    for (int k = (int)rnd(2); k > 0; --k)
      readTime((int)rnd(4));
  }));
  e.em->Subscribe(EM::SMP_MissionTimeChangedId, e.ep("mission", [&c] {
    announced(false);
    for (int k = (int)rnd(2); k > 0; --k)
      readTime((int)rnd(4));
  }));
  e.em->Subscribe(EM::SMP_PreSimTimeChangeId, e.ep("pre", [&c] {
    {
      Quiet q;
      if (c.preCalls++ != c.postCalls)
        fail("announcement", "a time change was announced within another one");
      log("pre");
    }
    for (int k = (int)rnd(3); k > 0; --k)
      act();
    c.advInv = now();
  }));
  e.em->Subscribe(EM::SMP_PostSimTimeChangeId, e.ep("post", [&c] {
    {
      Quiet q;
      if (++c.postCalls != c.preCalls)
        fail("announcement", "the end of a time change was announced without its start");
    }
    i64 t = c.e->tk->GetSimulationTime();
    {
      Quiet q;
      if (t < c.lastSim)
        fail("backwards", "the simulation time went from %" PRId64 " to %" PRId64, c.lastSim, t);
      c.lastSim = t;
      record(ADVANCE, t, c.advInv, false);
    }
    for (int k = (int)rnd(2); k > 0; --k)
      act();
  }));
  State s0 = current();
  c.budget = 12;
  for (int i = (int)range(1, 4); i > 0; --i)
    post();
  struct Op {
    int id, thread;
    i64 pause;
  };
  std::vector<Op> ops;
  bool together = chance(60); // around the changes of the simulation time
  for (int i = threads ? (int)range(2, 14) : 0; i > 0; --i)
    ops.push_back({newOp(), (int)rnd(threads), chance(together ? 50 : 20) ? (together ? T(1) : 1 + (i64)rnd((uint64_t)T(3))) : 0});
  c.budget = 14;
  if (c.alone)
    c.budget = 40;
  std::vector<int> th;
  for (int t = 0; t < threads; ++t)
    th.push_back(spawn([&, t] {
      for (const auto &o : ops)
        if (o.thread == t && keep(o.id)) {
          if (o.pause)
            sleepNs(o.pause);
          act();
        }
    }));
  for (int i = (int)range(1, 3); i > 0; --i) {
    int op = newOp();
    i64 d = T((int)range(1, 8));
    if (!keep(op))
      continue;
    if (c.alone)
      act();
    // a timed run ends at a given time: it holds an event of its own
    e.s->Run(d);
    if (c.alone)
      act();
  }
  for (int t : th)
    join(t);
  c.budget = 0;
  if (c.nSetEpoch != c.epochAnnounced || c.nSetMission != c.missionAnnounced)
    fail("announcement", "%d changes of epoch time, %d announced; %d of mission time, %d announced", c.nSetEpoch, c.epochAnnounced, c.nSetMission, c.missionAnnounced);
  if (c.preCalls != c.postCalls)
    fail("announcement", "%d starts and %d ends of time changes", c.preCalls, c.postCalls);
  State s = current();
  (void)s;
  readTime(SIM);
  readTime(EPOCH);
  readTime(START);
  judge(s0);
  probe(threads ? "several threads" : "one thread");
  e.destroy();
}

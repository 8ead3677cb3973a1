// P14, P15: the event manager. Identifiers are compared across all threads;
// each event is an object whose history of subscribe, unsubscribe and emit must
// be linearizable as a list of entry points.
#include "env.h"
#include <algorithm>
namespace wl {
namespace {
using EM = Smp::Services::IEventManager;
const char *names[] = {"a", "b", "SMP_EnterStandby", "SMP_PostSimTimeChange", "SMP_LeaveConnecting", "smp_enterstandby", "a.b[1]", " ", "SMP_EnterStandby2"};
constexpr int NN = 9;
const EventId predef[] = {0, 0, 4, 19, 1, 0, 0, 0, 0};
enum { SUB, UNSUB, EMIT };
struct Rec {
  int kind, ep;
  uint64_t inv, ret;
  int res; // 1 done, 0 refused, 2 failed without memory: perhaps done
  std::vector<int> called;
};
struct Ev {
  std::vector<Rec> recs;
};
struct Emission {
  EventId id;
  int thread;
  uint64_t inv, first;
  std::vector<int> called;
};
struct Ctx {
  Env *e;
  int neps = 0, budget = 0;
  bool concurrent = false, simulatorEmits = false;
  std::vector<Xsmp::EntryPoint *> eps;
  std::map<std::string, EventId> ids;
  std::map<EventId, std::string> back;
  std::map<EventId, Ev> evs;
  std::map<int, std::vector<Emission *>> stack; // by thread
};
Ctx *cx;
void step(int depth);
EventId query(const char *n) {
  bool mem = !cx->concurrent && chance(10);
  EventId id = -1;
  std::string out;
  bool bad = false;
  if (mem)
    armAlloc((int64_t)rnd(5));
  try {
    id = cx->e->em->QueryEventId(n);
  } catch (const std::bad_alloc &) {
    bad = true;
  } catch (...) {
    armAlloc(-1);
    out = outcome([] { throw; });
  }
  bool hit = mem && allocFired();
  armAlloc(-1);
  Quiet q;
  bool empty = !n || !*n;
  log("query '%s': %d %s", n ? n : "(null)", (int)id, bad ? "no memory" : out.c_str());
  if (bad) {
    if (!hit)
      fail("exception", "QueryEventId raised bad_alloc");
    return -1;
  }
  if (empty) {
    if (out != "InvalidEventName" && !(hit && out.empty()))
      fail("empty-name", "querying an empty name gave %d '%s'", (int)id, out.c_str());
    return -1;
  }
  if (!out.empty())
    fail("exception", "QueryEventId('%s') raised %s", n, out.c_str());
  auto it = cx->ids.find(n);
  if (it != cx->ids.end() && it->second != id)
    fail("unstable-id", "'%s' was %d and is %d", n, (int)it->second, (int)id);
  auto jt = cx->back.find(id);
  if (jt != cx->back.end() && jt->second != n)
    fail("shared-id", "%d stands for '%s' and '%s'", (int)id, jt->second.c_str(), n);
  for (int i = 0; i < NN; ++i)
    if (predef[i] && (id == predef[i]) != (strcmp(n, names[i]) == 0))
      fail("predefined-id", "'%s' has the identifier %d", n, (int)id);
  cx->ids[n] = id;
  cx->back[id] = n;
  return id;
}
EventId pick() { // an identifier somebody knows, or none
  Quiet q;
  if (cx->back.empty() || chance(5))
    return (EventId)(chance(50) ? rnd(40) + 200 : -(int64_t)rnd(3));
  auto it = cx->back.begin();
  std::advance(it, (long)rnd(cx->back.size()));
  return it->first;
}
bool known(EventId id) {
  Quiet q;
  return cx->back.count(id) || (id >= 1 && id <= 19);
}
void subscribe(bool sub, EventId id, int ep) {
  uint64_t inv;
  bool mem = !cx->concurrent && chance(5), bad = false;
  const Smp::IEntryPoint *p;
  {
    Quiet q;
    inv = stamp();
    p = cx->eps[ep];
  }
  std::string out;
  if (mem)
    armAlloc((int64_t)rnd(12));
  try {
    if (sub)
      cx->e->em->Subscribe(id, p);
    else
      cx->e->em->Unsubscribe(id, p);
  } catch (const std::bad_alloc &) {
    bad = true;
  } catch (...) {
    armAlloc(-1);
    out = outcome([] { throw; });
  }
  bool hit = mem && allocFired();
  armAlloc(-1);
  Quiet q;
  log("%s %d ep%d: %s", sub ? "subscribe" : "unsubscribe", (int)id, ep, bad ? "no memory" : out.c_str());
  if (!known(id)) {
    if (out != "InvalidEventId" && !(bad && hit))
      fail("invalid-id", "an operation on the unknown event %d gave '%s'", (int)id, out.c_str());
    return;
  }
  if (bad && !hit)
    fail("exception", "bad_alloc raised");
  const char *refused = sub ? "AlreadySubscribed" : "NotSubscribed";
  if (!bad && !out.empty() && out != refused)
    fail("exception", "%s of event %d raised %s", sub ? "Subscribe" : "Unsubscribe", (int)id, out.c_str());
  cx->evs[id].recs.push_back({sub ? SUB : UNSUB, ep, inv, stamp(), bad ? 2 : out.empty() ? 1 : 0, {}});
}
void emit(EventId id) {
  Emission em;
  {
    Quiet q;
    em = {id, self(), stamp(), 0, {}};
    cx->stack[self()].push_back(&em);
    log("emit %d", (int)id);
  }
  std::string out = outcome([&] {
    if (id & 1)
      cx->e->em->Emit(id);
    else
      cx->e->em->Emit(id, id & 2);
  });
  Quiet q;
  cx->stack[self()].pop_back();
  std::string s;
  for (int c : em.called)
    s += std::to_string(c) + " ";
  log("emitted %d: [%s] %s", (int)id, s.c_str(), out.c_str());
  if (!known(id)) {
    if (out != "InvalidEventId")
      fail("invalid-id", "emitting the unknown event %d gave '%s'", (int)id, out.c_str());
    return;
  }
  if (!out.empty())
    fail("exception", "emitting %d raised %s", (int)id, out.c_str());
  // the subscribers were taken before the first of them was called
  cx->evs[id].recs.push_back({EMIT, -1, em.inv, em.first ? em.first : stamp(), 1, em.called});
}
void called(int ep) {
  int d;
  {
    Quiet q;
    auto &st = cx->stack[self()];
    if (st.empty() && cx->simulatorEmits)
      return;
    if (st.empty())
      fail("stray-call", "entry point %d was called outside of any emission of this thread", ep);
    auto *em = st.back();
    for (int c : em->called)
      if (c == ep)
        fail("called-twice", "entry point %d was called twice for one emission of %d", ep, (int)em->id);
    em->called.push_back(ep);
    if (!em->first)
      em->first = stamp();
    d = (int)st.size();
    log("  ep%d called for %d", ep, (int)em->id);
  }
  if (d < 3)
    for (int k = (int)rnd(3); k > 0; --k)
      step(d);
}
void step(int) {
  int k, n, ep;
  {
    Quiet q;
    if (--cx->budget < 0)
      return;
    k = (int)rnd(20);
    n = (int)rnd(NN);
    ep = (int)rnd(cx->neps);
  }
  if (k < 2)
    query(names[n]);
  else if (k < 5) { // known at once
    EventId id = query(names[n]);
    if (id < 0)
      return;
    int w = (int)rnd(3);
    if (w == 0)
      emit(id);
    else
      subscribe(w == 1, id, ep);
  } else if (k < 11)
    subscribe(true, pick(), ep);
  else if (k < 14)
    subscribe(false, pick(), ep);
  else if (k < 19)
    emit(pick());
  else
    query(chance(50) ? "" : nullptr);
}
typedef std::vector<int> List;
struct Search {
  const std::vector<Rec> &v;
  std::set<std::pair<std::vector<bool>, List>> seen;
  size_t visited = 0;
  bool go(std::vector<bool> &done, size_t left, const List &l) {
    if (!left)
      return true;
    if (++visited > 200000)
      return true; // undecided
    if (!seen.insert({done, l}).second)
      return false;
    uint64_t first = UINT64_MAX;
    for (size_t i = 0; i < v.size(); ++i)
      if (!done[i])
        first = std::min(first, v[i].ret);
    for (size_t i = 0; i < v.size(); ++i) {
      if (done[i] || v[i].inv > first)
        continue;
      const Rec &r = v[i];
      auto it = std::find(l.begin(), l.end(), r.ep);
      List n = l;
      bool ok = true, change = true;
      if (r.kind == EMIT) {
        ok = r.called == l;
        change = false;
      } else {
        bool can = (r.kind == SUB) == (it == l.end());
        ok = r.res == 2 || r.res == (int)can;
        change = can && r.res != 0;
      }
      if (!ok)
        continue;
      done[i] = true;
      if (r.kind != EMIT && r.res == 2 && go(done, left - 1, l))
        return true;
      if (change) {
        if (r.kind == SUB)
          n.push_back(r.ep);
        else
          n.erase(n.begin() + (it - l.begin()));
      }
      if (go(done, left - 1, n))
        return true;
      done[i] = false;
    }
    return false;
  }
};
} // namespace
} // namespace wl
using namespace wl;
void wl_events() {
  Env e;
  Ctx c;
  cx = &c;
  c.e = &e;
  c.neps = (int)range(1, 4);
  for (int i = 0; i < c.neps; ++i)
    c.eps.push_back(e.ep("ep" + std::to_string(i), [i] { called(i); }));
  if (chance(50)) {
    e.s->Publish();
    e.s->Configure();
  }
  bool exited = false;
  int threads = (int)rnd(4);
  int n = (int)range(0, threads ? 6 : 25);
  for (int i = 0; i < n; ++i) {
    c.budget = 12;
    if (keep(newOp()))
      step(0);
  }
  if (threads) {
    ++threads;
    struct Op {
      int id, thread;
    };
    std::vector<Op> ops;
    for (int i = (int)range(3, 14); i > 0; --i)
      ops.push_back({newOp(), (int)rnd(threads)});
    c.budget = 24;
    c.concurrent = true;
    std::vector<int> th;
    for (int t = 0; t < threads; ++t)
      th.push_back(spawn([&, t] {
        for (const auto &o : ops)
          if (o.thread == t && keep(o.id))
            step(0);
      }));
    for (int t : th)
      join(t);
    c.concurrent = false;
    probe("concurrent");
  }
  if (chance(20)) { // also when the simulator is gone
    c.simulatorEmits = true;
    c.budget = 0;
    if (e.st() == Smp::SimulatorStateKind::SSK_Building) {
      e.s->Publish();
      e.s->Configure();
      e.s->Connect();
    }
    e.s->Exit();
    c.simulatorEmits = false;
    probe("after the exit");
    for (int i = (int)range(1, 6); i > 0; --i)
      if (chance(70))
        subscribe(chance(50), pick(), (int)rnd(c.neps));
      else
        query(names[rnd(NN)]);
    exited = true;
  }
  // what everybody got is still right, and the subscribers are as they should
  auto ids = c.ids;
  c.budget = 0;
  for (const auto &[name, id] : ids) {
    query(name.c_str());
    if (!exited)
      emit(id);
  }
  for (const auto &[id, ev] : c.evs) {
    Quiet q;
    Search s{ev.recs, {}, 0};
    std::vector<bool> done(ev.recs.size(), false);
    if (!s.go(done, ev.recs.size(), {})) {
      std::string h;
      for (const auto &r : ev.recs) {
        h += std::string(r.kind == SUB ? "subscribe" : r.kind == UNSUB ? "unsubscribe" : "emit") + "(" + (r.kind == EMIT ? "" : std::to_string(r.ep)) + ")[" +
             std::to_string(r.inv) + "," + std::to_string(r.ret) + "]=";
        if (r.kind == EMIT) {
          for (int k : r.called)
            h += std::to_string(k) + ",";
        } else
          h += std::to_string(r.res);
        h += " ";
      }
      fail("subscribers", "event %d: no list of subscribers explains %s", (int)id, h.c_str());
    }
    if (s.visited > 200000)
      probe("undecided");
  }
  e.destroy();
}

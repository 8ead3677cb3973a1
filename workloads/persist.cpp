// P22, P23: storing and restoring, process death, failing disks.
#include "model.h"
#include <Smp/Services/ILogger.h>
namespace wl {
namespace {
constexpr int TEXT = 20000, NTRACE = 400, NZ = 16;
struct ZRec {
  i64 id, t, c;
  int n;        // executions asked for
  int before;   // started before the store was called
  int beforeRet; // started before the store had returned
};
struct Mem { // survives the process
  int phase;
  int nm, neps[4], nf[4], parent[4];
  char snap[TEXT];
  int ntrace, complete;
  uint64_t trace[NTRACE];
  char what[NTRACE][88];
  int nz;
  ZRec z[NZ];
  i64 runFor, storeRet;
  bool anyZ;
  bool deadInStore; // the process died while "bad" was being written
};
Mem *M;
const char *evNames[] = {"evA", "evB", "evC"};

struct World {
  Env e;
  std::vector<TModel *> ms;
  int depth = 0, posts = 0;
  bool tracing = false, replay = false;
  int pos = 0;
  std::map<i64, std::vector<i64>> zruns; // id -> zulu start times in this life
  std::vector<i64> zorder;
  int dieAt = -1;

  explicit World(const char *cfg = nullptr) : e(cfg ? cfg : "log.rootLogger=\n") { build(); }
  void build() {
    registerTypes(e.s->GetTypeRegistry());
    for (int i = 0; i < M->nm; ++i) {
      Smp::IComposite *p = M->parent[i] < 0 ? static_cast<Smp::IComposite *>(e.s) : ms[(size_t)M->parent[i]];
      auto *m = new TModel(("m" + std::to_string(i)).c_str(), p, e.s->GetTypeRegistry(), M->neps[i] + 1, M->nf[i], [this, i](TModel *m, int k) { act(i, m, k); });
      ms.push_back(m);
      if (M->parent[i] < 0)
        e.s->AddModel(m);
      else
        ms[(size_t)M->parent[i]]->kids.AddComponent(m);
    }
  }
  Xsmp::EntryPoint *epOf(uint64_t r) {
    auto *m = ms[r % ms.size()];
    return m->eps[(r / 7) % (m->eps.size() - 1)].get();
  }
  void record(const std::string &w) {
    Quiet q;
    log("trace %s", w.c_str());
    if (!tracing)
      return;
    uint64_t h = 1469598103934665603ull;
    for (char c : w)
      h = (h ^ (unsigned char)c) * 1099511628211ull;
    if (replay) {
      if (pos >= NTRACE)
        return;
      if (pos < M->ntrace) {
        if (M->trace[pos] != h)
          sim::fail("not-identical", "step %d after the restore is '%s', it was '%s' in the storing process", pos, w.c_str(), M->what[pos]);
      } else if (M->complete)
        sim::fail("not-identical", "step %d after the restore is '%s', the storing process did nothing more", pos, w.c_str());
      ++pos;
      return;
    }
    if (M->ntrace < NTRACE) {
      M->trace[M->ntrace] = h;
      snprintf(M->what[M->ntrace], sizeof M->what[0], "%s", w.c_str());
      ++M->ntrace;
    }
    if (dieAt >= 0 && M->ntrace > dieAt) {
      countFault("process-death");
      nextLife();
    }
  }
  // what an entry point does depends on the simulation state only
  void act(int i, TModel *m, int k) {
    if (k == (int)m->eps.size() - 1) {
      // wall-clock events only
      auto id = e.sch->GetCurrentEventId();
      Quiet q;
      zruns[id].push_back((i64)e.tk->GetZuluTime());
      log("wall-clock event %lld at %lld", (long long)id, (long long)zruns[id].back());
      zorder.push_back(id);
      return;
    }
    auto x = (uint64_t)(Smp::Int64)*m->seed * 6364136223846793005ull + 1442695040888963407ull + (uint64_t)k;
    m->seed = (Smp::Int64)x;
    uint64_t r = x >> 20;
    {
      std::ostringstream o;
      // a wall-clock event may be the current one while events are emitted
      o << "m" << i << ".ep" << k << " id=" << (M->anyZ ? 0 : e.sch->GetCurrentEventId()) << " sim=" << e.tk->GetSimulationTime() << " mis=" << e.tk->GetMissionTime() << " epo=" << e.tk->GetEpochTime()
        << " seed=" << x;
      record(o.str());
    }
    if (depth > 1)
      return;
    ++depth;
    step(m, r);
    --depth;
  }
  void step(TModel *m, uint64_t r) {
    uint64_t r2 = r >> 8;
    auto *ep = epOf(r2);
    int posts = m->at;
    std::string got;
    switch (r % 16) {
    case 0: case 1: case 2:
      if (posts < 8) {
        m->at = posts + 1;
        i64 d = (i64)(r2 % 5) * MS, c = (i64)(r2 / 5 % 4 + 1) * MS, n = (i64)(r2 / 20 % 4);
        EventId id = -1;
        switch (r2 / 80 % 4) {
        case 0: id = e.sch->AddSimulationTimeEvent(ep, d, c, n); break;
        case 1: id = e.sch->AddMissionTimeEvent(ep, e.tk->GetMissionTime() + d, c, n); break;
        case 2: id = e.sch->AddEpochTimeEvent(ep, e.tk->GetEpochTime() + d, c, n); break;
        case 3: id = e.sch->AddImmediateEvent(ep); break;
        }
        m->ids.push_back(id);
      }
      break;
    case 3:
      if (!m->ids.empty())
        got = outcome([&] { e.sch->RemoveEvent(m->ids[r2 % m->ids.size()]); });
      break;
    case 4:
      if (!m->ids.empty())
        got = outcome([&] { e.sch->SetEventRepeat(m->ids[r2 % m->ids.size()], (i64)(r2 / 9 % 4)); });
      break;
    case 5:
      if (!m->ids.empty())
        got = outcome([&] { e.sch->SetEventSimulationTime(m->ids[r2 % m->ids.size()], (i64)(r2 / 9 % 4) * MS); });
      break;
    case 6:
      e.em->Emit(e.em->QueryEventId(evNames[r2 % 3]));
      break;
    case 7:
      got = outcome([&] { e.em->Subscribe(e.em->QueryEventId(evNames[r2 % 3]), ep); });
      break;
    case 8:
      got = outcome([&] { e.em->Unsubscribe(e.em->QueryEventId(evNames[r2 % 3]), ep); });
      break;
    case 9:
      if (r2 % 2)
        e.tk->SetEpochTime(e.tk->GetEpochTime() + (i64)(r2 / 2 % 3) * MS);
      else
        e.tk->SetMissionTime(e.tk->GetMissionTime() + (i64)(r2 / 2 % 3) * MS);
      break;
    default:
      poke(m, r);
    }
    if (!got.empty())
      record("  " + got);
  }
  void poke(TModel *m, uint64_t r) {
    uint64_t r2 = r >> 8;
    switch (r % 16) {
    case 10:
      m->arr[r2 % 3] = (Smp::Int32)r2;
      m->sarr[r2 % 4] = (Smp::Int16)r2;
      break;
    case 11:
      m->forc = (double)(r2 % 1000);
      m->ff = (Smp::Int32)(r2 % 777);
      break;
    case 12:
      if (r2 % 3 == 0)
        m->forc.Force(3.25);
      else if (r2 % 3 == 1)
        m->forc.Unforce();
      else
        m->ff.Freeze();
      break;
    case 13:
      if (r2 % 2)
        r2 % 6 < 4 ? m->fail.Fail() : m->fail.Unfail();
      else
        r2 % 6 < 4 ? m->ff.Fail() : m->ff.Unfail();
      m->pair.first = (Smp::Int32)r2;
      m->pair.second = (double)(r2 % 99);
      break;
    case 14: {
      Quiet q;
      m->note += std::to_string(r2 % 100);
      m->wide.push_back((char16_t)(r2 % 60000 + 1));
      m->um[(int)(r2 % 7)] = {(int)(r2 % 5), 0.5};
      m->st.insert((int)(r2 % 11));
      m->m["k" + std::to_string(r2 % 4)] += 3;
      m->bytes[r2 % 5] = (Smp::UInt8)r2;
      m->peer = r2 % 3 == 0 ? nullptr : r2 % 3 == 1 ? static_cast<Smp::IObject *>(ms[r2 % ms.size()]) : static_cast<Smp::IObject *>(epOf(r2));
      break;
    }
    default:
      m->direct = (Smp::Int32)r2;
      m->direct2 = (double)(r2 % 77) / 4;
      m->out = (Smp::Int32)(r2 % 31);
      m->in = (Smp::Int32)(r2 % 29);
    }
  }
  std::string snapshot() {
    std::ostringstream o;
    o << "sim=" << e.tk->GetSimulationTime() << " epoch=" << e.tk->GetEpochTime() << " mission=" << e.tk->GetMissionTime() << " start=" << e.tk->GetMissionStartTime()
      << " next=" << e.sch->GetNextScheduledEventTime() << " known=" << knownIds() << "\n";
    for (auto *m : ms)
      o << m->text() << "\n";
    return o.str();
  }
  std::string names; // the event and kind names queried before the store
  std::string knownIds() {
    std::ostringstream o;
    for (auto n : evNames)
      o << e.em->QueryEventId(n) << ",";
    o << e.em->QueryEventId("SMP_EnterStandby") << "," << e.em->QueryEventId("SMP_PostSimTimeChange") << ",";
    o << e.log->QueryLogMessageKind("kindA") << "," << e.log->QueryLogMessageKind("kindB") << "," << e.log->QueryLogMessageKind("Error");
    return o.str();
  }
  void randomSetup(int lo, int hi) {
    for (int n = (int)range(lo, hi); n > 0; --n) {
      int op = newOp();
      uint64_t r = rnd(1ull << 40);
      int what = (int)rnd(10);
      auto *m = ms[rnd(ms.size())];
      i64 d = range(0, 40) * MS, c = range(1, 8) * MS, rep = chance(20) ? -1 : range(0, 4);
      if (!keep(op))
        continue;
      auto *ep = epOf(r);
      switch (what) {
      case 0: case 1: m->ids.push_back(e.sch->AddSimulationTimeEvent(ep, d, c, rep)); break;
      case 2: m->ids.push_back(e.sch->AddMissionTimeEvent(ep, e.tk->GetMissionTime() + d, c, rep)); break;
      case 3: m->ids.push_back(e.sch->AddEpochTimeEvent(ep, e.tk->GetEpochTime() + d, c, rep)); break;
      case 4: m->ids.push_back(e.sch->AddImmediateEvent(ep)); break;
      case 5: case 6: step(m, (r & ~15ull) | (6 + r / 16 % 4)); break;
      case 7: (void)outcome([&] { e.em->Subscribe(Smp::Services::IEventManager::SMP_PostSimTimeChangeId, ep); }); break;
      default: poke(m, (r & ~15ull) | (10 + r / 16 % 6));
      }
    }
    if (chance(50)) {
      e.log->QueryLogMessageKind(chance(50) ? "kindB" : "other");
      e.em->QueryEventId(chance(50) ? "evC" : "other");
    }
  }
  void postZulu() {
    int n = (int)range(0, 3);
    for (int i = 0; i < n; ++i) {
      int op = newOp();
      auto *m = ms[rnd(ms.size())];
      i64 t = (i64)e.tk->GetZuluTime() + range(1, 3000) * MS, c = range(100, 900) * MS, rep = range(0, 3);
      if (!keep(op))
        continue;
      EventId id = -1;
      if (outcome([&] { id = e.sch->AddZuluTimeEvent(m->eps.back().get(), t, c, rep); }) != "")
        continue; // already past
      Quiet q;
      M->anyZ = true;
      log("posted wall-clock event %lld at %lld cycle %lld repeat %lld", (long long)id, (long long)t, (long long)c, (long long)rep);
      if (M->nz < NZ)
        M->z[M->nz++] = {id, t, c, (int)rep + 1, 0, 0};
    }
  }
  void markZ(bool ret) {
    if (ret) // executions due until here may have been consumed
      M->storeRet = (i64)e.tk->GetZuluTime();
    Quiet q;
    log(ret ? "stored" : "storing");
    for (int i = 0; i < M->nz; ++i)
      (ret ? M->z[i].beforeRet : M->z[i].before) = (int)zruns[M->z[i].id].size();
  }
  // the wall-clock events that were pending when the state was stored
  void judgeZ(i64 restoredAt) {
    i64 last = restoredAt;
    log("restored at %lld", (long long)restoredAt);
    for (int i = 0; i < M->nz; ++i)
      last = std::max(last, M->z[i].t + M->z[i].c * M->z[i].n);
    i64 now = (i64)e.tk->GetZuluTime();
    if (last + 50 * MS > now)
      sleepNs(last + 50 * MS - now + injected());
    settle(); // the wall-clock thread may never have been scheduled
    sleepNs(60000 * MS);
    settle();
    Quiet q;
    for (int i = 0; i < M->nz; ++i) {
      auto &z = M->z[i];
      int must = 0;
      for (int k = z.beforeRet; k < z.n; ++k)
        must += z.t + k * z.c > std::max(restoredAt, M->storeRet);
      int runs = 0;
      for (auto t : zruns[z.id]) {
        ++runs;
        bool ok = false;
        for (int k = z.before; k < z.n; ++k)
          ok |= t >= z.t + k * z.c;
        if (!ok)
          sim::fail("zulu-early", "wall-clock event %lld ran at %lld after the restore", (long long)z.id, (long long)t);
      }
      if (runs < must)
        sim::fail("zulu-lost", "wall-clock event %lld ran %d times after the restore, %d of its %d executions were due after it", (long long)z.id, runs, must, z.n);
      if (runs > z.n - z.before)
        sim::fail("zulu-repeated", "wall-clock event %lld ran %d times after the restore, %d of %d executions were left", (long long)z.id, runs, z.n - z.before, z.n);
      if (must)
        probe("wall-clock executions after restore", (uint64_t)must);
    }
  }
  void run(i64 d) {
    if (e.st() != Smp::SimulatorStateKind::SSK_Standby)
      sim::fail("state", "the simulator is in %s state before a run", stateName(e.st()));
    e.s->Run(d);
    if (e.st() != Smp::SimulatorStateKind::SSK_Standby)
      sim::fail("state", "the simulator is in %s state after a run", stateName(e.st()));
    std::ostringstream o;
    o << "run returned sim=" << e.tk->GetSimulationTime() << " next=" << e.sch->GetNextScheduledEventTime();
    record(o.str());
  }
  void compareSnap(const char *when) {
    auto s = snapshot();
    Quiet q;
    if (s == M->snap)
      return;
    // the first different line
    std::istringstream a(M->snap), b(s);
    std::string x, y;
    while (std::getline(a, x) && std::getline(b, y) && x == y) {
    }
    sim::fail("state-differs", "%s: stored '%.300s' restored '%.300s'", when, x.c_str(), y.c_str());
  }
  void takeSnap() {
    auto s = snapshot();
    Quiet q;
    snprintf(M->snap, TEXT, "%s", s.c_str());
  }
};
void spec() {
  M->nm = (int)range(1, 3);
  for (int i = 0; i < M->nm; ++i) {
    M->neps[i] = (int)range(1, 2);
    M->nf[i] = 10;
    M->parent[i] = i && chance(50) ? (int)rnd((uint64_t)i) : -1;
  }
}
void mustStore(World &w, const char *dir) {
  auto got = outcome([&] { w.e.s->Store(dir); });
  if (got != "")
    sim::fail("store", "the store failed: %s", got.c_str());
}
void mustRestore(World &w, const char *dir) {
  auto got = outcome([&] { w.e.s->Restore(dir); });
  if (got != "")
    sim::fail("restore", "the restore failed: %s", got.c_str());
  if (w.e.st() != Smp::SimulatorStateKind::SSK_Standby)
    sim::fail("state", "the simulator is in %s state after a restore", stateName(w.e.st()));
}
} // namespace

void wl_persist() {
  M = (Mem *)persist(sizeof(Mem));
  if (life() == 0) {
    spec();
    M->runFor = range(5, 60) * MS;
    World w;
    w.e.s->Connect();
    w.randomSetup(0, 6);
    if (chance(60)) {
      w.run(range(1, 20) * MS);
      w.randomSetup(0, 4);
    }
    w.postZulu();
    if (chance(50))
      sleepNs(range(1, 2000) * MS);
    w.takeSnap();
    bool fromZulu = chance(10);
    w.markZ(false);
    if (fromZulu) {
      // stored from a wall-clock entry point, while it is the current event
      bool done = false;
      auto *ep = w.e.ep("storer", [&] {
        mustStore(w, "st");
        Quiet q;
        done = true;
      });
      probe("stored from a wall-clock event");
      w.e.sch->AddZuluTimeEvent(ep, w.e.tk->GetZuluTime() + 1000 * MS, 0, 0);
      M->anyZ = true;
      for (bool d = false; !d;) {
        sleepNs(MS);
        Quiet q;
        d = done;
      }
    } else
      mustStore(w, "st");
    w.markZ(true);
    if (chance(20))
      w.compareSnap("storing changed the state");
    if (chance(20)) {
      countFault("process-death");
      nextLife();
    }
    w.tracing = true;
    if (chance(40))
      w.dieAt = (int)range(0, 30);
    for (i64 t = 0; t < 2; ++t)
      w.run(M->runFor);
    M->complete = 1;
    if (chance(25)) {
      // back in the same process
      probe("restored in the same process");
      w.tracing = false;
      w.randomSetup(0, 2);
      mustRestore(w, "st");
      w.compareSnap("restored in the same process");
      w.tracing = w.replay = true;
      for (i64 t = 0; t < 2; ++t)
        w.run(M->runFor);
      if (w.pos < M->ntrace)
        sim::fail("not-identical", "the restored simulation did only %d of %d steps", w.pos, M->ntrace);
    }
    countFault("process-death");
    nextLife();
  }
  World w;
  w.e.s->Connect();
  if (chance(30)) {
    w.randomSetup(0, 4);
    if (chance(50))
      w.run(range(1, 30) * MS);
  }
  if (life() == 1) {
    mustRestore(w, "st");
    i64 at = (i64)w.e.tk->GetZuluTime();
    probe("restored after process death");
    w.compareSnap("restored after process death");
    if (chance(40)) {
      probe("stored again");
      Quiet *q = new Quiet;
      w.zruns.clear();
      delete q;
      // what ran between the restore and this store is not judged
      M->nz = 0;
      mustStore(w, "st2");
      countFault("process-death");
      nextLife();
    }
    w.tracing = w.replay = true;
    for (i64 t = 0; t < 2; ++t)
      w.run(M->runFor);
    if (w.pos < M->ntrace)
      sim::fail("not-identical", "the restored simulation did only %d of %d steps", w.pos, M->ntrace);
    probe("steps compared", (uint64_t)w.pos);
    w.judgeZ(at);
    w.e.destroy();
    return;
  }
  mustRestore(w, "st2");
  w.compareSnap("restored from a state stored after a restore");
  w.tracing = w.replay = true;
  for (i64 t = 0; t < 2; ++t)
    w.run(M->runFor);
  if (w.pos < M->ntrace)
    sim::fail("not-identical", "the restored simulation did only %d of %d steps", w.pos, M->ntrace);
  probe("steps compared", (uint64_t)w.pos);
  w.e.destroy();
}
namespace {
const char *FILE_ = "/simulator.bin";
void standby(World &w, const char *what) {
  if (w.e.st() != Smp::SimulatorStateKind::SSK_Standby)
    sim::fail("state", "the simulator is in %s state after %s", stateName(w.e.st()), what);
}
// a restore that cannot succeed
void mustNotRestore(World &w, const char *dir, const char *what) {
  auto got = outcome([&] { w.e.s->Restore(dir); });
  log("restore of %s: %s", what, got.c_str());
  if (got == "")
    sim::fail("restore-accepted", "%s was restored without an error", what);
  standby(w, "a failed restore");
  probe(what);
}
void copyCut(const char *from, const char *to, size_t len) {
  auto b = fs::readFile((std::string(from) + FILE_).c_str());
  fs::writeFile((std::string(to) + FILE_).c_str(), b.data(), std::min(len, b.size()));
}
size_t sizeOf(const char *dir) { return fs::readFile((std::string(dir) + FILE_).c_str()).size(); }
int64_t someAllocation(uint64_t r) {
  static const uint64_t most[] = {5, 30, 100, 400};
  return (int64_t)(r / 4 % most[r % 4]);
}
void failingRestores(World &w) {
  for (int n = (int)range(1, 3); n > 0; --n) {
    int op = newOp();
    uint64_t kind = rnd(8), r = rnd(1ull << 40);
    bool again = chance(60), run = chance(40);
    if (!keep(op))
      continue;
    switch (kind) {
    case 0:
      mustNotRestore(w, "nowhere", "a missing file");
      break;
    case 1: case 2: case 3: {
      size_t size = sizeOf("good");
      // a cut anywhere, or of the last few bytes
      size_t len = kind == 1 ? r % size : kind == 2 ? size - 1 - r % std::min<size_t>(size, 12) : r % std::min<size_t>(size, 40);
      copyCut("good", "cut", len);
      log("cut at %zu of %zu", len, size);
      mustNotRestore(w, "cut", "a truncated file");
      break;
    }
    case 4: {
      fs::enableReadErrors(true);
      fs::clearFaultFired();
      fs::enableFaults(true, (int)(1 + r % 60));
      auto got = outcome([&] { w.e.s->Restore("good"); });
      fs::enableFaults(false, 0);
      log("restore with read faults: %s", got.c_str());
      standby(w, "a restore with read errors");
      if (got == "")
        w.compareSnap("restored with read faults");
      else {
        if (!fs::anyFaultFired())
          sim::fail("restore", "the restore failed without a reason: %s", got.c_str());
        probe("restore failed with a read error");
      }
      break;
    }
    case 5: case 6: {
      fs::failMemoryWhileOpen(someAllocation(r));
      auto got = outcome([&] { w.e.s->Restore("good"); });
      bool hit = fs::memoryFailed();
      fs::failMemoryWhileOpen(-1);
      log("restore with little memory: %s", got.c_str());
      standby(w, "a restore without memory");
      if (got == "")
        w.compareSnap("restored with little memory");
      else {
        if (!hit)
          sim::fail("restore", "the restore failed without a reason: %s", got.c_str());
        probe("restore failed without memory");
      }
      break;
    }
    default:
      if (run)
        (void)outcome([&] { w.e.s->Run((i64)(r % 20) * MS); });
      break;
    }
    if (again) {
      mustRestore(w, "good");
      w.compareSnap("restored after a failed restore");
      probe("restored after a failed restore");
    }
  }
}
} // namespace

void wl_persistfault() {
  M = (Mem *)persist(sizeof(Mem));
  if (life() == 0) {
    spec();
    M->runFor = range(5, 60) * MS;
    World w;
    w.e.s->Connect();
    w.randomSetup(0, 6);
    if (chance(60)) {
      w.run(range(1, 20) * MS);
      w.randomSetup(0, 4);
    }
    w.takeSnap(); // also asks for names, which become part of the state
    mustStore(w, "good");
    for (int n = (int)range(0, 3); n > 0; --n) {
      int op = newOp();
      uint64_t kind = rnd(7), r = rnd(1ull << 40);
      bool over = chance(30);
      if (!keep(op))
        continue;
      const char *dir = over && fs::exists("bad/simulator.bin") ? "bad" : kind % 2 ? "bad" : "deep/bad";
      bool died = false;
      switch (kind) {
      case 0: case 1:
        fs::clearFaultFired();
        fs::enableFaults(true, (int)(1 + r % 150));
        break;
      case 2: // the disk fills up, anywhere in the file
        fs::clearFaultFired();
        fs::setCapacity((i64)(r % (sizeOf("good") + 20)));
        break;
      case 3: // a component refuses
        w.ms[r % w.ms.size()]->onStore = [&] { throw std::runtime_error("refused"); };
        died = true;
        break;
      case 4: // the process dies
        w.ms[r % w.ms.size()]->onStore = [&] {
          countFault("process-death");
          M->deadInStore = true;
          nextLife();
        };
        dir = "bad";
        break;
      case 5: // the memory runs out, anywhere between opening and closing the file
        fs::failMemoryWhileOpen(someAllocation(r));
        break;
      default:
        failingRestores(w);
        mustRestore(w, "good");
        w.compareSnap("restored after failed restores");
        continue;
      }
      auto got = outcome([&] { w.e.s->Store(dir); });
      bool noMemory = fs::memoryFailed();
      if (kind == 5)
        fs::failMemoryWhileOpen(-1);
      fs::enableFaults(false, 0);
      fs::setCapacity(-1);
      for (auto *m : w.ms)
        m->onStore = nullptr;
      log("store to %s: %s", dir, got.c_str());
      standby(w, "a store with faults");
      w.compareSnap("after a store with faults");
      if (got != "") {
        if (!died && !noMemory && !(kind != 5 && fs::anyFaultFired()))
          sim::fail("store", "the store failed without a reason: %s", got.c_str());
        if (died)
          countFault("component-error");
        probe("store failed");
        // what is left of it must not be taken for a state
        auto left = outcome([&] { w.e.s->Restore(dir); });
        if (left == "") {
          // everything had been written before the fault
          w.compareSnap("restored from a store that reported a failure");
          probe("failed store restored");
        } else {
          mustRestore(w, "good");
          w.compareSnap("restored after a failed store");
        }
      } else {
        if (died)
          sim::fail("store-accepted", "the store succeeded although a component could not be stored");
        if (sizeOf(dir) != sizeOf("good"))
          sim::fail("store-accepted", "the store succeeded and wrote %zu bytes instead of %zu", sizeOf(dir), sizeOf("good"));
        mustRestore(w, dir);
        w.compareSnap("restored from a store with faults");
        probe("store survived faults");
      }
    }
    w.tracing = true;
    if (chance(30))
      w.dieAt = (int)range(0, 30);
    for (i64 t = 0; t < 2; ++t)
      w.run(M->runFor);
    M->complete = 1;
    if (chance(20)) {
      w.e.destroy();
      if (fs::openHandles())
        sim::fail("handle-leak", "%d files are still open", fs::openHandles());
    }
    countFault("process-death");
    nextLife();
  }
  if (chance(25)) {
    // another simulation: more or fewer components, or fields
    int same = (int)rnd(3);
    int nm = M->nm;
    if (same == 0) {
      if (nm < 4) {
        M->neps[nm] = 1, M->nf[nm] = 10, M->parent[nm] = chance(50) ? (int)rnd((uint64_t)nm) : -1;
        ++M->nm;
      }
    } else if (same == 1 && nm > 1)
      --M->nm;
    else
      M->nf[rnd((uint64_t)M->nm)] = (int)range(0, 9);
    World w;
    w.e.s->Connect();
    w.randomSetup(0, 4);
    mustNotRestore(w, "good", "a state of another simulation");
    mustStore(w, "own");
    w.takeSnap();
    w.randomSetup(0, 3);
    mustRestore(w, "own");
    w.compareSnap("restored after a failed restore");
    w.run(M->runFor);
    w.e.destroy();
    return;
  }
  World w;
  w.e.s->Connect();
  w.randomSetup(0, 3);
  if (M->deadInStore)
    mustNotRestore(w, "bad", "a store that was cut by process death");
  failingRestores(w);
  mustRestore(w, "good");
  w.compareSnap("restored after failed restores");
  w.tracing = w.replay = true;
  for (i64 t = 0; t < 2; ++t)
    w.run(M->runFor);
  if (w.pos < M->ntrace)
    sim::fail("not-identical", "the restored simulation did only %d of %d steps", w.pos, M->ntrace);
  probe("steps compared", (uint64_t)w.pos);
  w.e.destroy();
  if (fs::openHandles())
    sim::fail("handle-leak", "%d files are still open", fs::openHandles());
}
} // namespace wl
void wl_persist() { wl::wl_persist(); }
void wl_persistfault() { wl::wl_persistfault(); }

// The logger: several threads logging through the writer thread to files and
// the console, failing disks, malformed configurations, concurrent first
// queries of message kinds.
#include "env.h"
#include <Xsmp/Helper.h>
using namespace wl;
namespace {
struct Call {
  int th;
  std::string text, kind, path;
  uint64_t inv = 0, ret = 0;
  i64 S0 = 0, S1 = 0, Z0 = 0, Z1 = 0;
  bool refused = false; // for a lack of memory
};
struct App { // a configured destination
  std::string name, file; // no file: the console
  int layout = 0;         // 0 default, 1 simple, 2 pattern
  std::vector<std::string> fields, levels;
  std::string regex;
  int match = 0;
  std::string arg;
  bool accepts(const Call &c) const {
    if (!levels.empty()) {
      bool in = false;
      for (auto &l : levels)
        in = in || l == c.kind;
      if (!in)
        return false;
    }
    switch (match) {
    case 1: return c.path.find(arg) != std::string::npos;
    case 2: return c.path == arg;
    case 3: return c.path.compare(0, arg.size(), arg) == 0;
    default: return true;
    }
  }
  std::string config() const {
    std::string a = "log.appender." + name, t;
    t = a + (rnd(2) ? "=" : " = ") + (file.empty() ? "ConsoleAppender" : "FileAppender") + "\n";
    if (!file.empty())
      t += a + ".File=" + file + "\n";
    if (layout == 1)
      t += a + ".layout=SimpleLayout\n";
    if (layout == 2) {
      t += a + ".layout=PatternLayout\n" + a + ".layout.conversionPattern=";
      for (size_t i = 0; i < fields.size(); ++i)
        t += (i ? "|" : "") + fields[i];
      t += rnd(2) ? "%n\n" : "\\n\n";
    }
    if (!levels.empty()) {
      t += a + ".levels=";
      for (size_t i = 0; i < levels.size(); ++i)
        t += (i ? (rnd(2) ? "," : " , ") : "") + levels[i];
      t += "\n";
    }
    if (match == 1)
      t += a + ".path=.*" + arg + ".*\n";
    if (match == 2)
      t += a + ".path=" + arg + "\n";
    if (match == 3)
      t += a + ".path=" + arg + ".*\n";
    return t;
  }
};
struct Rec {
  std::string path, kind, text;
  bool hasPath = true, hasKind = true;
  i64 S = -1, E = -1, M = -1, Z = -1;
  bool hasS = false, hasE = false, hasM = false, hasZ = false;
};
// texts in a pattern that stand for themselves, and what is written for them
const std::pair<const char *, const char *> literals[] = {
    {"%%", "%"},          {"%t", "\t"},      {"\\t", "\t"},  {"\\\\", "\\"},       {"\\'", "'"},          {"\\\"", "\""},
    {"\\?", "?"},         {"\\a", "\a"},     {"\\b", "\b"},  {"\\f", "\f"},         {"\\r", "\r"},          {"\\v", "\v"},
    {"\\q", "q"},         {"x=y", "x=y"},    {"# z", "# z"}, {"\\\\n", "\\n"},     {"\\t\\v\\t", "\t\v\t"}, {"%%m", "%m"},
    {"100%%\\t%%", "100%\t%"}};
std::vector<std::string> cut(const std::string &s, char c, size_t max = 99) {
  std::vector<std::string> r;
  size_t a = 0;
  for (size_t b; r.size() + 1 < max && (b = s.find(c, a)) != std::string::npos; a = b + 1)
    r.push_back(s.substr(a, b - a));
  r.push_back(s.substr(a));
  return r;
}
bool number(const std::string &s, i64 &v) {
  char *e;
  if (s.empty())
    return false;
  v = strtoll(s.c_str(), &e, 10);
  return !*e;
}
bool parse(const App &a, const std::string &line, Rec &r) {
  if (a.layout == 2) {
    auto f = cut(line, '|');
    if (f.size() != a.fields.size())
      return false;
    for (size_t i = 0; i < f.size(); ++i) {
      auto &k = a.fields[i];
      if (k == "%p") r.path = f[i];
      else if (k == "%k") r.kind = f[i];
      else if (k == "%m") r.text = f[i];
      else if (k == "%S") { r.hasS = true; if (!number(f[i], r.S)) return false; }
      else if (k == "%E") { r.hasE = true; if (!number(f[i], r.E)) return false; }
      else if (k == "%M") { r.hasM = true; if (!number(f[i], r.M)) return false; }
      else if (k == "%d") { r.hasZ = true; if (!number(f[i], r.Z)) return false; }
      else
        for (auto &l : literals)
          if (k == l.first && f[i] != l.second)
            return false;
    }
    return true;
  }
  auto f = cut(line, '\t', a.layout == 1 ? 4 : 5);
  size_t o = a.layout == 1 ? 1 : 2;
  if (f.size() != o + 3)
    return false;
  if (o == 2) {
    r.hasS = true;
    if (!number(f[1], r.S))
      return false;
  }
  r.path = f[o];
  r.kind = f[o + 1];
  r.text = f[o + 2];
  return true;
}
struct Lx {
  std::vector<App> apps;
  std::unique_ptr<Env> e;
  std::deque<Call> calls;
  std::map<std::string, Call *> byText;
  std::vector<std::pair<const Smp::IObject *, std::string>> senders;
  i64 eoff = 0, mstart = 0;
  int serial = 0;
  bool clean = true; // no faults: times are judged too
  Call *next(int th, int snd, const std::string &kind, int tail);
  void logIt(int th, int snd, const std::string &kind, Smp::Services::LogMessageKind id, int tail, bool noMem = false);
  void judge(const App &a, const std::string &text, bool complete, size_t intact);
};
i64 zuluNow() { return real() - 946728000 * SEC; }
Call *Lx::next(int th, int snd, const std::string &kind, int tail) {
  static const char *tails[] = {"", " %m%n", " {}", " a=b", " \\n", " #"};
  calls.emplace_back();
  Call *c = &calls.back();
  c->th = th;
  c->kind = kind;
  c->path = senders[(size_t)snd].second;
  c->text = "m" + std::to_string(th) + "." + std::to_string(serial++);
  if (tail < 6)
    c->text += tails[tail];
  else
    c->text += " " + std::string(tail == 6 ? 300 : 9000, (char)('a' + serial % 26));
  byText[c->text] = c;
  return c;
}
void Lx::logIt(int th, int snd, const std::string &kind, Smp::Services::LogMessageKind id, int tail, bool noMem) {
  Call *c;
  {
    Quiet q;
    c = next(th, snd, kind, tail);
    c->S0 = e->tk->GetSimulationTime();
    c->Z0 = zuluNow();
    c->inv = stamp();
    sim::log("T%d log %s", self(), c->text.substr(0, 12).c_str());
  }
  if (noMem)
    armAlloc((int64_t)rnd(4));
  auto got = outcome([&] { e->log->Log(senders[(size_t)snd].first, c->text.c_str(), id); });
  bool hit = noMem && allocFired();
  armAlloc(-1);
  Quiet q;
  c->ret = stamp();
  c->S1 = e->tk->GetSimulationTime();
  c->Z1 = zuluNow();
  if (hit && got == "std:std::bad_alloc") {
    c->refused = true;
    countFault("allocation failed");
    return;
  }
  if (got != "")
    fail("log-threw", "a log call failed: %s", got.c_str());
}
// complete: the whole text is judged; otherwise its first bytes, and every
// record before them must be there
void Lx::judge(const App &a, const std::string &text, bool complete, size_t intact) {
  const char *nm = a.file.empty() ? "console" : a.file.c_str();
  std::vector<Call *> seen;
  std::set<Call *> once;
  size_t at = 0;
  while (at < text.size()) {
    auto nl = text.find('\n', at);
    std::string line = text.substr(at, nl == std::string::npos ? nl : nl - at);
    if (!complete && (nl == std::string::npos || nl >= intact))
      return; // torn by the fault
    if (nl == std::string::npos)
      fail("torn-record", "%s ends in an incomplete record: %s", nm, line.substr(0, 200).c_str());
    at = nl + 1;
    Rec r;
    if (!parse(a, line, r))
      fail("torn-record", "%s contains the malformed record: %s", nm, line.substr(0, 200).c_str());
    if (r.text.empty() || r.text[0] != 'm')
      continue; // a message of the simulator itself
    auto it = byText.find(r.text);
    if (it == byText.end())
      fail("unknown-record", "%s contains a record that was never logged: %s", nm, line.substr(0, 200).c_str());
    Call *c = it->second;
    if (!once.insert(c).second)
      fail("duplicate-record", "%s contains %s twice", nm, c->text.substr(0, 40).c_str());
    if (c->refused)
      fail("refused-record", "%s contains %s, which was refused for a lack of memory", nm, c->text.substr(0, 40).c_str());
    if (r.path != c->path || r.kind != c->kind)
      fail("record-content", "%s: message %s of %s (%s) was written as from %s (%s)", nm, c->text.substr(0, 40).c_str(), c->path.c_str(), c->kind.c_str(),
           r.path.c_str(), r.kind.c_str());
    if (!a.accepts(*c))
      fail("filter", "%s contains %s of %s (%s), which its filters do not accept", nm, c->text.substr(0, 40).c_str(), c->path.c_str(), c->kind.c_str());
    if (clean) {
      if (r.hasS && (r.S < c->S0 || r.S > c->S1))
        fail("record-time", "%s: simulation time %lld of %s, logged between %lld and %lld", nm, (long long)r.S, c->text.substr(0, 40).c_str(), (long long)c->S0,
             (long long)c->S1);
      if (r.hasE && (r.E < c->S0 + eoff || r.E > c->S1 + eoff))
        fail("record-time", "%s: epoch time %lld of %s, logged between %lld and %lld", nm, (long long)r.E, c->text.substr(0, 40).c_str(),
             (long long)(c->S0 + eoff), (long long)(c->S1 + eoff));
      if (r.hasM && (r.M < c->S0 + eoff - mstart || r.M > c->S1 + eoff - mstart))
        fail("record-time", "%s: mission time %lld of %s, logged between %lld and %lld", nm, (long long)r.M, c->text.substr(0, 40).c_str(),
             (long long)(c->S0 + eoff - mstart), (long long)(c->S1 + eoff - mstart));
      if (r.hasZ && (r.Z < c->Z0 || r.Z > c->Z1))
        fail("record-time", "%s: zulu time %lld of %s, logged between %lld and %lld", nm, (long long)r.Z, c->text.substr(0, 40).c_str(), (long long)c->Z0,
             (long long)c->Z1);
    }
    seen.push_back(c);
  }
  uint64_t maxInv = 0;
  for (auto *c : seen) {
    if (c->ret && c->ret < maxInv)
      fail("order", "%s: %s was logged before the call of a message written ahead of it", nm, c->text.substr(0, 40).c_str());
    if (c->inv > maxInv)
      maxInv = c->inv;
  }
  if (complete)
    for (auto &c : calls)
      if (c.ret && !c.refused && a.accepts(c) && !once.count(&c))
        fail("lost-record", "%s does not contain %s of %s (%s)", nm, c.text.substr(0, 40).c_str(), c.path.c_str(), c.kind.c_str());
}
const char *const predefined[] = {"Information", "Event", "Warning", "Error", "Debug"};
App makeApp(int n, bool console) {
  App a;
  a.name = "a" + std::to_string(n);
  if (!console)
    a.file = (rnd(4) ? "out" : "logs/out") + std::to_string(n) + ".log";
  a.layout = (int)rnd(4) ? 2 : (int)rnd(2);
  if (a.layout == 2) {
    a.fields = {"%p", "%k", "%m"};
    static const char *more[] = {"%S", "%E", "%M", "%d"};
    for (auto *m : more)
      if (rnd(3) == 0)
        a.fields.push_back(m);
    for (int k = (int)rnd(3); k > 0; --k)
      a.fields.push_back(literals[rnd(std::size(literals))].first);
    for (size_t i = a.fields.size(); i > 1; --i)
      std::swap(a.fields[i - 1], a.fields[rnd(i)]);
  }
  if (rnd(3) == 0)
    for (int k = (int)range(1, 3); k > 0; --k) {
      static const char *l[] = {"Information", "Event", "Warning", "Error", "Debug", "k0", "k1", "k2"};
      a.levels.push_back(l[rnd(8)]);
    }
  if (rnd(4) == 0) {
    a.match = (int)range(1, 3);
    static const char *c[] = {"Timekeeper", "Sched", "X"}, *f[] = {"", "/XsmpScheduler", "/XsmpTimeKeeper", "/XsmpLogger"}, *s[] = {"/Xsmp", "/"};
    a.arg = a.match == 1 ? c[rnd(3)] : a.match == 2 ? f[range(1, 3)] : s[rnd(2)];
  }
  return a;
}
void senders(Lx &x) {
  for (const Smp::IObject *o : {static_cast<const Smp::IObject *>(x.e->s), static_cast<const Smp::IObject *>(x.e->sch), static_cast<const Smp::IObject *>(x.e->tk),
                                static_cast<const Smp::IObject *>(x.e->log)})
    x.senders.push_back({o, Xsmp::Helper::GetPath(o)});
}
std::string rootLine(const std::vector<App> &apps) {
  std::string t = "log.rootLogger=";
  for (size_t i = 0; i < apps.size(); ++i)
    t += (i ? (rnd(2) ? "," : " , ") : "") + apps[i].name;
  return t + "\n";
}
struct LogOp {
  int op, what, snd, kind, tail;
  i64 pause;
};
std::vector<LogOp> script(int n, bool big) {
  std::vector<LogOp> r;
  for (; n > 0; --n)
    r.push_back({newOp(), (int)rnd(10), (int)rnd(4), (int)rnd(9), rnd(8) ? (int)rnd(6) : big && rnd(3) == 0 ? 7 : 6, rnd(6) ? 0 : (i64)rnd(3) * MS});
  return r;
}
} // namespace

void wl_logger() {
  Lx x;
  raceFatal(true);
  int n = (int)range(1, 3);
  bool console = rnd(3) == 0;
  for (int i = 0; i < n; ++i) {
    x.apps.push_back(makeApp(i, console && i == 0));
    auto &f = x.apps.back().file;
    if (f.compare(0, 5, "logs/") == 0)
      f = f.substr(5); // directories are for the fault workload
  }
  std::string cfg = rnd(2) ? "# configuration\n\n" : "";
  std::string root = rootLine(x.apps);
  if (rnd(2))
    cfg += root;
  for (auto &a : x.apps)
    cfg += a.config();
  if (cfg.find("rootLogger") == std::string::npos)
    cfg += root;
  x.e = std::make_unique<Env>(cfg.c_str());
  senders(x);
  auto &e = *x.e;
  log("config:\n%s", cfg.c_str());
  if (rnd(2)) {
    x.mstart = range(0, 5) * SEC;
    x.eoff = range(0, 9) * SEC;
    e.tk->SetEpochTime(x.eoff);
    e.tk->SetMissionStartTime(x.mstart);
  } else {
    x.eoff = e.tk->GetEpochTime();
    x.mstart = e.tk->GetMissionStartTime();
  }
  e.s->Connect();
  int nth = (int)range(0, 3);
  std::vector<std::vector<LogOp>> sc;
  for (int i = 0; i <= nth; ++i)
    sc.push_back(script((int)range(1, 8), true));
  bool noMem = chance(30);
  auto go = [&](int th, const LogOp &o) {
    if (!keep(o.op))
      return;
    if (o.pause)
      sleepNs(o.pause);
    std::string kind;
    Smp::Services::LogMessageKind id;
    if (o.kind < 5) {
      kind = predefined[o.kind];
      id = o.kind;
    } else if (o.kind < 8) {
      kind = "k" + std::to_string(o.kind - 5);
      id = e.log->QueryLogMessageKind(kind.c_str());
    } else {
      kind = "<unknown: 4711>";
      id = 4711;
    }
    x.logIt(th, o.snd, kind, id, o.tail, noMem && o.what < 3);
  };
  std::vector<int> th;
  for (int i = 1; i <= nth; ++i)
    th.push_back(spawn([&, i] {
      for (auto &o : sc[(size_t)i])
        go(i, o);
    }));
  // the main thread logs from entry points or directly
  bool run = chance(60);
  size_t k = 0;
  if (run) {
    for (auto &o : sc[0]) {
      auto *po = &o;
      i64 at = (i64)rnd(4) * MS + (i64)rnd(1000);
      e.sch->AddSimulationTimeEvent(e.ep("l" + std::to_string(k++), [&, po] { go(0, *po); }), at);
    }
    e.s->Run(4 * MS);
  } else
    for (auto &o : sc[0])
      go(0, o);
  for (int t : th)
    join(t);
  if (chance(30)) {
    // written without waiting for anything else
    sleepNs(MS);
    settle();
    Quiet q;
    probe("judged before the shutdown");
    for (auto &a : x.apps)
      if (a.layout != 1)
        x.judge(a, a.file.empty() ? coutBuf().text : fs::readFile(a.file.c_str()), true, 0);
  }
  e.destroy();
  Quiet q;
  for (auto &a : x.apps)
    x.judge(a, a.file.empty() ? coutBuf().text : fs::readFile(a.file.c_str()), true, 0);
  if (fs::openHandles())
    fail("handle-leak", "%d files still open after the shutdown", fs::openHandles());
  probe("messages", x.calls.size());
}

void wl_logfault() {
  Lx x;
  x.clean = false;
  int n = (int)range(1, 3);
  // a healthy destination ...
  App c;
  c.name = "ok";
  c.layout = 2;
  c.fields = {"%p", "%k", "%m"};
  for (int i = 0; i < n; ++i)
    x.apps.push_back(makeApp(i, false));
  auto list = x.apps;
  list.insert(list.begin() + (long)rnd(list.size() + 1), c);
  std::string cfg = rootLine(list);
  cfg += c.config();
  for (auto &a : x.apps)
    cfg += a.config();
  bool weird = chance(40), garbage = weird && chance(30);
  std::set<std::string> odd;
  if (weird) {
    // ... among malformed ones
    static const char *bad[] = {
        "log.appender.b0=FileAppender\nlog.appender.b0.File=b0.log\nlog.appender.b0.layout=PatternLayout\nlog.appender.b0.layout.conversionPattern=%m %",
        "log.appender.b1=FileAppender\nlog.appender.b1.File=b1.log\nlog.appender.b1.layout.conversionPattern=%d{%F",
        "log.appender.b2=FileAppender\nlog.appender.b2.layout=NoLayout",
        "log.appender.b3=NoAppender",
        "log.appender.b4=FileAppender\nlog.appender.b4.File=\nlog.appender.b4.path=[",
        "log.appender.b5=FileAppender\nlog.appender.b5.File=b5.log\nlog.appender.b5.layout=PatternLayout\nlog.appender.b5.layout.conversionPattern=%S{%F %Q}%q%m%n",
        "log.appender.b6=FileAppender\nlog.appender.b6.File=b6.log\nlog.appender.b6.levels=,,\nlog.appender.b6.path=(",
        "log.appender.b7=FileAppender\nlog.appender.b7.File=b7.log\nlog.appender.b7.layout.conversionPattern=",
        "log.appender.b8=FileAppender\nlog.appender.b8.File=b8.log\nlog.appender.b8.layout.conversionPattern=%d{",
        "log.appender.b9=FileAppender\nlog.appender.b9.File=b9.log\nlog.appender.b9.layout.conversionPattern=%m\\",
        "nonsense",
        "=",
        "log.appender.=FileAppender",
        "log.appender.b10=FileAppender\nlog.appender.b10.File=b10.log\nlog.appender.b10.layout=PatternLayout\nlog.appender.b10.layout.conversionPattern=%M%",
    };
    std::string extra;
    for (int i = 0; i < 14; ++i)
      if (rnd(5) == 0) {
        int op = newOp();
        if (!keep(op))
          continue;
        cfg += std::string(bad[i]) + "\n";
        extra += ",b" + std::to_string(i);
      }
    if (rnd(4) == 0)
      extra += ",,missing, ";
    auto nl = cfg.find('\n');
    cfg.insert(nl, extra);
    if (garbage) {
      for (int k = (int)range(1, 4); k > 0; --k) {
        size_t p = rnd(cfg.size() + 1);
        switch (rnd(3)) {
        case 0: cfg.erase(p, 1 + rnd(5)); break;
        case 1: cfg.insert(p, 1, "%{}\\=\n,#.*[("[rnd(11)]); break;
        default: cfg.resize(p); break;
        }
      }
    }
  }
  bool capacity = chance(30), early = chance(30);
  fs::writeFile("XsmpLogger.properties", cfg.data(), cfg.size());
  if (early) {
    fs::enableReadErrors(false); // the configuration itself can be read
    fs::enableFaults(true, 60);
    probe("faults while the destinations are opened");
  }
  log("config:\n%s", cfg.c_str());
  x.e = std::make_unique<Env>(nullptr);
  senders(x);
  auto &e = *x.e;
  bool conf = !fs::anyFaultFired(); // all files have been opened
  e.s->Connect();
  int nth = (int)range(0, 2);
  std::vector<std::vector<LogOp>> sc;
  for (int i = 0; i <= nth; ++i)
    sc.push_back(script((int)range(2, 8), true));
  if (chance(70))
    fs::enableFaults(true, (int)range(5, 80));
  else
    fs::enableFaults(false, 0);
  if (capacity)
    fs::setCapacity((i64)rnd(2000));
  auto go = [&](int th, const LogOp &o) {
    if (!keep(o.op))
      return;
    if (o.pause)
      sleepNs(o.pause);
    int k = o.kind % 5;
    x.logIt(th, o.snd, predefined[k], k, o.tail);
  };
  std::vector<int> th;
  for (int i = 1; i <= nth; ++i)
    th.push_back(spawn([&, i] {
      for (auto &o : sc[(size_t)i])
        go(i, o);
    }));
  int ran = 0, want = 0;
  if (chance(60)) {
    size_t k = 0;
    for (auto &o : sc[0]) {
      auto *po = &o;
      ++want;
      e.sch->AddSimulationTimeEvent(e.ep("l" + std::to_string(k++), [&, po] {
        ++ran;
        go(0, *po);
      }),
                                    (i64)rnd(4) * MS);
    }
    e.s->Run(4 * MS);
  } else
    for (auto &o : sc[0])
      go(0, o);
  for (int t : th)
    join(t);
  if (ran != want || e.st() != Smp::SimulatorStateKind::SSK_Standby)
    fail("disturbed", "%d of %d events were executed, the simulator is in state %s", ran, want, stateName(e.st()));
  e.destroy();
  fs::enableFaults(false, 0);
  Quiet q;
  if (!garbage)
    x.judge(c, coutBuf().text, true, 0);
  if (!weird && conf)
    for (auto &a : x.apps)
      if (a.file.find('/') == std::string::npos) {
        size_t in = fs::intactSize(a.file.c_str());
        x.judge(a, fs::readFile(a.file.c_str()), in == (size_t)-1, in);
        probe(in == (size_t)-1 ? "destination without a fault" : "destination with a fault");
      }
  if (fs::openHandles())
    fail("handle-leak", "%d files still open after the shutdown", fs::openHandles());
}

void wl_logkind() {
  auto e = std::make_unique<Env>("log.rootLogger=k\nlog.appender.k=FileAppender\nlog.appender.k.File=k.log\nlog.appender.k.layout.conversionPattern=%m|%k%n\n");
  static const char *names[] = {"Information", "Event", "Warning", "Error", "Debug", "k0", "k1", "k2", "k", "k00", "info", ""};
  std::map<std::string, i64> ids;
  std::map<i64, std::string> back;
  std::map<std::string, std::string> want; // text -> kind
  int serial = 0;
  e->s->Connect();
  bool faults = chance(50);
  auto query = [&](const char *nm) {
    if (faults && chance(25)) {
      Smp::Services::LogMessageKind k;
      armAlloc((int64_t)rnd(3));
      auto got = outcome([&] { k = e->log->QueryLogMessageKind(nm); });
      bool hit = allocFired();
      armAlloc(-1);
      if (hit && got == "std:std::bad_alloc")
        countFault("allocation failed"); // and the name can be queried again
      else if (!got.empty())
        fail("query", "querying %s: %s", nm, got.c_str());
    }
    auto id = e->log->QueryLogMessageKind(nm);
    Quiet q;
    log("T%d query %s = %lld", self(), nm, (long long)id);
    auto [a, fa] = ids.try_emplace(nm, id);
    if (a->second != (i64)id)
      fail("kind-changed", "kind '%s' was %lld and is now %lld", nm, (long long)a->second, (long long)id);
    auto [b, fb] = back.try_emplace((i64)id, nm);
    if (b->second != nm)
      fail("kind-shared", "kinds '%s' and '%s' share the identifier %lld", nm, b->second.c_str(), (long long)id);
    for (int i = 0; i < 5; ++i)
      if (std::string(nm) == predefined[i] && (i64)id != i)
        fail("kind-predefined", "predefined kind '%s' is %lld", nm, (long long)id);
    return id;
  };
  auto write = [&](const std::string &nm, Smp::Services::LogMessageKind id) {
    std::string t;
    {
      Quiet q;
      t = "m" + std::to_string(serial++);
      want[t] = nm;
    }
    e->log->Log(e->s, t.c_str(), id);
  };
  struct Op {
    int op, what, name;
  };
  auto round = [&] {
    int nth = (int)range(1, 3);
    std::vector<std::vector<Op>> sc((size_t)nth + 1);
    for (auto &s : sc)
      for (int n = (int)range(1, 6); n > 0; --n)
        s.push_back({newOp(), (int)rnd(4), (int)rnd(12)});
    auto go = [&](std::vector<Op> &s) {
      for (auto &o : s) {
        if (!keep(o.op))
          continue;
        auto id = query(names[o.name]);
        if (o.what < 2)
          write(names[o.name], id);
        else if (o.what == 2) { // one somebody else got
          std::string nm;
          i64 k = -1;
          {
            Quiet q;
            auto it = back.begin();
            std::advance(it, (long)(rnd(back.size())));
            k = it->first;
            nm = it->second;
          }
          write(nm, (Smp::Services::LogMessageKind)k);
        }
      }
    };
    std::vector<int> th;
    for (int i = 1; i <= nth; ++i)
      th.push_back(spawn([&, i] { go(sc[(size_t)i]); }));
    go(sc[0]);
    for (int t : th)
      join(t);
  };
  auto written = [&] {
    e->destroy();
    Quiet q;
    std::istringstream in(fs::readFile("k.log"));
    for (std::string line; std::getline(in, line);) {
      auto p = line.find('|');
      auto it = want.find(line.substr(0, p));
      if (it == want.end())
        continue;
      if (line.substr(p + 1) != it->second)
        fail("kind-name", "%s was logged with the kind '%s' and written as '%s'", it->first.c_str(), it->second.c_str(), line.substr(p + 1).c_str());
      want.erase(it);
    }
    if (!want.empty())
      fail("lost-record", "%zu messages were not written", want.size());
  };
  round();
  if (chance(50)) {
    probe("store and restore");
    auto got = outcome([&] { e->s->Store("st"); });
    if (got != "")
      fail("store", "the store failed: %s", got.c_str());
    written();
    e.reset();
    e = std::make_unique<Env>(nullptr);
    e->s->Connect();
    // kinds queried before the restore are replaced by it
    if (chance(30))
      e->log->QueryLogMessageKind("k2");
    got = outcome([&] { e->s->Restore("st"); });
    if (got != "")
      fail("restore", "the restore failed: %s", got.c_str());
    {
      Quiet q;
      log("restored in %s: %zu bytes\n%s", stateName(e->st()), fs::readFile("st/simulator.bin").size(), fs::readFile("k.log").c_str());
    }
    for (auto &[nm, id] : std::map<std::string, i64>(ids)) {
      query(nm.c_str());
      write(nm, (Smp::Services::LogMessageKind)id);
    }
    round();
  }
  written();
}

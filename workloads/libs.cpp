// P21: loading and finalising libraries, on the simulated loader.
#include "env.h"
#include <Smp/IFactory.h>
#include <Smp/Services/ILogger.h>
#include <Xsmp/LibraryHelper.h>
namespace wl {
namespace {
enum Init { iOk, iFalse, iThrowStd, iThrowInt, iNested, iNestedFalse, NI };
enum Fin { fOk, fFalse, fThrowStd, fThrowInt, fNested, NF };
constexpr int NL = 5;
struct L {
  sim::dl::Lib *lib = nullptr;
  int init = iOk, fin = fOk, nested = 0, inits = 0, initFails = 0, loads = 0;
  bool hasInit = true, hasFin = true, present = true;
};
struct LB {
  Env e{errLogConfig};
  L l[NL];
  std::vector<int> loaded; // in order
  int depth = 0, failures = 0;
  int64_t memAfter = -1; // allocations after Initialise until the memory runs out
  bool destroying = false;
  bool onInit(int i, Smp::ISimulator *s, Smp::Publication::ITypeRegistry *t);
  bool onFin(int i, Smp::ISimulator *s);
  void load(int i);
};
LB *lb;
template <int I> bool initialise(Smp::ISimulator *s, Smp::Publication::ITypeRegistry *t) { return lb->onInit(I, s, t); }
template <int I> bool finalise(Smp::ISimulator *s) { return lb->onFin(I, s); }
void *inits[] = {(void *)initialise<0>, (void *)initialise<1>, (void *)initialise<2>, (void *)initialise<3>, (void *)initialise<4>};
void *fins[] = {(void *)finalise<0>, (void *)finalise<1>, (void *)finalise<2>, (void *)finalise<3>, (void *)finalise<4>};
bool LB::onInit(int i, Smp::ISimulator *s, Smp::Publication::ITypeRegistry *t) {
  auto &x = l[i];
  struct After {
    int64_t n;
    bool hit = allocFired();
    ~After() {
      if (!hit && n >= 0)
        armAlloc(n);
    }
  } after{std::exchange(memAfter, -1)};
  if (!after.hit)
    armAlloc(-1); // not within the library
  {
    Quiet q;
    log("initialise %d", i);
    ++x.inits;
    if (s != e.s || t != e.s->GetTypeRegistry())
      sim::fail("arguments", "library %d was initialised with another simulator or type registry", i);
    if (!x.hasFin)
      sim::fail("initialised-incomplete", "library %d has no Finalise but was initialised", i);
  }
  switch (x.init) {
  case iFalse: ++x.initFails; return false;
  case iThrowStd: ++x.initFails; throw std::runtime_error("init");
  case iThrowInt: ++x.initFails; throw 5;
  case iNested: case iNestedFalse:
    if (depth < 3)
      load(x.nested);
    if (x.init == iNestedFalse) {
      ++x.initFails;
      return false;
    }
    return true;
  default: return true;
  }
}
bool LB::onFin(int i, Smp::ISimulator *s) {
  auto &x = l[i];
  {
    Quiet q;
    log("finalise %d", i);
    if (s != e.s)
      sim::fail("arguments", "library %d was finalised with another simulator", i);
    if (!destroying)
      sim::fail("finalised-early", "library %d was finalised before the simulator was destroyed", i);
    if (loaded.empty() || loaded.back() != i)
      sim::fail("finalise-order", "library %d was finalised instead of %d", i, loaded.empty() ? -1 : loaded.back());
    loaded.pop_back();
    probe("finalised");
  }
  switch (x.fin) {
  case fFalse: return false;
  case fThrowStd: countFault("throwing Finalise"); throw std::runtime_error("fin");
  case fThrowInt: countFault("throwing Finalise"); throw 5;
  case fNested:
    x.fin = fOk;
    if (depth < 3)
      load(x.nested);
    return true;
  default: return true;
  }
}
void LB::load(int i) {
  auto &x = l[i];
  ++depth;
  char name[8];
  snprintf(name, sizeof name, i < 0 ? "zz" : "l%d", i);
  int opens = 0, before = 0, closes = 0;
  {
    Quiet q;
    log("load %s", name);
    if (i >= 0 && x.lib)
      opens = x.lib->opens, closes = x.lib->closes;
    before = i >= 0 ? x.inits : 0;
  }
  bool noMemory = chance(25), hit;
  int64_t mem = noMemory && chance(50) ? (int64_t)rnd(8) : -1;
  memAfter = noMemory && mem < 0 ? (int64_t)rnd(5) : -1;
  // the loader itself has its own memory
  auto got = scarce(mem < 0 && noMemory ? 1000000 : mem, hit, [&] { e.s->LoadLibrary(i < -1 ? nullptr : name); });
  Quiet q;
  memAfter = -1;
  --depth;
  log("load %s: %s", name, got.c_str());
  bool opened = i >= 0 && x.lib && x.lib->opens > opens, called = i >= 0 && x.inits > before;
  bool direct = depth == 0 && !destroying; // nested loads of the same library make the counts ambiguous
  if (outOfMemory(hit, got)) {
    if (called && (x.init == iOk || x.init == iNested))
      sim::fail("wrong-result", "library %d was initialised, but not loaded: no memory", i);
    if (direct && opened && !called && x.lib->opens - opens != x.lib->closes - closes)
      sim::fail("handle-leak", "the handle of library %d that could not be loaded was left open", i);
    probe("loads without memory");
  } else if (i < 0 || !opened) {
    if (got != "Smp:LibraryNotFound")
      sim::fail("wrong-result", "loading a missing library gave '%s'", got.c_str());
    ++failures;
  } else if (!x.hasInit || !x.hasFin) {
    if (got != "Smp:InvalidLibrary")
      sim::fail("wrong-result", "loading an incomplete library gave '%s'", got.c_str());
    if (called)
      sim::fail("initialised-incomplete", "an incomplete library was initialised");
    if (direct && x.lib->opens - opens != x.lib->closes - closes)
      sim::fail("handle-leak", "the handle of incomplete library %d was left open", i);
    ++failures;
    probe("incomplete libraries");
  } else if (x.init == iOk || x.init == iNested) {
    if (!got.empty())
      sim::fail("wrong-result", "loading library %d gave '%s'", i, got.c_str());
    if (!called)
      sim::fail("not-initialised", "library %d was not initialised", i);
    loaded.push_back(i);
    ++x.loads;
    probe("loaded");
  } else {
    if (got.empty() || ((x.init == iFalse || x.init == iNestedFalse) && got != "Smp:InvalidLibrary"))
      sim::fail("wrong-result", "loading library %d that refuses to initialise gave '%s'", i, got.c_str());
    if (!called)
      sim::fail("not-initialised", "library %d was not initialised", i);
    if (x.init != iThrowStd && x.init != iThrowInt)
      ++failures;
    probe("refused libraries");
  }
}
} // namespace
} // namespace wl

void wl_libs() {
  using namespace wl;
  LB x;
  lb = &x;
  for (int i = 0; i < NL; ++i) {
    auto &l = x.l[i];
    l.present = chance(90);
    l.hasInit = chance(85);
    l.hasFin = chance(85);
    l.init = chance(50) ? iOk : (int)rnd(NI);
    l.fin = chance(50) ? fOk : (int)rnd(NF);
    l.nested = (int)rnd(NL);
    if (!l.present)
      continue;
    Quiet q;
    l.lib = dl::add(("libl" + std::to_string(i) + ".so").c_str());
    if (l.hasInit)
      l.lib->initialise = inits[i];
    if (l.hasFin)
      l.lib->finalise = fins[i];
  }
  if (chance(40))
    dl::enableFaults(150);
  int ran = 0, up = 0;
  bool wantLoad = false;
  auto *ep = x.e.ep("ep", [&] {
    ++ran;
    if (wantLoad)
      x.load((int)rnd(NL));
  });
  auto loads = [&] {
    for (int k = (int)range(0, 4); k > 0; --k) {
      int n = newOp();
      int i = (int)range(-2, NL - 1);
      if (i < 0 && chance(50))
        i = 0;
      if (keep(n))
        x.load(i);
    }
  };
  loads();
  x.e.s->Connect();
  loads();
  for (int k = (int)range(1, 3); k > 0; --k) {
    wantLoad = chance(30);
    int before = ran;
    auto id = x.e.sch->AddSimulationTimeEvent(ep, MS);
    (void)id;
    x.e.s->Run(2 * MS);
    if (ran != before + 1)
      sim::fail("not-usable", "an event was called %d times after the loading of libraries", ran - before);
    wantLoad = false;
    loads();
    ++up;
  }
  if (chance(50))
    x.e.s->Exit();
  {
    Quiet q;
    for (auto &l : x.l)
      if (l.lib && l.lib->opens - l.lib->closes < l.loads)
        sim::fail("closed-early", "a loaded library was closed");
  }
  // the helper functions themselves
  if (chance(30)) {
    if (void *h = Xsmp::LoadLibrary("l0")) {
      void *got = Xsmp::GetSymbol(h, "Initialise"), *none = Xsmp::GetSymbol(h, "Other");
      if (got != x.l[0].lib->initialise || none || Xsmp::GetLastError().empty() || !Xsmp::GetLastError().empty() || Xsmp::GetSymbol(h, nullptr))
        sim::fail("symbols", "wrong symbol or error");
      Xsmp::CloseLibrary(h);
    } else if (Xsmp::GetLastError().empty())
      sim::fail("symbols", "no error text for a library that cannot be loaded");
    if (Xsmp::LoadLibrary(nullptr))
      sim::fail("symbols", "a library without a name was loaded");
  }
  x.destroying = true;
  x.e.destroy();
  Quiet q;
  if (!x.loaded.empty())
    sim::fail("not-finalised", "library %d was not finalised", x.loaded.back());
  for (auto &l : x.l)
    if (l.lib) {
      int open = l.lib->opens - l.lib->closes;
      if (open < 0 || open > l.loads + l.initFails)
        sim::fail("handle-leak", "%d handles of %s are open after %d successful loads", open, l.lib->file.c_str(), l.loads);
    }
  std::istringstream in(errLog());
  std::string s;
  int n = 0;
  while (std::getline(in, s))
    n += s.find("|Error|") != std::string::npos;
  if (n < x.failures)
    sim::fail("not-logged", "%d errors were logged for %d failed loads", n, x.failures);
}

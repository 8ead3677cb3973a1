// A complete simulator for the demonstrations.
#include <Smp/ISimulator.h>
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/ILinkRegistry.h>
#include <Smp/Services/ILogger.h>
#include <Smp/Services/IScheduler.h>
#include <Smp/Services/ITimeKeeper.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Simulator.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
extern "C" bool Initialise_xsmp_services(::Smp::ISimulator *, ::Smp::Publication::ITypeRegistry *);
static constexpr int64_t MS = 1000000;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "wrong: %s (line %d)\n", #c, __LINE__); std::_Exit(1); } } while (0)
struct Sim {
  Xsmp::Simulator *s;
  Smp::Services::IScheduler *sch;
  Smp::Services::IEventManager *em;
  Smp::Services::ITimeKeeper *tk;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps;
  explicit Sim(bool connect = true) {
    s = static_cast<Xsmp::Simulator *>(createSimulator("sim", ""));
    Initialise_xsmp_services(s, s->GetTypeRegistry());
    sch = s->GetScheduler();
    em = s->GetEventManager();
    tk = s->GetTimeKeeper();
    if (connect)
      s->Connect();
  }
  ~Sim() { delete s; }
  Xsmp::EntryPoint *ep(const char *name, std::function<void()> f) {
    eps.push_back(std::make_unique<Xsmp::EntryPoint>(name, "", static_cast<Smp::IObject *>(s), std::move(f)));
    return eps.back().get();
  }
};
inline void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }

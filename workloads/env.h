// Shared plumbing of the workloads: a complete simulator with its services
// inside the simulated process.
#ifndef WL_ENV_H_
#define WL_ENV_H_
#include "../sim/rt.h"
#include <Smp/ISimulator.h>
#include <Smp/IService.h>
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/ILinkRegistry.h>
#include <Smp/Services/ILogger.h>
#include <Smp/Services/IResolver.h>
#include <Smp/Services/IScheduler.h>
#include <Smp/Services/ITimeKeeper.h>
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Smp/Services/InvalidSimulationTime.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Simulator.h>
#include <cstring>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
extern "C" bool Initialise_xsmp_services(::Smp::ISimulator *, ::Smp::Publication::ITypeRegistry *);
extern "C" bool Finalise_xsmp_services();

namespace wl {
using namespace sim;
using Smp::Services::EventId;
typedef int64_t i64;
constexpr i64 MS = 1000000;
constexpr i64 SEC = 1000 * MS;

// swallows what the code under test prints
struct CaptureBuf : std::streambuf {
  std::string text;
  int overflow(int c) override {
    Quiet q;
    if (c != EOF)
      text.push_back((char)c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    Quiet q;
    text.append(s, (size_t)n);
    return n;
  }
};
CaptureBuf &coutBuf();
CaptureBuf &cerrBuf();
void captureStreams();

const char *stateName(Smp::SimulatorStateKind k);

struct Env {
  Xsmp::Simulator *s = nullptr;
  Smp::Services::IScheduler *sch = nullptr;
  Xsmp::Services::XsmpScheduler *xsch = nullptr;
  Smp::Services::IEventManager *em = nullptr;
  Smp::Services::ITimeKeeper *tk = nullptr;
  Smp::Services::ILogger *log = nullptr;
  Smp::Services::ILinkRegistry *lr = nullptr;
  std::deque<std::unique_ptr<Xsmp::EntryPoint>> eps;
  // loggerConfig: content of the logger configuration file; the default has
  // no destination at all
  explicit Env(const char *loggerConfig = "log.rootLogger=\n");
  ~Env();
  void destroy();
  Xsmp::EntryPoint *ep(const std::string &name, std::function<void()> fn);
  Smp::SimulatorStateKind st() const { return s->GetState(); }
};
// a logger configuration that keeps errors and warnings in "err.log"
extern const char *errLogConfig;
std::string errLog();

inline std::string kindOfException() {
  try {
    throw;
  } catch (const Smp::Services::InvalidEventId &) {
    return "InvalidEventId";
  } catch (const Smp::Services::InvalidCycleTime &) {
    return "InvalidCycleTime";
  } catch (const Smp::Services::InvalidEventTime &) {
    return "InvalidEventTime";
  } catch (const Smp::Services::InvalidEventName &) {
    return "InvalidEventName";
  } catch (const Smp::Services::InvalidSimulationTime &) {
    return "InvalidSimulationTime";
  } catch (const Smp::Services::EntryPointAlreadySubscribed &) {
    return "AlreadySubscribed";
  } catch (const Smp::Services::EntryPointNotSubscribed &) {
    return "NotSubscribed";
  } catch (const Smp::Exception &e) {
    return std::string("Smp:") + e.GetName();
  } catch (const std::exception &e) {
    return std::string("std:") + e.what();
  } catch (...) {
    return "unknown exception";
  }
}
// calls fn, returns "" or the kind of exception
template <class F> std::string outcome(F fn) {
  try {
    fn();
    return "";
  } catch (...) {
    Quiet q; // naming what was thrown is not part of the call
    return kindOfException();
  }
}
// the same, in a call with memory for n allocations only (n < 0: enough)
template <class F> std::string scarce(int64_t n, bool &hit, F fn) {
  struct Disarm {
    bool &hit;
    ~Disarm() {
      hit = allocFired();
      armAlloc(-1);
    }
  };
  hit = false;
  if (n < 0)
    return outcome(fn);
  return outcome([&] {
    armAlloc(n);
    Disarm d{hit};
    fn();
  });
}
// true when memory ran out in the call, which must have reported it
inline bool outOfMemory(bool hit, const std::string &got) { return hit && got.rfind("std:", 0) == 0; }
} // namespace wl
#endif

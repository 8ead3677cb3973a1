#include "env.h"
namespace wl {
static CaptureBuf *co, *ce;
CaptureBuf &coutBuf() { return *co; }
CaptureBuf &cerrBuf() { return *ce; }
void captureStreams() {
  Quiet q;
  co = new CaptureBuf;
  ce = new CaptureBuf;
  std::cout.rdbuf(co);
  std::cerr.rdbuf(ce);
}
const char *stateName(Smp::SimulatorStateKind k) {
  using K = Smp::SimulatorStateKind;
  switch (k) {
  case K::SSK_Building: return "Building";
  case K::SSK_Connecting: return "Connecting";
  case K::SSK_Initialising: return "Initialising";
  case K::SSK_Standby: return "Standby";
  case K::SSK_Executing: return "Executing";
  case K::SSK_Storing: return "Storing";
  case K::SSK_Restoring: return "Restoring";
  case K::SSK_Reconnecting: return "Reconnecting";
  case K::SSK_Exiting: return "Exiting";
  case K::SSK_Aborting: return "Aborting";
  }
  return "?";
}
const char *errLogConfig = "log.rootLogger=err\nlog.appender.err=FileAppender\nlog.appender.err.File=err.log\n"
                           "log.appender.err.levels=Error,Warning\n"
                           "log.appender.err.layout=PatternLayout\n"
                           "log.appender.err.layout.conversionPattern=%p|%k|%m%n\n";
std::string errLog() { return fs::readFile("err.log"); }
Env::Env(const char *cfg) {
  if (!co)
    captureStreams();
  if (cfg)
    fs::writeFile("XsmpLogger.properties", cfg, strlen(cfg));
  s = static_cast<Xsmp::Simulator *>(createSimulator("sim", ""));
  Initialise_xsmp_services(s, s->GetTypeRegistry());
  sch = s->GetScheduler();
  xsch = dynamic_cast<Xsmp::Services::XsmpScheduler *>(sch);
  em = s->GetEventManager();
  tk = s->GetTimeKeeper();
  log = s->GetLogger();
  lr = s->GetLinkRegistry();
}
void Env::destroy() {
  delete s;
  s = nullptr;
}
Env::~Env() {
  if (s)
    destroy();
}
Xsmp::EntryPoint *Env::ep(const std::string &name, std::function<void()> fn) {
  Quiet q;
  eps.emplace_back(std::make_unique<Xsmp::EntryPoint>(name.c_str(), "", static_cast<Smp::IObject *>(s), std::move(fn)));
  return eps.back().get();
}
} // namespace wl

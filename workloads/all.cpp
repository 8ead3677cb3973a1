#include "../sim/rt.h"
#define WORKLOADS(X) \
  X(tsd, 400000) \
  X(sched_order, 3000000) \
  X(sched_repeat, 3000000) \
  X(sched_modify, 3000000) \
  X(sched_base, 3000000) \
  X(sched_imm, 3000000) \
  X(sched_hold, 3000000) \
  X(conc, 600000) \
  X(conc_hold, 600000) \
  X(zulu, 600000) \
  X(pace, 600000) \
  X(fault, 600000) \
  X(logger, 600000) \
  X(logfault, 600000) \
  X(logkind, 600000) \
  X(persist, 3000000) \
  X(persistfault, 3000000) \
  X(state, 3000000) \
  X(bringup, 3000000) \
  X(libs, 3000000) \
  X(values, 3000000) \
  X(colls, 3000000) \
  X(links, 400000) \
  X(events, 400000) \
  X(sinks, 400000) \
  X(timek, 600000) \
  X(destroy, 1500000) \
  X(flow, 3000000) X(pubs, 3000000) X(paths, 3000000) X(reg, 2000000) X(reqs, 2000000) X(errors, 3000000)
#define D(n, l) void wl_##n();
WORKLOADS(D)
#undef D
namespace sim {
const Workload *workloads() {
  static const Workload w[] = {
#define D(n, l) {#n, wl_##n, l},
      WORKLOADS(D)
#undef D
          {nullptr, nullptr, 0}};
  return w;
}
} // namespace sim

#ifndef SIM_INTERNAL_H_
#define SIM_INTERNAL_H_
namespace sim {
bool on();
void fsInitShared();
void fsResetShared();
} // namespace sim
#endif

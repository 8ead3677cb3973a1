// Deterministic simulation runtime: public interface for the workloads.
#ifndef SIM_RT_H_
#define SIM_RT_H_
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace sim {

// ---------------------------------------------------------------- results
enum Status : int {
  ST_NONE = 0,      // the child ended without reporting
  ST_OK = 1,        // the run finished, all oracles quiet
  ST_VIOLATION = 2, // an oracle raised
  ST_NEXT_LIFE = 3, // simulated process death: go on with the next life
  ST_ERROR = 4,     // the simulator itself failed
};

constexpr int MAX_FAULT = 64;
constexpr int MAX_PROBE = 64;
constexpr int MAX_DEC = 60000;
constexpr int HIST_CAP = 1 << 20;
constexpr int MAX_OPS = 512;

struct Dec {
  uint8_t kind; // 0 S(chedule) 1 F(ault) 2 T(ime)
  uint32_t idx;
  uint32_t val;
};

struct Counter {
  char name[32];
  uint64_t n;
};

struct Result { // lives in shared memory
  int status;
  char cls[256];   // violation class (stable key)
  char msg[2048];  // human text
  uint64_t hash;   // hash of the event log
  uint64_t shash;  // hash of the interleaving (who ran when, at which points)
  uint64_t lhash;  // hash of the recorded operations, observations and faults
  uint64_t steps, switches, syncops, memops;
  uint64_t simtime; // ns of simulated time
  int lives;
  int nops;        // operations generated by the workload
  int ndec;
  int decOverflow;
  int tainted;     // trace incomplete (history truncated)
  Dec dec[MAX_DEC];
  Counter faults[MAX_FAULT];
  int nfaults;
  Counter probes[MAX_PROBE];
  int nprobes;
  int hist;
  char history[HIST_CAP];
};

// ---------------------------------------------------------------- run plan
struct Plan {
  const char *workload = "";
  uint64_t seed = 0;      // workload + schedule + faults
  uint64_t schedSeed = 0; // extra: reseeds only the schedule stream
  bool scripted = false;  // replay recorded decisions instead of drawing
  const Dec *dec = nullptr;
  int ndec = 0;
  const uint8_t *drop = nullptr; // drop[i]!=0: operation i is left out
  bool verbose = false;
  bool faultsOff = false;
};

// ---------------------------------------------------------------- workload API
uint64_t rnd(uint64_t n);             // workload stream, uniform in [0,n)
int64_t range(int64_t lo, int64_t hi); // inclusive
bool chance(int percent);
uint64_t rndAux();                    // for the runtime's own config
bool keep(int op);                    // op not dropped by the minimiser
int newOp();                          // registers an op index, returns it
// fault decision: fires with probability permille/1000 (never in scripted mode
// unless recorded); counts when fired
bool fault(const char *kind, int permille);
int choice(const char *kind, int n, int permilleNonZero); // 0 default
void countFault(const char *kind);
void probe(const char *name, uint64_t n = 1);
[[noreturn]] void fail(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finishOk();
[[noreturn]] void nextLife(); // the simulated process dies here
int life();                   // 0 for the first process
void *persist(size_t n);      // memory that survives to the next life
int self();                   // simulated thread id
uint64_t stamp();             // global event sequence number
uint64_t steps();
int64_t mono();               // ns
int64_t injected();           // ns of injected slow-thread delay so far
int64_t real();               // ns since the epoch
void jumpReal(int64_t ns);    // clock jump fault (counted)
void sleepNs(int64_t ns);
void yield();
int spawn(std::function<void()> fn); // a simulated client thread
void join(int t);
bool threadDone(int t);
int liveThreads(); // simulated threads not yet finished (incl. main)
// true when every thread other than the caller is finished or blocked
bool quiescent();
// lets the others run until they are all blocked or finished; at most maxSteps
bool settle(uint64_t maxSteps = 200000);
void setStepLimit(uint64_t n);
void raceFatal(bool on);  // data races are violations (default on)
void memPreempt(bool on); // preemption at memory accesses allowed
// allocation faults
void armAlloc(int64_t nth); // the nth C++ allocation of this thread from now throws; <0 off
bool allocFired();
uint64_t allocCount();
// is [p,p+n) inside a live heap block?
size_t liveBlocks();
size_t liveBytes();
const char *where(void *pc, char *buf, size_t n);

// no scheduling points, no race checks, no faults inside
struct Quiet {
  Quiet();
  ~Quiet();
  Quiet(const Quiet &) = delete;
  Quiet &operator=(const Quiet &) = delete;
};

struct Workload {
  const char *name;
  void (*main)();
  uint64_t stepLimit;
};
extern const Workload *workloads();

// ---------------------------------------------------------------- driver API
void runPlan(const Plan &, Result *); // forks; returns when the run is over
void initProcess();
void initWorker();
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- file system
namespace fs {
struct Config {
  int64_t capacity = -1; // bytes on the whole disk, <0 unlimited
};
void reset();
void writeFile(const char *path, const void *data, size_t n);
bool exists(const char *path);
std::string readFile(const char *path);
void remove(const char *path);
size_t intactSize(const char *path); // size when a write to it first failed, -1 never
void enableFaults(bool on, int permille);
void enableReadErrors(bool on); // default on
// what a whole-machine crash leaves of a file that was never synced
void powerLoss();
void setCapacity(int64_t bytes);
int openHandles();
bool anyFaultFired();
void clearFaultFired();
// the calling thread runs out of memory at the n-th allocation between opening
// and closing its next file (-1: off, also forgets whether it happened)
void failMemoryWhileOpen(int64_t n);
bool memoryFailed();
} // namespace fs

// ---------------------------------------------------------------- libraries
namespace dl {
struct Lib {
  std::string file;  // e.g. liba.so
  void *initialise = nullptr;
  void *finalise = nullptr;
  int opens = 0;
  int closes = 0;
  bool ctorThrows = false;
};
void reset();
Lib *add(const char *file);
Lib *find(const char *file);
void enableFaults(int permille);
} // namespace dl

} // namespace sim
#endif

// Simulated dynamic loader: the code under test is compiled with dlopen & co
// renamed to these.
#include "internal.h"
#include "rt.h"
#include <cstring>
#include <string>
namespace sim {
namespace dl {
namespace {
constexpr int NL = 16;
Lib *libs[NL];
int nlibs;
int permille;
struct Err { // as in glibc, every thread has its own last error
  char text[256];
  bool set;
};
constexpr int NT = 64;
Err errs[NT];
Err &mine() { return errs[sim::self() >= 0 && sim::self() < NT ? sim::self() : 0]; }
struct H {
  uint64_t magic;
  int lib;
  int refs;
};
H hs[NL];
} // namespace
void reset() {
  nlibs = 0;
  permille = 0;
  memset(errs, 0, sizeof errs);
  memset(hs, 0, sizeof hs);
}
Lib *add(const char *f) {
  libs[nlibs] = new Lib;
  libs[nlibs]->file = f;
  return libs[nlibs++];
}
Lib *find(const char *f) {
  for (int i = 0; i < nlibs; ++i)
    if (libs[i]->file == f)
      return libs[i];
  return nullptr;
}
void enableFaults(int p) { permille = p; }
} // namespace dl
} // namespace sim
using namespace sim;
using namespace sim::dl;
static void setErr(const char *a, const char *b) {
  Err &e = mine();
  snprintf(e.text, sizeof e.text, "%s: %s", a, b);
  e.set = true;
}
extern "C" {
void *sim_dlopen(const char *name, int) {
  Quiet q;
  for (int i = 0; i < nlibs; ++i)
    if (name && libs[i]->file == name) {
      if (permille && fault("dlopen-error", permille)) {
        setErr(name, "cannot allocate memory in static TLS block");
        return nullptr;
      }
      libs[i]->opens++;
      hs[i].magic = 0xD1;
      hs[i].lib = i;
      hs[i].refs++;
      log("dlopen %s", name);
      return &hs[i];
    }
  setErr(name ? name : "", "cannot open shared object file: No such file or directory");
  return nullptr;
}
static dl::H *handle(void *h, const char *what) {
  for (auto &x : hs)
    if (&x == h) {
      if (x.refs <= 0)
        fail("dl-use-after-close", "%s on a library that is not loaded", what);
      return &x;
    }
  fail("dl-bad-handle", "%s on a handle dlopen never returned", what);
}
void *sim_dlsym(void *h, const char *sym) {
  Quiet q;
  dl::H *x = handle(h, "dlsym");
  Lib *l = libs[x->lib];
  void *r = !strcmp(sym, "Initialise") ? l->initialise
            : !strcmp(sym, "Finalise") ? l->finalise
                                       : nullptr;
  if (!r)
    setErr(l->file.c_str(), "undefined symbol");
  return r;
}
int sim_dlclose(void *h) {
  Quiet q;
  dl::H *x = handle(h, "dlclose");
  x->refs--;
  libs[x->lib]->closes++;
  log("dlclose %s", libs[x->lib]->file.c_str());
  return 0;
}
char *sim_dlerror() {
  Err &e = mine();
  if (!e.set)
    return nullptr;
  e.set = false;
  return e.text;
}
}

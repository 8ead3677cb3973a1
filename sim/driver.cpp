// Batch and single-run driver.
//   harness batch key=value...      many seeded runs, JSON summary on stdout
//   harness one <replay> [-v] [-d]  one run described by a replay file
#include "internal.h"
#include "rt.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

static double wall() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}
template <class T> static T *shared(size_t n = 1) {
  return (T *)mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void jsonStr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}
static void pin(int i) {
  cpu_set_t all;
  if (sched_getaffinity(0, sizeof all, &all))
    return;
  int n = CPU_COUNT(&all), k = i % (n ? n : 1);
  for (int c = 0; c < CPU_SETSIZE; ++c)
    if (CPU_ISSET(c, &all) && k-- == 0) {
      cpu_set_t s;
      CPU_ZERO(&s);
      CPU_SET(c, &s);
      sched_setaffinity(0, sizeof s, &s);
      return;
    }
}

struct Viol {
  uint64_t index, seed;
  char wl[48];
  char cls[256];
  uint64_t hash;
};
struct Agg {
  uint64_t runs, reruns, mismatches, lives, multi, errors, nontrivial;
  uint64_t simtime, steps, switches, syncops, memops, ops;
  Counter faults[MAX_FAULT];
  Counter probes[MAX_PROBE];
  Counter known[16];
  Counter wls[32];
  int nf, np, nk, nw;
  Viol v[32];
  int nv;
  char errMsg[600];
  uint64_t errSeed;
  uint64_t nh;
};
static void add(Counter *c, int &n, int max, const char *k, uint64_t by) {
  for (int i = 0; i < n; ++i)
    if (!strcmp(c[i].name, k)) {
      c[i].n += by;
      return;
    }
  if (n < max) {
    snprintf(c[n].name, sizeof c[n].name, "%s", k);
    c[n++].n = by;
  }
}
static constexpr size_t HMAX = 4u << 20;

static int batch(int argc, char **argv) {
  const char *wls = "";
  uint64_t base = 1;
  double secs = 5;
  int workers = 8;
  uint64_t maxRuns = ~0ull;
  const char *known = "";
  bool stop = true;
  int recheck = 64;
  for (int i = 0; i < argc; ++i) {
    char *eq = strchr(argv[i], '=');
    if (!eq)
      continue;
    *eq = 0;
    const char *k = argv[i], *v = eq + 1;
    if (!strcmp(k, "wl"))
      wls = v;
    else if (!strcmp(k, "base"))
      base = strtoull(v, nullptr, 10);
    else if (!strcmp(k, "secs"))
      secs = atof(v);
    else if (!strcmp(k, "workers"))
      workers = atoi(v);
    else if (!strcmp(k, "runs"))
      maxRuns = strtoull(v, nullptr, 10);
    else if (!strcmp(k, "known"))
      known = v;
    else if (!strcmp(k, "stop"))
      stop = atoi(v);
    else if (!strcmp(k, "recheck"))
      recheck = atoi(v);
  }
  // workloads "a:3,b:1"
  static char names[32][48];
  int nn = 0;
  for (const char *p = wls; *p;) {
    char b[64];
    int k = 0, w = 1;
    while (*p && *p != ',' && *p != ':')
      b[k++] = *p++;
    b[k] = 0;
    if (*p == ':')
      w = (int)strtol(p + 1, (char **)&p, 10);
    if (*p == ',')
      ++p;
    for (int i = 0; i < w && nn < 32; ++i)
      snprintf(names[nn++], 48, "%s", b);
  }
  if (!nn) {
    fprintf(stderr, "no workload\n");
    return 2;
  }
  auto *agg = shared<Agg>(workers);
  auto **hashes = (uint64_t **)malloc(sizeof(uint64_t *) * workers);
  for (int w = 0; w < workers; ++w)
    hashes[w] = shared<uint64_t>(HMAX);
  auto *halt = shared<int>();
  double t0 = wall();
  for (int w = 0; w < workers; ++w) {
    if (fork() == 0) {
      pin(w);
      initWorker(); // own shared memory, not the other workers'
      auto *res = shared<Result>();
      auto *res2 = shared<Result>();
      Agg &a = agg[w];
      for (uint64_t i = (uint64_t)w; i < maxRuns && !*(volatile int *)halt &&
                                     wall() - t0 < secs;
           i += (uint64_t)workers) {
        Plan p;
        p.seed = mix(base, i);
        p.workload = names[mix(base ^ 0xABCD, i) % nn];
        runPlan(p, res);
        ++a.runs;
        add(a.wls, a.nw, 32, p.workload, 1);
        a.lives += res->lives;
        a.multi += res->lives > 1;
        a.simtime += res->simtime;
        a.steps += res->steps;
        a.switches += res->switches;
        a.syncops += res->syncops;
        a.memops += res->memops;
        a.ops += res->nops;
        for (int k = 0; k < res->nfaults; ++k)
          add(a.faults, a.nf, MAX_FAULT, res->faults[k].name, res->faults[k].n);
        for (int k = 0; k < res->nprobes; ++k)
          add(a.probes, a.np, MAX_PROBE, res->probes[k].name, res->probes[k].n);
        if (a.nh < HMAX)
          hashes[w][a.nh++] = mix(res->shash, res->lhash);
        if (res->nops > 1 && (res->switches > 1 || res->nfaults > 0))
          ++a.nontrivial;
        if (res->status == ST_ERROR) {
          ++a.errors;
          snprintf(a.errMsg, sizeof a.errMsg, "%s: %s", p.workload, res->msg);
          a.errSeed = p.seed;
          if (a.errors > 3)
            *halt = 1;
          continue;
        }
        if (recheck && (i / workers) % recheck == 0) {
          runPlan(p, res2);
          ++a.reruns;
          if (res2->hash != res->hash || res2->status != res->status) {
            ++a.mismatches;
            a.errSeed = p.seed;
            snprintf(a.errMsg, sizeof a.errMsg, "not repeatable: %s", p.workload);
          }
        }
        if (res->status == ST_VIOLATION) {
          // known classes: "cls;cls"
          bool isKnown = false;
          for (const char *k = known; *k;) {
            const char *e = strchr(k, ';');
            size_t n = e ? (size_t)(e - k) : strlen(k);
            if (n && !strncmp(res->cls, k, n) && res->cls[n] == 0)
              isKnown = true;
            k += n + (e ? 1 : 0);
          }
          if (isKnown) {
            char b[32];
            snprintf(b, sizeof b, "%.31s", res->cls);
            add(a.known, a.nk, 16, b, 1);
          }
          bool seen = false;
          for (int k = 0; k < a.nv; ++k)
            if (!strcmp(a.v[k].cls, res->cls))
              seen = true;
          if (!seen && a.nv < 32) {
            Viol &v = a.v[a.nv++];
            v.index = i;
            v.seed = p.seed;
            v.hash = res->hash;
            snprintf(v.wl, sizeof v.wl, "%s", p.workload);
            snprintf(v.cls, sizeof v.cls, "%s", res->cls);
          }
          if (!isKnown && stop)
            *halt = 1;
        }
      }
      _exit(0);
    }
  }
  while (wait(nullptr) > 0) {
  }
  double dt = wall() - t0;
  // merge
  auto *m = shared<Agg>();
  uint64_t total = 0;
  for (int w = 0; w < workers; ++w) {
    Agg &a = agg[w];
    m->runs += a.runs, m->reruns += a.reruns, m->mismatches += a.mismatches;
    m->lives += a.lives, m->multi += a.multi, m->errors += a.errors;
    m->simtime += a.simtime, m->steps += a.steps, m->switches += a.switches;
    m->syncops += a.syncops, m->memops += a.memops, m->ops += a.ops;
    m->nontrivial += a.nontrivial;
    for (int k = 0; k < a.nf; ++k)
      add(m->faults, m->nf, MAX_FAULT, a.faults[k].name, a.faults[k].n);
    for (int k = 0; k < a.np; ++k)
      add(m->probes, m->np, MAX_PROBE, a.probes[k].name, a.probes[k].n);
    for (int k = 0; k < a.nk; ++k)
      add(m->known, m->nk, 16, a.known[k].name, a.known[k].n);
    for (int k = 0; k < a.nw; ++k)
      add(m->wls, m->nw, 32, a.wls[k].name, a.wls[k].n);
    if (a.errMsg[0]) {
      memcpy(m->errMsg, a.errMsg, sizeof m->errMsg);
      m->errSeed = a.errSeed;
    }
    total += a.nh;
  }
  auto *all = shared<uint64_t>(total + 1);
  uint64_t k = 0;
  for (int w = 0; w < workers; ++w)
    for (uint64_t i = 0; i < agg[w].nh; ++i)
      all[k++] = hashes[w][i];
  std::sort(all, all + k);
  uint64_t distinct = (uint64_t)(std::unique(all, all + k) - all);
  printf("{\"runs\":%llu,\"reruns\":%llu,\"mismatches\":%llu,\"errors\":%llu,"
         "\"lives\":%llu,\"multi_life_runs\":%llu,\"simtime_ns\":%llu,\"steps\":%llu,"
         "\"switches\":%llu,\"syncops\":%llu,\"memops\":%llu,\"ops\":%llu,"
         "\"nontrivial\":%llu,\"distinct\":%llu,\"wall\":%.3f,\"err_seed\":\"%llu\",\"err\":",
         (unsigned long long)m->runs, (unsigned long long)m->reruns,
         (unsigned long long)m->mismatches, (unsigned long long)m->errors,
         (unsigned long long)m->lives, (unsigned long long)m->multi,
         (unsigned long long)m->simtime, (unsigned long long)m->steps,
         (unsigned long long)m->switches, (unsigned long long)m->syncops,
         (unsigned long long)m->memops, (unsigned long long)m->ops,
         (unsigned long long)m->nontrivial, (unsigned long long)distinct, dt,
         (unsigned long long)m->errSeed);
  jsonStr(stdout, m->errMsg);
  auto dumpC = [](const char *n, Counter *c, int k) {
    printf(",\"%s\":{", n);
    for (int i = 0; i < k; ++i) {
      if (i)
        putchar(',');
      jsonStr(stdout, c[i].name);
      printf(":%llu", (unsigned long long)c[i].n);
    }
    putchar('}');
  };
  dumpC("faults", m->faults, m->nf);
  dumpC("probes", m->probes, m->np);
  dumpC("known", m->known, m->nk);
  dumpC("workloads", m->wls, m->nw);
  printf(",\"violations\":[");
  bool first = true;
  for (int w = 0; w < workers; ++w)
    for (int i = 0; i < agg[w].nv; ++i) {
      Viol &v = agg[w].v[i];
      printf("%s{\"index\":%llu,\"seed\":\"%llu\",\"workload\":\"%s\",\"hash\":\"%016llx\",\"cls\":",
             first ? "" : ",", (unsigned long long)v.index, (unsigned long long)v.seed,
             v.wl, (unsigned long long)v.hash);
      jsonStr(stdout, v.cls);
      printf("}");
      first = false;
    }
  printf("]}\n");
  return 0;
}

static int one(int argc, char **argv) {
  const char *file = argv[0];
  bool verbose = false, dumpDec = false, hist = false;
  int times = 1;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "-v"))
      verbose = hist = true;
    if (!strcmp(argv[i], "-h"))
      hist = true;
    if (!strcmp(argv[i], "-d"))
      dumpDec = true;
    if (!strcmp(argv[i], "-2"))
      times = 2;
  }
  FILE *f = fopen(file, "r");
  if (!f) {
    fprintf(stderr, "cannot read %s\n", file);
    return 2;
  }
  Plan p;
  static char wl[64];
  auto *dec = shared<Dec>(MAX_DEC);
  auto *drop = shared<uint8_t>(MAX_OPS);
  int nd = 0;
  static char line[256];
  while (fgets(line, sizeof line, f)) {
    char k[32];
    unsigned long long a, b;
    char kind;
    if (sscanf(line, "workload %63s", wl) == 1)
      p.workload = wl;
    else if (sscanf(line, "seed %llu", &a) == 1)
      p.seed = a;
    else if (sscanf(line, "schedseed %llu", &a) == 1)
      p.schedSeed = a;
    else if (sscanf(line, "drop %llu", &a) == 1) {
      if (a < MAX_OPS)
        drop[a] = 1;
    } else if (sscanf(line, "mode %31s", k) == 1)
      p.scripted = !strcmp(k, "scripted");
    else if (sscanf(line, "dec %c %llu %llu", &kind, &a, &b) == 3 && nd < MAX_DEC) {
      dec[nd].kind = kind == 'S' ? 0 : kind == 'F' ? 1 : 2;
      dec[nd].idx = (uint32_t)a;
      dec[nd].val = (uint32_t)b;
      ++nd;
    }
  }
  fclose(f);
  p.dec = dec;
  p.ndec = nd;
  p.drop = drop;
  p.verbose = verbose;
  pin((int)(getpid() & 1023));
  auto *res = shared<Result>();
  runPlan(p, res);
  uint64_t h = res->hash;
  printf("{\"status\":%d,\"hash\":\"%016llx\",\"shash\":\"%016llx\",\"steps\":%llu,\"nops\":%d,"
         "\"lives\":%d,\"ndec\":%d,\"overflow\":%d,\"simtime\":%llu,\"cls\":",
         res->status, (unsigned long long)h, (unsigned long long)res->shash,
         (unsigned long long)res->steps, res->nops, res->lives, res->ndec,
         res->decOverflow, (unsigned long long)res->simtime);
  jsonStr(stdout, res->cls);
  printf(",\"msg\":");
  jsonStr(stdout, res->msg);
  printf(",\"dec\":[");
  if (dumpDec)
    for (int i = 0; i < res->ndec; ++i)
      printf("%s[\"%c\",%u,%u]", i ? "," : "", "SFT"[res->dec[i].kind], res->dec[i].idx,
             res->dec[i].val);
  printf("],\"faults\":{");
  for (int i = 0; i < res->nfaults; ++i)
    printf("%s\"%s\":%llu", i ? "," : "", res->faults[i].name,
           (unsigned long long)res->faults[i].n);
  printf("}");
  if (times == 2) {
    auto *r2 = shared<Result>();
    runPlan(p, r2);
    printf(",\"repeat\":%s", r2->hash == h && r2->status == res->status ? "true" : "false");
  }
  if (hist) {
    printf(",\"history\":");
    jsonStr(stdout, res->history);
  }
  printf("}\n");
  return 0;
}

int main(int argc, char **argv) {
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOEXEC")) {
    if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("SIM_NOEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  initProcess();
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  if (argc > 2 && !strcmp(argv[1], "batch"))
    return batch(argc - 2, argv + 2);
  if (argc > 2 && !strcmp(argv[1], "one"))
    return one(argc - 2, argv + 2);
  if (argc > 1 && !strcmp(argv[1], "list")) {
    for (const Workload *w = workloads(); w->name; ++w)
      printf("%s\n", w->name);
    return 0;
  }
  fprintf(stderr, "usage: harness batch|one|list ...\n");
  return 2;
}

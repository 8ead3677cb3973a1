// In-memory disk behind fopen/fclose/read/write/writev/lseek/stat/mkdir/...
// The image lives in shared memory, so it survives the death of a simulated
// process.
#include "internal.h"
#include "rt.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
namespace {
constexpr int NFILES = 24;
constexpr size_t SLOT = 2 << 20;
struct File {
  char name[240];
  bool used, dir;
  size_t size;
  int64_t data; // slot
  int64_t intact; // size when the first error hit it, -1 none
};
struct Image {
  File f[NFILES];
  int64_t capacity;
};
Image *img;
char *pool;
struct Handle {
  bool open;
  int file;
  size_t pos;
  bool wr, rd, app, sick;
};
constexpr int NH = 256;
Handle H[NH];
int gPermille;
bool gReads = true;
bool gFault;
typedef FILE *(*fopen_t)(const char *, const char *);
typedef int (*fclose_t)(FILE *);
fopen_t realFopen;
fclose_t realFclose;

void norm(const char *p, char *out, size_t n) {
  // drops "./", duplicate and trailing slashes
  size_t k = 0;
  const char *s = p;
  while (*s && k + 1 < n) {
    if (s[0] == '.' && s[1] == '/' && (k == 0 || out[k - 1] == '/')) {
      s += 2;
      continue;
    }
    if (s[0] == '/' && k > 0 && out[k - 1] == '/') {
      ++s;
      continue;
    }
    out[k++] = *s++;
  }
  while (k > 1 && out[k - 1] == '/')
    --k;
  if (k == 1 && out[0] == '.')
    k = 0;
  out[k] = 0;
}
int lookup(const char *path) {
  char b[240];
  norm(path, b, sizeof b);
  for (int i = 0; i < NFILES; ++i)
    if (img->f[i].used && !strcmp(img->f[i].name, b))
      return i;
  return -1;
}
bool parentExists(const char *path) {
  char b[240];
  norm(path, b, sizeof b);
  char *s = strrchr(b, '/');
  if (!s || s == b)
    return true;
  *s = 0;
  int i = lookup(b);
  return i >= 0 && img->f[i].dir;
}
int create(const char *path, bool dir) {
  for (int i = 0; i < NFILES; ++i)
    if (!img->f[i].used) {
      File &f = img->f[i];
      memset(&f, 0, sizeof f);
      norm(path, f.name, sizeof f.name);
      f.used = true;
      f.dir = dir;
      f.data = (int64_t)i * SLOT;
      f.intact = -1;
      return i;
    }
  errno = ENOSPC;
  return -1;
}
size_t total() {
  size_t t = 0;
  for (int i = 0; i < NFILES; ++i)
    if (img->f[i].used && !img->f[i].dir)
      t += img->f[i].size;
  return t;
}
bool hit(const char *k, int mul = 1) {
  if (gPermille <= 0)
    return false;
  if (fault(k, gPermille * mul)) {
    gFault = true;
    return true;
  }
  return false;
}
ssize_t doWrite(Handle &h, const char *p, size_t n) {
  File &f = img->f[h.file];
  auto broken = [&f] {
    if (f.intact < 0)
      f.intact = (int64_t)f.size;
  };
  if (h.sick) {
    errno = EIO;
    return -1;
  }
  if (n == 0)
    return 0;
  if (gPermille > 0) {
    // these two are always recovered by a correct writer
    if (fault("write-eintr", gPermille)) {
      errno = EINTR;
      return -1;
    }
    if (n > 1 && fault("write-short", gPermille * 4)) {
      n = 1 + (size_t)(rndAux() % (n - 1));
    }
    if (hit("write-eio")) {
      h.sick = true;
      broken();
      errno = EIO;
      return -1;
    }
  }
  if (h.app)
    h.pos = f.size;
  size_t end = h.pos + n;
  if (img->capacity >= 0 && end > f.size) {
    int64_t room = img->capacity - (int64_t)total();
    int64_t grow = (int64_t)(end - f.size);
    if (grow > room) {
      countFault("disk-full");
      gFault = true;
      broken();
      if (room <= 0) {
        errno = ENOSPC;
        return -1;
      }
      n -= (size_t)(grow - room);
      end = h.pos + n;
    }
  }
  if (end > SLOT) {
    errno = EFBIG;
    return -1;
  }
  if (h.pos > f.size)
    memset(pool + f.data + f.size, 0, h.pos - f.size);
  memcpy(pool + f.data + h.pos, p, n);
  h.pos = end;
  if (end > f.size)
    f.size = end;
  return (ssize_t)n;
}
ssize_t doRead(Handle &h, char *p, size_t n) {
  File &f = img->f[h.file];
  if (f.dir) {
    errno = EISDIR;
    return -1;
  }
  if (gPermille > 0) {
    if (fault("read-eintr", gPermille)) {
      errno = EINTR;
      return -1;
    }
    if (gReads && hit("read-eio")) {
      errno = EIO;
      return -1;
    }
  }
  if (h.pos >= f.size)
    return 0;
  size_t k = f.size - h.pos;
  if (k > n)
    k = n;
  if (k > 1 && gPermille > 0 && fault("read-short", gPermille * 4))
    k = 1 + (size_t)(rndAux() % (k - 1));
  memcpy(p, pool + f.data + h.pos, k);
  h.pos += k;
  return (ssize_t)k;
}
Handle *byFd(int fd) { return fd >= 0 && fd < NH && H[fd].open ? &H[fd] : nullptr; }
void fillStat(int i, struct stat *st) {
  memset(st, 0, sizeof *st);
  File &f = img->f[i];
  st->st_mode = f.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = (off_t)f.size;
  st->st_nlink = 1;
  st->st_ino = (ino_t)(i + 10);
  st->st_dev = 7;
}
} // namespace

void fsInitShared() {
  img = (Image *)mmap(nullptr, sizeof(Image), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pool = (char *)mmap(nullptr, SLOT * NFILES, PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  realFopen = (fopen_t)dlvsym(RTLD_NEXT, "fopen", "GLIBC_2.2.5");
  realFclose = (fclose_t)dlvsym(RTLD_NEXT, "fclose", "GLIBC_2.2.5");
}
void fsResetShared() {
  memset(img, 0, sizeof *img);
  img->capacity = -1;
}
namespace fs {
void reset() { fsResetShared(); }
void writeFile(const char *path, const void *d, size_t n) {
  int i = lookup(path);
  if (i < 0)
    i = create(path, false);
  memcpy(pool + img->f[i].data, d, n);
  img->f[i].size = n;
}
bool exists(const char *p) { return lookup(p) >= 0; }
std::string readFile(const char *p) {
  int i = lookup(p);
  return i < 0 ? std::string() : std::string(pool + img->f[i].data, img->f[i].size);
}
size_t intactSize(const char *p) {
  int i = lookup(p);
  return i < 0 ? 0 : (size_t)img->f[i].intact;
}
void remove(const char *p) {
  int i = lookup(p);
  if (i >= 0)
    img->f[i].used = false;
}
void enableFaults(bool on, int permille) { gPermille = on ? permille : 0; }
void enableReadErrors(bool on) { gReads = on; }
void setCapacity(int64_t b) { img->capacity = b < 0 ? -1 : (int64_t)total() + b; }
bool anyFaultFired() { return gFault; }
void clearFaultFired() { gFault = false; }
int openHandles() {
  int n = 0;
  for (auto &h : H)
    n += h.open;
  return n;
}
void powerLoss() {
  // nothing was synced: each file keeps a prefix, possibly with a zeroed block
  for (int i = 0; i < NFILES; ++i) {
    File &f = img->f[i];
    if (!f.used || f.dir || !f.size)
      continue;
    int k = choice("power-loss", 3, 700);
    if (k == 1)
      f.size = (size_t)(rndAux() % f.size);
    else if (k == 2) {
      size_t at = (size_t)(rndAux() % f.size);
      size_t n = 1 + (size_t)(rndAux() % 512);
      if (at + n > f.size)
        n = f.size - at;
      memset(pool + f.data + at, 0, n);
    }
  }
}
} // namespace fs
} // namespace sim

using namespace sim;
static int64_t memOnOpen = -1;
static int memThread = -1, memFd = -1;
static bool memFailed;
namespace sim {
namespace fs {
void failMemoryWhileOpen(int64_t n) {
  if (n >= 0 || memFd >= 0)
    armAlloc(-1);
  memOnOpen = n;
  memThread = n >= 0 ? self() : -1;
  memFd = -1;
  memFailed = false;
}
bool memoryFailed() { return memFailed; }
} // namespace fs
} // namespace sim
extern "C" {
FILE *fopen(const char *path, const char *mode) {
  if (!on())
    return realFopen ? realFopen(path, mode)
                     : ((fopen_t)dlvsym(RTLD_NEXT, "fopen", "GLIBC_2.2.5"))(path, mode);
  bool w = strchr(mode, 'w'), a = strchr(mode, 'a'), r = strchr(mode, 'r'),
       plus = strchr(mode, '+');
  if ((gReads || !r) && hit("open-error")) {
    errno = (rndAux() & 1) ? EACCES : EMFILE;
    return nullptr;
  }
  int i = lookup(path);
  if (i < 0) {
    if (r || !parentExists(path)) {
      errno = ENOENT;
      return nullptr;
    }
    char b[240];
    norm(path, b, sizeof b);
    if (!b[0]) {
      errno = ENOENT;
      return nullptr;
    }
    i = create(path, false);
    if (i < 0)
      return nullptr;
  }
  if (img->f[i].dir && (w || a || plus)) {
    errno = EISDIR;
    return nullptr;
  }
  if (w)
    img->f[i].size = 0, img->f[i].intact = -1;
  FILE *f = realFopen("/dev/null", "r+");
  if (!f)
    return nullptr;
  int fd = fileno(f);
  if (fd < 0 || fd >= NH) {
    realFclose(f);
    errno = EMFILE;
    return nullptr;
  }
  H[fd] = Handle{true, i, 0, w || a || plus, r || plus, a, false};
  if (memOnOpen >= 0 && memThread == self()) {
    armAlloc(memOnOpen);
    memOnOpen = -1;
    memFd = fd;
  }
  return f;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fclose(FILE *f) {
  if (!on())
    return realFclose ? realFclose(f)
                      : ((fclose_t)dlvsym(RTLD_NEXT, "fclose", "GLIBC_2.2.5"))(f);
  Handle *h = byFd(fileno(f));
  if (memFd >= 0 && memThread == self() && fileno(f) == memFd) {
    memFailed = allocFired();
    armAlloc(-1);
    memFd = -1;
  }
  bool bad = false;
  if (h) {
    if (h->wr && hit("close-error"))
      bad = true;
    h->open = false;
  }
  int rc = realFclose(f);
  if (bad) {
    errno = EIO;
    return EOF;
  }
  return rc;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (on())
    if (Handle *h = byFd(fd))
      return doWrite(*h, (const char *)p, n);
  return sim::on() && false ? 0 : (ssize_t)::syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (on())
    if (Handle *h = byFd(fd)) {
      ssize_t t = 0;
      for (int i = 0; i < n; ++i) {
        ssize_t k = doWrite(*h, (const char *)v[i].iov_base, v[i].iov_len);
        if (k < 0)
          return t ? t : k;
        t += k;
        if ((size_t)k < v[i].iov_len)
          break;
      }
      return t;
    }
  return (ssize_t)::syscall(SYS_writev, fd, v, n);
}
ssize_t read(int fd, void *p, size_t n) {
  if (on())
    if (Handle *h = byFd(fd))
      return doRead(*h, (char *)p, n);
  return (ssize_t)::syscall(SYS_read, fd, p, n);
}
off_t lseek(int fd, off_t o, int w) noexcept {
  if (on())
    if (Handle *h = byFd(fd)) {
      int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)h->pos
                                                    : (int64_t)img->f[h->file].size;
      if (b + o < 0) {
        errno = EINVAL;
        return -1;
      }
      h->pos = (size_t)(b + o);
      return (off_t)h->pos;
    }
  return (off_t)::syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fstat(int fd, struct stat *st) noexcept {
  if (on())
    if (Handle *h = byFd(fd)) {
      fillStat(h->file, st);
      return 0;
    }
  return (int)::syscall(SYS_fstat, fd, st);
}
int stat(const char *p, struct stat *st) noexcept {
  if (on()) {
    int i = lookup(p);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    fillStat(i, st);
    return 0;
  }
  return (int)::syscall(SYS_stat, p, st);
}
int lstat(const char *p, struct stat *st) noexcept {
  if (on())
    return stat(p, st);
  return (int)::syscall(SYS_lstat, p, st);
}
int mkdir(const char *p, mode_t m) noexcept {
  if (on()) {
    if (lookup(p) >= 0) {
      errno = EEXIST;
      return -1;
    }
    if (!parentExists(p)) {
      errno = ENOENT;
      return -1;
    }
    if (hit("mkdir-error")) {
      errno = EACCES;
      return -1;
    }
    return create(p, true) < 0 ? -1 : 0;
  }
  return (int)::syscall(SYS_mkdir, p, m);
}
int rename(const char *a, const char *b) noexcept {
  if (on()) {
    int i = lookup(a);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    int j = lookup(b);
    if (j >= 0)
      img->f[j].used = false;
    norm(b, img->f[i].name, sizeof img->f[i].name);
    return 0;
  }
  return (int)::syscall(SYS_rename, a, b);
}
int unlink(const char *p) noexcept {
  if (on()) {
    int i = lookup(p);
    if (i < 0) {
      errno = ENOENT;
      return -1;
    }
    img->f[i].used = false;
    return 0;
  }
  return (int)::syscall(SYS_unlink, p);
}
int remove(const char *p) noexcept {
  if (on())
    return unlink(p);
  return (int)::syscall(SYS_unlink, p);
}
}

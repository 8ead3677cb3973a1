// ThreadSafeData: reader/writer exclusion and no lost update.
#include "../sim/rt.h"
#include <Xsmp/ThreadSafeData.h>
#include <map>
#include <string>
#include <vector>
using namespace sim;
namespace {
struct Pair {
  long a = 0, b = 0;
  std::vector<int> v;
};
struct Ctx {
  ::Xsmp::ThreadSafeData<Pair> d;
  int readers = 0, writers = 0; // critical-section occupancy, maintained by the harness
  long added = 0;
};
} // namespace
void wl_tsd() {
  int nt = (int)range(2, 4);
  Ctx c;
  struct Op {
    int t, kind, id, arg;
  };
  std::vector<Op> ops;
  int n = (int)range(4, 20);
  for (int i = 0; i < n; ++i)
    ops.push_back({(int)rnd(nt), (int)rnd(7), newOp(), (int)rnd(3)});
  auto inWrite = [&](auto &l) {
    {
      Quiet q;
      if (c.writers || c.readers)
        fail("exclusion", "a write lock was granted with %d writers and %d readers inside", c.writers, c.readers);
      ++c.writers;
    }
    auto &p = l.get();
    long x = p.a;
    yield();
    p.a = x + 1;
    p.v.push_back((int)x);
    yield();
    p.b = x + 1;
    Quiet q;
    --c.writers;
    ++c.added;
  };
  auto inRead = [&](auto &l) {
    {
      Quiet q;
      if (c.writers)
        fail("exclusion", "a read lock was granted with a writer inside");
      ++c.readers;
    }
    const auto &p = l.get();
    long a = p.a;
    yield();
    long b = p.b;
    size_t s = p.v.size();
    yield();
    long a2 = p.a;
    Quiet q;
    if (a != b || a != a2 || (long)s != a)
      fail("torn-read", "a reader saw a half-made update (%ld,%ld,%zu,%ld)", a, b, s, a2);
    --c.readers;
  };
  std::vector<int> th;
  for (int t = 0; t < nt; ++t)
    th.push_back(spawn([&, t] {
      for (auto &o : ops) {
        if (o.t != t || !keep(o.id))
          continue;
        switch (o.kind) {
        case 0: {
          auto l = c.d.write();
          inWrite(l);
          break;
        }
        case 1: {
          auto l = c.d.read();
          inRead(l);
          break;
        }
        case 2: {
          auto l = c.d.try_write();
          if (l)
            inWrite(*l), probe("try_write ok");
          else
            probe("try_write busy");
          break;
        }
        case 3: {
          auto l = c.d.try_read();
          if (l)
            inRead(*l);
          else
            probe("try_read busy");
          break;
        }
        case 4: { // unlock and lock again
          auto l = c.d.write();
          inWrite(l);
          l.unlock();
          for (int k = 0; k < o.arg; ++k)
            yield();
          l.lock();
          inWrite(l);
          break;
        }
        case 5: {
          auto l = c.d.read();
          inRead(l);
          l.unlock();
          for (int k = 0; k < o.arg; ++k)
            yield();
          l.lock();
          inRead(l);
          break;
        }
        case 6: { // moved lock
          auto l = c.d.write();
          auto m = std::move(l);
          inWrite(m);
          break;
        }
        }
      }
    }));
  for (int t : th)
    join(t);
  auto l = c.d.try_read();
  if (!l)
    fail("lock-leak", "the data is still locked after every lock was released");
  if (l->get().a != c.added)
    fail("lost-update", "%ld updates made, %ld visible", c.added, l->get().a);
}

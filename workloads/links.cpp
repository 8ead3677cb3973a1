// P17: link counts and link sources, against a counter per pair; concurrent
// clients are judged by linearizability of each pair.
#include "env.h"
#include <Smp/IComponent.h>
#include <Xsmp/Model.h>
#include <algorithm>
namespace wl {
namespace {
constexpr Smp::Uuid uuid{0x11, 0x20, 0x30, 0x40, 0x50000017};
void onRemoveLinks(int src, const Smp::IComponent *target);
struct Source : Xsmp::Model {
  int id;
  Source(int i, const char *n) : Xsmp::Model(n, "", nullptr), id(i) {}
  void RemoveLinks(const Smp::IComponent *target) override { onRemoveLinks(id, target); }
  const Smp::Uuid &GetUuid() const override { return uuid; }
};
// not an ILinkingComponent
struct Plain : Smp::IComponent {
  std::string n;
  explicit Plain(const char *name) : n(name) {}
  Smp::String8 GetName() const override { return n.c_str(); }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
  Smp::ComponentStateKind GetState() const override { return Smp::ComponentStateKind::CSK_Created; }
  void Publish(Smp::IPublication *) override {}
  void Configure(Smp::Services::ILogger *, Smp::Services::ILinkRegistry *) override {}
  void Connect(Smp::ISimulator *) override {}
  void Disconnect() override {}
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  const Smp::Uuid &GetUuid() const override { return uuid; }
};
enum { ADD, REMOVE, COUNT };
struct Rec {
  int kind, pair;
  uint64_t inv, ret;
  long res;
};
struct Ctx {
  Smp::Services::ILinkRegistry *lr = nullptr;
  int ns = 0, nt = 0;
  bool concurrent = false;
  std::vector<std::unique_ptr<Smp::IComponent>> src;
  std::vector<std::unique_ptr<Smp::IComponent>> tgt;
  std::vector<bool> linking;
  // model
  long count[8][4] = {};
  std::vector<int> order[4];
  const Smp::ComponentCollection *handed[4] = {}; // the first collection given
  long start[8][4] = {};
  std::vector<Rec> recs;
  int depth = 0;
  struct Call {
    int target, thread;
    std::vector<int> asked, snapshot;
    std::set<int> unlinked; // lost their last link since the start of the call
  };
  std::vector<Call *> calls;
  int budget = 40;
};
Ctx *cx;
std::string names(const std::vector<int> &v) {
  std::string s;
  for (int i : v)
    s += std::to_string(i) + " ";
  return s;
}
void changed(int s, int t, long d) { // single thread only
  long &c = cx->count[s][t];
  bool was = c > 0;
  c += d;
  if (c > 0 && !was)
    cx->order[t].push_back(s);
  if (c == 0 && was) {
    auto &o = cx->order[t];
    o.erase(std::find(o.begin(), o.end(), s));
    for (auto *k : cx->calls)
      if (k->target == t)
        k->unlinked.insert(s);
  }
}
void compare(int t) {
  std::vector<int> got;
  const auto *c = cx->lr->GetLinkSources(cx->tgt[t].get());
  if (c && !cx->handed[t])
    cx->handed[t] = c;
  if (c && c != cx->handed[t]) { // a client may keep what it was given
    std::vector<int> old;
    for (auto *x : *cx->handed[t])
      for (int i = 0; i < cx->ns; ++i)
        if (cx->src[i].get() == x)
          old.push_back(i);
    if (old != cx->order[t])
      fail("sources-kept", "the collection of sources of target %d given before holds [%s], links were made in the order [%s]", t, names(old).c_str(), names(cx->order[t]).c_str());
  }
  if (c) {
    for (auto *x : *c) {
      int k = -1;
      for (int i = 0; i < cx->ns; ++i)
        if (cx->src[i].get() == x)
          k = i;
      got.push_back(k);
    }
    if (c->size() != got.size())
      fail("sources", "the size of the link sources is %zu, they hold %zu", c->size(), got.size());
  } else
    fail("sources", "no collection of link sources");
  if (got != cx->order[t])
    fail("sources", "sources of target %d are [%s], links were made in the order [%s]", t, names(got).c_str(), names(cx->order[t]).c_str());
  bool can = true;
  for (int s : cx->order[t])
    can = can && cx->linking[s];
  if (cx->lr->CanRemove(cx->tgt[t].get()) != can)
    fail("can-remove", "links to target %d can be removed: %d expected", t, can);
  for (int s = 0; s < cx->ns; ++s)
    if (cx->src[s]) {
      long n = (long)cx->lr->GetLinkCount(cx->src[s].get(), cx->tgt[t].get());
      if (n != cx->count[s][t])
        fail("count", "%ld links from %d to %d reported, %ld exist", n, s, t, cx->count[s][t]);
    }
}
long op(int kind, int s, int t, bool noMemory = false) {
  Smp::IComponent *so = cx->src[s].get();
  if (!so)
    return 0;
  const Smp::IComponent *ta = cx->tgt[t].get();
  uint64_t inv;
  {
    Quiet q;
    inv = stamp();
  }
  long r = 0;
  std::string ex;
  if (noMemory)
    armAlloc((int64_t)rnd(6));
  try {
    if (kind == ADD)
      cx->lr->AddLink(so, ta);
    else if (kind == REMOVE)
      r = cx->lr->RemoveLink(so, ta);
    else
      r = (long)cx->lr->GetLinkCount(so, ta);
  } catch (const std::bad_alloc &) {
    ex = "no memory";
  } catch (const std::exception &e) {
    ex = e.what();
  }
  bool hit = noMemory && allocFired();
  if (noMemory)
    armAlloc(-1);
  Quiet q;
  log("%s %d -> %d: %ld %s", kind == ADD ? "add" : kind == REMOVE ? "remove" : "count", s, t, r, ex.c_str());
  if (!ex.empty()) {
    if (hit && ex == "no memory")
      return 0; // and no effect
    fail("exception", "operation %d on a link failed: %s", kind, ex.c_str());
  }
  if (cx->concurrent) {
    cx->recs.push_back({kind, s * 4 + t, inv, stamp(), r});
    return r;
  }
  long c = cx->count[s][t];
  if (kind == ADD)
    changed(s, t, 1);
  else if (kind == REMOVE) {
    if (r != (c > 0))
      fail("remove-result", "removing one of %ld links returned %ld", c, r);
    if (c > 0)
      changed(s, t, -1);
  } else if (r != c)
    fail("count", "%ld links from %d to %d reported, %ld exist", r, s, t, c);
  return r;
}
void removeLinks(int t, bool noMemory = false) {
  Ctx::Call call;
  {
    Quiet q;
    call.target = t;
    call.thread = self();
    call.snapshot = cx->order[t];
    cx->calls.push_back(&call);
  }
  std::string ex;
  if (noMemory)
    armAlloc((int64_t)rnd(3));
  try {
    cx->lr->RemoveLinks(cx->tgt[t].get());
  } catch (const std::exception &e) {
    ex = e.what();
  }
  bool hit = noMemory && allocFired();
  armAlloc(-1);
  Quiet q;
  cx->calls.erase(std::find(cx->calls.begin(), cx->calls.end(), &call));
  log("remove links to %d: asked [%s] %s", t, names(call.asked).c_str(), ex.c_str());
  if (!ex.empty()) {
    if (hit)
      return;
    fail("exception", "RemoveLinks failed: %s", ex.c_str());
  }
  for (size_t i = 0; i < call.asked.size(); ++i)
    if (std::find(call.asked.begin(), call.asked.begin() + (long)i, call.asked[i]) != call.asked.begin() + (long)i)
      fail("asked-twice", "source %d was asked twice to remove its links", call.asked[i]);
  if (cx->concurrent)
    return;
  for (int s : call.snapshot)
    if (cx->src[s] && cx->linking[s] && !call.unlinked.count(s) &&
        std::find(call.asked.begin(), call.asked.end(), s) == call.asked.end())
      fail("not-asked", "source %d was not asked to remove its links to %d", s, t);
}
void onRemoveLinks(int s, const Smp::IComponent *target) {
  int t = -1, action;
  {
    Quiet q;
    armAlloc(-1);
    for (int i = 0; i < cx->nt; ++i)
      if (cx->tgt[i].get() == target)
        t = i;
    if (t < 0)
      fail("wrong-target", "a source was asked to remove its links to an unknown component");
    bool inside = false;
    for (size_t i = cx->calls.size(); i-- > 0;)
      if (cx->calls[i]->thread == self()) {
        inside = true;
        if (cx->calls[i]->target != t)
          fail("wrong-target", "source %d was asked for target %d instead of %d", s, t, cx->calls[i]->target);
        cx->calls[i]->asked.push_back(s);
        break;
      }
    if (!inside)
      fail("asked", "source %d was asked out of the blue", s);
    action = --cx->budget < 0 ? 0 : (int)rnd(8);
  }
  if (action != 1) // the usual one
    while (op(REMOVE, s, t))
      if (action == 2)
        break;
  int other = (int)rnd(cx->ns);
  switch (action) {
  case 3:
    while (op(REMOVE, other, t))
      ;
    break;
  case 4:
    op(ADD, other, t);
    break;
  case 5:
    op(REMOVE, other, (int)rnd(cx->nt));
    break;
  case 6: {
    bool go;
    {
      Quiet q;
      if ((go = cx->depth < 2))
        ++cx->depth;
    }
    if (go) {
      removeLinks((int)rnd(cx->nt));
      Quiet q;
      --cx->depth;
    }
    break;
  }
  case 7: // a source that removes its links and is deleted
    if (!cx->concurrent && other != s && cx->src[other] && cx->depth == 0) {
      for (int k = 0; k < cx->nt; ++k)
        while (op(REMOVE, other, k))
          ;
      probe("source deleted while asked");
      cx->src[other].reset();
    }
    break;
  default:
    break;
  }
}
// is there an order of the calls on one pair that a counter allows?
bool linear(const std::vector<Rec> &v, uint64_t done, long count, long end, std::set<std::pair<uint64_t, long>> &seen) {
  if (done == (1ull << v.size()) - 1)
    return count == end;
  if (!seen.insert({done, count}).second)
    return false;
  uint64_t first = UINT64_MAX; // the earliest return of a pending call
  for (size_t i = 0; i < v.size(); ++i)
    if (!(done >> i & 1))
      first = std::min(first, v[i].ret);
  for (size_t i = 0; i < v.size(); ++i) {
    if (done >> i & 1 || v[i].inv > first)
      continue;
    long c = count;
    if (v[i].kind == ADD)
      ++c;
    else if (v[i].kind == REMOVE) {
      if ((c > 0) != (v[i].res != 0))
        continue;
      if (c > 0)
        --c;
    } else if (v[i].res != c)
      continue;
    if (linear(v, done | 1ull << i, c, end, seen))
      return true;
  }
  return false;
}
} // namespace
} // namespace wl
using namespace wl;
void wl_links() {
  Env e;
  Ctx c;
  cx = &c;
  c.lr = e.lr;
  c.ns = (int)range(1, 5);
  c.nt = (int)range(1, 3);
  c.concurrent = false;
  int threads = (int)rnd(3); // 0: one thread only
  bool plain = chance(30) && !threads, same = chance(60);
  {
    Quiet q;
    for (int i = 0; i < c.ns; ++i) {
      std::string n = same ? "source" : "source" + std::to_string(i);
      bool pl = plain && chance(30);
      c.linking.push_back(!pl);
      if (pl)
        c.src.emplace_back(new Plain(n.c_str()));
      else
        c.src.emplace_back(new Source(i, n.c_str()));
    }
    for (int i = 0; i < c.nt; ++i)
      c.tgt.emplace_back(new Plain("target"));
  }
  struct Op {
    int id, thread, kind, s, t;
    bool mem;
  };
  auto draw = [&](int th) {
    Op o{newOp(), th, 0, (int)rnd(c.ns), (int)rnd(c.nt), chance(15)};
    int k = (int)rnd(20);
    o.kind = k < 8 ? ADD : k < 15 ? REMOVE : k < 17 ? COUNT : 3;
    return o;
  };
  auto perform = [&](const Op &o) {
    if (!keep(o.id))
      return;
    if (o.kind == 3)
      removeLinks(o.t, o.mem && !c.concurrent);
    else
      op(o.kind, o.s, o.t, o.mem && !c.concurrent);
  };
  int n = threads ? (int)range(0, 6) : (int)range(4, 30);
  for (int i = 0; i < n; ++i) {
    perform(draw(0));
    compare((int)rnd(c.nt));
  }
  if (threads) {
    ++threads;
    std::vector<Op> ops;
    int m = (int)range(3, 16);
    for (int i = 0; i < m; ++i)
      ops.push_back(draw((int)rnd(threads)));
    memcpy(c.start, c.count, sizeof c.count);
    c.budget = 6;
    auto before = std::vector<std::vector<int>>(c.order, c.order + 4);
    c.concurrent = true;
    std::vector<int> th;
    for (int t = 0; t < threads; ++t)
      th.push_back(spawn([&, t] {
        for (const auto &o : ops)
          if (o.thread == t)
            perform(o);
      }));
    for (int t : th)
      join(t);
    c.concurrent = false;
    // counts
    bool touched[8][4] = {};
    for (int s = 0; s < c.ns; ++s)
      for (int t = 0; t < c.nt; ++t) {
        std::vector<Rec> v;
        for (const auto &r : c.recs)
          if (r.pair == s * 4 + t)
            v.push_back(r);
        for (const auto &r : v)
          touched[s][t] |= r.kind != COUNT;
        long end = (long)c.lr->GetLinkCount(c.src[s].get(), c.tgt[t].get());
        std::set<std::pair<uint64_t, long>> seen;
        Quiet q;
        if (v.size() < 60 && !linear(v, 0, c.start[s][t], end, seen)) {
          std::string h;
          for (const auto &r : v)
            h += (r.kind == ADD ? "add" : r.kind == REMOVE ? "remove" : "count") + std::string("[") + std::to_string(r.inv) + "," + std::to_string(r.ret) + "]=" + std::to_string(r.res) + " ";
          fail("not-linearizable", "%ld links at first, then %s, then %ld links", c.start[s][t], h.c_str(), end);
        }
        c.count[s][t] = end;
      }
    // sources: the untouched ones keep their order and come before the new ones
    for (int t = 0; t < c.nt; ++t) {
      std::vector<int> got;
      for (auto *x : *c.lr->GetLinkSources(c.tgt[t].get()))
        for (int i = 0; i < c.ns; ++i)
          if (c.src[i].get() == x)
            got.push_back(i);
      std::vector<int> kept, want, now;
      for (int s : got)
        if (!touched[s][t])
          kept.push_back(s);
      for (int s : before[t])
        if (!touched[s][t])
          want.push_back(s);
      if (kept != want)
        fail("sources", "untouched sources of target %d were [%s] and are [%s]", t, names(want).c_str(), names(kept).c_str());
      if (!kept.empty())
        for (size_t i = 0; i < got.size() && got[i] != kept.back(); ++i)
          if (std::find(before[t].begin(), before[t].end(), got[i]) == before[t].end())
            fail("sources", "source %d was linked later than %d and is listed before it", got[i], kept.back());
      std::vector<int> s1 = got, s2;
      std::sort(s1.begin(), s1.end());
      for (int s = 0; s < c.ns; ++s)
        if (c.count[s][t] > 0)
          s2.push_back(s);
      if (s1 != s2)
        fail("sources", "sources of target %d are [%s], those with links are [%s]", t, names(got).c_str(), names(s2).c_str());
      c.order[t] = got;
    }
    probe("concurrent");
    // and on with one thread
    for (int i = (int)range(0, 4); i > 0; --i)
      perform(draw(0));
  }
  for (int t = 0; t < c.nt; ++t)
    compare(t);
  e.destroy();
  Quiet q;
  c.src.clear();
  c.tgt.clear();
}

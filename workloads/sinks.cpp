// P24: event sources and sinks, with everything done from inside notifications
// too, against the list of the sinks in order of subscription.
#include "env.h"
#include <Xsmp/Array.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Model.h>
#include <algorithm>
namespace wl {
namespace {
constexpr Smp::Uuid uuid{0x11, 0x20, 0x30, 0x40, 0x50000024};
struct Comp : Xsmp::Model, Xsmp::EventProvider, Xsmp::EventConsumer {
  explicit Comp(const char *n) : Xsmp::Model(n, "", nullptr) {}
  const Smp::Uuid &GetUuid() const override { return uuid; }
};
enum class Color : Smp::Int32 { red = -3, green = 70000 };
struct Name {
  Smp::Char8 internalString[9];
};
struct Port { // a source or a sink
  virtual ~Port() = default;
  int type = 0, comp = 0;
  virtual Smp::IEventSource *source() { return nullptr; }
  virtual Smp::IEventSink *sink() { return nullptr; }
  virtual void emit(Smp::IObject *, int, bool) {}
  std::vector<int> subs; // sinks of a source
};
struct Emission {
  int source, value;
  std::vector<int> snapshot, called;
  std::set<int> left; // unsubscribed since the start
  Smp::IObject *sender;
};
struct Ctx {
  std::vector<std::unique_ptr<Comp>> comps;
  std::vector<std::unique_ptr<Port>> sources, sinks;
  std::vector<Emission *> stack;
  int budget = 0;
};
Ctx *cx;
void notified(int sink, Smp::IObject *sender, bool right, int value);
void step(int depth);
using Clock = int64_t;
template <class T> T make(int v) {
  if constexpr (std::is_same_v<T, const char *>) {
    static const char *texts[] = {"", "a", "a longer text that does not fit anywhere", "abcdefgh", "x"};
    return texts[v % 5];
  } else if constexpr (std::is_same_v<T, Name>) {
    static const Name n[] = {{""}, {"a"}, {"abcdefgh"}, {"z z"}, {"q"}};
    return n[v % 5];
  } else if constexpr (std::is_same_v<T, bool>)
    return v & 1;
  else if constexpr (std::is_same_v<T, Color>)
    return v & 1 ? Color::red : Color::green;
  else if constexpr (std::is_same_v<T, double>)
    return v * 0.37;
  else if constexpr (std::is_same_v<T, Smp::UInt64>)
    return ~(Smp::UInt64)v;
  else
    return (T)(v * 100000007ll);
}
template <class T> bool equal(const T &a, const T &b);
// what a sink of type T gets from a source of another type of the same kind
template <class T> bool fits(const T &got, int sourceType, int v) {
  if constexpr (std::is_same_v<T, const char *>)
    return sourceType == 8 ? strcmp(got, make<Name>(v).internalString) == 0 : equal<T>(got, make<T>(v));
  else if constexpr (std::is_same_v<T, Name>)
    return memchr(got.internalString, 0, 9) && (sourceType == 4 ? std::string(got.internalString) == std::string(make<const char *>(v)).substr(0, 8) : equal<T>(got, make<T>(v)));
  else if constexpr (std::is_same_v<T, Smp::Int32>)
    return sourceType == 7 ? got == (Smp::Int32)make<Color>(v) : equal<T>(got, make<T>(v));
  else if constexpr (std::is_same_v<T, Color>)
    return sourceType == 1 ? (Smp::Int32)got == make<Smp::Int32>(v) : equal<T>(got, make<T>(v));
  else
    return equal<T>(got, make<T>(v));
}
template <class T> bool equal(const T &a, const T &b) {
  if constexpr (std::is_same_v<T, const char *>)
    return strcmp(a, b) == 0;
  else if constexpr (std::is_same_v<T, Name>)
    return strcmp(a.internalString, b.internalString) == 0;
  else
    return a == b;
}
template <class T> struct Src : Port {
  Xsmp::EventSource<T> s;
  Src(const char *n, Comp *c, Smp::PrimitiveTypeKind k, bool reg) : s(reg ? Xsmp::EventSource<T>(n, "", static_cast<Xsmp::EventProvider *>(c), k) : Xsmp::EventSource<T>(n, "", static_cast<Smp::IObject *>(static_cast<Smp::IModel *>(c)), k)) {}
  Smp::IEventSource *source() override { return &s; }
  void emit(Smp::IObject *o, int v, bool op) override {
    if (op)
      o ? s(o, make<T>(v)) : s(make<T>(v));
    else
      o ? s.Emit(o, make<T>(v)) : s.Emit(make<T>(v));
  }
};
template <> struct Src<void> : Port {
  Xsmp::EventSource<> s;
  Src(const char *n, Comp *c, Smp::PrimitiveTypeKind, bool reg) : s(reg ? Xsmp::EventSource<>(n, "", static_cast<Xsmp::EventProvider *>(c)) : Xsmp::EventSource<>(n, "", static_cast<Smp::IObject *>(static_cast<Smp::IModel *>(c)))) {}
  Smp::IEventSource *source() override { return &s; }
  void emit(Smp::IObject *o, int, bool op) override {
    if (op)
      o ? s(o) : s();
    else
      o ? s.Emit(o) : s.Emit();
  }
};
template <class T> struct Snk : Port {
  Xsmp::EventSink<T> s;
  Snk(const char *n, Comp *c, Smp::PrimitiveTypeKind k, bool reg, int id)
      : s(n, "", static_cast<Xsmp::EventConsumer *>(c),
          [id](Smp::IObject *o, T v) {
            bool ok;
            {
              Quiet q;
              ok = cx->stack.empty() || fits<T>(v, cx->sources[cx->stack.back()->source]->type, cx->stack.back()->value);
            }
            notified(id, o, ok, 0);
          },
          k) {
    (void)reg;
  }
  Smp::IEventSink *sink() override { return &s; }
};
template <> struct Snk<void> : Port {
  Xsmp::EventSink<> s;
  Snk(const char *n, Comp *c, Smp::PrimitiveTypeKind, bool, int id) : s(n, "", static_cast<Xsmp::EventConsumer *>(c), [id](Smp::IObject *o) { notified(id, o, true, 0); }) {}
  Smp::IEventSink *sink() override { return &s; }
};
using PK = Smp::PrimitiveTypeKind;
constexpr int NT = 9;
Port *newSource(int type, const char *n, Comp *c, bool reg) {
  switch (type) {
  case 0: return new Src<void>(n, c, PK::PTK_None, reg);
  case 1: return new Src<Smp::Int32>(n, c, PK::PTK_Int32, reg);
  case 2: return new Src<double>(n, c, PK::PTK_Float64, reg);
  case 3: return new Src<bool>(n, c, PK::PTK_Bool, reg);
  case 4: return new Src<const char *>(n, c, PK::PTK_String8, reg);
  case 5: return new Src<Smp::Int64>(n, c, PK::PTK_Duration, reg);
  case 6: return new Src<Smp::UInt64>(n, c, PK::PTK_UInt64, reg);
  case 7: return new Src<Color>(n, c, PK::PTK_Int32, reg);
  default: return new Src<Name>(n, c, PK::PTK_String8, reg);
  }
}
Port *newSink(int type, const char *n, Comp *c, int id) {
  switch (type) {
  case 0: return new Snk<void>(n, c, PK::PTK_None, true, id);
  case 1: return new Snk<Smp::Int32>(n, c, PK::PTK_Int32, true, id);
  case 2: return new Snk<double>(n, c, PK::PTK_Float64, true, id);
  case 3: return new Snk<bool>(n, c, PK::PTK_Bool, true, id);
  case 4: return new Snk<const char *>(n, c, PK::PTK_String8, true, id);
  case 5: return new Snk<Smp::Int64>(n, c, PK::PTK_Duration, true, id);
  case 6: return new Snk<Smp::UInt64>(n, c, PK::PTK_UInt64, true, id);
  case 7: return new Snk<Color>(n, c, PK::PTK_Int32, true, id);
  default: return new Snk<Name>(n, c, PK::PTK_String8, true, id);
  }
}
int kindOf(int type) { return type == 7 ? 1 : type == 8 ? 4 : type; }
std::string str(const std::vector<int> &v) {
  std::string s;
  for (int i : v)
    s += std::to_string(i) + " ";
  return s;
}
void dropSub(int src, int sink) {
  auto &v = cx->sources[src]->subs;
  v.erase(std::find(v.begin(), v.end(), sink));
  for (auto *em : cx->stack)
    if (em->source == src)
      em->left.insert(sink);
}
void subscribe(bool sub, int src, int snk) {
  Port *a = cx->sources[src].get(), *b = cx->sinks[snk].get();
  if (!a || !b)
    return;
  bool mem = chance(8), bad = false;
  std::string out;
  if (mem)
    armAlloc((int64_t)rnd(2));
  try {
    if (sub)
      a->source()->Subscribe(b->sink());
    else
      a->source()->Unsubscribe(b->sink());
  } catch (const std::bad_alloc &) {
    bad = true;
  } catch (...) {
    armAlloc(-1);
    out = outcome([] { throw; });
  }
  bool hit = mem && allocFired();
  armAlloc(-1);
  Quiet q;
  log("%s %d -> %d: %s", sub ? "subscribe" : "unsubscribe", src, snk, bad ? "no memory" : out.c_str());
  if (bad && hit)
    return;
  auto &v = a->subs;
  bool in = std::find(v.begin(), v.end(), snk) != v.end();
  std::string want;
  if (sub)
    want = kindOf(a->type) != kindOf(b->type) ? "Smp:InvalidEventSink" : in ? "Smp:EventSinkAlreadySubscribed" : "";
  else
    want = in ? "" : "Smp:EventSinkNotSubscribed";
  if (out != want)
    fail("result", "%s of sink %d (type %d) to source %d (type %d) gave '%s' instead of '%s'", sub ? "subscription" : "unsubscription", snk, b->type, src, a->type, out.c_str(), want.c_str());
  if (want.empty()) {
    if (sub)
      v.push_back(snk);
    else
      dropSub(src, snk);
  }
}
void emit(int src, bool own) {
  Port *a = cx->sources[src].get();
  if (!a)
    return;
  Emission em;
  Smp::IObject *from;
  bool op = chance(30);
  {
    Quiet q;
    from = own ? nullptr : static_cast<Smp::IModel *>(cx->comps[rnd(cx->comps.size())].get());
    em = {src, (int)rnd(50), a->subs, {}, {}, own ? a->source()->GetParent() : from};
    cx->stack.push_back(&em);
    log("emit %d value %d", src, em.value);
  }
  std::string out = outcome([&] { a->emit(from, em.value, op); });
  Quiet q;
  cx->stack.pop_back();
  log("emitted %d: [%s] %s", src, str(em.called).c_str(), out.c_str());
  if (!out.empty())
    fail("exception", "the emission of %d raised %s", src, out.c_str());
  std::vector<int> must;
  for (int s : em.snapshot)
    if (!em.left.count(s) || std::find(em.called.begin(), em.called.end(), s) != em.called.end())
      must.push_back(s);
  if (em.called != must)
    fail("notified", "source %d with sinks [%s] (of which %zu were unsubscribed meanwhile) notified [%s]", src, str(em.snapshot).c_str(), em.left.size(), str(em.called).c_str());
}
void notified(int sink, Smp::IObject *sender, bool right, int) {
  size_t d;
  {
    Quiet q;
    if (cx->stack.empty())
      fail("stray-call", "sink %d was notified of nothing", sink);
    auto *em = cx->stack.back();
    if (std::find(em->called.begin(), em->called.end(), sink) != em->called.end())
      fail("notified-twice", "sink %d was notified twice", sink);
    if (!right)
      fail("value", "sink %d got another value than the emitted one", sink);
    if (sender != em->sender)
      fail("sender", "sink %d got another sender", sink);
    em->called.push_back(sink);
    log("  sink %d notified of %d", sink, em->source);
    d = cx->stack.size();
  }
  if (d < 4)
    for (int k = (int)rnd(3); k > 0; --k)
      step((int)d);
}
void removeLinks(int from, int to) {
  Comp *f = cx->comps[from].get(), *t = cx->comps[to].get();
  f->RemoveLinks(t);
  Quiet q;
  log("component %d removes its links to %d", from, to);
  for (size_t s = 0; s < cx->sources.size(); ++s)
    if (cx->sources[s] && cx->sources[s]->comp == from)
      for (int k : std::vector<int>(cx->sources[s]->subs))
        if (cx->sinks[k]->comp == to)
          dropSub((int)s, k);
}
void step(int depth) {
  if (--cx->budget < 0)
    return;
  int k = (int)rnd(20), src = (int)rnd(cx->sources.size()), snk = (int)rnd(cx->sinks.size());
  if (k < 8)
    subscribe(true, src, snk);
  else if (k < 11)
    subscribe(false, src, snk);
  else if (k < 17)
    emit(src, chance(50));
  else if (k < 18)
    removeLinks((int)rnd(cx->comps.size()), (int)rnd(cx->comps.size()));
  else if (k < 19) { // a sink goes away: its subscriptions are removed first
    bool busy = false;
    {
      Quiet q;
      for (auto *em : cx->stack)
        busy |= !em->called.empty() && std::find(em->called.begin(), em->called.end(), snk) != em->called.end(); // it may be running
    }
    if (busy || !cx->sinks[snk] || chance(50))
      return;
    for (size_t s = 0; s < cx->sources.size(); ++s)
      if (cx->sources[s] && std::find(cx->sources[s]->subs.begin(), cx->sources[s]->subs.end(), snk) != cx->sources[s]->subs.end()) {
        cx->sources[s]->source()->Unsubscribe(cx->sinks[snk]->sink());
        Quiet q;
        dropSub((int)s, snk);
      }
    log("sink %d deleted", snk);
    probe("sink deleted");
    cx->sinks[snk].reset();
  } else { // a source goes away
    bool busy = false;
    for (auto *em : cx->stack)
      busy |= em->source == src;
    // a registered source stays with its component
    if (busy || depth > 2 || !cx->sources[src] || chance(60))
      return;
    Smp::String8 n = cx->sources[src]->source()->GetName();
    if (n[0] == 'r')
      return;
    log("source %d deleted", src);
    probe("source deleted");
    cx->sources[src].reset();
  }
}
} // namespace
} // namespace wl
using namespace wl;
void wl_sinks() {
  Ctx c;
  cx = &c;
  int nc = (int)range(1, 3);
  {
    Quiet q;
    for (int i = 0; i < nc; ++i)
      c.comps.emplace_back(new Comp(("c" + std::to_string(i)).c_str()));
  }
  int t1 = (int)rnd(NT), t2 = chance(40) ? t1 : (int)rnd(NT);
  if (chance(40))
    t2 = t1 == 1 ? 7 : t1 == 7 ? 1 : t1 == 4 ? 8 : t1 == 8 ? 4 : t2;
  // strings of two kinds and numbers of two kinds can be mixed, too
  int ns = (int)range(1, 3), nk = (int)range(1, 6);
  for (int i = 0; i < ns; ++i) {
    int co = (int)rnd(nc), ty = chance(70) ? t1 : t2;
    bool reg = chance(60);
    c.sources.emplace_back(newSource(ty, ((reg ? "r" : "s") + std::to_string(i)).c_str(), c.comps[co].get(), reg));
    c.sources.back()->type = ty;
    c.sources.back()->comp = reg ? co : -1;
  }
  for (int i = 0; i < nk; ++i) {
    int co = (int)rnd(nc), ty = chance(70) ? t1 : t2;
    c.sinks.emplace_back(newSink(ty, ("k" + std::to_string(i)).c_str(), c.comps[co].get(), i));
    c.sinks.back()->type = ty;
    c.sinks.back()->comp = co;
  }
  if (t1 != t2 && kindOf(t1) == kindOf(t2))
    probe("mixed kinds");
  int n = (int)range(5, 40);
  for (int i = 0; i < n; ++i) {
    c.budget = 20;
    if (keep(newOp()))
      step(0);
  }
  for (size_t s = 0; s < c.sources.size(); ++s) {
    c.budget = 0;
    emit((int)s, true);
  }
  Quiet q;
  if (chance(50)) {
    c.sources.clear();
    c.sinks.clear();
  } else {
    c.sinks.clear();
    c.sources.clear();
  }
  c.comps.clear();
}

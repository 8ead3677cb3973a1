#include "model.h"
#include <Smp/IPublication.h>
#include <Smp/Publication/IStructureType.h>
namespace wl {
using namespace sim;
void registerTypes(Smp::Publication::ITypeRegistry *tr) {
  tr->AddArrayType("Arr", "", uuidArr, Smp::Uuids::Uuid_Int32, sizeof(Smp::Int32), 3);
  tr->AddArrayType("SArr", "", uuidSArr, Smp::Uuids::Uuid_Int16, sizeof(Smp::Int16), 4, true);
  auto *p = tr->AddStructureType("Pair", "", uuidPair);
  p->AddField("first", "", Smp::Uuids::Uuid_Int32, offsetof(Pair, first), Smp::ViewKind::VK_None, true, false, false);
  p->AddField("second", "", Smp::Uuids::Uuid_Float64, offsetof(Pair, second), Smp::ViewKind::VK_None, true, false, false);
}
using V = Smp::ViewKind;
TModel::TModel(const char *name, Smp::IComposite *parent, Smp::Publication::ITypeRegistry *t, int neps, int nf, std::function<void(TModel *, int)> act)
    : Xsmp::Model(name, "", parent), tr(t), nfields(nf), kids("kids", "", static_cast<Xsmp::Composite *>(this), 0, -1), seed{tr, Smp::Uuids::Uuid_Int64, "seed", "", this, V::VK_All, 1},
      trans{tr, Smp::Uuids::Uuid_Int32, "trans", "", this, V::VK_All}, forc{tr, Smp::Uuids::Uuid_Float64, "forc", "", this, V::VK_All},
      ff{tr, Smp::Uuids::Uuid_Int32, "ff", "", this, V::VK_All}, fail{tr, Smp::Uuids::Uuid_Bool, "fail", "", this, V::VK_All},
      arr{tr, uuidArr, "arr", "", this, V::VK_All}, sarr{tr, uuidSArr, "sarr", "", this, V::VK_All}, pair{tr, uuidPair, "pair", "", this, V::VK_All},
      out{tr, Smp::Uuids::Uuid_Int32, "out", "", this, V::VK_All}, in{tr, Smp::Uuids::Uuid_Int32, "in", "", this, V::VK_All} {
  for (int i = 0; i < neps; ++i)
    eps.push_back(std::make_unique<Xsmp::EntryPoint>(("ep" + std::to_string(i)).c_str(), "", static_cast<Xsmp::EntryPointPublisher *>(this), [this, act, i] { act(this, i); }));
}
void TModel::Publish(Smp::IPublication *r) {
  Xsmp::Model::Publish(r);
  Smp::IField *all[] = {&seed, &trans, &forc, &ff, &fail, &arr, &sarr, &pair, &out, &in};
  for (int i = 0; i < 10; ++i)
    if (i < nfields)
      r->PublishField(all[i]);
  r->PublishField("direct", "", &direct);
  r->PublishField("direct2", "", &direct2, V::VK_All, true);
}
// also before the model is connected
Smp::ISimulator *TModel::simulator() const {
  for (Smp::IObject *o = GetParent(); o; o = o->GetParent())
    if (auto *s = dynamic_cast<Smp::ISimulator *>(o))
      return s;
  return nullptr;
}
void TModel::Store(Smp::IStorageWriter *w) {
  auto *s = simulator();
  Xsmp::Persist::Store(s, this, w, ids, m, note, wide);
  if (onStore)
    onStore();
  Xsmp::Persist::Store(s, this, w, um, st, bytes, at, peer);
}
void TModel::Restore(Smp::IStorageReader *r) { Xsmp::Persist::Restore(simulator(), this, r, ids, m, note, wide, um, st, bytes, at, peer); }
std::string TModel::text() {
  Quiet q;
  std::ostringstream o;
  if (IsFailed() != (ff.IsFailed() || fail.IsFailed()))
    sim::fail("failed", "%s is %sfailed, its failures are %sfailed and %sfailed", GetName(), IsFailed() ? "" : "not ", ff.IsFailed() ? "" : "not ", fail.IsFailed() ? "" : "not ");
  if (GetFailure("ff") != &ff || GetFailure("fail") != &fail || GetFailure("f") || GetFailure(nullptr) || GetFailures()->size() != 2)
    sim::fail("failures", "the failures of %s are not found", GetName());
  o << GetName() << ":";
  auto f = [&](int i, auto... v) {
    if (i < nfields)
      ((o << v), ...);
  };
  f(0, " seed=", (Smp::Int64)*seed);
  f(2, " forc=", *forc, forc.IsForced() ? "!" : "");
  f(3, " ff=", *ff, ff.IsForced() ? "!" : "", ff.IsFailed() ? "F" : "");
  f(4, " fail=", *fail, fail.IsFailed() ? "F" : "");
  f(5, " arr=", *arr[0], ",", *arr[1], ",", *arr[2]);
  f(6, " sarr=", sarr[0], ",", sarr[1], ",", sarr[2], ",", sarr[3]);
  f(7, " pair=", *pair.first, ",", *pair.second);
  f(8, " out=", *out);
  f(9, " in=", *in);
  o << " direct=" << direct << "," << direct2 << " ids=";
  for (auto i : ids)
    o << i << ",";
  o << " m=";
  for (auto &[k, v] : m)
    o << k << ":" << v << ",";
  o << " note=" << note.size() << ":" << note << " wide=" << wide.size() << ":";
  for (auto c : wide)
    o << (int)c << ",";
  o << " um=";
  std::map<int, std::pair<int, double>> so(um.begin(), um.end());
  for (auto &[k, v] : so)
    o << k << ":" << v.first << "/" << v.second << ",";
  o << " st=";
  for (auto i : st)
    o << i << ",";
  o << " bytes=";
  for (auto b : bytes)
    o << (int)b << ",";
  o << " at=" << at.load() << " peer=" << (peer ? peer->GetName() : "-");
  return o.str();
}
} // namespace wl

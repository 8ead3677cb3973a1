// Models used by the workloads that need components: fields of several kinds,
// entry points that can be stored by path, custom state, children.
#ifndef WL_MODEL_H_
#define WL_MODEL_H_
#include "env.h"
#include <Smp/IPersist.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Array.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdArray.h>
#include <Xsmp/Persist/StdAtomic.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdPair.h>
#include <Xsmp/Persist/StdSet.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdUnorderedMap.h>
#include <Xsmp/Persist/StdUnorderedSet.h>
#include <Xsmp/Persist/StdVector.h>

namespace wl {
struct Pair { // a structure type
  Smp::Int32 first;
  Smp::Float64 second;
  template <typename _BASE> struct _Field : public _BASE {
    _Field(Smp::Publication::ITypeRegistry *tr, Smp::Uuid u, Smp::String8 name, Smp::String8 description = "", Smp::IObject *parent = nullptr,
           Smp::ViewKind view = Smp::ViewKind::VK_None, const Pair &v = {})
        : _BASE(tr, u, name, description, parent, view), first{tr, Smp::Uuids::Uuid_Int32, "first", "", this, view, v.first},
          second{tr, Smp::Uuids::Uuid_Float64, "second", "", this, view, v.second} {}
    _Field(const _Field &) = delete;
    _Field &operator=(const _Field &) = delete;
    typename _BASE::template Field<Smp::Int32> first;
    typename _BASE::template Field<Smp::Float64> second;
  };
};
constexpr Smp::Uuid uuidArr{0x10, 0x20, 0x30, 0x40, 0x50000001};
constexpr Smp::Uuid uuidSArr{0x10, 0x20, 0x30, 0x40, 0x50000002};
constexpr Smp::Uuid uuidPair{0x10, 0x20, 0x30, 0x40, 0x50000003};
using Arr = Xsmp::Array<Smp::Int32, 3>;
using SArr = Xsmp::Array<Smp::Int16, 4>::simple;
void registerTypes(Smp::Publication::ITypeRegistry *tr); // once per simulator

class TModel : public Xsmp::Model, public Xsmp::Composite, public Xsmp::EntryPointPublisher, public Xsmp::FallibleModel, public virtual Smp::IPersist {
  Smp::Publication::ITypeRegistry *tr;

public:
  // nfields: how many of the optional fields are published
  TModel(const char *name, Smp::IComposite *parent, Smp::Publication::ITypeRegistry *tr, int neps, int nfields, std::function<void(TModel *, int)> act);
  void Publish(Smp::IPublication *receiver) override;
  const Smp::Uuid &GetUuid() const override { return uuidPair; }
  void Store(Smp::IStorageWriter *w) override;
  void Restore(Smp::IStorageReader *r) override;
  Smp::ISimulator *simulator() const;
  std::string text(); // the whole state
  int nfields;
  Xsmp::Container<TModel> kids;
  // published fields
  Xsmp::Field<Smp::Int64> seed;
  Xsmp::Field<Smp::Int32>::transient trans;
  Xsmp::Field<Smp::Float64>::forcible forc;
  Xsmp::Field<Smp::Int32>::forcible::failure ff;
  Xsmp::Field<Smp::Bool>::failure fail;
  Xsmp::Field<Arr> arr;
  Xsmp::Field<SArr> sarr;
  Xsmp::Field<Pair> pair;
  Xsmp::Field<Smp::Int32>::output out;
  Xsmp::Field<Smp::Int32>::input in;
  Smp::Int32 direct = 0;
  Smp::Float64 direct2 = 0;
  // custom state
  std::vector<EventId> ids;
  std::map<std::string, Smp::Int64> m;
  std::string note;
  std::u16string wide;
  std::unordered_map<int, std::pair<int, double>> um;
  std::set<int> st;
  std::array<Smp::UInt8, 5> bytes{};
  std::atomic<int> at{0};
  Smp::IObject *peer = nullptr;
  const Smp::IEntryPoint *lastEp = nullptr;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps;
  std::function<void()> onStore; // called in the middle of Store
};
} // namespace wl
#endif

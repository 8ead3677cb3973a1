#!/usr/bin/env python3
"""Writes the reconstruction of the ECSS SMP (ECSS-E-ST-40-07C) C++ interface
headers that /repo includes as <Smp/...> and that cannot be downloaded here.
The declarations follow the published standard and what /repo's own sources
override and call.  Usage: gen.py OUTDIR"""
import os, re, sys
out = sys.argv[1]
F = {}
def h(path, includes, body, ns='Smp', fwd=''):
    guard = 'SMPREC_' + re.sub(r'\W', '_', path).upper()
    s = f'// Reconstruction of the ECSS SMP interface header <Smp/{path}>.\n#ifndef {guard}\n#define {guard}\n'
    for i in includes:
        s += f'#include <{i}>\n'
    if fwd: s += fwd + '\n'
    s += f'namespace {ns} {{\n{body.strip()}\n}} // namespace {ns}\n#endif\n'
    F[path] = s
PT='Smp/PrimitiveTypes.h'
h('PrimitiveTypes.h', ['cstddef','cstdint','memory','ostream','type_traits','utility'], '''
using Char8 = char; using String8 = const char *; using Bool = bool;
using Int8 = std::int8_t; using Int16 = std::int16_t; using Int32 = std::int32_t; using Int64 = std::int64_t;
using UInt8 = std::uint8_t; using UInt16 = std::uint16_t; using UInt32 = std::uint32_t; using UInt64 = std::uint64_t;
using Float32 = float; using Float64 = double;
using Duration = Int64; using DateTime = Int64;
enum class PrimitiveTypeKind : Int32 { PTK_None=0, PTK_Char8=1, PTK_Bool=2, PTK_Int8=3, PTK_UInt8=4, PTK_Int16=5, PTK_UInt16=6, PTK_Int32=7, PTK_UInt32=8, PTK_Int64=9, PTK_UInt64=10, PTK_Float32=11, PTK_Float64=12, PTK_Duration=13, PTK_DateTime=14, PTK_String8=15 };
std::ostream &operator<<(std::ostream &os, const PrimitiveTypeKind &obj);
''')
def enum(path, name, vals, ns='Smp'):
    h(path, ['cstdint','ostream',PT], f'enum class {name} : ::Smp::Int32 {{ {", ".join(vals)} }};\nstd::ostream &operator<<(std::ostream &os, const {name} &obj);', ns)
enum('AccessKind.h','AccessKind',['AK_ReadWrite','AK_ReadOnly','AK_WriteOnly'])
enum('ViewKind.h','ViewKind',['VK_None','VK_Debug','VK_Expert','VK_All'])
enum('ComponentStateKind.h','ComponentStateKind',['CSK_Created','CSK_Publishing','CSK_Configured','CSK_Connected','CSK_Disconnected'])
enum('SimulatorStateKind.h','SimulatorStateKind',['SSK_Building','SSK_Connecting','SSK_Initialising','SSK_Standby','SSK_Executing','SSK_Storing','SSK_Restoring','SSK_Reconnecting','SSK_Exiting','SSK_Aborting'])
enum('Services/TimeKind.h','TimeKind',['TK_SimulationTime','TK_MissionTime','TK_EpochTime','TK_ZuluTime'],'Smp::Services')
enum('Publication/ParameterDirectionKind.h','ParameterDirectionKind',['PDK_In','PDK_Out','PDK_InOut','PDK_Return'],'Smp::Publication')
h('Services/EventId.h',[PT],'using EventId = ::Smp::Int64;','Smp::Services')
h('Services/LogMessageKind.h',[PT],'using LogMessageKind = ::Smp::Int32;','Smp::Services')
uu=['Uuid','Void','Char8','Bool','Int8','UInt8','Int16','UInt16','Int32','UInt32','Int64','UInt64','Float32','Float64','Duration','DateTime','String8','PrimitiveTypeKind','EventId','LogMessageKind','TimeKind','ViewKind','ParameterDirectionKind','ComponentStateKind','AccessKind','SimulatorStateKind']
h('Uuid.h',['array','cstddef','cstdint','functional','ostream',PT], '''
struct Uuid {
  constexpr Uuid() : Data1{0}, Data2{0, 0, 0}, Data3{0, 0, 0, 0, 0, 0} {}
  constexpr Uuid(std::uint32_t data1, std::uint16_t data21, std::uint16_t data22, std::uint16_t data23, std::uint64_t data3)
      : Data1{data1}, Data2{data21, data22, data23},
        Data3{static_cast<std::uint8_t>((data3 >> 40) & 0xFF), static_cast<std::uint8_t>((data3 >> 32) & 0xFF),
              static_cast<std::uint8_t>((data3 >> 24) & 0xFF), static_cast<std::uint8_t>((data3 >> 16) & 0xFF),
              static_cast<std::uint8_t>((data3 >> 8) & 0xFF), static_cast<std::uint8_t>(data3 & 0xFF)} {}
  constexpr Uuid(const std::uint32_t &data1, const std::array<std::uint16_t, 3> &data2, const std::array<std::uint8_t, 6> &data3)
      : Data1{data1}, Data2{data2}, Data3{data3} {}
  Uuid(const char *value);
  constexpr Uuid(const Uuid &) = default;
  Uuid &operator=(const Uuid &) = default;
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
  std::uint32_t Data1;
  std::array<std::uint16_t, 3> Data2;
  std::array<std::uint8_t, 6> Data3;
};
std::ostream &operator<<(std::ostream &os, const ::Smp::Uuid &uuid);
class Uuids { public:
''' + '\n'.join(f'  static constexpr ::Smp::Uuid Uuid_{n}{{0xC3A9E1D0u, 0x9B00, 0x11DE, 0x8A39, 0x0800200C{i:04x}ULL}};' for i,n in enumerate(uu,1)) + '\n};')
F['Uuid.h']=F['Uuid.h'].replace('#endif\n','namespace std { template <> struct hash<::Smp::Uuid> { size_t operator()(const ::Smp::Uuid &uuid) const; }; }\n#endif\n')
prims=['Bool','Char8','String8','UInt8','UInt16','UInt32','UInt64','Int8','Int16','Int32','Int64','Float32','Float64']
h('AnySimple.h',['ostream',PT,'Smp/Uuid.h'], '''
struct AnySimple {
  AnySimple();
  explicit AnySimple(::Smp::PrimitiveTypeKind kind);
  AnySimple(const ::Smp::AnySimple &other);
  AnySimple(::Smp::AnySimple &&other);
  template <class T> AnySimple(::Smp::PrimitiveTypeKind kind, T val) : AnySimple(::Smp::PrimitiveTypeKind::PTK_None) { SetValue(kind, val); }
  ~AnySimple() noexcept;
  AnySimple &operator=(const ::Smp::AnySimple &other);
  AnySimple &operator=(::Smp::AnySimple &&other);
  bool operator==(const ::Smp::AnySimple &other) const;
  bool operator!=(const ::Smp::AnySimple &other) const;
  ::Smp::PrimitiveTypeKind GetType() const noexcept;
  ::Smp::String8 MoveString();
''' + '\n'.join(f'  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::{p} newValue);' for p in prims) + '\n' +
 '\n'.join(f'  operator ::Smp::{p}() const;' for p in prims) + '''
  ::Smp::PrimitiveTypeKind type;
  union Values {
    ::Smp::Char8 char8Value; ::Smp::Bool boolValue; ::Smp::Int8 int8Value; ::Smp::UInt8 uInt8Value; ::Smp::Int16 int16Value; ::Smp::UInt16 uInt16Value;
    ::Smp::Int32 int32Value; ::Smp::UInt32 uInt32Value; ::Smp::Int64 int64Value; ::Smp::UInt64 uInt64Value; ::Smp::Float32 float32Value; ::Smp::Float64 float64Value;
    ::Smp::Duration durationValue; ::Smp::DateTime dateTimeValue; ::Smp::String8 string8Value;
  } value;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
''')
h('AnySimpleArray.h',['Smp/AnySimple.h'],'using AnySimpleArray = ::Smp::AnySimple *;')
h('Exception.h',['exception',PT],'''
class IObject;
class Exception : public std::exception {
public:
  ~Exception() noexcept override = default;
  const ::Smp::Char8 *what() const noexcept override = 0;
  virtual ::Smp::String8 GetName() const noexcept = 0;
  virtual ::Smp::String8 GetDescription() const noexcept = 0;
  virtual ::Smp::String8 GetMessage() const noexcept = 0;
  virtual const ::Smp::IObject *GetSender() const noexcept = 0;
};''')
fw='namespace Smp { class IObject; class IComponent; class IComposite; class IDataflowField; class IField; class IEntryPoint; class IEventSink; class IEventSource; class ISimulator; class IStorageReader; class IStorageWriter; class IPublication; class IRequest; class IService; class IModel; class IFactory; class IArrayField; class IStructureField; class IReference; class IContainer; class IFailure; class IOperation; class IProperty; class IParameter;\nnamespace Services { class ILogger; class ILinkRegistry; class ITimeKeeper; class IScheduler; class IEventManager; class IResolver; }\nnamespace Publication { class ITypeRegistry; class IType; class IPublishOperation; class IArrayType; class IStructureType; class IEnumerationType; class IClassType; } }'
def exc(name, methods, ns='Smp'):
    body=f'class {name} : public virtual ::Smp::Exception {{\npublic:\n  ~{name}() noexcept override = default;\n'
    for m in methods: body+=f'  virtual {m} const noexcept = 0;\n'
    body+='};'
    path={'Smp':'','Smp::Services':'Services/','Smp::Publication':'Publication/'}[ns]+name+'.h'
    h(path,['Smp/Exception.h','Smp/AnySimple.h','Smp/Uuid.h','Smp/ComponentStateKind.h','Smp/SimulatorStateKind.h','Smp/Services/EventId.h'],body,ns,fw)
S8='::Smp::String8 '
exc('FieldAlreadyConnected',['const ::Smp::IDataflowField *GetSource()','const ::Smp::IField *GetTarget()'])
exc('InvalidTarget',['const ::Smp::IDataflowField *GetSource()','const ::Smp::IField *GetTarget()'])
exc('CannotStore',[]); exc('CannotRestore',[])
exc('InvalidObjectName',[S8+'GetInvalidName()'])
exc('ContainerFull',[S8+'GetContainerName()','::Smp::Int64 GetContainerSize()'])
exc('DuplicateName',[S8+'GetDuplicateName()'])
exc('NotContained',[S8+'GetContainerName()','::Smp::IComponent *GetComponent()'])
exc('CannotDelete',[S8+'GetContainerName()','::Smp::IComponent *GetComponent()','::Smp::Int64 GetLowerLimit()'])
exc('InvalidComponentState',['::Smp::ComponentStateKind GetInvalidState()','::Smp::ComponentStateKind GetExpectedState()'])
exc('InvalidObjectType',['::Smp::IObject *GetInvalidObject()'])
exc('NotReferenced',[S8+'GetReferenceName()','::Smp::IComponent *GetComponent()'])
exc('ReferenceFull',[S8+'GetReferenceName()','::Smp::Int64 GetReferenceSize()'])
exc('CannotRemove',[S8+'GetReferenceName()','::Smp::IComponent *GetComponent()','::Smp::Int64 GetLowerLimit()'])
for n in ['InvalidEventSink','EventSinkAlreadySubscribed','EventSinkNotSubscribed']:
    exc(n,['const ::Smp::IEventSource *GetEventSource()','const ::Smp::IEventSink *GetEventSink()'])
exc('InvalidOperationName',[S8+'GetOperationName()'])
exc('InvalidParameterCount',[S8+'GetOperationName()','::Smp::Int32 GetOperationParameters()','::Smp::Int32 GetRequestParameters()'])
exc('InvalidParameterType',[S8+'GetOperationName()',S8+'GetParameterName()','::Smp::PrimitiveTypeKind GetInvalidType()','::Smp::PrimitiveTypeKind GetExpectedType()'])
exc('InvalidArrayIndex',['::Smp::Int64 GetInvalidIndex()','::Smp::Int64 GetArraySize()'])
exc('InvalidFieldValue',['::Smp::AnySimple GetInvalidFieldValue()'])
exc('InvalidArrayValue',['::Smp::Int64 GetInvalidValueIndex()','::Smp::AnySimple GetInvalidValue()'])
exc('InvalidArraySize',['::Smp::Int64 GetArraySize()','::Smp::Int64 GetInvalidSize()'])
SV='Smp::Services'; PB='Smp::Publication'
exc('InvalidEventName',[],SV); exc('InvalidEventId',['::Smp::Services::EventId GetInvalidEventId()'],SV)
exc('InvalidCycleTime',[],SV); exc('InvalidEventTime',[],SV)
for n in ['EntryPointNotSubscribed','EntryPointAlreadySubscribed']: exc(n,['const ::Smp::IEntryPoint *GetEntryPoint()',S8+'GetEventName()'],SV)
exc('InvalidFieldName',[S8+'GetFieldName()'])
exc('TypeNotRegistered',['::Smp::Uuid GetUuid()'],PB)
exc('InvalidParameterIndex',[S8+'GetOperationName()','::Smp::Int32 GetParameterIndex()','::Smp::Int32 GetParameterCount()'])
exc('VoidOperation',[S8+'GetOperationName()'])
exc('InvalidAnyType',['::Smp::PrimitiveTypeKind GetInvalidType()','::Smp::PrimitiveTypeKind GetExpectedType()'])
exc('InvalidReturnValue',[S8+'GetOperationName()','::Smp::AnySimple GetValue()'])
exc('InvalidParameterValue',[S8+'GetParameterName()','::Smp::AnySimple GetValue()'])
exc('InvalidFieldType',[])
exc('DuplicateUuid',[S8+'GetOldName()',S8+'GetNewName()'])
exc('LibraryNotFound',[S8+'GetLibraryName()']); exc('InvalidLibrary',[S8+'GetLibraryName()'])
exc('InvalidSimulationTime',['::Smp::Duration GetCurrentTime()','::Smp::Duration GetProvidedTime()','::Smp::Duration GetMaximumTime()'],SV)
exc('TypeAlreadyRegistered',[S8+'GetTypeName()','const ::Smp::Publication::IType *GetType()'],PB)
exc('DuplicateLiteral',[S8+'GetLiteralName()','::Smp::Int32 GetLiteralValue()'],PB)
exc('InvalidPrimitiveType',[S8+'GetTypeName()','::Smp::PrimitiveTypeKind GetType()'],PB)
exc('InvalidSimulatorState',['::Smp::SimulatorStateKind GetInvalidState()'])

def iface(path,name,bases,methods,ns='Smp',inc=(),extra='',pre=''):
    binc=['Smp/'+b.replace('Smp::','').replace('::','/')+'.h' for b in bases]
    b=' : '+', '.join('public virtual ::'+x for x in bases) if bases else ''
    body=pre+f'class {name}{b} {{\npublic:\n'
    body+= (f'  ~{name}() noexcept override = default;\n' if bases else f'  virtual ~{name}() noexcept = default;\n')
    for m in methods:
        body+=f'  virtual {m} = 0;\n'
    body+=extra+'};\n'
    h(path,[PT]+binc+list(inc),body,ns,fw)
def coll(t): return f'using {t[1:]}Collection = ::Smp::ICollection<::Smp::{t}>;\n'
O='Smp::IObject'; C='Smp::IComponent'
def addcoll(t):
    p=t+'.h'
    F[p]=F[p].replace('#endif\n',f'namespace Smp {{ {coll(t).strip()} }}\n#endif\n')
iface('IObject.h','IObject',[],['::Smp::String8 GetName() const','::Smp::String8 GetDescription() const','::Smp::IObject *GetParent() const'])
h('ICollection.h',['cstddef','Smp/IObject.h','Smp/CollectionIterator.h'],'''
template <typename T> class ICollection : public virtual ::Smp::IObject {
public:
  using const_iterator = ::Smp::CollectionIterator<T>;
  using iterator = const_iterator;
  ~ICollection() noexcept override = default;
  virtual T *at(::Smp::String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};''')
h('CollectionIterator.h',['cstddef','iterator'],'''
template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using difference_type = std::ptrdiff_t; using value_type = T *; using pointer = T **; using reference = T *; using iterator_category = std::forward_iterator_tag;
  CollectionIterator(const ICollection<T> &collection, size_t start) : _collection{&collection}, _index{start} {}
  CollectionIterator(const CollectionIterator &) = default;
  CollectionIterator &operator=(const CollectionIterator &) = default;
  T *operator*() const { return _collection->at(_index); }
  T *operator->() const { return _collection->at(_index); }
  CollectionIterator &operator++() { ++_index; return *this; }
  CollectionIterator operator++(int) { auto tmp = *this; ++_index; return tmp; }
  bool operator==(const CollectionIterator &o) const { return _collection == o._collection && _index == o._index; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
private:
  const ICollection<T> *_collection; size_t _index;
};''')
CI='Smp/ICollection.h'
iface('IStorageReader.h','IStorageReader',[],['void Restore(void *address, ::Smp::UInt64 size)','::Smp::String8 GetStateVectorFileName() const','::Smp::String8 GetStateVectorFilePath() const'])
iface('IStorageWriter.h','IStorageWriter',[],['void Store(void *address, ::Smp::UInt64 size)','::Smp::String8 GetStateVectorFileName() const','::Smp::String8 GetStateVectorFilePath() const'])
iface('IPersist.h','IPersist',[O],['void Restore(::Smp::IStorageReader *reader)','void Store(::Smp::IStorageWriter *writer)'],inc=['Smp/IStorageReader.h','Smp/IStorageWriter.h'])
iface('IField.h','IField',['Smp::IPersist'],['::Smp::ViewKind GetView() const','::Smp::Bool IsState() const','::Smp::Bool IsInput() const','::Smp::Bool IsOutput() const','const ::Smp::Publication::IType *GetType() const'],inc=[CI,'Smp/ViewKind.h'])
addcoll('IField')
iface('ISimpleField.h','ISimpleField',['Smp::IField'],['::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const','::Smp::AnySimple GetValue() const','void SetValue(::Smp::AnySimple value)'],inc=['Smp/AnySimple.h'])
iface('IForcibleField.h','IForcibleField',['Smp::ISimpleField'],['void Force(::Smp::AnySimple value)','void Unforce()','::Smp::Bool IsForced()','void Freeze()'])
iface('IArrayField.h','IArrayField',['Smp::IField'],['::Smp::UInt64 GetSize() const','::Smp::IField *GetItem(::Smp::UInt64 index) const'])
iface('ISimpleArrayField.h','ISimpleArrayField',['Smp::IField'],['::Smp::UInt64 GetSize() const','::Smp::AnySimple GetValue(::Smp::UInt64 index) const','void SetValue(::Smp::UInt64 index, ::Smp::AnySimple value)','void GetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) const','void SetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values)'],inc=['Smp/AnySimpleArray.h'])
iface('IStructureField.h','IStructureField',['Smp::IField'],['const ::Smp::FieldCollection *GetFields() const','::Smp::IField *GetField(::Smp::String8 name) const'])
iface('IDataflowField.h','IDataflowField',['Smp::IField'],['void Connect(::Smp::IField *target)','void Push()'])
iface('IFailure.h','IFailure',['Smp::IPersist'],['void Fail()','void Unfail()','::Smp::Bool IsFailed() const'],inc=[CI]); addcoll('IFailure')
iface('IComponent.h','IComponent',[O],['::Smp::ComponentStateKind GetState() const','void Publish(::Smp::IPublication *receiver)','void Configure(::Smp::Services::ILogger *logger, ::Smp::Services::ILinkRegistry *linkRegistry = nullptr)','void Connect(::Smp::ISimulator *simulator)','void Disconnect()','::Smp::IField *GetField(::Smp::String8 fullName) const','const ::Smp::FieldCollection *GetFields() const','const ::Smp::Uuid &GetUuid() const'],inc=[CI,'Smp/ComponentStateKind.h','Smp/Uuid.h','Smp/IField.h']); addcoll('IComponent')
iface('IModel.h','IModel',[C],[],inc=[CI]); addcoll('IModel')
iface('IService.h','IService',[C],[],inc=[CI]); addcoll('IService')
iface('ILinkingComponent.h','ILinkingComponent',[C],['void RemoveLinks(const ::Smp::IComponent *target)'])
iface('IParameter.h','IParameter',[O],['const ::Smp::Publication::IType *GetType() const','::Smp::Publication::ParameterDirectionKind GetDirection() const'],inc=[CI,'Smp/Publication/ParameterDirectionKind.h']); addcoll('IParameter')
iface('IOperation.h','IOperation',[O],['const ::Smp::ParameterCollection *GetParameters() const','::Smp::IParameter *GetParameter(::Smp::String8 name) const','::Smp::IParameter *GetReturnParameter() const','::Smp::ViewKind GetView() const','::Smp::IRequest *CreateRequest()','void Invoke(::Smp::IRequest *request)','void DeleteRequest(::Smp::IRequest *request)'],inc=[CI,'Smp/ViewKind.h','Smp/IParameter.h']); addcoll('IOperation')
iface('IProperty.h','IProperty',[O],['::Smp::Publication::IType *GetType() const','::Smp::AccessKind GetAccess() const','::Smp::ViewKind GetView() const','::Smp::AnySimple GetValue() const','void SetValue(::Smp::AnySimple value)'],inc=[CI,'Smp/ViewKind.h','Smp/AccessKind.h','Smp/AnySimple.h']); addcoll('IProperty')
iface('IRequest.h','IRequest',[],['::Smp::String8 GetOperationName() const','::Smp::Int32 GetParameterCount() const','::Smp::Int32 GetParameterIndex(::Smp::String8 parameterName) const','void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value)','::Smp::AnySimple GetParameterValue(::Smp::Int32 index) const','void SetReturnValue(::Smp::AnySimple value)','::Smp::AnySimple GetReturnValue() const'],inc=['Smp/AnySimple.h'])
iface('IDynamicInvocation.h','IDynamicInvocation',[C],['::Smp::IRequest *CreateRequest(::Smp::String8 operationName)','void Invoke(::Smp::IRequest *request)','void DeleteRequest(::Smp::IRequest *request)','const ::Smp::PropertyCollection *GetProperties() const','const ::Smp::OperationCollection *GetOperations() const'],inc=['Smp/IOperation.h','Smp/IProperty.h'])
iface('IContainer.h','IContainer',[O],['const ::Smp::ComponentCollection *GetComponents() const','::Smp::IComponent *GetComponent(::Smp::String8 name) const','void AddComponent(::Smp::IComponent *component)','void DeleteComponent(::Smp::IComponent *component)','::Smp::Int64 GetCount() const','::Smp::Int64 GetUpper() const','::Smp::Int64 GetLower() const'],inc=[CI,'Smp/IComponent.h']); addcoll('IContainer')
iface('IReference.h','IReference',[O],['const ::Smp::ComponentCollection *GetComponents() const','::Smp::IComponent *GetComponent(::Smp::String8 name) const','void AddComponent(::Smp::IComponent *component)','void RemoveComponent(::Smp::IComponent *component)','::Smp::Int64 GetCount() const','::Smp::Int64 GetUpper() const','::Smp::Int64 GetLower() const'],inc=[CI,'Smp/IComponent.h']); addcoll('IReference')
iface('IComposite.h','IComposite',[O],['const ::Smp::ContainerCollection *GetContainers() const','::Smp::IContainer *GetContainer(::Smp::String8 name) const'],inc=['Smp/IContainer.h'])
iface('IAggregate.h','IAggregate',[C],['const ::Smp::ReferenceCollection *GetReferences() const','::Smp::IReference *GetReference(::Smp::String8 name) const'],inc=['Smp/IReference.h'])
iface('IEntryPoint.h','IEntryPoint',[O],['void Execute() const'],inc=[CI]); addcoll('IEntryPoint')
iface('IEntryPointPublisher.h','IEntryPointPublisher',[O],['const ::Smp::EntryPointCollection *GetEntryPoints() const','::Smp::IEntryPoint *GetEntryPoint(::Smp::String8 name) const'],inc=['Smp/IEntryPoint.h'])
iface('IEventSink.h','IEventSink',[O],['::Smp::PrimitiveTypeKind GetEventArgType() const','void Notify(::Smp::IObject *sender, ::Smp::AnySimple arg)'],inc=[CI,'Smp/AnySimple.h']); addcoll('IEventSink')
iface('IEventSource.h','IEventSource',[O],['void Subscribe(::Smp::IEventSink *eventSink)','void Unsubscribe(::Smp::IEventSink *eventSink)'],inc=[CI]); addcoll('IEventSource')
iface('IEventConsumer.h','IEventConsumer',[C],['const ::Smp::EventSinkCollection *GetEventSinks() const','::Smp::IEventSink *GetEventSink(::Smp::String8 name) const'],inc=['Smp/IEventSink.h'])
iface('IEventProvider.h','IEventProvider',[C],['const ::Smp::EventSourceCollection *GetEventSources() const','::Smp::IEventSource *GetEventSource(::Smp::String8 name) const'],inc=['Smp/IEventSource.h'])
iface('IFallibleModel.h','IFallibleModel',['Smp::IModel'],['::Smp::Bool IsFailed() const','const ::Smp::FailureCollection *GetFailures() const','::Smp::IFailure *GetFailure(::Smp::String8 name) const'],inc=['Smp/IFailure.h'])
iface('IFactory.h','IFactory',[O],['::Smp::Uuid GetUuid() const','::Smp::String8 GetTypeName() const','::Smp::IComponent *CreateInstance(::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent)','void DeleteInstance(::Smp::IComponent *instance)'],inc=[CI,'Smp/Uuid.h']); addcoll('IFactory')
pf=', ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false)'
nd='::Smp::String8 name, ::Smp::String8 description'
iface('IPublication.h','IPublication',[],['::Smp::Publication::ITypeRegistry *GetTypeRegistry() const']+
 [f'void PublishField({nd}, ::Smp::{t} *address{pf}' for t in ['Char8','Bool','Int8','Int16','Int32','Int64','UInt8','UInt16','UInt32','UInt64','Float32','Float64']]+
 [f'void PublishField({nd}, void *address, ::Smp::Uuid typeUuid{pf}','void PublishField(::Smp::IField *field)',
  f'void PublishArray({nd}, ::Smp::Int64 count, void *address, ::Smp::PrimitiveTypeKind type{pf}',
  f'::Smp::IPublication *PublishArray({nd}, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true)',
  f'::Smp::IPublication *PublishStructure({nd}, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true)',
  f'::Smp::Publication::IPublishOperation *PublishOperation({nd}, ::Smp::ViewKind view = ::Smp::ViewKind::VK_None)',
  f'void PublishProperty({nd}, ::Smp::Uuid typeUuid, ::Smp::AccessKind accessKind, ::Smp::ViewKind view = ::Smp::ViewKind::VK_None)',
  '::Smp::IField *GetField(::Smp::String8 fullName) const','const ::Smp::FieldCollection *GetFields() const','const ::Smp::PropertyCollection *GetProperties() const','const ::Smp::OperationCollection *GetOperations() const','::Smp::IRequest *CreateRequest(::Smp::String8 operationName)','void DeleteRequest(::Smp::IRequest *request)','void Unpublish()'],
 inc=['Smp/ViewKind.h','Smp/AccessKind.h','Smp/Uuid.h','Smp/IField.h','Smp/IProperty.h','Smp/IOperation.h'])
iface('Publication/IPublishOperation.h','IPublishOperation',[],['void PublishParameter('+nd+', ::Smp::Uuid typeUuid, ::Smp::Publication::ParameterDirectionKind direction = ::Smp::Publication::ParameterDirectionKind::PDK_In)'],PB,['Smp/Uuid.h','Smp/Publication/ParameterDirectionKind.h'])
iface('Publication/IType.h','IType',[O],['::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const','::Smp::Uuid GetUuid() const','void Publish(::Smp::IPublication *receiver, '+nd+', void *address'+pf],PB,['Smp/Uuid.h','Smp/ViewKind.h'])
iface('Publication/IEnumerationType.h','IEnumerationType',['Smp::Publication::IType'],['void AddLiteral('+nd+', ::Smp::Int32 value)'],PB)
iface('Publication/IArrayType.h','IArrayType',['Smp::Publication::IType'],['::Smp::UInt64 GetSize() const','const ::Smp::Publication::IType *GetItemType() const'],PB)
iface('Publication/IStructureType.h','IStructureType',['Smp::Publication::IType'],['void AddField('+nd+', ::Smp::Uuid uuid, ::Smp::Int64 offset'+pf],PB)
iface('Publication/IClassType.h','IClassType',['Smp::Publication::IStructureType'],[],PB)
ndu=nd+', ::Smp::Uuid typeUuid'
TP='::Smp::Publication::'
iface('Publication/ITypeRegistry.h','ITypeRegistry',[],[f'{TP}IType *GetType(::Smp::PrimitiveTypeKind type) const',f'{TP}IType *GetType(::Smp::Uuid typeUuid) const',
 f'{TP}IType *AddFloatType({ndu}, ::Smp::Float64 minimum, ::Smp::Float64 maximum, ::Smp::Bool minInclusive, ::Smp::Bool maxInclusive, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Float64)',
 f'{TP}IType *AddIntegerType({ndu}, ::Smp::Int64 minimum, ::Smp::Int64 maximum, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Int32)',
 f'{TP}IEnumerationType *AddEnumerationType({ndu}, ::Smp::Int16 memorySize)',
 f'{TP}IArrayType *AddArrayType({ndu}, ::Smp::Uuid itemTypeUuid, ::Smp::Int64 itemSize, ::Smp::Int64 arrayCount, ::Smp::Bool simpleArray = false)',
 f'{TP}IType *AddStringType({ndu}, ::Smp::Int64 length)',f'{TP}IStructureType *AddStructureType({ndu})',f'{TP}IClassType *AddClassType({ndu}, ::Smp::Uuid baseClassUuid)'],PB,['Smp/Uuid.h','Smp/Publication/IType.h','Smp/Publication/IEnumerationType.h','Smp/Publication/IArrayType.h','Smp/Publication/IClassType.h'])
SI='Smp::IService'
def svc(name,methods,inc=(),extra='',const=''):
    iface(f'Services/{name}.h',name,[SI],methods,SV,inc,extra,const)
LMK=['Information','Event','Warning','Error','Debug']
svc('ILogger',['::Smp::Services::LogMessageKind QueryLogMessageKind(::Smp::String8 messageKindName)','void Log(const ::Smp::IObject *sender, ::Smp::String8 message, ::Smp::Services::LogMessageKind kind = 0)'],['Smp/Services/LogMessageKind.h'],
 ''.join(f'  static constexpr ::Smp::Services::LogMessageKind LMK_{n} = {i};\n' for i,n in enumerate(LMK)),
 'inline constexpr ::Smp::String8 SMP_Logger = "Logger";\n'+''.join(f'inline constexpr ::Smp::String8 LMK_{n}Name = "{n}";\n' for n in LMK))
F['Services/ILogger.h']=F['Services/ILogger.h'].replace('  static constexpr ::Smp::Services::LogMessageKind LMK_Information','  static constexpr ::Smp::String8 SMP_Logger = "Logger";\n'+''.join(f'  static constexpr ::Smp::String8 LMK_{n}Name = "{n}";\n' for n in LMK)+'  static constexpr ::Smp::Services::LogMessageKind LMK_Information').replace('inline constexpr ::Smp::String8 SMP_Logger = "Logger";\n','')
F['Services/ILogger.h']=re.sub(r'inline constexpr ::Smp::String8 LMK_\w+ = "\w+";\n','',F['Services/ILogger.h'])
EV=['LeaveConnecting','EnterInitialising','LeaveInitialising','EnterStandby','LeaveStandby','EnterExecuting','LeaveExecuting','EnterStoring','LeaveStoring','EnterRestoring','LeaveRestoring','EnterExiting','EnterAborting','EpochTimeChanged','MissionTimeChanged','EnterReconnecting','LeaveReconnecting','PreSimTimeChange','PostSimTimeChange']
svc('IEventManager',['::Smp::Services::EventId QueryEventId(::Smp::String8 eventName)','void Subscribe(::Smp::Services::EventId event, const ::Smp::IEntryPoint *entryPoint)','void Unsubscribe(::Smp::Services::EventId event, const ::Smp::IEntryPoint *entryPoint)','void Emit(::Smp::Services::EventId event, ::Smp::Bool synchronous = true)'],['Smp/Services/EventId.h'],
 '  static constexpr ::Smp::String8 SMP_EventManager = "EventManager";\n'+
 ''.join(f'  static constexpr ::Smp::String8 SMP_{n} = "SMP_{n}";\n  static constexpr ::Smp::Services::EventId SMP_{n}Id = {i};\n' for i,n in enumerate(EV,1)))
svc('ITimeKeeper',['::Smp::Duration GetSimulationTime() const','::Smp::DateTime GetEpochTime() const','::Smp::DateTime GetMissionStartTime() const','::Smp::Duration GetMissionTime() const','::Smp::DateTime GetZuluTime() const','void SetSimulationTime(::Smp::Duration simulationTime)','void SetEpochTime(::Smp::DateTime epochTime)','void SetMissionStartTime(::Smp::DateTime missionStart)','void SetMissionTime(::Smp::Duration missionTime)'],[],'  static constexpr ::Smp::String8 SMP_TimeKeeper = "TimeKeeper";\n')
E='::Smp::Services::EventId '; cr=', ::Smp::Duration cycleTime = 0, ::Smp::Int64 repeat = 0)'; ep='const ::Smp::IEntryPoint *entryPoint'
svc('IScheduler',[E+f'AddImmediateEvent({ep})',E+f'AddSimulationTimeEvent({ep}, ::Smp::Duration simulationTime{cr}',E+f'AddMissionTimeEvent({ep}, ::Smp::Duration missionTime{cr}',E+f'AddEpochTimeEvent({ep}, ::Smp::DateTime epochTime{cr}',E+f'AddZuluTimeEvent({ep}, ::Smp::DateTime zuluTime{cr}',
 f'void SetEventSimulationTime({E}event, ::Smp::Duration simulationTime)',f'void SetEventMissionTime({E}event, ::Smp::Duration missionTime)',f'void SetEventEpochTime({E}event, ::Smp::DateTime epochTime)',f'void SetEventZuluTime({E}event, ::Smp::DateTime zuluTime)',f'void SetEventCycleTime({E}event, ::Smp::Duration cycleTime)',f'void SetEventRepeat({E}event, ::Smp::Int64 repeat)',f'void RemoveEvent({E}event)',E+'GetCurrentEventId() const','::Smp::Duration GetNextScheduledEventTime() const'],['Smp/Services/EventId.h'],'  static constexpr ::Smp::String8 SMP_Scheduler = "Scheduler";\n')
svc('IResolver',['::Smp::IObject *ResolveAbsolute(::Smp::String8 absolutePath)','::Smp::IObject *ResolveRelative(::Smp::String8 relativePath, const ::Smp::IComponent *sender)'],[],'  static constexpr ::Smp::String8 SMP_Resolver = "Resolver";\n')
svc('ILinkRegistry',['void AddLink(::Smp::IComponent *source, const ::Smp::IComponent *target)','::Smp::UInt32 GetLinkCount(const ::Smp::IComponent *source, const ::Smp::IComponent *target) const','::Smp::Bool RemoveLink(::Smp::IComponent *source, const ::Smp::IComponent *target)','const ::Smp::ComponentCollection *GetLinkSources(const ::Smp::IComponent *target) const','::Smp::Bool CanRemove(const ::Smp::IComponent *target)','void RemoveLinks(const ::Smp::IComponent *target)'],[],'  static constexpr ::Smp::String8 SMP_LinkRegistry = "LinkRegistry";\n')
iface('ISimulator.h','ISimulator',['Smp::IComposite'],['void Initialise()','void Publish()','void Configure()','void Connect()','void Run()','void Hold(::Smp::Bool immediate)','void Store(::Smp::String8 filename)','void Restore(::Smp::String8 filename)','void Reconnect(::Smp::IComponent *root)','void Exit()','void Abort()','::Smp::SimulatorStateKind GetState() const','void AddInitEntryPoint(::Smp::IEntryPoint *entryPoint)','void AddModel(::Smp::IModel *model)','void AddService(::Smp::IService *service)','::Smp::IService *GetService(::Smp::String8 name) const','::Smp::Services::ILogger *GetLogger() const','::Smp::Services::ITimeKeeper *GetTimeKeeper() const','::Smp::Services::IScheduler *GetScheduler() const','::Smp::Services::IEventManager *GetEventManager() const','::Smp::Services::IResolver *GetResolver() const','::Smp::Services::ILinkRegistry *GetLinkRegistry() const','void RegisterFactory(::Smp::IFactory *componentFactory)','::Smp::IComponent *CreateInstance(::Smp::Uuid uuid, ::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent)','::Smp::IFactory *GetFactory(::Smp::Uuid uuid) const','const ::Smp::FactoryCollection *GetFactories() const','::Smp::Publication::ITypeRegistry *GetTypeRegistry() const','void LoadLibrary(::Smp::String8 libraryPath)'],inc=['Smp/SimulatorStateKind.h','Smp/Uuid.h','Smp/IComposite.h','Smp/IFactory.h','Smp/IModel.h','Smp/IService.h','Smp/Services/ILogger.h','Smp/Services/ITimeKeeper.h','Smp/Services/IScheduler.h','Smp/Services/IEventManager.h','Smp/Services/IResolver.h','Smp/Services/ILinkRegistry.h'],extra='  static constexpr ::Smp::String8 SMP_SimulatorServices = "Services";\n  static constexpr ::Smp::String8 SMP_SimulatorModels = "Models";\n')
for p,s in F.items():
    q=os.path.join(out,'Smp',p); os.makedirs(os.path.dirname(q),exist_ok=True)
    open(q,'w').write(s)

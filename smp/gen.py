#!/usr/bin/env python3
"""Generates the stand-in ECSS SMP (ECSS-E-ST-40-07C) interface headers used by the harnesses.
The real headers are downloaded by /repo's CMake at configure time and are not available offline.
Only declarations and header-only parts are provided here: AnySimple, Uuid and the stream operators are
implemented by /repo/src/Smp/*.cpp.  Signatures come from the overriding declarations of the SDK."""
import os, re, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'Smp')

def w(name, body, includes=()):
    p = os.path.join(OUT, name + '.h')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    guard = 'STANDIN_SMP_' + re.sub(r'\W', '_', name).upper() + '_H_'
    with open(p, 'w') as f:
        f.write(f'// Stand-in for the ECSS SMP header (generated by gen.py)\n#ifndef {guard}\n#define {guard}\n')
        for i in includes:
            f.write(f'#include <{i}>\n')
        f.write(body.strip('\n') + '\n#endif\n')

def ns(path, body):
    a = path.split('::')
    return ''.join(f'namespace {x} {{ ' for x in a) + '\n' + body.strip('\n') + '\n' + '}' * len(a)

def iface(name, bases, methods, includes=(), fwd='', extra=''):
    """name: 'IObject' or 'Services/ILogger'"""
    parts = name.split('/')
    space = '::'.join(['Smp'] + parts[:-1]); cls = parts[-1]
    inh = ' : ' + ', '.join('public virtual ' + b for b in bases) if bases else ''
    body = fwd + '\n' + ns(space, f'class {cls}{inh} {{\npublic:\n  virtual ~{cls}() noexcept = default;\n' + extra +
        ''.join(f'  virtual {m} = 0;\n' for m in methods) + '};')
    inc = ['Smp/PrimitiveTypes.h'] + [b.replace('::', '/').lstrip('/') + '.h' for b in bases] + list(includes)
    w(name, body, inc)

w('PrimitiveTypes', r'''
namespace Smp {
using Char8 = char; using String8 = const char *; using Bool = bool;
using Int8 = std::int8_t; using UInt8 = std::uint8_t; using Int16 = std::int16_t; using UInt16 = std::uint16_t;
using Int32 = std::int32_t; using UInt32 = std::uint32_t; using Int64 = std::int64_t; using UInt64 = std::uint64_t;
using Float32 = float; using Float64 = double;
using Duration = Int64; using DateTime = Int64;
enum class PrimitiveTypeKind : Int32 { PTK_None, PTK_Char8, PTK_Bool, PTK_Int8, PTK_UInt8, PTK_Int16, PTK_UInt16,
  PTK_Int32, PTK_UInt32, PTK_Int64, PTK_UInt64, PTK_Float32, PTK_Float64, PTK_Duration, PTK_DateTime, PTK_String8 };
std::ostream &operator<<(std::ostream &os, const PrimitiveTypeKind &obj);
}
''', ['algorithm', 'array', 'cstddef', 'cstdint', 'exception', 'functional', 'iterator', 'memory', 'ostream', 'string', 'vector'])

def enum(name, lits):
    parts = name.split('/'); space = '::'.join(['Smp'] + parts[:-1]); c = parts[-1]
    w(name, ns(space, f'enum class {c} : ::Smp::Int32 {{ {", ".join(lits)} }};\nstd::ostream &operator<<(std::ostream &os, const {c} &obj);'), ['Smp/PrimitiveTypes.h'])
enum('ViewKind', ['VK_None', 'VK_Debug', 'VK_Expert', 'VK_All'])
enum('AccessKind', ['AK_ReadWrite', 'AK_ReadOnly', 'AK_WriteOnly'])
enum('ComponentStateKind', ['CSK_Created', 'CSK_Publishing', 'CSK_Configured', 'CSK_Connected', 'CSK_Disconnected'])
enum('SimulatorStateKind', ['SSK_' + x for x in 'Building Connecting Initialising Standby Executing Storing Restoring Reconnecting Exiting Aborting'.split()])
enum('Services/TimeKind', ['TK_SimulationTime', 'TK_MissionTime', 'TK_EpochTime', 'TK_ZuluTime'])
enum('Publication/ParameterDirectionKind', ['PDK_In', 'PDK_Out', 'PDK_InOut', 'PDK_Return'])
w('Services/EventId', ns('Smp::Services', 'using EventId = ::Smp::Int64;'), ['Smp/PrimitiveTypes.h'])
w('Services/LogMessageKind', ns('Smp::Services', 'using LogMessageKind = ::Smp::Int32;'), ['Smp/PrimitiveTypes.h'])

w('Uuid', r'''
namespace Smp {
struct Uuid {
  std::uint32_t Data1{};
  std::array<std::uint16_t, 3> Data2{};
  std::array<std::uint8_t, 6> Data3{};
  constexpr Uuid() = default;
  constexpr Uuid(std::uint32_t d1, std::uint16_t d2, std::uint16_t d3, std::uint16_t d4, std::uint64_t d5)
      : Data1{d1}, Data2{d2, d3, d4},
        Data3{static_cast<std::uint8_t>((d5 >> 40U) & 0xFF), static_cast<std::uint8_t>((d5 >> 32U) & 0xFF),
              static_cast<std::uint8_t>((d5 >> 24U) & 0xFF), static_cast<std::uint8_t>((d5 >> 16U) & 0xFF),
              static_cast<std::uint8_t>((d5 >> 8U) & 0xFF), static_cast<std::uint8_t>(d5 & 0xFF)} {}
  constexpr Uuid(std::uint32_t d1, std::array<std::uint16_t, 3> d2, std::array<std::uint8_t, 6> d3)
      : Data1{d1}, Data2{d2}, Data3{d3} {}
  explicit Uuid(const char *value);
  bool operator<(const Uuid &other) const;
  bool operator==(const Uuid &other) const;
  bool operator!=(const Uuid &other) const;
};
std::ostream &operator<<(std::ostream &os, const Uuid &uuid);
namespace Uuids {
#define STANDIN_UUID(n, i) constexpr ::Smp::Uuid Uuid_##n{0x53ed1000U + i, 0x1ca1, 0x11dc, 0xa0f7, 0x0002b3ULL}
''' + '\n'.join(f'STANDIN_UUID({n}, {i});' for i, n in enumerate('Void Uuid Char8 Bool Int8 UInt8 Int16 UInt16 Int32 UInt32 Int64 UInt64 Float32 Float64 Duration DateTime String8 PrimitiveTypeKind EventId LogMessageKind AccessKind ComponentStateKind ParameterDirectionKind SimulatorStateKind TimeKind ViewKind'.split())) + r'''
#undef STANDIN_UUID
} // namespace Uuids
} // namespace Smp
template <> struct std::hash<::Smp::Uuid> { std::size_t operator()(const ::Smp::Uuid &uuid) const; };
''', ['Smp/PrimitiveTypes.h', 'array', 'cstddef', 'cstdint', 'functional', 'iosfwd'])

T13 = ['Bool', 'Char8', 'String8', 'UInt8', 'UInt16', 'UInt32', 'UInt64', 'Int8', 'Int16', 'Int32', 'Int64', 'Float32', 'Float64']
w('AnySimple', r'''
namespace Smp {
class AnySimple {
public:
  AnySimple();
  explicit AnySimple(::Smp::PrimitiveTypeKind kind);
  AnySimple(const AnySimple &other);
  AnySimple(AnySimple &&other);
  template <typename T> AnySimple(::Smp::PrimitiveTypeKind kind, T newValue) : AnySimple(kind) { SetValue(kind, newValue); }
  AnySimple &operator=(const AnySimple &other);
  AnySimple &operator=(AnySimple &&other);
  ~AnySimple() noexcept;
''' + '\n'.join(f'  void SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::{t} newValue);' for t in T13) + '\n' +
 '\n'.join(f'  operator ::Smp::{t}() const;' for t in T13) + r'''
  ::Smp::String8 MoveString();
  ::Smp::PrimitiveTypeKind GetType() const noexcept;
  bool operator==(const AnySimple &other) const;
  bool operator!=(const AnySimple &other) const;
  ::Smp::PrimitiveTypeKind type;
  union {
    ::Smp::Bool boolValue; ::Smp::Char8 char8Value; ::Smp::Int8 int8Value; ::Smp::UInt8 uInt8Value;
    ::Smp::Int16 int16Value; ::Smp::UInt16 uInt16Value; ::Smp::Int32 int32Value; ::Smp::UInt32 uInt32Value;
    ::Smp::Int64 int64Value; ::Smp::UInt64 uInt64Value; ::Smp::Float32 float32Value; ::Smp::Float64 float64Value;
    ::Smp::Duration durationValue; ::Smp::DateTime dateTimeValue; ::Smp::String8 string8Value;
  } value;
};
std::ostream &operator<<(std::ostream &os, const AnySimple &obj);
}
''', ['Smp/PrimitiveTypes.h', 'Smp/Uuid.h', 'iosfwd'])
w('AnySimpleArray', ns('Smp', 'using AnySimpleArray = AnySimple *;'), ['Smp/AnySimple.h'])

iface('IObject', [], ['::Smp::String8 GetName() const', '::Smp::String8 GetDescription() const', '::Smp::IObject *GetParent() const'])
w('CollectionIterator', r'''
namespace Smp {
template <typename T> class ICollection;
/// index-based iterator, as the interface only offers at(index)
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::random_access_iterator_tag; using value_type = T *; using difference_type = std::ptrdiff_t;
  using pointer = T *; using reference = T *;
  CollectionIterator() = default;
  CollectionIterator(const ICollection<T> &c, std::size_t i) : _c{&c}, _i{i} {}
  T *operator*() const { return _c->at(_i); }
  T *operator->() const { return _c->at(_i); }
  CollectionIterator &operator++() { ++_i; return *this; }
  CollectionIterator operator++(int) { auto r = *this; ++_i; return r; }
  CollectionIterator &operator--() { --_i; return *this; }
  CollectionIterator operator--(int) { auto r = *this; --_i; return r; }
  CollectionIterator &operator+=(difference_type n) { _i += static_cast<std::size_t>(n); return *this; }
  CollectionIterator &operator-=(difference_type n) { _i -= static_cast<std::size_t>(n); return *this; }
  friend CollectionIterator operator+(CollectionIterator a, difference_type n) { return a += n; }
  friend CollectionIterator operator-(CollectionIterator a, difference_type n) { return a -= n; }
  friend difference_type operator-(const CollectionIterator &a, const CollectionIterator &b) { return static_cast<difference_type>(a._i) - static_cast<difference_type>(b._i); }
  T *operator[](difference_type n) const { return _c->at(_i + static_cast<std::size_t>(n)); }
  bool operator==(const CollectionIterator &o) const { return _c == o._c && _i == o._i; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
  bool operator<(const CollectionIterator &o) const { return _i < o._i; }
  bool operator>(const CollectionIterator &o) const { return _i > o._i; }
  bool operator<=(const CollectionIterator &o) const { return _i <= o._i; }
  bool operator>=(const CollectionIterator &o) const { return _i >= o._i; }
private:
  const ICollection<T> *_c{}; std::size_t _i{};
};
}
''', ['Smp/PrimitiveTypes.h', 'iterator', 'cstddef'])
w('ICollection', r'''
namespace Smp {
template <typename T> class ICollection : public virtual ::Smp::IObject {
public:
  using value_type = T; using iterator = CollectionIterator<T>; using const_iterator = CollectionIterator<T>;
  virtual ~ICollection() noexcept = default;
  virtual T *at(::Smp::String8 name) const = 0;
  virtual T *at(std::size_t index) const = 0;
  virtual std::size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
}
''', ['Smp/IObject.h', 'Smp/CollectionIterator.h', 'cstddef'])

def coll(i):  # extra text appended after the interface
    return f'namespace Smp {{ using {i[1:]}Collection = ::Smp::ICollection<::Smp::{i}>; }}'
COLL = 'IComponent IContainer IReference IFactory IField IProperty IOperation IParameter IEntryPoint IEventSink IEventSource IFailure'.split()
def fwdns(*cl): return 'namespace Smp { ' + ' '.join(f'class {c};' for c in cl) + ' }'

def simple(name, bases, methods, includes=(), fwd=''):
    cls = name.split('/')[-1]
    f = fwd
    inc = list(includes)
    if name in COLL:
        inc.append('Smp/ICollection.h'); f += '\nnamespace Smp { class %s; using %sCollection = ::Smp::ICollection<::Smp::%s>; }' % (name, name[1:], name)
    iface(name, bases, methods, inc, f)

simple('IStorageReader', [], ['void Restore(void *address, ::Smp::UInt64 size)', '::Smp::String8 GetStateVectorFileName() const', '::Smp::String8 GetStateVectorFilePath() const'])
simple('IStorageWriter', [], ['void Store(void *address, ::Smp::UInt64 size)', '::Smp::String8 GetStateVectorFileName() const', '::Smp::String8 GetStateVectorFilePath() const'])
simple('IPersist', ['Smp::IObject'], ['void Restore(::Smp::IStorageReader *reader)', 'void Store(::Smp::IStorageWriter *writer)'], ['Smp/IStorageReader.h', 'Smp/IStorageWriter.h'])
simple('IField', ['Smp::IPersist'], ['::Smp::ViewKind GetView() const', '::Smp::Bool IsState() const', '::Smp::Bool IsInput() const', '::Smp::Bool IsOutput() const', 'const ::Smp::Publication::IType *GetType() const'],
       ['Smp/ViewKind.h', 'Smp/Publication/IType.h'])
simple('ISimpleField', ['Smp::IField'], ['::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const', '::Smp::AnySimple GetValue() const', 'void SetValue(::Smp::AnySimple value)'], ['Smp/AnySimple.h'])
simple('IForcibleField', ['Smp::ISimpleField'], ['void Force(::Smp::AnySimple value)', 'void Unforce()', '::Smp::Bool IsForced()', 'void Freeze()'])
simple('IArrayField', ['Smp::IField'], ['::Smp::UInt64 GetSize() const', '::Smp::IField *GetItem(::Smp::UInt64 index) const'])
simple('ISimpleArrayField', ['Smp::IField'], ['::Smp::UInt64 GetSize() const', '::Smp::AnySimple GetValue(::Smp::UInt64 index) const', 'void SetValue(::Smp::UInt64 index, ::Smp::AnySimple value)',
  'void GetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) const', 'void SetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values)'], ['Smp/AnySimpleArray.h'])
simple('IStructureField', ['Smp::IField'], ['const ::Smp::FieldCollection *GetFields() const', '::Smp::IField *GetField(::Smp::String8 name) const'])
simple('IDataflowField', ['Smp::IField'], ['void Connect(::Smp::IField *target)', 'void Push()'])
simple('IFailure', ['Smp::IPersist'], ['void Fail()', 'void Unfail()', '::Smp::Bool IsFailed() const'])
simple('IEntryPoint', ['Smp::IObject'], ['void Execute() const'])
simple('IEventSink', ['Smp::IObject'], ['::Smp::PrimitiveTypeKind GetEventArgType() const', 'void Notify(::Smp::IObject *sender, ::Smp::AnySimple value)'], ['Smp/AnySimple.h'])
simple('IEventSource', ['Smp::IObject'], ['void Subscribe(::Smp::IEventSink *eventSink)', 'void Unsubscribe(::Smp::IEventSink *eventSink)'], ['Smp/IEventSink.h'])
simple('IRequest', [], ['::Smp::String8 GetOperationName() const', '::Smp::Int32 GetParameterCount() const', '::Smp::Int32 GetParameterIndex(::Smp::String8 parameterName) const',
  'void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value)', '::Smp::AnySimple GetParameterValue(::Smp::Int32 index) const', 'void SetReturnValue(::Smp::AnySimple value)', '::Smp::AnySimple GetReturnValue() const'], ['Smp/AnySimple.h'])
simple('IParameter', ['Smp::IObject'], ['::Smp::Publication::IType *GetType() const', '::Smp::Publication::ParameterDirectionKind GetDirection() const'], ['Smp/Publication/IType.h', 'Smp/Publication/ParameterDirectionKind.h'])
simple('IOperation', ['Smp::IObject'], ['const ::Smp::ParameterCollection *GetParameters() const', '::Smp::IParameter *GetParameter(::Smp::String8 name) const', '::Smp::IParameter *GetReturnParameter() const', '::Smp::ViewKind GetView() const',
  '::Smp::IRequest *CreateRequest()', 'void Invoke(::Smp::IRequest *request)', 'void DeleteRequest(::Smp::IRequest *request)'], ['Smp/IParameter.h', 'Smp/IRequest.h', 'Smp/ViewKind.h'])
simple('IProperty', ['Smp::IObject'], ['::Smp::Publication::IType *GetType() const', '::Smp::AccessKind GetAccess() const', '::Smp::ViewKind GetView() const', '::Smp::AnySimple GetValue() const', 'void SetValue(::Smp::AnySimple value)'],
  ['Smp/AccessKind.h', 'Smp/AnySimple.h', 'Smp/Publication/IType.h', 'Smp/ViewKind.h'])
simple('IPublication', [], ['::Smp::Publication::ITypeRegistry *GetTypeRegistry() const'] +
 [f'void PublishField(::Smp::String8 name, ::Smp::String8 description, ::Smp::{t} *address, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false)' for t in
   'Char8 Bool Int8 Int16 Int32 Int64 UInt8 UInt16 UInt32 UInt64 Float32 Float64'.split()] +
 ['void PublishField(::Smp::String8 name, ::Smp::String8 description, void *address, ::Smp::Uuid typeUuid, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false)',
  'void PublishField(::Smp::IField *field)',
  'void PublishArray(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int64 count, void *address, ::Smp::PrimitiveTypeKind type, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false)',
  '::Smp::IPublication *PublishArray(::Smp::String8 name, ::Smp::String8 description, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true)',
  '::Smp::IPublication *PublishStructure(::Smp::String8 name, ::Smp::String8 description, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true)',
  '::Smp::Publication::IPublishOperation *PublishOperation(::Smp::String8 name, ::Smp::String8 description, ::Smp::ViewKind view = ::Smp::ViewKind::VK_None)',
  'void PublishProperty(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, ::Smp::AccessKind accessKind, ::Smp::ViewKind view = ::Smp::ViewKind::VK_None)',
  '::Smp::IField *GetField(::Smp::String8 fullName) const', 'const ::Smp::FieldCollection *GetFields() const', 'const ::Smp::PropertyCollection *GetProperties() const', 'const ::Smp::OperationCollection *GetOperations() const',
  '::Smp::IRequest *CreateRequest(::Smp::String8 operationName)', 'void DeleteRequest(::Smp::IRequest *request)', 'void Unpublish()'],
 ['Smp/AccessKind.h', 'Smp/IField.h', 'Smp/IOperation.h', 'Smp/IProperty.h', 'Smp/Uuid.h', 'Smp/Publication/IPublishOperation.h', 'Smp/ViewKind.h'], 'namespace Smp { namespace Publication { class ITypeRegistry; } }')
simple('IComponent', ['Smp::IObject'], ['::Smp::ComponentStateKind GetState() const', 'void Publish(::Smp::IPublication *receiver)', 'void Configure(::Smp::Services::ILogger *logger, ::Smp::Services::ILinkRegistry *linkRegistry = nullptr)',
  'void Connect(::Smp::ISimulator *simulator)', 'void Disconnect()', '::Smp::IField *GetField(::Smp::String8 fullName) const', 'const ::Smp::FieldCollection *GetFields() const', 'const ::Smp::Uuid &GetUuid() const'],
  ['Smp/ComponentStateKind.h', 'Smp/IField.h', 'Smp/IPublication.h', 'Smp/Uuid.h'], 'namespace Smp { class ISimulator; namespace Services { class ILogger; class ILinkRegistry; } }')
simple('IContainer', ['Smp::IObject'], ['const ::Smp::ComponentCollection *GetComponents() const', '::Smp::IComponent *GetComponent(::Smp::String8 name) const', 'void AddComponent(::Smp::IComponent *component)', 'void DeleteComponent(::Smp::IComponent *component)',
  '::Smp::Int64 GetCount() const', '::Smp::Int64 GetUpper() const', '::Smp::Int64 GetLower() const'], ['Smp/IComponent.h'])
simple('IReference', ['Smp::IObject'], ['const ::Smp::ComponentCollection *GetComponents() const', '::Smp::IComponent *GetComponent(::Smp::String8 name) const', 'void AddComponent(::Smp::IComponent *component)', 'void RemoveComponent(::Smp::IComponent *component)',
  '::Smp::Int64 GetCount() const', '::Smp::Int64 GetUpper() const', '::Smp::Int64 GetLower() const'], ['Smp/IComponent.h'])
simple('IComposite', ['Smp::IObject'], ['const ::Smp::ContainerCollection *GetContainers() const', '::Smp::IContainer *GetContainer(::Smp::String8 name) const'], ['Smp/IContainer.h'])
simple('IAggregate', ['Smp::IComponent'], ['const ::Smp::ReferenceCollection *GetReferences() const', '::Smp::IReference *GetReference(::Smp::String8 name) const'], ['Smp/IReference.h'])
simple('IModel', ['Smp::IComponent'], []); simple('IService', ['Smp::IComponent'], [])
simple('IEntryPointPublisher', ['Smp::IObject'], ['const ::Smp::EntryPointCollection *GetEntryPoints() const', '::Smp::IEntryPoint *GetEntryPoint(::Smp::String8 name) const'], ['Smp/IEntryPoint.h'])
simple('IEventConsumer', ['Smp::IObject'], ['const ::Smp::EventSinkCollection *GetEventSinks() const', '::Smp::IEventSink *GetEventSink(::Smp::String8 name) const'], ['Smp/IEventSink.h'])
simple('IEventProvider', ['Smp::IObject'], ['const ::Smp::EventSourceCollection *GetEventSources() const', '::Smp::IEventSource *GetEventSource(::Smp::String8 name) const'], ['Smp/IComponent.h', 'Smp/IEventSource.h'])
simple('IFallibleModel', ['Smp::IModel'], ['::Smp::Bool IsFailed() const', 'const ::Smp::FailureCollection *GetFailures() const', '::Smp::IFailure *GetFailure(::Smp::String8 name) const'], ['Smp/IFailure.h'])
simple('ILinkingComponent', ['Smp::IComponent'], ['void RemoveLinks(const ::Smp::IComponent *target)'])
simple('IDynamicInvocation', ['Smp::IComponent'], ['::Smp::IRequest *CreateRequest(::Smp::String8 operationName)', 'void Invoke(::Smp::IRequest *request)', 'void DeleteRequest(::Smp::IRequest *request)',
  'const ::Smp::PropertyCollection *GetProperties() const', 'const ::Smp::OperationCollection *GetOperations() const'], ['Smp/IOperation.h', 'Smp/IProperty.h'])
simple('IFactory', ['Smp::IObject'], ['::Smp::Uuid GetUuid() const', '::Smp::String8 GetTypeName() const', '::Smp::IComponent *CreateInstance(::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent)', 'void DeleteInstance(::Smp::IComponent *instance)'],
  ['Smp/Uuid.h', 'Smp/IComponent.h', 'Smp/IComposite.h'])
S = '::Smp::Services::'
simple('ISimulator', ['Smp::IComposite'], ['void Initialise()', 'void Publish()', 'void Configure()', 'void Connect()', 'void Run()', 'void Hold(::Smp::Bool immediate)', 'void Store(::Smp::String8 filename)', 'void Restore(::Smp::String8 filename)',
  'void Reconnect(::Smp::IComponent *root)', 'void Exit()', 'void Abort()', '::Smp::SimulatorStateKind GetState() const', 'void AddInitEntryPoint(::Smp::IEntryPoint *entryPoint)', 'void AddModel(::Smp::IModel *model)', 'void AddService(::Smp::IService *service)',
  '::Smp::IService *GetService(::Smp::String8 name) const'] + [f'{S}I{x} *Get{x}() const' for x in 'Logger TimeKeeper Scheduler EventManager Resolver LinkRegistry'.split()] +
  ['void RegisterFactory(::Smp::IFactory *componentFactory)', '::Smp::IComponent *CreateInstance(::Smp::Uuid uuid, ::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent)',
   '::Smp::IFactory *GetFactory(::Smp::Uuid uuid) const', 'const ::Smp::FactoryCollection *GetFactories() const', '::Smp::Publication::ITypeRegistry *GetTypeRegistry() const', 'void LoadLibrary(::Smp::String8 libraryPath)'],
  ['Smp/IEntryPoint.h', 'Smp/IFactory.h', 'Smp/IModel.h', 'Smp/IService.h', 'Smp/SimulatorStateKind.h', 'Smp/Publication/ITypeRegistry.h'] + [f'Smp/Services/I{x}.h' for x in 'Logger TimeKeeper Scheduler EventManager Resolver LinkRegistry'.split()])
# ISimulator: names of the two mandatory containers
p = os.path.join(OUT, 'ISimulator.h'); t = open(p).read()
t = t.replace('class ISimulator : public virtual Smp::IComposite {\npublic:\n', 'class ISimulator : public virtual Smp::IComposite {\npublic:\n  static constexpr ::Smp::String8 SMP_SimulatorModels = "Models";\n  static constexpr ::Smp::String8 SMP_SimulatorServices = "Services";\n')
open(p, 'w').write(t)

ev = 'LeaveConnecting EnterInitialising LeaveInitialising EnterStandby LeaveStandby EnterExecuting LeaveExecuting EnterStoring LeaveStoring EnterRestoring LeaveRestoring EnterExiting EnterAborting EpochTimeChanged MissionTimeChanged EnterReconnecting LeaveReconnecting PreSimTimeChange PostSimTimeChange'.split()
iface('Services/IEventManager', ['Smp::IService'], ['::Smp::Services::EventId QueryEventId(::Smp::String8 eventName)', 'void Subscribe(::Smp::Services::EventId event, const ::Smp::IEntryPoint *entryPoint)',
  'void Unsubscribe(::Smp::Services::EventId event, const ::Smp::IEntryPoint *entryPoint)', 'void Emit(::Smp::Services::EventId event, ::Smp::Bool synchronous = true)'], ['Smp/IEntryPoint.h', 'Smp/Services/EventId.h'],
  extra='  static constexpr ::Smp::String8 SMP_EventManager = "EventManager";\n' + ''.join(f'  static constexpr ::Smp::String8 SMP_{e} = "SMP_{e}";\n  static constexpr ::Smp::Services::EventId SMP_{e}Id = {i+1};\n' for i, e in enumerate(ev)))
iface('Services/ILogger', ['Smp::IService'], ['::Smp::Services::LogMessageKind QueryLogMessageKind(::Smp::String8 messageKindName)', 'void Log(const ::Smp::IObject *sender, ::Smp::String8 message, ::Smp::Services::LogMessageKind kind = 0)'],
  ['Smp/Services/LogMessageKind.h'], extra=''.join(f'  static constexpr ::Smp::Services::LogMessageKind LMK_{k} = {i};\n  static constexpr ::Smp::String8 LMK_{k}Name = "{k}";\n' for i, k in enumerate('Information Event Warning Error Debug'.split())) + '  static constexpr ::Smp::String8 SMP_Logger = "Logger";\n')
iface('Services/IResolver', ['Smp::IService'], ['::Smp::IObject *ResolveAbsolute(::Smp::String8 absolutePath)', '::Smp::IObject *ResolveRelative(::Smp::String8 relativePath, const ::Smp::IComponent *sender)'], extra='  static constexpr ::Smp::String8 SMP_Resolver = "Resolver";\n')
iface('Services/ILinkRegistry', ['Smp::IService'], ['void AddLink(::Smp::IComponent *source, const ::Smp::IComponent *target)', '::Smp::UInt32 GetLinkCount(const ::Smp::IComponent *source, const ::Smp::IComponent *target) const',
  '::Smp::Bool RemoveLink(::Smp::IComponent *source, const ::Smp::IComponent *target)', 'const ::Smp::ComponentCollection *GetLinkSources(const ::Smp::IComponent *target) const', '::Smp::Bool CanRemove(const ::Smp::IComponent *target)', 'void RemoveLinks(const ::Smp::IComponent *target)'], extra='  static constexpr ::Smp::String8 SMP_LinkRegistry = "LinkRegistry";\n')
iface('Services/ITimeKeeper', ['Smp::IService'], ['::Smp::Duration GetSimulationTime() const', '::Smp::DateTime GetEpochTime() const', '::Smp::DateTime GetMissionStartTime() const', '::Smp::Duration GetMissionTime() const', '::Smp::DateTime GetZuluTime() const',
  'void SetSimulationTime(::Smp::Duration simulationTime)', 'void SetEpochTime(::Smp::DateTime epochTime)', 'void SetMissionStartTime(::Smp::DateTime missionStart)', 'void SetMissionTime(::Smp::Duration missionTime)'], extra='  static constexpr ::Smp::String8 SMP_TimeKeeper = "TimeKeeper";\n')
def add(k, ty, n): return f'::Smp::Services::EventId Add{k}TimeEvent(const ::Smp::IEntryPoint *entryPoint, ::Smp::{ty} {n}, ::Smp::Duration cycleTime = 0, ::Smp::Int64 repeat = 0)'
def st(k, ty, n): return f'void SetEvent{k}Time(::Smp::Services::EventId event, ::Smp::{ty} {n})'
KS = [('Simulation', 'Duration', 'simulationTime'), ('Mission', 'Duration', 'missionTime'), ('Epoch', 'DateTime', 'epochTime'), ('Zulu', 'DateTime', 'zuluTime')]
iface('Services/IScheduler', ['Smp::IService'], ['::Smp::Services::EventId AddImmediateEvent(const ::Smp::IEntryPoint *entryPoint)'] + [add(*k) for k in KS] + [st(*k) for k in KS] +
  ['void SetEventCycleTime(::Smp::Services::EventId event, ::Smp::Duration cycleTime)', 'void SetEventRepeat(::Smp::Services::EventId event, ::Smp::Int64 repeat)', 'void RemoveEvent(::Smp::Services::EventId event)',
   '::Smp::Services::EventId GetCurrentEventId() const', '::Smp::Duration GetNextScheduledEventTime() const'], ['Smp/IEntryPoint.h', 'Smp/Services/EventId.h'], extra='  static constexpr ::Smp::String8 SMP_Scheduler = "Scheduler";\n')

P = '::Smp::Publication::'
pubargs = '::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false'
iface('Publication/IType', ['Smp::IObject'], ['::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const', '::Smp::Uuid GetUuid() const', f'void Publish(::Smp::IPublication *receiver, ::Smp::String8 name, ::Smp::String8 description, void *address, {pubargs})'], ['Smp/Uuid.h', 'Smp/ViewKind.h'], 'namespace Smp { class IPublication; }')
iface('Publication/IArrayType', ['Smp::Publication::IType'], ['::Smp::UInt64 GetSize() const', f'const {P}IType *GetItemType() const'])
iface('Publication/IEnumerationType', ['Smp::Publication::IType'], ['void AddLiteral(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int32 value)'])
iface('Publication/IStructureType', ['Smp::Publication::IType'], [f'void AddField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid uuid, ::Smp::Int64 offset, {pubargs})'])
iface('Publication/IClassType', ['Smp::Publication::IStructureType'], [])
iface('Publication/IPublishOperation', [], [f'void PublishParameter(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid, {P}ParameterDirectionKind direction = {P}ParameterDirectionKind::PDK_In)'], ['Smp/Uuid.h', 'Smp/Publication/ParameterDirectionKind.h'])
hd = '::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid typeUuid'
iface('Publication/ITypeRegistry', [], [f'{P}IType *GetType(::Smp::PrimitiveTypeKind type) const', f'{P}IType *GetType(::Smp::Uuid typeUuid) const',
 f'{P}IType *AddFloatType({hd}, ::Smp::Float64 minimum, ::Smp::Float64 maximum, ::Smp::Bool minInclusive, ::Smp::Bool maxInclusive, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Float64)',
 f'{P}IType *AddIntegerType({hd}, ::Smp::Int64 minimum, ::Smp::Int64 maximum, ::Smp::String8 unit, ::Smp::PrimitiveTypeKind type = ::Smp::PrimitiveTypeKind::PTK_Int32)',
 f'{P}IEnumerationType *AddEnumerationType({hd}, ::Smp::Int16 memorySize)', f'{P}IArrayType *AddArrayType({hd}, ::Smp::Uuid itemTypeUuid, ::Smp::Int64 itemSize, ::Smp::Int64 arrayCount, ::Smp::Bool simpleArray = false)',
 f'{P}IType *AddStringType({hd}, ::Smp::Int64 length)', f'{P}IStructureType *AddStructureType({hd})', f'{P}IClassType *AddClassType({hd}, ::Smp::Uuid baseClassUuid)'],
 ['Smp/Publication/IArrayType.h', 'Smp/Publication/IClassType.h', 'Smp/Publication/IEnumerationType.h', 'Smp/Publication/IStructureType.h'])

# exceptions
w('Exception', ns('Smp', '''class Exception : public std::exception {
public:
  virtual ~Exception() noexcept = default;
  virtual const ::Smp::Char8 *what() const noexcept = 0;
  virtual ::Smp::String8 GetName() const noexcept = 0;
  virtual ::Smp::String8 GetDescription() const noexcept = 0;
  virtual ::Smp::String8 GetMessage() const noexcept = 0;
  virtual const ::Smp::IObject *GetSender() const noexcept = 0;
};'''), ['Smp/PrimitiveTypes.h', 'Smp/IObject.h', 'Smp/Uuid.h', 'exception'])
for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'exceptions.txt')):
    line = line.strip()
    if not line: continue
    name, _, rest = line.partition(' ')
    meths = eval(rest)
    name = name.replace('::Smp::', '', 1).replace('::', '/')
    inc = set(); fwd = set()
    for a, b in meths:
        for m in re.findall(r'::Smp::((?:\w+::)?\w+)', a):
            if m in ('String8', 'Int32', 'Int64', 'PrimitiveTypeKind', 'Duration'): continue
            inc.add('Smp/' + m.replace('::', '/') + '.h')
    parts = name.split('/'); space = '::'.join(['Smp'] + parts[:-1]); c = parts[-1]
    w(name, ns(space, f'class {c} : public virtual ::Smp::Exception {{\npublic:\n  virtual ~{c}() noexcept = default;\n' + ''.join(f'  virtual {a} {b}() const noexcept = 0;\n' for a, b in meths) + '};'), ['Smp/Exception.h'] + sorted(inc))

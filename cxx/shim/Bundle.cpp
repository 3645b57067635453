// Stand-in for the C++ that Dafny generates: the verified core is an arbitrary implementation of its interface (harness: core::).
#pragma once
#include "Bundle.i.h"
template <class T> struct BOption { bool some; T v; bool is_Option_Some() const { return some; } bool is_Option_None() const { return !some; } T dtor_value() const { return v; } };
typedef std::shared_ptr<MainDiskIOHandler_Compile::DiskIOHandler> BIO;
namespace core {
  FullImpl_Compile::Full InitState();
  DafnyMap<uint64, DafnySequence<uint8>> Mkfs();
  uint64 PushSync(FullImpl_Compile::Full&, BIO);
  Tuple<bool, bool> PopSync(FullImpl_Compile::Full&, BIO, uint64, bool);
  bool Insert(FullImpl_Compile::Full&, BIO, DafnySequence<uint8>, DafnySequence<uint8>);
  BOption<DafnySequence<uint8>> Query(FullImpl_Compile::Full&, BIO, DafnySequence<uint8>);
  BOption<UI_Compile::SuccResultList> Succ(FullImpl_Compile::Full&, BIO, UI_Compile::RangeStart, uint64);
  void ReadResponse(FullImpl_Compile::Full&, BIO);
  void WriteResponse(FullImpl_Compile::Full&, BIO);
  void Evict(FullImpl_Compile::Full&, BIO);
  void Count(FullImpl_Compile::Full&, BIO);
}
namespace MainHandlers_Compile {
  using FullImpl_Compile::Full;
  struct __default {
    static Full InitState() { return core::InitState(); }
    static DafnyMap<uint64, DafnySequence<uint8>> Mkfs() { return core::Mkfs(); }
    static void handleEvictEverything(Full& f, BIO io) { core::Evict(f, io); }
    static void handleCountAmassAllocations(Full& f, BIO io) { core::Count(f, io); }
    static uint64 handlePushSync(Full& f, BIO io) { return core::PushSync(f, io); }
    static Tuple<bool, bool> handlePopSync(Full& f, BIO io, uint64 id, bool g) { return core::PopSync(f, io, id, g); }
    static bool handleInsert(Full& f, BIO io, DafnySequence<uint8> k, DafnySequence<uint8> v) { return core::Insert(f, io, k, v); }
    static BOption<DafnySequence<uint8>> handleQuery(Full& f, BIO io, DafnySequence<uint8> k) { return core::Query(f, io, k); }
    static BOption<UI_Compile::SuccResultList> handleSucc(Full& f, BIO io, UI_Compile::RangeStart s, uint64 n) { return core::Succ(f, io, s, n); }
    static void handleReadResponse(Full& f, BIO io) { core::ReadResponse(f, io); }
    static void handleWriteResponse(Full& f, BIO io) { core::WriteResponse(f, io); }
  };
}
namespace KeyType_Compile { struct __default { static uint64 MaxLen() { return 3; } }; }
namespace ValueType_Compile { struct __default { static uint64 MaxLen() { return 4; } }; }

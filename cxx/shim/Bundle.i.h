// Stand-in for the header Dafny generates: only the datatypes the C++ framework itself names.
#pragma once
#include "DafnyRuntime.h"
namespace FullImpl_Compile { struct Full { int x; }; }
namespace NodeImpl_Compile { struct Node { int x; }; }
namespace UI_Compile {
  struct RangeStart {
    int tag; DafnySequence<uint8> key;
    static RangeStart create_SInclusive(DafnySequence<uint8> k) { RangeStart r; r.tag = 0; r.key = k; return r; }
    static RangeStart create_SExclusive(DafnySequence<uint8> k) { RangeStart r; r.tag = 1; r.key = k; return r; }
    static RangeStart create_NegativeInf() { RangeStart r; r.tag = 2; return r; }
    bool is_RangeStart_SInclusive() const { return tag == 0; }
    bool is_RangeStart_SExclusive() const { return tag == 1; }
    bool is_RangeStart_NegativeInf() const { return tag == 2; }
    DafnySequence<uint8> dtor_key() const { return key; }
  };
  struct RangeEnd {
    int tag; DafnySequence<uint8> key;
    static RangeEnd create_EInclusive(DafnySequence<uint8> k) { RangeEnd r; r.tag = 0; r.key = k; return r; }
    static RangeEnd create_EExclusive(DafnySequence<uint8> k) { RangeEnd r; r.tag = 1; r.key = k; return r; }
    static RangeEnd create_PositiveInf() { RangeEnd r; r.tag = 2; return r; }
    bool is_RangeEnd_EInclusive() const { return tag == 0; }
    bool is_RangeEnd_EExclusive() const { return tag == 1; }
    bool is_RangeEnd_PositiveInf() const { return tag == 2; }
    DafnySequence<uint8> dtor_key() const { return key; }
  };
  struct SuccResult { DafnySequence<uint8> key, value; };
  struct SuccResultList { DafnySequence<SuccResult> results; RangeEnd end; };
}

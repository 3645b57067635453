// Stand-in for the Dafny C++ runtime header (the Dafny fork that provides it is not in this sandbox).
// Same shapes and meaning as the runtime's DafnySequence/DafnyArray/DafnyMap/Tuple; the code under check is not here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <tuple>
#include <optional>
#include <functional>
#include <algorithm>
#include <iostream>
#include <initializer_list>
#include <cassert>
#include <immintrin.h>
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef uint64_t uint64;
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef int64_t int64;

template <class T> inline void hash_combine(std::size_t& seed, const T& v) {
  std::hash<T> hasher; seed ^= hasher(v) + 0x9e3779b9 + (seed << 6) + (seed >> 2);
}
template <class T> struct get_default { static T call() { return T(); } };

struct Tuple0 { Tuple0() {} bool operator==(Tuple0 const&) const { return true; } };
template <typename... Ts> struct Tuple {
  std::tuple<Ts...> t;
  Tuple() {}
  Tuple(Ts... xs) : t(xs...) {}
  template <std::size_t i> auto& get() { return std::get<i>(t); }
  template <std::size_t i> auto const& get() const { return std::get<i>(t); }
};

template <typename T> struct DafnyArray {
  std::shared_ptr<T> sptr; T* vec; size_t len;
  DafnyArray() : vec(nullptr), len(0) {}
  explicit DafnyArray(size_t n) : sptr(new T[n], std::default_delete<T[]>()), len(n) { vec = sptr.get(); }
  size_t size() const { return len; }
  T* begin() const { return vec; }
  T* end() const { return vec + len; }
  T* ptr() const { return vec; }
  T& at(size_t i) const { return vec[i]; }
};

template <typename T> struct DafnySequence {
  std::shared_ptr<T> sptr; T* start; size_t len;
  DafnySequence() : start(nullptr), len(0) {}
  explicit DafnySequence(uint64 n) : sptr(new T[n], std::default_delete<T[]>()), len(n) { start = sptr.get(); }
  explicit DafnySequence(std::vector<T> const& v) : DafnySequence((uint64)v.size()) { for (size_t i = 0; i < v.size(); i++) start[i] = v[i]; }
  DafnySequence(std::initializer_list<T> l) : DafnySequence((uint64)l.size()) { size_t i = 0; for (auto const& x : l) start[i++] = x; }
  size_t size() const { return len; }
  T* ptr() const { return start; }
  T& select(uint64 i) const { return start[i]; }
  DafnySequence take(uint64 n) const { DafnySequence r(*this); r.len = n; return r; }
  DafnySequence drop(uint64 n) const { DafnySequence r(*this); r.start += n; r.len -= n; return r; }
  bool equals(DafnySequence const& o) const {
    if (len != o.len) return false;
    for (size_t i = 0; i < len; i++) if (!(start[i] == o.start[i])) return false;
    return true;
  }
};
template <typename T> bool operator==(DafnySequence<T> const& a, DafnySequence<T> const& b) { return a.equals(b); }

template <typename K, typename V> struct DafnyMap {
  std::unordered_map<K, V> map;
  size_t size() const { return map.size(); }
};

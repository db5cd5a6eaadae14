// Harness interface.  Under the symbolic executor the vp_* functions are intrinsics;
// in a native replay (replay.cpp) they return the values of the counterexample.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
// the library selects std:: math (as in the real g++ build) only when __clang__ is not defined
#ifdef __clang__
#undef __clang__
#endif
extern "C" {
uint8_t vp_u8(const char* name);
uint16_t vp_u16(const char* name);
uint32_t vp_u32(const char* name);
uint64_t vp_u64(const char* name);
bool vp_bool(const char* name);
double vp_real(const char* name, double lo, double hi);   // any real in [lo,hi]
void vp_assume(bool c);
void vp_check(bool c, const char* label);                 // the property
void vp_guard(bool c, const char* label);                 // as vp_check, where never being evaluated is fine
void vp_near(double a, double b, double tol, const char* label); // |a-b| <= tol
void vp_reach(const char* label);                         // reachability witness
unsigned vp_pick(unsigned n, const char* name);           // any of 0..n-1, one path each
uint64_t vp_sel(bool c, uint64_t a, uint64_t b);          // c ? a : b without a path split
bool vp_and(bool a, bool b); bool vp_or(bool a, bool b);  // without a path split
uint64_t vp_conc(uint64_t v);                             // fork over the feasible values of v
void* vp_alloc(size_t n, size_t align);                   // n uninitialised bytes, bounds-checked
void* vp_phantom();                                       // huge object, addresses only
void vp_retire(void* p);                                  // accesses from now on are errors
unsigned vp_heap_count();                                 // heap allocations so far
}
template <typename V> V sel(bool c, V a, V b) { return (V)vp_sel(c, (uint64_t)a, (uint64_t)b); }
#ifdef VP_REPLAY_ENTRY // native replay: only the entry called by the generated wrapper is compiled to code
#define VP_ENTRY static __attribute__((unused)) void
#else
#define VP_ENTRY extern "C" void
#endif
template <typename T> struct vp_any_;
template <> struct vp_any_<uint8_t> { static uint8_t get(const char* n) { return vp_u8(n); } };
template <> struct vp_any_<uint16_t> { static uint16_t get(const char* n) { return vp_u16(n); } };
template <> struct vp_any_<uint32_t> { static uint32_t get(const char* n) { return vp_u32(n); } };
template <> struct vp_any_<uint64_t> { static uint64_t get(const char* n) { return vp_u64(n); } };
template <> struct vp_any_<int8_t> { static int8_t get(const char* n) { return (int8_t)vp_u8(n); } };
template <> struct vp_any_<int16_t> { static int16_t get(const char* n) { return (int16_t)vp_u16(n); } };
template <> struct vp_any_<int32_t> { static int32_t get(const char* n) { return (int32_t)vp_u32(n); } };
template <> struct vp_any_<int64_t> { static int64_t get(const char* n) { return (int64_t)vp_u64(n); } };
template <typename T> T vp_any(const char* n) { return vp_any_<T>::get(n); }

// Specification primitives. The same text is read by the verifier (symbolic meaning, fv/contracts.py) and, with
// FV_NATIVE, compiled with the real code into an executable contract checker that replays concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

#ifdef FV_NATIVE
#include "fv_native.h"
#else
extern "C" {
void fv_assume(bool);
void fv_assert(bool, char const*);
void fv_cover(char const*);
bool fv_any_b(char const*);
uint8_t fv_any_u8(char const*);   int8_t fv_any_i8(char const*);
uint16_t fv_any_u16(char const*); int16_t fv_any_i16(char const*);
uint32_t fv_any_u32(char const*); int32_t fv_any_i32(char const*);
uint64_t fv_any_u64(char const*); int64_t fv_any_i64(char const*);
float fv_any_f32(char const*);    double fv_any_f64(char const*);
uint64_t fv_index_(char const*, uint64_t n);
void fv_term(uint64_t);
void* fv_array_(char const*, uint64_t n, uint64_t elem);
void* fv_snapshot_(void const*);
void fv_readonly_(void const*);
void fv_inv_(void*, void const*, int32_t);
void fv_footprint_(void*, void const*);
void fv_phi_(void*, void const*, int32_t);
void fv_axiom_(void*, void const*, int32_t, char const*);
}
#define FV_PURE0(R, name) extern "C" R name();
#define FV_PURE1(R, name, A) extern "C" R name(A);
#define FV_PURE2(R, name, A, B) extern "C" R name(A, B);
#define FV_PURE3(R, name, A, B, C) extern "C" R name(A, B, C);
#define FV_PURE4(R, name, A, B, C, D) extern "C" R name(A, B, C, D);
// for every k < n: one arbitrary k stands for all
#define FV_FORALL(k, n) if(uint64_t k = fv_index_(#k, (n)); true)
#define FV_CHECK(name) extern "C" void fv_check_##name()
namespace fv { inline bool const native = false; }
#define fv_small(n) ((void)(n))
#endif

namespace fv {
inline void any_(char const* n, bool& v) { v = fv_any_b(n); }
inline void any_(char const* n, uint8_t& v) { v = fv_any_u8(n); }
inline void any_(char const* n, int8_t& v) { v = fv_any_i8(n); }
inline void any_(char const* n, uint16_t& v) { v = fv_any_u16(n); }
inline void any_(char const* n, int16_t& v) { v = fv_any_i16(n); }
inline void any_(char const* n, uint32_t& v) { v = fv_any_u32(n); }
inline void any_(char const* n, int32_t& v) { v = fv_any_i32(n); }
inline void any_(char const* n, uint64_t& v) { v = fv_any_u64(n); }
inline void any_(char const* n, int64_t& v) { v = fv_any_i64(n); }
inline void any_(char const* n, float& v) { v = fv_any_f32(n); }
inline void any_(char const* n, double& v) { v = fv_any_f64(n); }
// identity of values (bitwise for floating point: NaN is itself)
template<class T> inline bool same(T const& a, T const& b) { return a == b; }
#ifdef FV_NATIVE
inline bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
inline bool same(float a, float b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
#else
extern "C" bool fv_same_f64(double, double);
extern "C" bool fv_same_f32(float, float);
inline bool same(double a, double b) { return fv_same_f64(a, b); }
inline bool same(float a, float b) { return fv_same_f32(a, b); }
#endif
template<class T> inline T any(char const* name) { T v; any_(name, v); return v; }
template<class T> inline T* array(char const* name, uint64_t n)
{
    T* p = static_cast<T*>(fv_array_(name, n, sizeof(T)));
#ifdef FV_NATIVE
    for(uint64_t i = 0; i < n; ++i) { p[i] = fvn::draw<T>(); fvn::S().log += std::string(name) + "[" + std::to_string(i) + "]=" + fvn::show(p[i]) + " "; }
#endif
    return p;
}
template<class T> inline T const* snapshot(T const* p) { return static_cast<T const*>(fv_snapshot_(p)); }
template<class T> inline void readonly(T const* p) { fv_readonly_(p); }
// loop-invariant templates: the verifier instantiates the trailing arguments with loop variables and keeps what it proves
template<class C> inline void inv(bool (*f)(C const*, uint64_t), C const* c) { fv_inv_(reinterpret_cast<void*>(f), c, 0); }
template<class C> inline void inv(bool (*f)(C const*, uint64_t, uint64_t), C const* c) { fv_inv_(reinterpret_cast<void*>(f), c, 1); }
template<class C> inline void inv(bool (*f)(C const*, uint64_t, uint64_t, uint64_t), C const* c) { fv_inv_(reinterpret_cast<void*>(f), c, 2); }
template<class C> inline void inv(bool (*f)(C const*, uint64_t, uint64_t, uint64_t, uint64_t), C const* c) { fv_inv_(reinterpret_cast<void*>(f), c, 3); }
// loop-carried value templates: loop variable == f(c, progress...)
template<class R, class C> inline void phi(R (*f)(C const*), C const* c) { fv_phi_(reinterpret_cast<void*>(f), c, 0); }
template<class R, class C> inline void phi(R (*f)(C const*, uint64_t), C const* c) { fv_phi_(reinterpret_cast<void*>(f), c, 1); }
template<class R, class C> inline void phi(R (*f)(C const*, uint64_t, uint64_t), C const* c) { fv_phi_(reinterpret_cast<void*>(f), c, 2); }
template<class R, class C> inline void phi(R (*f)(C const*, uint64_t, uint64_t, uint64_t), C const* c) { fv_phi_(reinterpret_cast<void*>(f), c, 3); }
// precondition on all elements
template<class C> inline void requires_all(bool (*f)(C const*, uint64_t), C const* c, uint64_t n)
{
#ifdef FV_NATIVE
    for(uint64_t k = 0; k < n; ++k) fv_assume(f(c, k));
#else
    fv_axiom_(reinterpret_cast<void*>(f), c, 1, "");
#endif
}
// axioms over the uninterpreted functions: instantiated for the arguments of `trigger` (first) and all index terms
template<class C> inline void axiom(bool (*f)(C const*, uint64_t), C const* c, char const* trigger) { fv_axiom_(reinterpret_cast<void*>(f), c, 1, trigger); }
template<class C> inline void axiom(bool (*f)(C const*, uint64_t, uint64_t), C const* c, char const* trigger) { fv_axiom_(reinterpret_cast<void*>(f), c, 2, trigger); }
}

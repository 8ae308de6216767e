// cast: the C++ conversion of the element; never marked, and exact for the integral and boolean conversions the policy accepts.
#include "elementwise.h"
#include "fern/algorithm/core/cast.h"
namespace {
template<class A, class R> void check()
{
    A a = fv::any<A>("a"); R r = fv::any<R>("r"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e; IP1 ip{{}};
    core::cast<cast::OutOfRangePolicy>(ip, o, e, a, r);
    if constexpr(std::is_floating_point<A>::value) fv_assert(fv::same(r, R(a)), "the value is kept");
    else fv_assert(A(r) == a && (a < A(0)) == (r < R(0)), "the value is kept");
    fv_assert(m == 0, "never marked");
}
// without range check: the C++ conversion
template<class A, class R> void check_any()
{
    A a = fv::any<A>("a"); R r = fv::any<R>("r"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e;
    if constexpr(std::is_floating_point<A>::value && !std::is_floating_point<R>::value && !std::is_same<R, bool>::value)
        fv_assume(std::is_signed<R>::value ? a > A(-128) && a < A(127) : a > A(-1) && a < A(127));
    core::cast(e, a, r);
    fv_assert(fv::same(r, static_cast<R>(a)), "the result is the converted value");
}
using t_b = bool;
}
#define CAST(A, R) FV_CHECK(cast_##A##_##R) { check<t_##A, t_##R>(); }
CAST(b, b) CAST(b, u8) CAST(b, u16) CAST(b, u32) CAST(b, u64) CAST(b, i8) CAST(b, i16) CAST(b, i32) CAST(b, i64) CAST(b, f32) CAST(b, f64)
CAST(u8, u8) CAST(u8, u16) CAST(u8, u32) CAST(u8, u64) CAST(u16, u16) CAST(u16, u32) CAST(u16, u64) CAST(u32, u32) CAST(u32, u64) CAST(u64, u64)
CAST(i8, i8) CAST(i8, i16) CAST(i8, i32) CAST(i8, i64) CAST(i16, i16) CAST(i16, i32) CAST(i16, i64) CAST(i32, i32) CAST(i32, i64) CAST(i64, i64)
CAST(f32, f32) CAST(f64, f64)
#define CASTANY(A, R) CHECK_(NAME(convert, A, R)) { check_any<t_##A, t_##R>(); }
ALLPAIRS(CASTANY)

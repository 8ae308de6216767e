// absolute and factorial of integers: exact, or marked.
#include "elementwise.h"
#include "fern/algorithm/algebra.h"
namespace {
template<class T> void check_absolute()
{
    T v = fv::any<T>("v"), r = fv::any<T>("r"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e; IP1 ip{{}};
    algebra::absolute<absolute::OutOfRangePolicy>(ip, o, e, v, r);
    bool fits = !(std::is_signed<T>::value && v == std::numeric_limits<T>::min());
    fv_assert((m != 0) == !fits, "marked exactly when the absolute value does not fit");
    if(fits) fv_assert(r == (v < 0 ? static_cast<T>(0 - v) : v), "the result is the absolute value");
}
// n! for n <= 20, what 64 bits can hold
inline uint64_t fac(uint64_t n)
{
    return n <= 1 ? 1u : n == 2 ? 2u : n == 3 ? 6u : n == 4 ? 24u : n == 5 ? 120u : n == 6 ? 720u : n == 7 ? 5040u : n == 8 ? 40320u :
        n == 9 ? 362880u : n == 10 ? 3628800u : n == 11 ? 39916800u : n == 12 ? 479001600u : n == 13 ? 6227020800u : n == 14 ? 87178291200u :
        n == 15 ? 1307674368000u : n == 16 ? 20922789888000u : n == 17 ? 355687428096000u : n == 18 ? 6402373705728000u :
        n == 19 ? 121645100408832000u : 2432902008176640000u;
}
// n = 0 .. 20 one by one (what 64 bits can hold), then everything above
template<class T, int n> void factorial_of()
{
    if constexpr(uint64_t(n) <= uint64_t(std::numeric_limits<T>::max())) {
        T v = n, r = fv::any<T>("r"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e; IP1 ip{{}};
        algebra::factorial<factorial::OutOfDomainPolicy, factorial::OutOfRangePolicy>(ip, o, e, v, r);
        bool fits = fac(n) <= uint64_t(std::numeric_limits<T>::max());
        fv_assert((m != 0) == !fits, "marked exactly when the factorial does not fit");
        if(fits) fv_assert(uint64_t(r) == fac(n), "the result is the factorial");
    }
    if constexpr(n < 20) factorial_of<T, n + 1>();
}
template<class T> void check_factorial()
{
    T v = fv::any<T>("v"), r = fv::any<T>("r"), r0 = r; uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e; IP1 ip{{}};
    fv_assume(v < 0 || v > 20);
    algebra::factorial<factorial::OutOfDomainPolicy, factorial::OutOfRangePolicy>(ip, o, e, v, r);
    fv_assert(m != 0, "negative, or too large to fit: marked");
    if(v < 0) fv_assert(r == r0, "outside the domain: not written");
}
}
#define ONE(T) FV_CHECK(absolute_##T) { check_absolute<t_##T>(); } FV_CHECK(factorial_##T) { check_factorial<t_##T>(); } FV_CHECK(factorial_small_##T) { factorial_of<t_##T, 0>(); }
ONE(u8) ONE(u16) ONE(u32) ONE(u64) ONE(i8) ONE(i16) ONE(i32) ONE(i64)

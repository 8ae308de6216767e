// The mathematical functions on one floating point value: out of the domain the element is marked and not written, otherwise
// it holds the function's value, and it is marked exactly when that value is out of range.
#include "elementwise.h"
#define FV_COMMA ,
#include "fern/algorithm/algebra.h"
#include "fern/algorithm/trigonometry.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/acos.h"

namespace {
// DOM: the documented domain;  VAL: the value (the same function of the math library);  RNG: the documented range
#define FV_UNARY(NS, name, TARGS, DOM, VAL, RNG) \
template<class T> void check_##name() { \
    T v = fv::any<T>("v"), r = fv::any<T>("r"), r0 = r; uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e; IP1 ip{{}}; \
    NS::name TARGS(ip, o, e, v, r); \
    if(!(DOM)) fv_assert((m != 0) & fv::same(r, r0), "outside the domain: marked and not written"); \
    else { \
        T x = VAL; \
        fv_assert(fv::same(r, x), "the result is the function's value"); \
        fv_assert((m != 0) == !(RNG), "inside the domain: marked exactly when the value is out of range"); } } \
FV_CHECK(name##_f32) { check_##name<float>(); } FV_CHECK(name##_f64) { check_##name<double>(); }

FV_UNARY(algebra, sqrt, <sqrt::OutOfDomainPolicy>, v >= T(0), std::sqrt(v), true)
FV_UNARY(algebra, log, <log::OutOfDomainPolicy>, v >= T(0), std::log(v), true)
FV_UNARY(algebra, log2, <log2::OutOfDomainPolicy>, v >= T(0), std::log2(v), true)
FV_UNARY(algebra, log10, <log10::OutOfDomainPolicy>, v >= T(0), std::log10(v), true)
FV_UNARY(algebra, round, , true, std::round(v), true)
FV_UNARY(algebra, ceil, , true, std::ceil(v), true)
FV_UNARY(algebra, floor, , true, std::floor(v), true)
FV_UNARY(algebra, trunc, , true, std::trunc(v), true)
FV_UNARY(algebra, absolute, <absolute::OutOfRangePolicy>, true, std::fabs(v), true)
FV_UNARY(trigonometry, sin, <sin::OutOfDomainPolicy>, std::isfinite(v), std::sin(v), true)
FV_UNARY(trigonometry, cos, <cos::OutOfDomainPolicy>, std::isfinite(v), std::cos(v), true)
// finite and not an odd multiple of pi/2
FV_UNARY(trigonometry, tan, <tan::OutOfDomainPolicy>,
    std::isfinite(v) && (std::remainder(v, fern::half_pi<T>()) != T(0) || std::fmod(v / fern::half_pi<T>(), T(2)) == T(0)), std::tan(v), true)
FV_UNARY(trigonometry, asin, <asin::OutOfDomainPolicy>, (v >= T(-1)) & (v <= T(1)), std::asin(v), true)
FV_UNARY(trigonometry, acos, <acos::OutOfDomainPolicy>, (v >= T(-1)) & (v <= T(1)), std::acos(v), true)
FV_UNARY(trigonometry, atan, , true, std::atan(v), true)
// gamma: negative integers are poles
FV_UNARY(algebra, tgamma, <tgamma::OutOfDomainPolicy FV_COMMA tgamma::OutOfRangePolicy>, (v >= T(0)) || std::trunc(v) != v, std::tgamma(v), std::isfinite(x))
// factorial of a floating point value: the rounded value of gamma(v + 1)
FV_UNARY(algebra, factorial, <factorial::OutOfDomainPolicy FV_COMMA factorial::OutOfRangePolicy>, (v >= T(0)) && std::trunc(v) == v, std::round(std::tgamma(v + T(1))), std::isfinite(x))

template<class T> void check_pow()
{
    T a = fv::any<T>("a"), b = fv::any<T>("b"), r = fv::any<T>("r"), r0 = r; uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e; IP2 ip{{}, {}};
    algebra::pow<pow::OutOfDomainPolicy, pow::OutOfRangePolicy>(ip, o, e, a, b, r);
    bool integral = std::trunc(b) == b;
    bool dom = a < T(0) ? integral : a == T(0) ? !(b < T(0)) : true;
    if(!dom) fv_assert((m != 0) & fv::same(r, r0), "outside the domain: marked and not written");
    else {
        T x = std::pow(a, b);
        fv_assert(fv::same(r, x), "the result is the function's value");
        fv_assert((m != 0) == !std::isfinite(x), "inside the domain: marked exactly when the value is out of range");
    }
}
}
FV_CHECK(pow_f32) { check_pow<float>(); }
FV_CHECK(pow_f64) { check_pow<double>(); }

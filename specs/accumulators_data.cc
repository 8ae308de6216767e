// The accumulators that keep the values (bounded: generated inputs): median, mode, variance, standard deviation; and the range of floating points.
#include "elementwise.h"
#include <algorithm>
#include <cmath>
#include <vector>
#include "fern/algorithm/accumulator/median.h"
#include "fern/algorithm/accumulator/mode.h"
#include "fern/algorithm/accumulator/variance.h"
#include "fern/algorithm/accumulator/standard_deviation.h"
#include "fern/algorithm/accumulator/range.h"
namespace acc = fern::algorithm::accumulator;
namespace {
// values given one by one to two accumulators that are then merged (the second one may be empty)
template<class A> std::vector<A> values(char const* name, bool some)
{
    uint64_t n = fv::any<uint8_t>(name) % 7 + some;
    bool small = !std::is_integral<A>::value || fv::any<bool>("small");
    std::vector<A> v; for(uint64_t i = 0; i < n; ++i) { A x = small ? static_cast<A>(fv::any<uint8_t>("x") % 9) : fv::any<A>("v"); v.push_back(x); }
    return v;
}
template<template<class, class> class X, class A, class R, class Law> void check(Law const& law)
{
    std::vector<A> a = values<A>("n", true), b = values<A>("m", false), ab(a); ab.insert(ab.end(), b.begin(), b.end());
    using Acc = X<A, R>;
    Acc x(a[0]); for(uint64_t i = 1; i < a.size(); ++i) x(a[i]);
    fv_assert(law(a, x()), "the statistic of the values that were added");
    Acc y; for(A const& v: b) y(v);
    if(!b.empty()) fv_assert(law(b, y()), "the statistic of the values that were added to an empty accumulator");
    Acc z = x | y;
    fv_assert(law(ab, z()), "merged: the statistic of the values of both");
    fv_assert(law(a, x()), "merging leaves the originals as they are");
    x |= y;
    fv_assert(law(ab, x()), "merged in place: the statistic of the values of both");
    x(a[0]); ab.push_back(a[0]);
    fv_assert(law(ab, x()), "values can be added after merging");
    x = a.back();
    fv_assert(law(std::vector<A>{a.back()}, x()), "assigned: the statistic of the one value");
}
template<class A, class R> void check_median()
{
    check<acc::Median, A, R>([](std::vector<A> v, R r) {
        std::sort(v.begin(), v.end()); uint64_t n = v.size();
        if(n % 2) return r == static_cast<R>(v[n / 2]);
        if constexpr(std::is_integral<A>::value && std::is_integral<R>::value) return __int128(r) == (__int128(v[n / 2 - 1]) + __int128(v[n / 2])) / 2;
        else return r == (static_cast<R>(v[n / 2 - 1]) + static_cast<R>(v[n / 2])) / 2; });
}
template<class A, class R> void check_mode()
{
    check<acc::Mode, A, R>([](std::vector<A> const& v, R r) {
        auto count = [&](A x) { return std::count(v.begin(), v.end(), x); };
        auto c = count(static_cast<A>(r));
        for(A const& x: v) if(count(x) > c) return false;
        return c > 0; });
}
// population variance, for values whose squares are far from overflow
template<template<class, class> class X, class A, class R> void check_spread(bool root)
{
    check<X, A, R>([root](std::vector<A> const& v, R r) {
        long double m = 0, s = 0; for(A const& x: v) m += x; m /= v.size();
        for(A const& x: v) s += (x - m)*(x - m); s /= v.size();
        if(root) s = std::sqrt(s);
        return std::fabs(s - r) <= 1e-3L * (1 + s); });
}
template<class A> void check_range()
{
    check<acc::Range, A, A>([](std::vector<A> const& v, A r) { return r == *std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end()); });
}
}
#define ONE(what, A, R) FV_CHECK(what##_##A##_##R) { check_##what<t_##A, t_##R>(); }
#define INTS1(X) X(u8) X(u16) X(u32) X(u64) X(i8) X(i16) X(i32) X(i64)
#define MEDIAN(A) ONE(median, A, A)
#define MODE(A) ONE(mode, A, A)
INTS1(MEDIAN) ONE(median, i32, f64) ONE(median, f32, f32) ONE(median, f64, f64)
INTS1(MODE) ONE(mode, f64, f64)
FV_CHECK(variance_f64) { check_spread<acc::Variance, double, double>(false); } FV_CHECK(variance_f32) { check_spread<acc::Variance, float, float>(false); }
FV_CHECK(variance_u8_f64) { check_spread<acc::Variance, uint8_t, double>(false); }
FV_CHECK(deviation_f64) { check_spread<acc::StandardDeviation, double, double>(true); } FV_CHECK(deviation_f32) { check_spread<acc::StandardDeviation, float, float>(true); }
FV_CHECK(range_f32) { check_range<float>(); } FV_CHECK(range_f64) { check_range<double>(); }

// The accumulators: what their state becomes when constructed, assigned, given a value, merged, and what they report.
// The state is put in by memory (Sum, Count, Mean) or by the public operations (Min, Max, Range), so names of members do not matter.
#include "elementwise.h"
#include <cstring>
#include <cmath>
#include "fern/algorithm/accumulator/sum.h"
#include "fern/algorithm/accumulator/count.h"
#include "fern/algorithm/accumulator/mean.h"
#include "fern/algorithm/accumulator/min.h"
#include "fern/algorithm/accumulator/max.h"
#include "fern/algorithm/accumulator/range.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/mean.h"
namespace acc = fern::algorithm::accumulator;
namespace {
using wide = __int128;
template<class R> bool fits(wide const& x) { return (x >= wide(std::numeric_limits<R>::min())) & (x <= wide(std::numeric_limits<R>::max())); }
template<class X, class S> X from(S const& s) { static_assert(sizeof(X) == sizeof(S), "the state"); X x; std::memcpy(static_cast<void*>(&x), &s, sizeof s); return x; }
// s + v in R, modulo 2^n for integers
template<class R, class T> R sum_of(R s, T v)
{
    if constexpr(std::is_integral<R>::value) return static_cast<R>(static_cast<uint64_t>(s) + static_cast<uint64_t>(static_cast<R>(v)));
    else return static_cast<R>(s + v);
}
template<class R, class T> bool sum_fits(R s, T v)
{
    if constexpr(std::is_integral<R>::value) return fits<R>(wide(s) + wide(v));
    else return std::isfinite(static_cast<R>(s + v));
}
template<class A, class R> void check_sum()
{
    using X = acc::Sum<A, R>;
    A v = fv::any<A>("v"); R s = fv::any<R>("s"), t = fv::any<R>("t");
    fv_assert(X()() == R(0), "the sum of nothing is zero");
    fv_assert(fv::same(X(v)(), R(v)), "constructed: the value");
    X x = from<X>(s); x = v;
    fv_assert(fv::same(x(), R(v)), "assigned: the value");
    x = from<X>(s); x(v);
    fv_assert(fv::same(x(), sum_of(s, v)), "a value is added");
    x = from<X>(s);
    bool ok = x.template operator()<sum::OutOfRangePolicy>(v);
    fv_assert(fv::same(x(), sum_of(s, v)), "a value is added (with range check)");
    fv_assert(ok == sum_fits(s, v), "out of range exactly when the sum does not fit");
    x = from<X>(s); X y = from<X>(t); x |= y;
    fv_assert(fv::same(x(), sum_of(s, t)) && fv::same(y(), t), "the other sum is added");
    fv_assert(fv::same((from<X>(s) | y)(), sum_of(s, t)), "merged: the sum of both");
    x = from<X>(s);
    ok = x.template operator|=<sum::OutOfRangePolicy>(y);
    fv_assert(fv::same(x(), sum_of(s, t)) && fv::same(y(), t), "the other sum is added (with range check)");
    fv_assert(ok == sum_fits(s, t), "out of range exactly when the sum of both does not fit");
}
template<class A, class R> void check_count()
{
    using X = acc::Count<A, R>;
    A v = fv::any<A>("v"); R s = fv::any<R>("s"), t = fv::any<R>("t");
    fv_assert(X()() == R(0), "the count of nothing is zero");
    fv_assert(X(v)() == R(1), "constructed: one");
    X x = from<X>(s); x = v;
    fv_assert(x() == R(1), "assigned: one");
    x = from<X>(s); x(v);
    fv_assert(x() == sum_of(s, 1), "one is added");
    x = from<X>(s); X y = from<X>(t); x |= y;
    fv_assert(x() == sum_of(s, t) && y() == t, "the other count is added");
    fv_assert((from<X>(s) | y)() == sum_of(s, t), "merged: the sum of both");
    x = from<X>(s);
    bool ok = x.template operator|=<sum::OutOfRangePolicy>(y);
    fv_assert(x() == sum_of(s, t) && ok == sum_fits(s, t), "the other count is added, out of range exactly when it does not fit");
    if constexpr(std::is_integral<A>::value && std::is_signed<A>::value == std::is_signed<R>::value && sizeof(A) <= sizeof(R)) {
        x = from<X>(s);
        ok = x.template operator()<sum::OutOfRangePolicy>(v);
        fv_assert(x() == sum_of(s, 1) && ok == sum_fits(s, 1), "one is added, out of range exactly when it does not fit");
    }
}
template<class R> struct MeanState { R sum; size_t count; };
// the sum divided by the count, in R (n > 0)
template<class R> R mean_of(R s, size_t n)
{
    if constexpr(!std::is_integral<R>::value) return s / static_cast<R>(n);
    else if constexpr(std::is_signed<R>::value) return static_cast<R>(static_cast<int64_t>(s) / static_cast<int64_t>(n));
    else return static_cast<R>(static_cast<uint64_t>(s) / n);
}
template<class A, class R> void check_mean()
{
    using X = acc::Mean<A, R>; using S = MeanState<R>;
    A v = fv::any<A>("v"); S s, t; s.sum = fv::any<R>("s"); t.sum = fv::any<R>("t"); s.count = fv::any<uint64_t>("n"); t.count = fv::any<uint64_t>("m");
    fv_assume(s.count > 0 && s.count < (uint64_t(1) << 40) && t.count > 0 && t.count < (uint64_t(1) << 40));
    fv_assert(fv::same(X(v)(), mean_of(R(v), 1)), "constructed: the value");
    fv_assert(fv::same(from<X>(s)(), mean_of(s.sum, s.count)), "the mean is the sum divided by the count");
    X x = from<X>(s); x = v;
    fv_assert(fv::same(x(), mean_of(R(v), 1)), "assigned: the value");
    x = from<X>(s); x(v);
    fv_assert(fv::same(x(), mean_of(sum_of(s.sum, v), s.count + 1)), "a value is added");
    x = from<X>(s);
    bool ok = x.template operator()<mean::OutOfRangePolicy>(v);
    fv_assert(fv::same(x(), mean_of(sum_of(s.sum, v), s.count + 1)) && ok == sum_fits(s.sum, v), "a value is added, out of range exactly when the sum does not fit");
    x = from<X>(s); X y = from<X>(t); x |= y;
    fv_assert(fv::same(x(), mean_of(sum_of(s.sum, t.sum), s.count + t.count)), "the mean of both");
    fv_assert(fv::same((from<X>(s) | y)(), mean_of(sum_of(s.sum, t.sum), s.count + t.count)), "merged: the mean of both");
    x = from<X>(s);
    ok = x.template operator|=<mean::OutOfRangePolicy>(y);
    fv_assert(fv::same(x(), mean_of(sum_of(s.sum, t.sum), s.count + t.count)) && ok == sum_fits(s.sum, t.sum), "the mean of both, out of range exactly when the sum does not fit");
}
template<class A, class R> void check_extremes()
{
    A v = fv::any<A>("v"), w = fv::any<A>("w"), u = fv::any<A>("u");
    fv_assume(v == v && w == w && u == u);
    using L = acc::Min<A, R>; using H = acc::Max<A, R>;
    fv_assert(L(v)() == R(v) && H(v)() == R(v), "constructed: the value");
    L l; H h; bool finite = true;
    if constexpr(!std::is_integral<A>::value) finite = std::isfinite(v);
    l(v); h(v);
    if(finite) fv_assert(l() == R(v) && h() == R(v), "a value is given to an empty accumulator");
    l = w; h = w;
    fv_assert(l() == R(w) && h() == R(w), "assigned: the value");
    l(v); h(v);
    A lo = v < w ? v : w, hi = v < w ? w : v;
    fv_assert(l() == R(lo) && h() == R(hi), "the smallest, largest of both values");
    L l2(u); H h2(u); L lm = l2 | l; H hm = h2 | h;
    l2 |= l; h2 |= h;
    lo = u < lo ? u : lo; hi = u < hi ? hi : u;
    fv_assert(l2() == R(lo) && h2() == R(hi) && lm() == R(lo) && hm() == R(hi), "merged: the smallest, largest of both");
}
template<class A, class R> void check_range()
{
    A v = fv::any<A>("v"), w = fv::any<A>("w"), u = fv::any<A>("u");
    fv_assume(v == v && w == w && u == u);
    A lo = v < w ? v : w, hi = v < w ? w : v, lo3 = u < lo ? u : lo, hi3 = u < hi ? hi : u;
    // which of two equal zeros is the smallest is not said
    fv_assume((v != w || fv::same(v, w)) && (v != u || fv::same(v, u)) && (w != u || fv::same(w, u)));
    // the range fits its type
    if constexpr(std::is_integral<A>::value) fv_assume(fits<R>(wide(hi3) - wide(lo3)));
    using X = acc::Range<A, R>;
    X x(v);
    fv_assert(fv::same(x(), R(R(v) - R(v))), "constructed: no range");
    x = w;
    fv_assert(fv::same(x(), R(R(w) - R(w))), "assigned: no range");
    x(v);
    fv_assert(fv::same(x(), R(R(hi) - R(lo))), "the largest minus the smallest value");
    X y(u); X z = y | x; y |= x;
    fv_assert(fv::same(y(), R(R(hi3) - R(lo3))) && fv::same(z(), R(R(hi3) - R(lo3))), "merged: the largest minus the smallest of both");
}
}
#define SUM(A, R) FV_CHECK(sum_##A##_##R) { check_sum<t_##A, t_##R>(); }
#define MEAN(A, R) FV_CHECK(mean_##A##_##R) { check_mean<t_##A, t_##R>(); }
#define COUNT(A, R) FV_CHECK(count_##A##_##R) { check_count<t_##A, t_##R>(); }
#define EXTREME(A, R) FV_CHECK(extremes_##A##_##R) { check_extremes<t_##A, t_##R>(); }
#define EXTREMES(A, R) EXTREME(A, R) FV_CHECK(range_##A##_##R) { check_range<t_##A, t_##R>(); }
#define SAME(X) X(u8, u8) X(u16, u16) X(u32, u32) X(u64, u64) X(i8, i8) X(i16, i16) X(i32, i32) X(i64, i64)
#define WIDER(X) X(u8, u64) X(u16, u32) X(u32, u64) X(i8, i64) X(i16, i32) X(i32, i64)
SAME(SUM) WIDER(SUM) SUM(f32, f32) SUM(f64, f64) SUM(f32, f64)
SAME(MEAN) WIDER(MEAN) MEAN(f32, f32) MEAN(f64, f64) MEAN(f32, f64)
SAME(COUNT) WIDER(COUNT) COUNT(f64, u64) COUNT(f32, i32) COUNT(i32, u8)
SAME(EXTREMES) WIDER(EXTREMES) EXTREME(f32, f32) EXTREME(f64, f64) EXTREME(f32, f64)

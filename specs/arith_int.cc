// add, subtract, multiply, divide of integers: the element is marked exactly when the mathematical result does not fit,
// and holds the mathematical result otherwise.  -DOP=add|subtract|multiply|divide
#include "parallel.h"
#include "policies.h"
#include "scalars.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
using namespace fern; using namespace fern::algorithm;

namespace {
using wide = __int128; using uwide = unsigned __int128;
template<class R> bool fits(wide const& x) { return (x >= wide(std::numeric_limits<R>::min())) & (x <= wide(std::numeric_limits<R>::max())); }
struct Op_add {
    static bool in_domain(wide const&, wide const&) { return true; }
    template<class R, class A, class B> static bool exact(A a, B b, R r) { return wide(a) + wide(b) == wide(r); }
    template<class R, class A, class B> static bool fit(A a, B b) { return fits<R>(wide(a) + wide(b)); }
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r)
    { algebra::add<add::OutOfRangePolicy>(InputNoDataPolicies<SkipNoData, SkipNoData>{{}, {}}, o, e, a, b, r); }
};
struct Op_subtract {
    static bool in_domain(wide const&, wide const&) { return true; }
    template<class R, class A, class B> static bool exact(A a, B b, R r) { return wide(a) - wide(b) == wide(r); }
    template<class R, class A, class B> static bool fit(A a, B b) { return fits<R>(wide(a) - wide(b)); }
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r)
    { algebra::subtract<subtract::OutOfRangePolicy>(InputNoDataPolicies<SkipNoData, SkipNoData>{{}, {}}, o, e, a, b, r); }
};
// both in 65 bits: the product needs 128 bits, unsigned only when both are 64 bits unsigned
template<class R, class A, class B> bool product_fits(A a, B b)
{
    if constexpr (std::is_unsigned<A>::value && std::is_unsigned<B>::value) return uwide(a) * uwide(b) <= uwide(std::numeric_limits<R>::max());
    else return fits<R>(wide(a) * wide(b));
}
struct Op_multiply {
    static bool in_domain(wide const&, wide const&) { return true; }
    template<class R, class A, class B> static bool exact(A a, B b, R r) { return uwide(wide(a)) * uwide(wide(b)) == uwide(wide(r)); }
    template<class R, class A, class B> static bool fit(A a, B b) { return product_fits<R>(a, b); }
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r)
    { algebra::multiply<multiply::OutOfRangePolicy>(InputNoDataPolicies<SkipNoData, SkipNoData>{{}, {}}, o, e, a, b, r); }
};
struct Op_divide {
    static bool in_domain(wide const&, wide const& b) { return b != 0; }
    // quotient truncated towards zero; only min / -1 does not fit
    template<class R, class A, class B> static bool exact(A a, B b, R r) { return r == static_cast<R>(static_cast<R>(a) / static_cast<R>(b)); }
    template<class R, class A, class B> static bool fit(A a, B b)
    { return !(std::is_signed<R>::value && wide(a) == wide(std::numeric_limits<R>::min()) && wide(b) == -1); }
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r)
    { algebra::divide<divide::OutOfDomainPolicy, divide::OutOfRangePolicy>(InputNoDataPolicies<SkipNoData, SkipNoData>{{}, {}}, o, e, a, b, r); }
};
template<class Op, class A, class B> void check()
{
    using R = fern::algorithm::result_type<A, B>;
    A a = fv::any<A>("a"); B b = fv::any<B>("b"); R r = fv::any<R>("r"), r0 = r;
    uint8_t m = 0;
    fv::Out o{&m};
    SequentialExecutionPolicy e;
    Op::run(o, e, a, b, r);
    fv_assert(m == 0 || r == r0 || Op::in_domain(a, b), "an element outside the domain is not written");
    if(!Op::in_domain(a, b)) fv_assert(m != 0, "outside the domain: marked");
    else {
        // the result type of an unsigned 64 bit and a signed argument cannot hold the unsigned argument: nothing is promised then
        if(fits<R>(a) & fits<R>(b)) {
            bool fit = Op::template fit<R>(a, b);
            fv_assert((m != 0) == !fit, "marked exactly when the result does not fit");
            if(fit) fv_assert(Op::exact(a, b, r), "the result is exact");
        }
    }
}
}
#define CAT(a, b) a##b
#define XCAT(a, b) CAT(a, b)
#define NAME_(op, A, B) op##_##A##_##B
#define NAME(op, A, B) NAME_(op, A, B)
#define ONE(A, B) extern "C" void XCAT(fv_check_, NAME(OP, A, B))() { check<XCAT(Op_, OP), t_##A, t_##B>(); }
#ifdef FV_NATIVE
#undef ONE
#define ONE(A, B) FV_CHECK_(NAME(OP, A, B)) { check<XCAT(Op_, OP), t_##A, t_##B>(); }
#define FV_CHECK_(n) FV_CHECK(n)
#endif
#define ROW(A) ONE(A, u8) ONE(A, u16) ONE(A, u32) ONE(A, u64) ONE(A, i8) ONE(A, i16) ONE(A, i32) ONE(A, i64)
ROW(u8) ROW(u16) ROW(u32) ROW(u64) ROW(i8) ROW(i16) ROW(i32) ROW(i64)

// add, subtract, multiply, divide with a floating point argument (float/float, integer/float, float/integer): the element
// is marked exactly when the result is not finite, and holds the correctly rounded result.  -DOP=add|subtract|multiply|divide
#include "parallel.h"
#include "policies.h"
#include "scalars.h"
#include "fern/algorithm/algebra/elementary/add.h"
#include "fern/algorithm/algebra/elementary/subtract.h"
#include "fern/algorithm/algebra/elementary/multiply.h"
#include "fern/algorithm/algebra/elementary/divide.h"
using namespace fern; using namespace fern::algorithm;

namespace {
using IP = InputNoDataPolicies<SkipNoData, SkipNoData>;
#define FV_OP(name, op, POL, DOM) struct Op_##name { \
    template<class R> static R value(R a, R b) { return a op b; } \
    template<class B> static bool in_domain(B b) { return DOM; } \
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r) \
    { algebra::name<POL>(IP{{}, {}}, o, e, a, b, r); } };
FV_OP(add, +, add::OutOfRangePolicy, true)
FV_OP(subtract, -, subtract::OutOfRangePolicy, true)
FV_OP(multiply, *, multiply::OutOfRangePolicy, true)
#undef FV_OP
struct Op_divide {
    template<class R> static R value(R a, R b) { return a / b; }
    template<class B> static bool in_domain(B b) { return b != B(0); }
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r)
    { algebra::divide<divide::OutOfDomainPolicy, divide::OutOfRangePolicy>(IP{{}, {}}, o, e, a, b, r); }
};
template<class Op, class A, class B> void check()
{
    using R = fern::algorithm::result_type<A, B>;
    A a = fv::any<A>("a"); B b = fv::any<B>("b"); R r = fv::any<R>("r"), r0 = r;
    uint8_t m = 0;
    fv::Out o{&m};
    SequentialExecutionPolicy e;
    Op::run(o, e, a, b, r);
    if(!Op::in_domain(b)) fv_assert((m != 0) & fv::same(r, r0), "outside the domain: marked and not written");
    else {
        R x = Op::value(static_cast<R>(a), static_cast<R>(b));
        fv_assert(fv::same(r, x), "the result is the rounded result");
        fv_assert((m != 0) == !std::isfinite(x), "marked exactly when the result is not finite");
    }
}
}
#define NAME_(op, A, B) op##_##A##_##B
#define NAME(op, A, B) NAME_(op, A, B)
#define XCAT_(a, b) a##b
#define XCAT(a, b) XCAT_(a, b)
#define CHECK_(n) FV_CHECK(n)
#define ONE(A, B) CHECK_(NAME(OP, A, B)) { check<XCAT(Op_, OP), t_##A, t_##B>(); }
#define INTS(X, A) X(A, u8) X(A, u16) X(A, u32) X(A, u64) X(A, i8) X(A, i16) X(A, i32) X(A, i64)
#define REV(A, B) ONE(B, A)
INTS(ONE, f32) INTS(ONE, f64) INTS(REV, f32) INTS(REV, f64) ONE(f32, f32) ONE(f32, f64) ONE(f64, f32) ONE(f64, f64)

// comparisons: the C++ comparison of the two elements after the usual arithmetic conversions; larger / smaller of two.
#include "elementwise.h"
#include "fern/algorithm/algebra.h"
#include "fern/algorithm/statistic.h"
namespace {
#define FV_CMP(name, op, same_only) struct Op_##name { \
    template<class T> static bool value(T a, T b) { return a op b; } \
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r) { IP2 ip{{}, {}}; algebra::name(ip, o, e, a, b, r); } };
FV_CMP(equal, ==, 1) FV_CMP(less, <, 0) FV_CMP(less_equal, <=, 0) FV_CMP(greater, >, 0) FV_CMP(greater_equal, >=, 0)
template<class Op, class A, class B, class R> void check()
{
    A a = fv::any<A>("a"); B b = fv::any<B>("b"); R r = fv::any<R>("r"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e;
    Op::run(o, e, a, b, r);
    using T = std::common_type_t<A, B>;
    fv_assert(r == R(Op::template value<T>(static_cast<T>(a), static_cast<T>(b))), "the result is the comparison");
    fv_assert(m == 0, "never marked");
}
template<class T> void check_minmax()
{
    T a = fv::any<T>("a"), b = fv::any<T>("b"), r = fv::any<T>("r"), s = fv::any<T>("s"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e;
    IP2 ip{{}, {}};
    statistic::binary_max(ip, o, e, a, b, r);
    statistic::binary_min(ip, o, e, a, b, s);
    fv_assert((fv::same(r, a) | fv::same(r, b)) & !(r < a) & !(r < b), "the result is the largest argument");
    fv_assert((fv::same(s, a) | fv::same(s, b)) & !(a < s) & !(b < s), "the result is the smallest argument");
    fv_assert(m == 0, "never marked");
}
}
#define CMP(A, B) CHECK_(NAME(less, A, B)) { check<Op_less, t_##A, t_##B, bool>(); } CHECK_(NAME(less_equal, A, B)) { check<Op_less_equal, t_##A, t_##B, bool>(); } \
    CHECK_(NAME(greater, A, B)) { check<Op_greater, t_##A, t_##B, bool>(); } CHECK_(NAME(greater_equal, A, B)) { check<Op_greater_equal, t_##A, t_##B, bool>(); }
#define SAME(A) CHECK_(NAME(equal, A, A)) { check<Op_equal, t_##A, t_##A, bool>(); } FV_CHECK(minmax_##A) { check_minmax<t_##A>(); }
#ifdef SAMETYPE
#define S2(A) SAME(A)
S2(u8) S2(u16) S2(u32) S2(u64) S2(i8) S2(i16) S2(i32) S2(i64) S2(f32) S2(f64)
#else
ALLPAIRS(CMP)
#endif

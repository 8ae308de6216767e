// and, or, xor, nor, xnor, not: the truth tables, any value but zero being true; defined: 1 for valid elements, 0 otherwise.
#include "elementwise.h"
#include "fern/algorithm/algebra.h"
namespace {
#define FV_BOOL(name, expr) struct Op_##name { static bool value(bool a, bool b) { return expr; } \
    template<class O, class E, class A, class B, class R> static void run(O& o, E& e, A const& a, B const& b, R& r) { IP2 ip{{}, {}}; algebra::name(ip, o, e, a, b, r); } };
FV_BOOL(and_, a & b) FV_BOOL(or_, a | b) FV_BOOL(xor_, a ^ b) FV_BOOL(nor, !(a | b)) FV_BOOL(xnor, a == b)
template<class Op, class A, class B, class R> void one()
{
    A a = fv::any<A>("a"); B b = fv::any<B>("b"); R r = fv::any<R>("r"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e;
    Op::run(o, e, a, b, r);
    fv_assert(r == R(Op::value(a != A(0), b != B(0))), "the result is the truth table's");
    fv_assert(m == 0, "never marked");
}
template<class A, class B> void check()
{
    one<Op_and_, A, B, bool>(); one<Op_or_, A, B, bool>(); one<Op_xor_, A, B, bool>(); one<Op_nor, A, B, bool>(); one<Op_xnor, A, B, bool>();
    one<Op_and_, A, B, uint8_t>(); one<Op_or_, A, B, int32_t>(); one<Op_xor_, A, B, uint8_t>(); one<Op_nor, A, B, double>(); one<Op_xnor, A, B, int32_t>();
}
struct ND { bool v; bool is_no_data() const { return v; } };
template<class A> void check1()
{
    A a = fv::any<A>("a"); uint8_t m = 0; fv::Out o{&m}; SequentialExecutionPolicy e; IP1 ip{{}};
    bool r = fv::any<bool>("r"); int32_t r2 = fv::any<int32_t>("r2"); A d = fv::any<A>("d");
    algebra::not_(ip, o, e, a, r);
    algebra::not_(ip, o, e, a, r2);
    fv_assert(r == !(a != A(0)), "not: true for zero only");
    fv_assert(r2 == !(a != A(0)), "not: 1 for zero, 0 otherwise");
    fv_assert(m == 0, "never marked");
    bool nd = fv::any<bool>("nd");
    InputNoDataPolicies<ND> np{ND{nd}};
    algebra::defined(np, e, d);
    fv_assert(d == A(!nd), "defined: 1 for a valid element, 0 otherwise");
}
using t_b = bool;
}
#define BOTH(A, B) CHECK_(NAME(bool, A, B)) { check<t_##A, t_##B>(); }
#define NOT(A) FV_CHECK(not_##A) { check1<t_##A>(); }
ALLPAIRS(BOTH) ALL(BOTH, b) BOTH(b, b)
#define REV(A, B) BOTH(B, A)
ALL(REV, b)
NOT(b) NOT(u8) NOT(u16) NOT(u32) NOT(u64) NOT(i8) NOT(i16) NOT(i32) NOT(i64) NOT(f32) NOT(f64)

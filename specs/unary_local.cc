// unary_local_operation: every element is computed from its own input element, or marked, and nothing else changes.
#include "parallel.h"
#include "fern/algorithm/core/unary_local_operation.h"
using namespace fern; using namespace fern::algorithm;

FV_PURE1(double, fvp_alg, double)
FV_PURE1(bool, fvp_dom, double)
FV_PURE2(bool, fvp_rng, double, double)

namespace {
template<class V> struct Alg { template<class R> void operator()(V const& v, R& r) const { r = fvp_alg(v); } };
template<class V> struct Dom { static bool within_domain(V const& v) { return fvp_dom(v); } };
template<class V, class R> struct Rng { static bool within_range(V const& v, R const& r) { return fvp_rng(v, r); } };

struct C {
    double const* in; double const* r; double const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n;
    fv::Shape2 s;
};
// what the operation must have done with element k
bool done(C const* c, uint64_t k)
{
    if(fvp_nd0(k) | !fvp_dom(c->in[k])) return (c->m[k] != 0) & fv::same(c->r[k], c->r0[k]);
    double v = fvp_alg(c->in[k]);
    return fv::same(c->r[k], v) & (fvp_rng(c->in[k], v) ? c->m[k] == c->m0[k] : c->m[k] != 0);
}
bool untouched(C const* c, uint64_t k) { return fv::same(c->r[k], c->r0[k]) & (c->m[k] == c->m0[k]); }
}
#include "local_invariants.h"

namespace {
template<class P> void check_1d()
{
    C c; c.n = fv::any<uint64_t>("n"); fv_small(c.n);
    A1<double> in{fv::array<double>("value", c.n), c.n}, out{fv::array<double>("result", c.n), c.n};
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(in.p);
    c.in = in.p; c.r = out.p; c.r0 = fv::snapshot(out.p); c.m = marks; c.m0 = fv::snapshot(marks);
    fv::invariants_1d(&c);
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    unary_local_operation<Alg, Dom, Rng>(ip, op, ep, in, out);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is computed or marked");
    fv::all_joined();
}
template<class P> void check_2d()
{
    C c; fv::any_shape(&c.s); c.n = c.s.n;
    A2<double> in = fv::array2<double>("value", c.s), out = fv::array2<double>("result", c.s);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(in.p);
    c.in = in.p; c.r = out.p; c.r0 = fv::snapshot(out.p); c.m = marks; c.m0 = fv::snapshot(marks);
    fv::invariants_2d(&c);
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    unary_local_operation<Alg, Dom, Rng>(ip, op, ep, in, out);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is computed or marked");
    fv::all_joined();
}
}
FV_POLICIES(unary_1d, check_1d)
FV_POLICIES(unary_2d, check_2d)

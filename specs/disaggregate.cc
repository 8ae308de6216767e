// unary_disaggregate_operation: every element of the result is computed from the one input element, or marked.
#include "local.h"
#include "fern/algorithm/core/unary_disaggregate_operation.h"
using namespace fern; using namespace fern::algorithm;
FV_PURE1(int64_t, fvp_alg, double)
FV_PURE1(bool, fvp_dom, double)
FV_PURE2(bool, fvp_rng, double, int64_t)
namespace {
template<class V> struct Alg { template<class R> void operator()(V const& v, R& r) const { r = fvp_alg(v); } };
template<class V> struct Dom { static bool within_domain(V const& v) { return fvp_dom(v); } };
template<class V, class R> struct Rng { static bool within_range(V const& v, R const& r) { return fvp_rng(v, r); } };
struct C { double v; int64_t const* r; int64_t const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; fv::Shape2 s; };
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    if(fvp_nd0(fv::scalar_slot) | !fvp_dom(c->v)) return (c->m[k] != 0) & (c->r[k] == c->r0[k]);
    int64_t x = fvp_alg(c->v);
    return (c->r[k] == x) & (fvp_rng(c->v, x) ? c->m[k] == c->m0[k] : c->m[k] != 0);
}
}
#include "local_invariants.h"
namespace {
template<int D, class P> void check()
{
    C c; fv::any_domain<D>(c.s, c.n);
    double v = fv::any<double>("value"); c.v = v;
    int64_t* r = fv::array<int64_t>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    FV_INVARIANTS(D, &c);
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    auto&& res = fv::view<D>(r, c.s, c.n);
    unary_disaggregate_operation<Alg, Dom, Rng>(ip, op, ep, v, res);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is computed or marked");
    fv::all_joined();
}
template<class P> void check_1d() { check<1, P>(); }
template<class P> void check_2d() { check<2, P>(); }
}
FV_CHECK(disaggregate_0d) { check<0, SequentialExecutionPolicy>(); }
// (1-d has no overload for the run-time selected execution policy)
FV_CHECK(disaggregate_1d_sequential) { check_1d<SequentialExecutionPolicy>(); }
FV_CHECK(disaggregate_1d_parallel) { check_1d<ParallelExecutionPolicy>(); }
 FV_POLICIES(disaggregate_2d, check_2d)

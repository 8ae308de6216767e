// nullary_local_operation: every element is what the algorithm makes of it, or marked when it is no-data.
#include "local.h"
#include "fern/algorithm/core/nullary_local_operation.h"
using namespace fern; using namespace fern::algorithm;
FV_PURE1(double, fvp_alg, double)
namespace {
struct Alg { template<class R> void operator()(R& r) const { r = fvp_alg(r); } };
struct C { double const* r; double const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; bool scalar; fv::Shape2 s; };
bool done(C const* c, uint64_t k)
{
    if(c->scalar ? fvp_nd0(fv::scalar_slot) : fvp_nd0(k)) return (c->m[k] != 0) & fv::same(c->r[k], c->r0[k]);
    return fv::same(c->r[k], fvp_alg(c->r0[k])) & (c->m[k] == c->m0[k]);
}
bool untouched(C const* c, uint64_t k) { return fv::same(c->r[k], c->r0[k]) & (c->m[k] == c->m0[k]); }
}
#include "local_invariants.h"
namespace {
template<class T> struct AlgT: Alg {};
template<int D, class P> void check()
{
    C c; c.scalar = D == 0; fv::any_domain<D>(c.s, c.n);
    double* r = fv::array<double>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    FV_INVARIANTS(D, &c);
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    auto&& res = fv::view<D>(r, c.s, c.n);
    nullary_local_operation<Alg>(ip, op, ep, res);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is computed or marked");
    fv::all_joined();
}
template<class P> void check_1d() { check<1, P>(); }
template<class P> void check_2d() { check<2, P>(); }
}
FV_CHECK(nullary_0d) { check<0, SequentialExecutionPolicy>(); }
// (1-d has no overload for the run-time selected execution policy)
FV_CHECK(nullary_1d_sequential) { check_1d<SequentialExecutionPolicy>(); }
FV_CHECK(nullary_1d_parallel) { check_1d<ParallelExecutionPolicy>(); }
 FV_POLICIES(nullary_2d, check_2d)

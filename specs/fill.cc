// fill: every element becomes the value, or is marked when the value is no-data.
#include "local.h"
#include "fern/algorithm/core/fill.h"
using namespace fern; using namespace fern::algorithm;
namespace {
struct C { int64_t v; int64_t const* r; int64_t const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; bool plain; fv::Shape2 s; };
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    if(!c->plain & fvp_nd0(fv::scalar_slot)) return (c->m[k] != 0) & (c->r[k] == c->r0[k]);
    return (c->r[k] == c->v) & (c->m[k] == c->m0[k]);
}
}
#include "local_invariants.h"
namespace {
template<int D, class P, bool plain = false> void check()
{
    C c; c.plain = plain; fv::any_domain<D>(c.s, c.n);
    int64_t v = fv::any<int64_t>("value"); c.v = v;
    int64_t* r = fv::array<int64_t>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    FV_INVARIANTS(D, &c);
    auto ep = fv::policy<P>();
    auto&& res = fv::view<D>(r, c.s, c.n);
    if constexpr(plain) fern::algorithm::core::fill(ep, v, res);
    else {
        InputNoDataPolicies<fv::In<0>> ip{{}};
        fv::Out op{marks};
        fern::algorithm::core::fill(ip, op, ep, v, res);
    }
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is filled or marked");
    fv::all_joined();
}
template<class P> void check_1d() { check<1, P>(); }
template<class P> void check_2d() { check<2, P>(); }
}
FV_CHECK(fill_0d) { check<0, SequentialExecutionPolicy>(); }
FV_CHECK(fill_plain_1d) { check<1, SequentialExecutionPolicy, true>(); }
FV_CHECK(fill_plain_2d) { check<2, fv::RunSequential, true>(); }
// (1-d has no overload for the run-time selected execution policy)
FV_CHECK(fill_1d_sequential) { check_1d<SequentialExecutionPolicy>(); }
FV_CHECK(fill_1d_parallel) { check_1d<ParallelExecutionPolicy>(); }
 FV_POLICIES(fill_2d, check_2d)

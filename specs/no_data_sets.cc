// merge_no_data, unite_no_data, intersect_no_data: exactly the elements of the set of no-data elements asked for are marked; no value changes.
#include "local.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/unite_no_data.h"
#include "fern/algorithm/core/intersect_no_data.h"
using namespace fern; using namespace fern::algorithm;
namespace {
struct C { int kind; int64_t const* r; int64_t const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; bool scalar; fv::Shape2 s; };
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    uint64_t i = c->scalar ? fv::scalar_slot : k;
    bool a = fvp_nd0(i), b = fvp_nd1(i);
    bool mark = c->kind == 0 ? a : c->kind == 1 ? a | b : a & b;
    return (c->r[k] == c->r0[k]) & (mark ? c->m[k] != 0 : c->m[k] == c->m0[k]);
}
}
#include "local_invariants.h"
namespace {
template<int KIND, int D, class P> void check()
{
    C c; c.kind = KIND; c.scalar = D == 0; fv::any_domain<D>(c.s, c.n);
    int64_t* a = fv::array<int64_t>("value1", c.n); int64_t* b = fv::array<int64_t>("value2", c.n);
    int64_t* r = fv::array<int64_t>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(a); fv::readonly(b);
    c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    FV_INVARIANTS(D, &c);
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    auto&& v1 = fv::view<D>(a, c.s, c.n); auto&& v2 = fv::view<D>(b, c.s, c.n); auto&& res = fv::view<D>(r, c.s, c.n);
    InputNoDataPolicies<fv::In<0>> ip1{{}};
    InputNoDataPolicies<fv::In<0>, fv::In<1>> ip{{}, {}};
    if constexpr(KIND == 0) fern::algorithm::core::merge_no_data(ip1, op, ep, v1, res);
    else if constexpr(KIND == 1) fern::algorithm::core::unite_no_data(ip, op, ep, v1, v2, res);
    else fern::algorithm::core::intersect_no_data(ip, op, ep, v1, v2, res);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "exactly the elements asked for are marked, no value changes");
    fv::all_joined();
}
template<class P> void merge_2d() { check<0, 2, P>(); }
template<class P> void unite_2d() { check<1, 2, P>(); }
template<class P> void intersect_2d() { check<2, 2, P>(); }
}
FV_CHECK(merge_0d) { check<0, 0, SequentialExecutionPolicy>(); }
FV_CHECK(unite_0d) { check<1, 0, SequentialExecutionPolicy>(); }
FV_CHECK(intersect_0d) { check<2, 0, SequentialExecutionPolicy>(); }
FV_POLICIES(merge_2d, merge_2d) FV_POLICIES(unite_2d, unite_2d) FV_POLICIES(intersect_2d, intersect_2d)

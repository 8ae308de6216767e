// cover: the first valid element of the two arguments, marked when there is none.
#include "local.h"
#include "fern/algorithm/core/cover.h"
using namespace fern; using namespace fern::algorithm;
namespace {
struct C { int64_t const* a; int64_t const* b; int64_t const* r; int64_t const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; bool sa, sb; fv::Shape2 s; };
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    bool na = fvp_nd0(c->sa ? fv::scalar_slot : k), nb = fvp_nd1(c->sb ? fv::scalar_slot : k);
    if(na & nb) return (c->m[k] != 0) & (c->r[k] == c->r0[k]);
    return (c->r[k] == (na ? c->b[c->sb ? 0 : k] : c->a[c->sa ? 0 : k])) & (c->m[k] == c->m0[k]);
}
}
#include "local_invariants.h"
namespace {
template<int D1, int D2, class P> void check()
{
    constexpr int D = D1;
    C c; c.sa = D1 == 0; c.sb = D2 == 0; fv::any_domain<D>(c.s, c.n);
    int64_t* a = fv::array<int64_t>("value1", D1 ? c.n : 1);
    int64_t* b = fv::array<int64_t>("value2", D2 ? c.n : 1);
    int64_t* r = fv::array<int64_t>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(a); fv::readonly(b);
    c.a = a; c.b = b; c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    FV_INVARIANTS(D, &c);
    InputNoDataPolicies<fv::In<0>, fv::In<1>> ip{{}, {}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    auto&& v1 = fv::view<D1>(a, c.s, c.n); auto&& v2 = fv::view<D2>(b, c.s, c.n); auto&& res = fv::view<D>(r, c.s, c.n);
    fern::algorithm::core::cover(ip, op, ep, v1, v2, res);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is the first valid one, or marked");
    fv::all_joined();
}
template<class P> void check_2d_0d() { check<2, 0, P>(); }
template<class P> void check_2d_2d() { check<2, 2, P>(); }
}
FV_CHECK(cover_0d_0d) { check<0, 0, SequentialExecutionPolicy>(); }
FV_POLICIES(cover_2d_0d, check_2d_0d) FV_POLICIES(cover_2d_2d, check_2d_2d)

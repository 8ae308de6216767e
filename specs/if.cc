// if_: every element is the true or the false value its own condition selects, or marked.
#include "local.h"
#include "fern/algorithm/core/if.h"
using namespace fern; using namespace fern::algorithm;
namespace {
using T = int64_t;
struct C { uint8_t const* q; T const* t; T const* f; T const* r; T const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; bool sq, st, sf, other; fv::Shape2 s; };
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    uint64_t iq = c->sq ? fv::scalar_slot : k, it = c->st ? fv::scalar_slot : k, jf = c->sf ? fv::scalar_slot : k;
    bool which = c->q[c->sq ? 0 : k] != 0;
    bool valid = !fvp_nd0(iq) & (which ? !fvp_nd1(it) : c->other & !fvp_nd2(jf));
    if(!valid) return (c->m[k] != 0) & (c->r[k] == c->r0[k]);
    return (c->r[k] == (which ? c->t[c->st ? 0 : k] : c->f[c->sf ? 0 : k])) & (c->m[k] == c->m0[k]);
}
}
#include "local_invariants.h"
namespace {
// DF < 0: no else
template<int DQ, int DT, int DF, class P> void check()
{
    constexpr int D = fv::max_dim(DQ, fv::max_dim(DT, DF));
    C c; c.sq = DQ == 0; c.st = DT == 0; c.sf = DF <= 0; c.other = DF >= 0; fv::any_domain<D>(c.s, c.n);
    uint8_t* q = fv::array<uint8_t>("condition", DQ ? c.n : 1);
    T* t = fv::array<T>("true_value", DT ? c.n : 1); T* f = fv::array<T>("false_value", DF > 0 ? c.n : 1);
    T* r = fv::array<T>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(q); fv::readonly(t); fv::readonly(f);
    c.q = q; c.t = t; c.f = f; c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    FV_INVARIANTS(D, &c);
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    auto&& condition = fv::view<DQ>(q, c.s, c.n); auto&& tv = fv::view<DT>(t, c.s, c.n); auto&& res = fv::view<D>(r, c.s, c.n);
    if constexpr(DF < 0) {
        InputNoDataPolicies<fv::In<0>, fv::In<1>> ip{{}, {}};
        fern::algorithm::core::if_(ip, op, ep, condition, tv, res);
    }
    else {
        auto&& fval = fv::view<DF>(f, c.s, c.n);
        InputNoDataPolicies<fv::In<0>, fv::In<1>, fv::In<2>> ip{{}, {}, {}};
        fern::algorithm::core::if_(ip, op, ep, condition, tv, fval, res);
    }
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is the selected value, or marked");
    fv::all_joined();
}
template<class P> void t02() { check<0, 2, -1, P>(); }
template<class P> void t20() { check<2, 0, -1, P>(); }
template<class P> void t22() { check<2, 2, -1, P>(); }
template<class P> void e100() { check<1, 0, 0, P>(); }
template<class P> void e110() { check<1, 1, 0, P>(); }
template<class P> void e101() { check<1, 0, 1, P>(); }
template<class P> void e111() { check<1, 1, 1, P>(); }
template<class P> void e200() { check<2, 0, 0, P>(); }
template<class P> void e020() { check<0, 2, 0, P>(); }
template<class P> void e002() { check<0, 0, 2, P>(); }
template<class P> void e022() { check<0, 2, 2, P>(); }
template<class P> void e222() { check<2, 2, 2, P>(); }
template<class P> void e220() { check<2, 2, 0, P>(); }
template<class P> void e202() { check<2, 0, 2, P>(); }
}
FV_CHECK(if_0d_0d) { check<0, 0, -1, SequentialExecutionPolicy>(); }
FV_CHECK(if_0d_0d_0d) { check<0, 0, 0, SequentialExecutionPolicy>(); }
FV_POLICIES(if_0d_2d, t02) FV_POLICIES(if_2d_0d, t20) FV_POLICIES(if_2d_2d, t22)
FV_POLICIES(if_1d_0d_0d, e100) FV_POLICIES(if_1d_1d_0d, e110) FV_POLICIES(if_1d_0d_1d, e101) FV_POLICIES(if_1d_1d_1d, e111)
FV_POLICIES(if_2d_0d_0d, e200) FV_POLICIES(if_0d_2d_0d, e020) FV_POLICIES(if_0d_0d_2d, e002) FV_POLICIES(if_0d_2d_2d, e022)
FV_POLICIES(if_2d_2d_2d, e222) FV_POLICIES(if_2d_2d_0d, e220) FV_POLICIES(if_2d_0d_2d, e202)

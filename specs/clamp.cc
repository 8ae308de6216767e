// clamp: every valid element is limited to its bounds, every other element is marked.
#include "local.h"
#include "fern/algorithm/core/clamp.h"
using namespace fern; using namespace fern::algorithm;
namespace {
using T = int64_t;
struct C { T const* v; T const* lo; T const* hi; T const* r; T const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; bool sv, sl, sh; fv::Shape2 s; };
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    if(fvp_nd0(c->sv ? fv::scalar_slot : k)) return (c->m[k] != 0) & (c->r[k] == c->r0[k]);
    T v = c->v[k], lo = c->lo[c->sl ? 0 : k], hi = c->hi[c->sh ? 0 : k];
    return (c->r[k] == (v < lo ? lo : v > hi ? hi : v)) & (c->m[k] == c->m0[k]);
}
// what the caller must provide: bounds without no-data, in order
bool ordered(C const* c, uint64_t k) { return !(k < c->n) | (c->lo[c->sl ? 0 : k] <= c->hi[c->sh ? 0 : k]); }
}
#include "local_invariants.h"
namespace {
template<int D, int D1, int D2, class P> void check()
{
    C c; c.sv = D == 0; c.sl = D1 == 0; c.sh = D2 == 0; fv::any_domain<D>(c.s, c.n);
    T* v = fv::array<T>("value", c.n);
    T* lo = fv::array<T>("lower", D1 ? c.n : 1); T* hi = fv::array<T>("upper", D2 ? c.n : 1);
    T* r = fv::array<T>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
#ifdef FV_NATIVE
    if(D1 && D2) { for(uint64_t k = 0; k < c.n; ++k) if(hi[k] < lo[k]) std::swap(lo[k], hi[k]); }
    else if(D1) { for(uint64_t k = 0; k < c.n; ++k) lo[k] = std::min(lo[k], hi[0]); }
    else if(D2) { for(uint64_t k = 0; k < c.n; ++k) hi[k] = std::max(hi[k], lo[0]); }
    else if(hi[0] < lo[0]) std::swap(lo[0], hi[0]);
#endif
    fv::readonly(v); fv::readonly(lo); fv::readonly(hi);
    c.v = v; c.lo = lo; c.hi = hi; c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    fv::requires_all(ordered, &c, c.n);
    FV_INVARIANTS(D, &c);
    InputNoDataPolicies<fv::In<0>, SkipNoData, SkipNoData> ip{{}, {}, {}};   // bounds are valid
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    auto&& val = fv::view<D>(v, c.s, c.n); auto&& lower = fv::view<D1>(lo, c.s, c.n); auto&& upper = fv::view<D2>(hi, c.s, c.n); auto&& res = fv::view<D>(r, c.s, c.n);
    fern::algorithm::core::clamp(ip, op, ep, val, lower, upper, res);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is limited, or marked");
    fv::all_joined();
}
template<class P> void check_111() { check<1, 1, 1, P>(); }
template<class P> void check_110() { check<1, 1, 0, P>(); }
template<class P> void check_101() { check<1, 0, 1, P>(); }
template<class P> void check_222() { check<2, 2, 2, P>(); }
template<class P> void check_220() { check<2, 2, 0, P>(); }
template<class P> void check_202() { check<2, 0, 2, P>(); }
}
FV_CHECK(clamp_0d) { check<0, 0, 0, SequentialExecutionPolicy>(); }
FV_POLICIES(clamp_1d_1d_1d, check_111) FV_POLICIES(clamp_1d_1d_0d, check_110) FV_POLICIES(clamp_1d_0d_1d, check_101)
FV_POLICIES(clamp_2d_2d_2d, check_222) FV_POLICIES(clamp_2d_2d_0d, check_220) FV_POLICIES(clamp_2d_0d_2d, check_202)

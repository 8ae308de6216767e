// binary_local_operation: every element is computed from its own pair of input elements, or marked, and nothing else changes.
// The element types of the arguments and the result all differ, so that each element is seen in its own type.
#include "parallel.h"
#include "fern/algorithm/core/binary_local_operation.h"
using namespace fern; using namespace fern::algorithm;

using T1 = float; using T2 = double; using TR = int64_t;
FV_PURE2(TR, fvp_alg, T1, T2)
FV_PURE2(bool, fvp_dom, T1, T2)
FV_PURE3(bool, fvp_rng, T1, T2, TR)

namespace {
template<class V1, class V2> struct Alg { template<class R> void operator()(V1 const& v1, V2 const& v2, R& r) const { r = fvp_alg(v1, v2); } };
template<class V1, class V2> struct Dom { static bool within_domain(V1 const& v1, V2 const& v2) { return fvp_dom(v1, v2); } };
template<class V1, class V2, class R> struct Rng { static bool within_range(V1 const& v1, V2 const& v2, R const& r) { return fvp_rng(v1, v2, r); } };

struct C {
    T1 const* a; T2 const* b; TR const* r; TR const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n;
    bool sa, sb;          // the argument is a scalar
    fv::Shape2 s;
};
bool done(C const* c, uint64_t k)
{
    uint64_t ka = c->sa ? 0 : k, kb = c->sb ? 0 : k;
    bool nd = (c->sa ? fvp_nd0(fv::scalar_slot) : fvp_nd0(k)) | (c->sb ? fvp_nd1(fv::scalar_slot) : fvp_nd1(k));
    if(nd | !fvp_dom(c->a[ka], c->b[kb])) return (c->m[k] != 0) & (c->r[k] == c->r0[k]);
    TR v = fvp_alg(c->a[ka], c->b[kb]);
    return (c->r[k] == v) & (fvp_rng(c->a[ka], c->b[kb], v) ? c->m[k] == c->m0[k] : c->m[k] != 0);
}
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
}
#include "local_invariants.h"

namespace {
template<int D1, int D2, class P> void check()
{
    constexpr int D = D1 > D2 ? D1 : D2;
    C c; c.sa = D1 < D; c.sb = D2 < D;
    if constexpr(D == 2) { fv::any_shape(&c.s); c.n = c.s.n; }
    else if constexpr(D == 1) { c.n = fv::any<uint64_t>("n"); fv_small(c.n); }
    else c.n = 1;
    T1* a = fv::array<T1>("value1", D1 ? c.n : 1);
    T2* b = fv::array<T2>("value2", D2 ? c.n : 1);
    TR* r = fv::array<TR>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(a); fv::readonly(b);
    c.a = a; c.b = b; c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    if constexpr(D == 2) fv::invariants_2d(&c); else if constexpr(D == 1) fv::invariants_1d(&c);
    InputNoDataPolicies<fv::In<0>, fv::In<1>> ip{{}, {}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    if constexpr(D == 0) {
        T1 const v1 = a[0]; T2 const v2 = b[0]; TR res = r[0];
        binary_local_operation<Alg, Dom, Rng>(ip, op, ep, v1, v2, res);
        r[0] = res;
        c.sa = c.sb = true;
        fv_assert(done(&c, 0), "the element is computed or marked");
    }
    else {
        if constexpr(D1 == 0) {
            T1 const v1 = a[0];
            if constexpr(D == 1) { A1<T2> v2{b, c.n}; A1<TR> res{r, c.n}; binary_local_operation<Alg, Dom, Rng>(ip, op, ep, v1, v2, res); }
            else { A2<T2> v2{b, c.s.rows, c.s.cols, c.n}; A2<TR> res{r, c.s.rows, c.s.cols, c.n}; binary_local_operation<Alg, Dom, Rng>(ip, op, ep, v1, v2, res); }
        }
        else if constexpr(D2 == 0) {
            T2 const v2 = b[0];
            if constexpr(D == 1) { A1<T1> v1{a, c.n}; A1<TR> res{r, c.n}; binary_local_operation<Alg, Dom, Rng>(ip, op, ep, v1, v2, res); }
            else { A2<T1> v1{a, c.s.rows, c.s.cols, c.n}; A2<TR> res{r, c.s.rows, c.s.cols, c.n}; binary_local_operation<Alg, Dom, Rng>(ip, op, ep, v1, v2, res); }
        }
        else if constexpr(D == 1) { A1<T1> v1{a, c.n}; A1<T2> v2{b, c.n}; A1<TR> res{r, c.n}; binary_local_operation<Alg, Dom, Rng>(ip, op, ep, v1, v2, res); }
        else { A2<T1> v1{a, c.s.rows, c.s.cols, c.n}; A2<T2> v2{b, c.s.rows, c.s.cols, c.n}; A2<TR> res{r, c.s.rows, c.s.cols, c.n};
            binary_local_operation<Alg, Dom, Rng>(ip, op, ep, v1, v2, res); }
        FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is computed or marked");
    }
    fv::all_joined();
}
template<class P> void check_1d_0d() { check<1, 0, P>(); }
template<class P> void check_0d_1d() { check<0, 1, P>(); }
template<class P> void check_1d_1d() { check<1, 1, P>(); }
template<class P> void check_2d_0d() { check<2, 0, P>(); }
template<class P> void check_0d_2d() { check<0, 2, P>(); }
template<class P> void check_2d_2d() { check<2, 2, P>(); }
}
FV_CHECK(binary_0d_0d) { check<0, 0, SequentialExecutionPolicy>(); }
FV_POLICIES(binary_1d_0d, check_1d_0d) FV_POLICIES(binary_0d_1d, check_0d_1d) FV_POLICIES(binary_1d_1d, check_1d_1d)
FV_POLICIES(binary_2d_0d, check_2d_0d) FV_POLICIES(binary_0d_2d, check_0d_2d) FV_POLICIES(binary_2d_2d, check_2d_2d)

// decompress: the compressed values, in order, at the places that are not no-data; all other places are marked.
#include "run.h"
#include "fern/core/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/decompress.h"
#include "rank.h"
using namespace fern; using namespace fern::algorithm;
namespace {
using T = int64_t;
struct C { T const* v; T const* r; T const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; fv::Shape2 s; };
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    if(fvp_nd0(k)) return (c->m[k] != 0) & (c->r[k] == c->r0[k]);
    return (c->r[k] == c->v[fv::rank(k)]) & (c->m[k] == c->m0[k]);
}
bool inv_all(C const* c, uint64_t k, uint64_t i) { return !(k < c->n) | (k < i ? done(c, k) : untouched(c, k)); }
bool inv_row(C const* c, uint64_t k, uint64_t i) { return inv_all(c, k, fv::rowstart(c->s, i)); }
bool inv_cell(C const* c, uint64_t k, uint64_t i, uint64_t j) { return inv_all(c, k, fv::rowstart(c->s, i) + j); }
uint64_t source(C const*, uint64_t i) { return fv::rank(i); }
uint64_t source_row(C const* c, uint64_t i) { return fv::rank(fv::rowstart(c->s, i)); }
uint64_t source_cell(C const* c, uint64_t i, uint64_t j) { return fv::rank(fv::rowstart(c->s, i) + j); }
template<int D, class P> void check()
{
    C c;
    if constexpr(D == 1) { c.n = fv::any<uint64_t>("n"); fv_small(c.n); } else { fv::any_flat_shape(&c.s); c.n = c.s.n; }
    fv::rank_axioms(&c.n);
#ifndef FV_NATIVE
    fv::axiom(fv::ax_rank_valid, &c.n, "fvp_nd0");
#endif
    uint64_t nv = fv::any<uint64_t>("number of values");
    fv_assume((fv::rank(c.n) <= nv) & (nv <= c.n));     // there is a value for every place
    T* v = fv::array<T>("value", nv); T* r = fv::array<T>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(v);
    c.v = v; c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    if constexpr(D == 1) { fv::inv(inv_all, &c); fv::phi(source, &c); }
    else { fv::inv(inv_row, &c); fv::inv(inv_cell, &c); fv::phi(source_row, &c); fv::phi(source_cell, &c); }
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    A1<T> value{v, nv};
    if constexpr(D == 1) { A1<T> result{r, c.n}; fern::algorithm::core::decompress(ip, op, ep, value, result); }
    else { A2<T> result{r, c.s.rows, c.s.cols, c.n}; fern::algorithm::core::decompress(ip, op, ep, value, result); }
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every place holds the next value, or is marked");
    fv::all_joined();
}
template<class P> void check_1d() { check<1, P>(); }
template<class P> void check_2d() { check<2, P>(); }
}
FV_POLICIES(decompress_1d, check_1d)
FV_POLICIES(decompress_2d, check_2d)

// compress: the valid elements, in order and without gaps, at the front of the result; their number in count.
#define FV_RANGES_CHAIN
#define FV_BLOCK_LEMMAS
#include "run.h"
#include "fern/core/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core/compress.h"
#include "rank.h"
using namespace fern; using namespace fern::algorithm;
namespace {
using T = int64_t;
struct C { T const* v; T const* r; uint64_t n; fv::Shape2 s; };
bool valid(C const* c, uint64_t k) { return (k < c->n) & !fvp_nd0(k); }
bool done(C const* c, uint64_t k) { return !valid(c, k) | (c->r[fv::rank(k)] == c->v[k]); }
bool inv_all(C const* c, uint64_t k, uint64_t i) { return !(k < i) | done(c, k); }
uint64_t target(C const* c, uint64_t i) { return fv::rank(i); }
#ifndef FV_NATIVE
uint64_t b1(uint64_t t) { return fvp_begin(t); }
using fv::loc1;
bool placed1(C const* c, uint64_t k) { return !valid(c, k) | (c->r[loc1(k)] == c->v[k]); }
bool blk1(C const* c, uint64_t k, uint64_t t) { return !(fv::blk(k) < t) | placed1(c, k); }
bool in_blk1(C const* c, uint64_t k, uint64_t t, uint64_t i) { uint64_t b = fv::blk(k); return !((b < t) | ((b == t) & (k < i))) | placed1(c, k); }
uint64_t target1(C const* c, uint64_t t, uint64_t i) { uint64_t b = b1(t); return b + (fvp_rank(i) - fvp_rank(b)); }
bool counted1(C const* c, uint64_t t, uint64_t i) { return !((t < i) & (t < fv_b1.nb)) | (std::vector<uint64_t>::last[t] == fvp_rank(b1(t + 1)) - fvp_rank(b1(t))); }
// copying to the front
uint64_t front1(C const* c, uint64_t t) { return b1(t); }
uint64_t target_front1(C const* c, uint64_t t) { return fvp_rank(b1(t)); }
uint64_t target_copy1(C const* c, uint64_t t, uint64_t i) { uint64_t b = b1(t); return fvp_rank(b) + (i - b); }
bool moved1(C const* c, uint64_t k, uint64_t t) { return k < b1(t) ? done(c, k) : placed1(c, k); }
bool moving1(C const* c, uint64_t k, uint64_t t, uint64_t i) { return (k < b1(t)) | ((fv::blk(k) == t) & (loc1(k) < i)) ? done(c, k) : placed1(c, k); }
bool owns1(C const* c, uint64_t k, uint64_t t) { return fv::blk(k) == t; }
#endif
// sequential 2-d (the parallel 2-d operation is checked on generated inputs only)
bool inv_row(C const* c, uint64_t k, uint64_t i) { return !(k < fv::rowstart(c->s, i)) | done(c, k); }
bool inv_cell(C const* c, uint64_t k, uint64_t i, uint64_t j) { return !(k < fv::rowstart(c->s, i) + j) | done(c, k); }
uint64_t target_row(C const* c, uint64_t i) { return fv::rank(fv::rowstart(c->s, i)); }
uint64_t target_cell(C const* c, uint64_t i, uint64_t j) { return fv::rank(fv::rowstart(c->s, i) + j); }
}
#ifndef FV_NATIVE
namespace fv {
void block_lemmas(Blocks1 const* c) { rank_block_axioms(c); axiom(ax_loc1, c, ""); }
void block_lemmas(Blocks2 const*) {}
}
#endif
namespace {
template<class P> void check_1d()
{
    C c; c.n = fv::any<uint64_t>("n"); fv_small(c.n);
    T* v = fv::array<T>("value", c.n); T* r = fv::array<T>("result", c.n);
    fv::readonly(v);
    c.v = v; c.r = r;
    fv::rank_axioms(&c.n);
    if constexpr(!fv::is_parallel<P>) { fv::inv(inv_all, &c); fv::phi(target, &c); }
#ifndef FV_NATIVE
    else {
    fv::inv(blk1, &c); fv::inv(in_blk1, &c); fv::phi(target1, &c); fv::inv(counted1, &c);
    fv::phi(front1, &c); fv::phi(target_front1, &c); fv::phi(target_copy1, &c); fv::inv(moved1, &c); fv::inv(moving1, &c);
    fv::footprint(owns1, &c);
    }
#endif
    InputNoDataPolicies<fv::In<0>> ip{{}};
    auto ep = fv::policy<P>();
    A1<T> value{v, c.n}, result{r, c.n};
    uint64_t count = fv::any<uint64_t>("count");
    fern::algorithm::core::compress(ip, ep, value, result, count);
    fv_assert(count == fv::rank(c.n), "count is the number of valid elements");
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "valid elements are at the front, in order");
    fv::all_joined();
}
template<class P> void check_2d()
{
    C c; fv::any_flat_shape(&c.s); c.n = c.s.n;
    T* v = fv::array<T>("value", c.n); T* r = fv::array<T>("result", c.n);
    fv::readonly(v);
    c.v = v; c.r = r;
    fv::rank_axioms(&c.n);
    if constexpr(!fv::is_parallel<P>) { fv::inv(inv_row, &c); fv::inv(inv_cell, &c); fv::phi(target_row, &c); fv::phi(target_cell, &c); }
    InputNoDataPolicies<fv::In<0>> ip{{}};
    auto ep = fv::policy<P>();
    A2<T> value{v, c.s.rows, c.s.cols, c.n}; A1<T> result{r, c.n};
    uint64_t count = fv::any<uint64_t>("count");
    fern::algorithm::core::compress(ip, ep, value, result, count);
    fv_assert(count == fv::rank(c.n), "count is the number of valid elements");
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "valid elements are at the front, in order");
    fv::all_joined();
}
}
FV_POLICIES(compress_1d, check_1d)
FV_POLICIES(compress_2d, check_2d)

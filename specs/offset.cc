// offset: every element moves by the offset; places nothing moves to are marked, or get the fill value.
#define FV_RANGES_CHAIN
#include "run.h"
#include "fern/core/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core/offset.h"
using namespace fern; using namespace fern::algorithm;
namespace {
using T = int64_t;
struct C { T const* v; T const* r; T const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; fv::Shape2 s; int64_t off1, off2, o1, o2; bool fill; T value; };
int64_t limited(int64_t o, uint64_t n) { int64_t k = int64_t(n); return o < -k ? -k : o > k ? k : o; }
bool untouched(C const* c, uint64_t k) { return (c->r[k] == c->r0[k]) & (c->m[k] == c->m0[k]); }
// the element of k comes from s
bool moved(C const* c, uint64_t k, uint64_t s)
{ return fvp_nd0(s) ? (c->m[k] != 0) & (c->r[k] == c->r0[k]) : (c->r[k] == c->v[s]) & (c->m[k] == c->m0[k]); }
// nothing moves to k
bool vacated(C const* c, uint64_t k)
{ return c->fill ? (c->r[k] == c->value) & (c->m[k] == c->m0[k]) : (c->m[k] != 0) & (c->r[k] == c->r0[k]); }
// 1-d
bool result1(C const* c, uint64_t k) { uint64_t s = k - uint64_t(c->off1); return s < c->n ? moved(c, k, s) : vacated(c, k); }
bool copied1(C const* c, uint64_t k, uint64_t i)
{ uint64_t s = k - uint64_t(c->o1); return !(k < c->n) | ((s < c->n) & (s < i) ? moved(c, k, s) : untouched(c, k)); }
bool left1(C const* c, uint64_t k, uint64_t i)
{ uint64_t s = k - uint64_t(c->o1); return !(k < c->n) | (s < c->n ? moved(c, k, s) : k < i ? vacated(c, k) : untouched(c, k)); }
bool blocks1(C const* c, uint64_t k, uint64_t t)
{ uint64_t s = k - uint64_t(c->o1); return !(k < c->n) | ((s < c->n) & (fv::blk(s) < t) ? moved(c, k, s) : untouched(c, k)); }
bool in_block1(C const* c, uint64_t k, uint64_t t, uint64_t i)
{ uint64_t s = k - uint64_t(c->o1), b = fv::blk(s); return !(k < c->n) | ((s < c->n) & ((b < t) | ((b == t) & (s < i))) ? moved(c, k, s) : untouched(c, k)); }
#ifndef FV_NATIVE
bool owns1(C const* c, uint64_t k, uint64_t t) { uint64_t s = k - uint64_t(c->o1); return s < c->n ? (fv::blk(s) == t) : t == fv_b1.nb; }
#endif
// 2-d
struct Src { bool in1, in2; uint64_t r, c, i; };
Src src(C const* c, uint64_t k, int64_t o1, int64_t o2)
{
    Src s; s.r = fv::rowof(c->s, k) - uint64_t(o1); s.c = fv::colof(c->s, k) - uint64_t(o2);
    s.in1 = s.r < c->s.rows; s.in2 = s.c < c->s.cols; s.i = fv::rowstart(c->s, s.r) + s.c; return s;
}
bool result2(C const* c, uint64_t k) { Src s = src(c, k, c->off1, c->off2); return s.in1 & s.in2 ? moved(c, k, s.i) : vacated(c, k); }
bool copied_row(C const* c, uint64_t k, uint64_t i)
{ Src s = src(c, k, c->o1, c->o2); return !(k < c->n) | (s.in1 & s.in2 & (s.r < i) ? moved(c, k, s.i) : untouched(c, k)); }
bool copied_cell(C const* c, uint64_t k, uint64_t i, uint64_t j)
{ Src s = src(c, k, c->o1, c->o2); return !(k < c->n) | (s.in1 & s.in2 & ((s.r < i) | ((s.r == i) & (s.c < j))) ? moved(c, k, s.i) : untouched(c, k)); }
bool left_rows_row(C const* c, uint64_t k, uint64_t i)
{ Src s = src(c, k, c->o1, c->o2); return !(k < c->n) | (s.in1 & s.in2 ? moved(c, k, s.i) : !s.in1 & (fv::rowof(c->s, k) < i) ? vacated(c, k) : untouched(c, k)); }
bool left_rows_cell(C const* c, uint64_t k, uint64_t i, uint64_t j)
{ Src s = src(c, k, c->o1, c->o2); uint64_t r = fv::rowof(c->s, k);
  return !(k < c->n) | (s.in1 & s.in2 ? moved(c, k, s.i) : !s.in1 & ((r < i) | ((r == i) & (fv::colof(c->s, k) < j))) ? vacated(c, k) : untouched(c, k)); }
bool left_cols_row(C const* c, uint64_t k, uint64_t i)
{ Src s = src(c, k, c->o1, c->o2); return !(k < c->n) | (s.in1 & s.in2 ? moved(c, k, s.i) : !s.in1 | (fv::rowof(c->s, k) < i) ? vacated(c, k) : untouched(c, k)); }
bool left_cols_cell(C const* c, uint64_t k, uint64_t i, uint64_t j)
{ Src s = src(c, k, c->o1, c->o2); uint64_t r = fv::rowof(c->s, k);
  return !(k < c->n) | (s.in1 & s.in2 ? moved(c, k, s.i) : !s.in1 | (r < i) | ((r == i) & (fv::colof(c->s, k) < j)) ? vacated(c, k) : untouched(c, k)); }
bool blocks2(C const* c, uint64_t k, uint64_t t)
{ Src s = src(c, k, c->o1, c->o2); return !(k < c->n) | (s.in1 & s.in2 & (fv::blk(s.r) < t) ? moved(c, k, s.i) : untouched(c, k)); }
bool in_block_row(C const* c, uint64_t k, uint64_t t, uint64_t i)
{ Src s = src(c, k, c->o1, c->o2); uint64_t b = fv::blk(s.r); return !(k < c->n) | (s.in1 & s.in2 & ((b < t) | ((b == t) & (s.r < i))) ? moved(c, k, s.i) : untouched(c, k)); }
bool in_block_cell(C const* c, uint64_t k, uint64_t t, uint64_t i, uint64_t j)
{ Src s = src(c, k, c->o1, c->o2); uint64_t b = fv::blk(s.r);
  return !(k < c->n) | (s.in1 & s.in2 & ((b < t) | ((b == t) & ((s.r < i) | ((s.r == i) & (s.c < j))))) ? moved(c, k, s.i) : untouched(c, k)); }
#ifndef FV_NATIVE
bool owns2(C const* c, uint64_t k, uint64_t t) { Src s = src(c, k, c->o1, c->o2); return s.in1 & s.in2 ? (fv::blk(s.r) == t) : t == fv_b2.nb; }
#endif
uint64_t source_at(C const* c, uint64_t i, uint64_t j) { return fv::rowstart(c->s, i) + j; }
uint64_t place_at(C const* c, uint64_t i, uint64_t j) { return fv::rowstart(c->s, i + uint64_t(c->o1)) + (j + uint64_t(c->o2)); }

int64_t any_offset(char const* name)
{
    int64_t o = fv::any<int64_t>(name);
#ifdef FV_NATIVE
    if(o % 4) o %= 7;
#endif
    return o;
}
template<int D, class P, bool F> void check()
{
    C c;
    if constexpr(D == 1) { c.n = fv::any<uint64_t>("n"); fv_small(c.n); } else { fv::any_shape(&c.s); c.n = c.s.n; }
    fv_assume(c.n > 0); if(D == 2) { fv_assume(c.s.rows > 0); fv_assume(c.s.cols > 0); }
    fv_assume(c.n <= (uint64_t(1) << 40));
    c.off1 = any_offset("offset1"); c.off2 = any_offset("offset2");
    c.o1 = limited(c.off1, D == 1 ? c.n : c.s.rows); c.o2 = limited(c.off2, D == 1 ? 0 : c.s.cols);
    c.fill = F; c.value = fv::any<T>("fill_value");
    T* v = fv::array<T>("value", c.n); T* r = fv::array<T>("result", c.n); uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(v);
    c.v = v; c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks);
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    if constexpr(D == 1) {
        fv::inv(copied1, &c); fv::inv(left1, &c);
#ifndef FV_NATIVE
        if constexpr(fv::is_parallel<P>) { fv::inv(blocks1, &c); fv::inv(in_block1, &c); fv::footprint(owns1, &c); }
#endif
        A1<T> value{v, c.n}, result{r, c.n};
        Point<int64_t, 1> offset{c.off1};
        if constexpr(F) fern::algorithm::core::offset(ip, op, ep, value, offset, c.value, result);
        else fern::algorithm::core::offset(ip, op, ep, value, offset, result);
        FV_FORALL(k, c.n) fv_assert(result1(&c, k), "elements move by the offset, the rest is marked or filled");
    }
    else {
        fv::inv(copied_row, &c); fv::inv(copied_cell, &c); fv::phi(source_at, &c); fv::phi(place_at, &c);
        fv::inv(left_rows_row, &c); fv::inv(left_rows_cell, &c); fv::inv(left_cols_row, &c); fv::inv(left_cols_cell, &c);
#ifndef FV_NATIVE
        if constexpr(fv::is_parallel<P>) { fv::inv(blocks2, &c); fv::inv(in_block_row, &c); fv::inv(in_block_cell, &c); fv::footprint(owns2, &c); }
#endif
        A2<T> value{v, c.s.rows, c.s.cols, c.n}, result{r, c.s.rows, c.s.cols, c.n};
        Point<int64_t, 2> offset{c.off1, c.off2};
        if constexpr(F) fern::algorithm::core::offset(ip, op, ep, value, offset, c.value, result);
        else fern::algorithm::core::offset(ip, op, ep, value, offset, result);
        FV_FORALL(k, c.n) fv_assert(result2(&c, k), "elements move by the offset, the rest is marked or filled");
    }
    fv::all_joined();
}
template<class P> void mark1() { check<1, P, false>(); }
template<class P> void fill1() { check<1, P, true>(); }
template<class P> void mark2() { check<2, P, false>(); }
template<class P> void fill2() { check<2, P, true>(); }
}
FV_POLICIES(offset_1d, mark1)
FV_POLICIES(offset_1d_fill, fill1)
FV_POLICIES(offset_2d, mark2)
FV_POLICIES(offset_2d_fill, fill2)

// copy: the elements of a range are copied to their place in the destination, or marked there; nothing else changes.
#define FV_RANGES_CHANGE
#define FV_RANGES_CHAIN
#include "run.h"
#include "fern/core/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/algorithm/core/copy.h"
using namespace fern; using namespace fern::algorithm;
using Pos = Point<size_t, 1>;
namespace {
using T = int64_t;
struct C { T const* src; T const* dst; T const* dst0; uint8_t const* m; uint8_t const* m0; uint64_t n, begin, len, pos; };
// element k of the destination, once `upto` elements of the range have been handled
bool untouched(C const* c, uint64_t k) { return (c->dst[k] == c->dst0[k]) & (c->m[k] == c->m0[k]); }
bool done(C const* c, uint64_t k)
{
    uint64_t i = k - c->pos + c->begin;
    return fvp_nd0(i) ? (c->m[k] != 0) & (c->dst[k] == c->dst0[k]) : (c->dst[k] == c->src[i]) & (c->m[k] == c->m0[k]);
}
bool state(C const* c, uint64_t k, bool handled) { return !(k < c->n) | ((k - c->pos < c->len) & handled ? done(c, k) : untouched(c, k)); }
bool inv_all(C const* c, uint64_t k, uint64_t i) { return state(c, k, k - c->pos < i - c->begin); }
bool inv_blk(C const* c, uint64_t k, uint64_t t) { return state(c, k, fv::blk(k - c->pos) < t); }
bool inv_in_blk(C const* c, uint64_t k, uint64_t t, uint64_t i)
{ uint64_t q = k - c->pos, b = fv::blk(q); return state(c, k, (b < t) | ((b == t) & (q < i - c->begin))); }
bool owns(C const* c, uint64_t k, uint64_t t) { return (k - c->pos < c->len) & (fv::blk(k - c->pos) == t); }
uint64_t target(C const* c, uint64_t i) { return c->pos + (i - c->begin); }
#ifndef FV_NATIVE
bool moved(C const* c, uint64_t t, uint64_t i)
{
    if(fv_b1.p == nullptr) return true;
    IndexRange const& r = fv_b1.p[t][0]; IndexRange const& o = fv_b1.o[t][0]; uint64_t d = t < i ? c->begin : 0;
    return !(t < fv_b1.nb) | ((r.begin() == o.begin() + d) & (r.end() == o.end() + d));
}
bool placed(C const* c, uint64_t t, uint64_t i)
{ return !((t < i) & (t < fv_b1.nb)) | (std::vector<Pos>::last[t][0] == c->pos + fv_b1.o[t][0].begin()); }
#endif
template<class P> void check()
{
    C c; c.n = fv::any<uint64_t>("n"); fv_small(c.n);
    c.begin = fv::any<uint64_t>("begin"); c.len = fv::any<uint64_t>("length"); c.pos = fv::any<uint64_t>("position");
#ifdef FV_NATIVE
    c.begin %= c.n + 1; c.len %= c.n - c.begin + 1; c.pos %= c.n - c.len + 1;
#endif
    fv_assume(c.begin <= c.n); fv_assume(c.len <= c.n - c.begin); fv_assume(c.pos <= c.n - c.len);
    T* src = fv::array<T>("source", c.n); T* dst = fv::array<T>("destination", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    fv::readonly(src);
    c.src = src; c.dst = dst; c.dst0 = fv::snapshot(dst); c.m = marks; c.m0 = fv::snapshot(marks);
    fv::inv(inv_all, &c); fv::inv(inv_blk, &c); fv::inv(inv_in_blk, &c); fv::phi(target, &c); fv::footprint(owns, &c);
#ifndef FV_NATIVE
    fv::inv(moved, &c); fv::inv(placed, &c);
#endif
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    A1<T> source{src, c.n}, destination{dst, c.n};
    IndexRanges<1> range{IndexRange(c.begin, c.begin + c.len)};
    Pos position{c.pos};
    fern::algorithm::core::copy(ip, op, ep, source, range, destination, position);
    FV_FORALL(k, c.n) fv_assert(state(&c, k, true), "exactly the elements of the range are copied or marked");
    fv::all_joined();
}
}
FV_POLICIES(copy_1d, check)

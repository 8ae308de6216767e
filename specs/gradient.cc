// gradient_x, gradient_y: difference with the neighbours in one direction, over their distance; 0 without valid neighbours.
#include "run.h"
#include "fern/algorithm/algebra/vector/gradient.h"
using namespace fern; using namespace fern::algorithm;
namespace fern {
// any 2-d raster: a 2-d container with cell sizes
template<class T> struct R2 { A2<T> a; double size_x, size_y; };
template<class T> struct DataTypeTraits<R2<T>>: DataTypeTraits<A2<T>> {
    template<class U> struct Clone { using type = R2<U>; };
    using argument_category = raster_2d_tag;
};
template<class T> inline size_t size(R2<T> const& a) { return a.a.n; }
template<class T> inline size_t size(R2<T> const& a, size_t d) { return size(a.a, d); }
template<class T> inline T const& get(R2<T> const& a, size_t i) { return a.a.p[i]; }
template<class T> inline T& get(R2<T>& a, size_t i) { return a.a.p[i]; }
template<class T> inline size_t index(R2<T> const& a, size_t r, size_t c) { return index(a.a, r, c); }
template<class T> inline double cell_size(R2<T> const& a, size_t d) { return d == 0 ? a.size_x : a.size_y; }
}
namespace {
template<class T, bool X> struct G {
struct C { T const* v; T const* r; T const* r0; uint8_t const* m; uint8_t const* m0; uint64_t n; fv::Shape2 s; double d; };
static bool untouched(C const* c, uint64_t k) { return fv::same(c->r[k], c->r0[k]) & (c->m[k] == c->m0[k]); }
static uint64_t pos(C const* c, uint64_t k) { return X ? fv::colof(c->s, k) : fv::rowof(c->s, k); }
static uint64_t last(C const* c) { return (X ? c->s.cols : c->s.rows) - 1; }
static uint64_t previous(C const* c, uint64_t k) { return X ? k - 1 : fv::rowstart(c->s, fv::rowof(c->s, k) - 1) + fv::colof(c->s, k); }
static uint64_t next(C const* c, uint64_t k) { return X ? k + 1 : fv::rowstart(c->s, fv::rowof(c->s, k) + 1) + fv::colof(c->s, k); }
static T difference(T a, T b, double d) { return (b - a) / d; }
static bool done(C const* c, uint64_t k)
{
    if(fvp_nd0(k)) return (c->m[k] != 0) & fv::same(c->r[k], c->r0[k]);
    uint64_t p = pos(c, k);
    bool hp = p > 0 && !fvp_nd0(previous(c, k)), hn = p < last(c) && !fvp_nd0(next(c, k));
    T e = 0;
    if(hp && hn) e = difference(c->v[previous(c, k)], c->v[next(c, k)], c->d + c->d);
    else if(hp) e = difference(c->v[previous(c, k)], c->v[k], c->d);
    else if(hn) e = difference(c->v[k], c->v[next(c, k)], c->d);
    return fv::same(c->r[k], e) & (c->m[k] == c->m0[k]);
}
// the elements are handled border first: those at position 0, then the last ones, then the other ones
static bool state(C const* c, uint64_t k, bool handled) { return !(k < c->n) | (handled ? done(c, k) : untouched(c, k)); }
static bool before(C const* c, uint64_t k, uint64_t i) { return fv::rowof(c->s, k) < i; }
static bool before(C const* c, uint64_t k, uint64_t i, uint64_t j) { uint64_t r = fv::rowof(c->s, k); return (r < i) | ((r == i) & (fv::colof(c->s, k) < j)); }
template<int B, class... A> static bool handled(C const* c, uint64_t k, A... a)
{
    uint64_t p = pos(c, k); bool b = before(c, k, a...);
    return B == 0 ? (p == 0) & b : B == 1 ? (p == 0) | ((p == last(c)) & b) : (p == 0) | (p == last(c)) | b;
}
template<int B> static bool row(C const* c, uint64_t k, uint64_t i) { return state(c, k, handled<B>(c, k, i)); }
template<int B> static bool cell(C const* c, uint64_t k, uint64_t i, uint64_t j) { return state(c, k, handled<B>(c, k, i, j)); }
static bool first_row(C const* c, uint64_t k, uint64_t j) { return state(c, k, (fv::rowof(c->s, k) == 0) & (fv::colof(c->s, k) < j)); }
static uint64_t blk(C const* c, uint64_t k) { return fv::blk(fv::rowof(c->s, k)); }
static bool block(C const* c, uint64_t k, uint64_t t) { return state(c, k, blk(c, k) < t); }
template<int B> static bool block_row(C const* c, uint64_t k, uint64_t t, uint64_t i) { uint64_t b = blk(c, k); return state(c, k, (b < t) | ((b == t) & handled<B>(c, k, i))); }
template<int B> static bool block_cell(C const* c, uint64_t k, uint64_t t, uint64_t i, uint64_t j) { uint64_t b = blk(c, k); return state(c, k, (b < t) | ((b == t) & handled<B>(c, k, i, j))); }
static bool owns(C const* c, uint64_t k, uint64_t t) { return blk(c, k) == t; }
template<class P> static void check()
{
    C c; fv::any_shape(&c.s); c.n = c.s.n;
    fv_assume((X ? c.s.cols : c.s.rows) >= 2);
    T* v = fv::array<T>("value", c.n); T* r = fv::array<T>("result", c.n);
    uint8_t* marks = fv::array<uint8_t>("marks", c.n);
    double dx = fv::any<double>("cell size x"), dy = fv::any<double>("cell size y");
    fv::readonly(v);
    c.v = v; c.r = r; c.r0 = fv::snapshot(r); c.m = marks; c.m0 = fv::snapshot(marks); c.d = X ? dx : dy;
    if constexpr(!fv::is_parallel<P>) {
        fv::inv(row<0>, &c); fv::inv(row<1>, &c); fv::inv(row<2>, &c);
        fv::inv(cell<0>, &c); fv::inv(cell<1>, &c); fv::inv(cell<2>, &c);
        if constexpr(!X) fv::inv(first_row, &c);
    } else {
        fv::inv(block, &c);
        fv::inv(block_row<0>, &c); fv::inv(block_row<1>, &c); fv::inv(block_row<2>, &c);
        fv::inv(block_cell<0>, &c); fv::inv(block_cell<1>, &c); fv::inv(block_cell<2>, &c);
        fv::footprint(owns, &c);
    }
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
    R2<T> value{{v, c.s.rows, c.s.cols, c.n}, dx, dy}, result{{r, c.s.rows, c.s.cols, c.n}, dx, dy};
    if constexpr(X) algebra::gradient_x(ip, op, ep, value, result); else algebra::gradient_y(ip, op, ep, value, result);
    FV_FORALL(k, c.n) fv_assert(done(&c, k), "every element is the gradient, or marked");
    fv::all_joined();
}
};
template<class P> void check_x() { G<double, true>::check<P>(); }
template<class P> void check_y() { G<double, false>::check<P>(); }
}
FV_POLICIES(gradient_x, check_x)
FV_POLICIES(gradient_y, check_y)

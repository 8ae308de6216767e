// Unary aggregates: the result is the aggregate of exactly the valid elements, in order, merged block by block; it is marked
// when there are none, or when adding an element or merging the result of a block goes out of range.
#define FV_RANGES_CHAIN
#define FV_BLOCK_LEMMAS
#include "local.h"
#include "run.h"
#include "fern/algorithm/core/unary_aggregate_operation.h"
using namespace fern; using namespace fern::algorithm;
namespace {
using T = int64_t; using R = int64_t; using St = uint32_t;   // 32 bits: tells the state from the positions
struct C { T const* v; uint64_t n; fv::Shape2 s; bool two, risk; };
}
#ifndef FV_NATIVE
// the state of an accumulator: any value; adding and merging: any functions (merging is associative: lemma below)
FV_PURE0(St, fvp_none)
FV_PURE2(St, fvp_added, St, T)
FV_PURE2(St, fvp_merged, St, St)
FV_PURE1(bool, fvp_ok, St)
FV_PURE1(R, fvp_value, St)
namespace {
struct State {
    St st;
    State(): st(fvp_none()) {}
    bool add(T const& v) { st = fvp_added(st, v); return fvp_ok(st); }
    bool merge(State const& o) { st = fvp_merged(st, o.st); return fvp_ok(st); }
    R value() const { return fvp_value(st); }
};
}
// aggregate of the elements of block t before element i (row i, column j); whether there are valid ones; whether they are in range
FV_PURE2(St, fvp_agg, uint64_t, uint64_t)
FV_PURE2(bool, fvp_any, uint64_t, uint64_t)
FV_PURE2(bool, fvp_fit, uint64_t, uint64_t)
// the same for the blocks before block t, merged
FV_PURE1(St, fvp_aggs, uint64_t)
FV_PURE1(bool, fvp_anys, uint64_t)
FV_PURE1(bool, fvp_fits, uint64_t)
#else
namespace {
struct State {      // order of the elements matters
    uint64_t h = 0, p = 1;
    static bool good(T v) { return fvn::mix(uint64_t(v) + 5) % 8 != 0; }
    bool add(T const& v) { h = h * 1099511628211ull + fvn::mix(uint64_t(v)); p *= 1099511628211ull; return good(v); }
    bool merge(State const& o) { h = h * o.p + o.h; p *= o.p; return true; }
    R value() const { return R(h >> 20); }
};
}
#endif
namespace {
template<class A, class Result> struct Risky: State {
    static bool const out_of_range_risk = true;
    void operator()(A const&) = delete; Risky& operator|=(Risky const&) = delete;
    template<template<typename, typename, typename> class P> bool operator()(A const& v) { return add(v); }
    template<template<typename, typename, typename> class P> bool operator|=(Risky const& o) { return merge(o); }
    Result operator()() const { return value(); }
};
template<class A, class Result> struct Safe: State {
    static bool const out_of_range_risk = false;
    void operator()(A const& v) { add(v); }
    Safe& operator|=(Safe const& o) { merge(o); return *this; }
    Result operator()() const { return value(); }
};
#ifndef FV_NATIVE
bool fits(C const* c, St st) { return !c->risk | fvp_ok(st); }
// the elements of block t (of rows)
uint64_t first(C const* c, uint64_t t) { return c->two ? fv::rowstart(c->s, fvp_begin(t)) : fvp_begin(t); }
uint64_t last(C const* c, uint64_t t) { return first(c, t + 1); }
uint64_t blocks(C const* c) { return c->two ? fv_b2.nb : fv_b1.nb; }
// definitions: aggregating stops at the first element that is out of range
bool ax_agg(C const* c, uint64_t t, uint64_t i)
{
    St a = fvp_agg(t, i); bool skip = fvp_nd0(i) | !fvp_fit(t, i); St b = fvp_added(a, c->v[i]);
    bool start = (fvp_agg(t, first(c, t)) == fvp_none()) & !fvp_any(t, first(c, t)) & fvp_fit(t, first(c, t));
    return start & (!((first(c, t) <= i) & (i < c->n)) |
        ((fvp_agg(t, i + 1) == (skip ? a : b)) & (fvp_any(t, i + 1) == (fvp_any(t, i) | !skip)) & (fvp_fit(t, i + 1) == (fvp_fit(t, i) & (skip | fits(c, b))))));
}
// lemma (by induction): aggregates do not change anymore after the first element that is out of range
bool ax_stop(C const* c, uint64_t t, uint64_t i)
{
    uint64_t j = i + 1, l = last(c, t);
    return !((first(c, t) <= i) & (i < l)) | fvp_fit(t, j) | (!fvp_fit(t, l) & (fvp_agg(t, l) == fvp_agg(t, j)) & (fvp_any(t, j) == fvp_any(t, l)));
}
uint64_t within(C const* c, uint64_t t, uint64_t i) { return i < last(c, t) ? i : last(c, t); }
St agg1(C const* c, uint64_t t, uint64_t i) { return fvp_agg(t, within(c, t, i)); }
bool any1(C const* c, uint64_t t, uint64_t i) { return fvp_any(t, within(c, t, i)); }
bool fit1(C const* c, uint64_t t, uint64_t i) { return fvp_fit(t, within(c, t, i)); }
St agg0(C const* c, uint64_t i) { return agg1(c, 0, i); }
bool any0(C const* c, uint64_t i) { return any1(c, 0, i); }
bool fit0(C const* c, uint64_t i) { return fit1(c, 0, i); }
// the second loop, after the first valid element
St agg0n(C const* c, uint64_t, uint64_t i) { return agg1(c, 0, i); }
bool any0n(C const* c, uint64_t, uint64_t i) { return any1(c, 0, i); }
bool fit0n(C const* c, uint64_t, uint64_t i) { return fit1(c, 0, i); }
St agg1n(C const* c, uint64_t t, uint64_t, uint64_t i) { return agg1(c, t, i); }
bool any1n(C const* c, uint64_t t, uint64_t, uint64_t i) { return any1(c, t, i); }
bool fit1n(C const* c, uint64_t t, uint64_t, uint64_t i) { return fit1(c, t, i); }
// 2-d: before column j of row i
uint64_t before(C const* c, uint64_t t, uint64_t i, uint64_t j) { return i < fvp_begin(t + 1) ? fv::rowstart(c->s, i) + j : last(c, t); }
uint64_t place0(C const* c, uint64_t i, uint64_t j) { return fv::rowstart(c->s, i) + j; }
uint64_t place1(C const* c, uint64_t, uint64_t i, uint64_t j) { return fv::rowstart(c->s, i) + j; }
St agg_row0(C const* c, uint64_t i) { return fvp_agg(0, before(c, 0, i, 0)); }
bool any_row0(C const* c, uint64_t i) { return fvp_any(0, before(c, 0, i, 0)); }
bool fit_row0(C const* c, uint64_t i) { return fvp_fit(0, before(c, 0, i, 0)); }
St agg_cell0(C const* c, uint64_t i, uint64_t j) { return fvp_agg(0, before(c, 0, i, j)); }
bool any_cell0(C const* c, uint64_t i, uint64_t j) { return fvp_any(0, before(c, 0, i, j)); }
bool fit_cell0(C const* c, uint64_t i, uint64_t j) { return fvp_fit(0, before(c, 0, i, j)); }
St agg_row1(C const* c, uint64_t t, uint64_t i) { return fvp_agg(t, before(c, t, i, 0)); }
bool any_row1(C const* c, uint64_t t, uint64_t i) { return fvp_any(t, before(c, t, i, 0)); }
bool fit_row1(C const* c, uint64_t t, uint64_t i) { return fvp_fit(t, before(c, t, i, 0)); }
St agg_cell1(C const* c, uint64_t t, uint64_t i, uint64_t j) { return fvp_agg(t, before(c, t, i, j)); }
bool any_cell1(C const* c, uint64_t t, uint64_t i, uint64_t j) { return fvp_any(t, before(c, t, i, j)); }
bool fit_cell1(C const* c, uint64_t t, uint64_t i, uint64_t j) { return fvp_fit(t, before(c, t, i, j)); }
// nothing valid yet
bool empty_at(C const*, uint64_t t, uint64_t p) { return (fvp_agg(t, p) == fvp_none()) & !fvp_any(t, p) & fvp_fit(t, p); }
bool empty_row0(C const* c, uint64_t, uint64_t i) { return empty_at(c, 0, before(c, 0, i, 0)); }
bool empty_cell0(C const* c, uint64_t, uint64_t i, uint64_t j) { return empty_at(c, 0, before(c, 0, i, j)); }
bool empty_row1(C const* c, uint64_t, uint64_t t, uint64_t i) { return empty_at(c, t, before(c, t, i, 0)); }
bool empty_cell1(C const* c, uint64_t, uint64_t t, uint64_t i, uint64_t j) { return empty_at(c, t, before(c, t, i, j)); }
// no need to continue after the first value that is out of range
bool fits_cell0(C const* c, uint64_t, uint64_t i, uint64_t j) { return !(i < fvp_begin(1)) | fvp_fit(0, before(c, 0, i, j)); }
bool fits_cell1(C const* c, uint64_t, uint64_t t, uint64_t i, uint64_t j) { return !(i < fvp_begin(t + 1)) | fvp_fit(t, before(c, t, i, j)); }
// lemma (by induction): rows follow each other
bool ax_rows(fv::Shape2 const* s, uint64_t a, uint64_t b) { return !((a < b) & (b <= s->rows)) | (fvp_row(a) + s->cols <= fvp_row(b)); }
// the results of the blocks, merged in order
bool ax_merge(C const* c, uint64_t t)
{
    uint64_t l = last(c, t); St a = fvp_agg(t, l); bool skip = !fvp_any(t, l) | !fvp_fits(t), bad = !fvp_fit(t, l); St b = fvp_merged(fvp_aggs(t), a);
    bool start = (fvp_aggs(0) == fvp_none()) & !fvp_anys(0) & fvp_fits(0);
    return start & (!(t < blocks(c)) | (skip ? (fvp_aggs(t + 1) == fvp_aggs(t)) & (fvp_anys(t + 1) == fvp_anys(t)) & (fvp_fits(t + 1) == fvp_fits(t)) :
        bad ? !fvp_fits(t + 1) : (fvp_aggs(t + 1) == b) & fvp_anys(t + 1) & (fvp_fits(t + 1) == fits(c, b))));
}
// lemma (by induction)
bool ax_merge_stop(C const* c, uint64_t t) { return !(t < blocks(c)) | fvp_fits(t + 1) | !fvp_fits(blocks(c)); }
St aggs(C const*, uint64_t t) { return fvp_aggs(t); }
bool anys(C const*, uint64_t t) { return fvp_anys(t); }
bool fine(C const*, uint64_t t) { return fvp_anys(t) & fvp_fits(t); }
template<class A> bool result_of(C const* c, std::tuple<bool, bool, A> const& r, uint64_t t)
{ uint64_t l = last(c, t); return (std::get<0>(r) == fvp_any(t, l)) & (std::get<1>(r) == fvp_fit(t, l)) & (std::get<2>(r).st == fvp_agg(t, l)); }
template<class A> bool submitted(C const* c, uint64_t k, uint64_t t) { return !((k < t) & (t <= blocks(c))) | result_of(c, std::vector<std::future<std::tuple<bool, bool, A>>>::last[k].r, k); }
template<class A> bool collected(C const* c, uint64_t k, uint64_t t) { return !((k < t) & (t <= blocks(c))) | result_of(c, std::vector<std::tuple<bool, bool, A>>::last[k], k); }
bool still(C const*, uint64_t, uint64_t t) { return fvp_fits(t); }
bool nothing(C const*, uint64_t, uint64_t) { return false; }
C const* the;
}
namespace fv {
void block_lemmas(Blocks1 const*) { axiom(ax_merge, the, ""); axiom(ax_merge_stop, the, ""); }
void block_lemmas(Blocks2 const*) { axiom(ax_merge, the, ""); axiom(ax_merge_stop, the, ""); }
}
namespace {
#endif
template<class P> void result(C const& c, R const* r, uint8_t const* marks, R r0, uint8_t m0)
{
#ifndef FV_NATIVE
    uint64_t nb = blocks(&c); fv_term(nb);
    bool valid = fv::is_parallel<P> ? fvp_anys(nb) & fvp_fits(nb) : fvp_any(0, c.n) & fvp_fit(0, c.n); R expected = fvp_value(fv::is_parallel<P> ? fvp_aggs(nb) : fvp_agg(0, c.n));
#else
    bool found = false, fit = true; State s;
    for(uint64_t i = 0; i < c.n; ++i) if(!fvp_nd0(i)) { found = true; fit &= s.add(c.v[i]) | !c.risk; }
    bool valid = found & fit; R expected = s.value();
#endif
    fv_assert(valid ? (*r == expected) & (marks[0] == m0) : (marks[0] != 0) & (*r == r0), "aggregate of the valid elements, or no-data");
    fv::all_joined();
}
template<class P, template<class, class> class Acc> void check_1d()
{
    C c; c.n = fv::any<uint64_t>("n"); fv_small(c.n); c.two = false; c.risk = Acc<T, R>::out_of_range_risk;
    T* v = fv::array<T>("value", c.n); R* r = fv::array<R>("result", 1); uint8_t* marks = fv::array<uint8_t>("marks", 1);
    fv::readonly(v); c.v = v;
    R r0 = r[0]; uint8_t m0 = marks[0];
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
#ifndef FV_NATIVE
    if(!fv::is_parallel<P>) { fv_assume(fvp_begin(0) == 0); fv_assume(fvp_begin(1) == c.n); }
    fv_term(0); fv_term(c.n);
    for(char const* f : {"fvp_agg", "fvp_any", "fvp_fit"}) { fv::axiom(ax_agg, &c, f); fv::axiom(ax_stop, &c, f); }
    if(!fv::is_parallel<P>) { fv::phi(agg0, &c); fv::phi(any0, &c); fv::phi(fit0, &c); fv::phi(agg0n, &c); fv::phi(any0n, &c); fv::phi(fit0n, &c); }
    else {
        the = &c;
        fv::phi(agg1, &c); fv::phi(any1, &c); fv::phi(fit1, &c); fv::phi(agg1n, &c); fv::phi(any1n, &c); fv::phi(fit1n, &c);
        fv::phi(aggs, &c); fv::phi(anys, &c); fv::phi(fine, &c);
        fv::inv(submitted<Acc<T, R>>, &c); fv::inv(collected<Acc<T, R>>, &c);
        fv::inv(still, &c); fv::footprint(nothing, &c);
    }
#endif
    A1<T> value{v, c.n};
    unary_aggregate_operation<Acc, unary::DiscardDomainErrors, binary::DiscardRangeErrors>(ip, op, ep, value, *r);
    result<P>(c, r, marks, r0, m0);
}
template<class P, template<class, class> class Acc> void check_2d()
{
    C c; fv::any_flat_shape(&c.s); c.n = c.s.n; c.two = true; c.risk = Acc<T, R>::out_of_range_risk;
    T* v = fv::array<T>("value", c.n); R* r = fv::array<R>("result", 1); uint8_t* marks = fv::array<uint8_t>("marks", 1);
    fv::readonly(v); c.v = v;
    R r0 = r[0]; uint8_t m0 = marks[0];
    InputNoDataPolicies<fv::In<0>> ip{{}};
    fv::Out op{marks};
    auto ep = fv::policy<P>();
#ifndef FV_NATIVE
    if(!fv::is_parallel<P>) { fv_assume(fvp_begin(0) == 0); fv_assume(fvp_begin(1) == c.s.rows); fv_term(1); }
    fv_term(0); fv_term(c.n);
    for(char const* f : {"fvp_agg", "fvp_any", "fvp_fit"}) { fv::axiom(ax_agg, &c, f); fv::axiom(ax_stop, &c, f); } fv::axiom(ax_rows, &c.s, "fvp_row,fvp_row");
    if(!fv::is_parallel<P>) {
        fv::phi(agg_row0, &c); fv::phi(any_row0, &c); fv::phi(fit_row0, &c); fv::phi(agg_cell0, &c); fv::phi(any_cell0, &c); fv::phi(fit_cell0, &c);
        fv::phi(place0, &c); fv::inv(empty_row0, &c); fv::inv(empty_cell0, &c); fv::inv(fits_cell0, &c);
    }
    else {
        the = &c;
        fv::phi(agg_row1, &c); fv::phi(any_row1, &c); fv::phi(fit_row1, &c); fv::phi(agg_cell1, &c); fv::phi(any_cell1, &c); fv::phi(fit_cell1, &c);
        fv::phi(place1, &c); fv::inv(empty_row1, &c); fv::inv(empty_cell1, &c); fv::inv(fits_cell1, &c);
        fv::phi(aggs, &c); fv::phi(anys, &c); fv::phi(fine, &c);
        fv::inv(submitted<Acc<T, R>>, &c); fv::inv(collected<Acc<T, R>>, &c);
        fv::inv(still, &c); fv::footprint(nothing, &c);
    }
#endif
    A2<T> value{v, c.s.rows, c.s.cols, c.n};
    unary_aggregate_operation<Acc, unary::DiscardDomainErrors, binary::DiscardRangeErrors>(ip, op, ep, value, *r);
    result<P>(c, r, marks, r0, m0);
}
template<class P> void risky_1d() { check_1d<P, Risky>(); }
template<class P> void safe_1d() { check_1d<P, Safe>(); }
template<class P> void risky_2d() { check_2d<P, Risky>(); }
template<class P> void safe_2d() { check_2d<P, Safe>(); }
}
FV_POLICIES(aggregate_1d, risky_1d)
FV_POLICIES(aggregate_1d_safe, safe_1d)
FV_POLICIES(aggregate_2d, risky_2d)
FV_POLICIES(aggregate_2d_safe, safe_2d)
#ifndef FV_NATIVE
// Lemmas (ghost code) by induction.
namespace {
struct L { uint64_t t, p; C c; };
bool stopped(L const* l, uint64_t, uint64_t i)
{ uint64_t t = l->t, j = l->p + 1; return !fvp_fit(t, i) & (fvp_agg(t, i) == fvp_agg(t, j)) & (fvp_any(t, i) == fvp_any(t, j)); }
bool merge_stopped(L const*, uint64_t, uint64_t i) { return !fvp_fits(i); }
bool rows_so_far(L const* l, uint64_t, uint64_t i) { return fvp_row(l->p) + l->c.s.cols <= fvp_row(i); }
}
FV_CHECK(lemma_stop)
{
    L l; l.t = fv::any<uint64_t>("t"); l.p = fv::any<uint64_t>("p"); l.c.n = fv::any<uint64_t>("n"); l.c.two = false; l.c.risk = fv::any<bool>("risk");
    l.c.v = fv::array<T>("value", l.c.n);
    uint64_t end = fvp_begin(l.t + 1);
    fv_assume(l.c.n <= (uint64_t(1) << 40)); fv_assume(end <= l.c.n); fv_assume(fvp_begin(l.t) <= l.p); fv_assume(l.p < end);
    fv_assume(!fvp_fit(l.t, l.p + 1));
    fv::axiom(ax_agg, &l.c, "fvp_agg");
    fv::inv(stopped, &l);
    for(uint64_t i = l.p + 1; i != end; ++i) { fv_term(i); fv_term(i + 1); }
    fv_assert(ax_stop(&l.c, l.t, l.p), "aggregates do not change anymore after the first element that is out of range");
}
FV_CHECK(lemma_merge_stop)
{
    L l; l.t = fv::any<uint64_t>("t"); l.c.n = 0; l.c.two = false; l.c.risk = fv::any<bool>("risk");
    fv_b1.nb = fv::any<uint64_t>("nr_ranges"); fv_assume(fv_b1.nb < (uint64_t(1) << 40));
    fv_assume(l.t < fv_b1.nb); fv_assume(!fvp_fits(l.t + 1));
    fv::axiom(ax_merge, &l.c, "");
    fv::inv(merge_stopped, &l);
    for(uint64_t i = l.t + 1; i != fv_b1.nb; ++i) { fv_term(i); fv_term(i + 1); }
    fv_assert(ax_merge_stop(&l.c, l.t), "the merged result stays out of range");
}
FV_CHECK(lemma_rows)
{
    L l; fv::any_flat_shape(&l.c.s); l.p = fv::any<uint64_t>("a"); uint64_t b = fv::any<uint64_t>("b");
    fv_assume(l.p < b); fv_assume(b <= l.c.s.rows);
    fv_term(l.p); fv_term(b);
    fv::inv(rows_so_far, &l);
    for(uint64_t i = l.p + 1; i != b; ++i) { fv_term(i); fv_term(i + 1); }
    fv_assert(ax_rows(&l.c.s, l.p, b), "rows follow each other");
}
#endif

// Lemmas (ghost code) about counts of valid elements and about blocks, used by compress.cc.
#define FV_RANGES_CHAIN
#include "run.h"
#include "rank.h"
#ifndef FV_NATIVE
using namespace fern; using namespace fern::algorithm;
namespace {
struct N { uint64_t n, a; };
bool ordered_so_far(N const* c, uint64_t, uint64_t i) { return !((c->a <= i) & (i <= c->n)) | fv::ordered(c->a, i); }
bool ax_ordered(uint64_t const* n, uint64_t a, uint64_t b) { return !((a <= b) & (b <= *n)) | fv::ordered(a, b); }
// rank increases by the number of elements at most
bool at_most_so_far(N const* c, uint64_t, uint64_t i) { return !(i <= c->n) | (fvp_rank(i) <= i); }
bool ax_at_most(uint64_t const* n, uint64_t i) { return !(i <= *n) | (fvp_rank(i) <= i); }
}
FV_CHECK(lemma_rank_is_at_most)
{
    N c; c.n = fv::any<uint64_t>("n"); uint64_t b = fv::any<uint64_t>("b");
    fv_assume(c.n <= (uint64_t(1) << 40)); fv_assume(b <= c.n);
    fv::axiom(fv::ax_rank, &c.n, "");
    fv::inv(at_most_so_far, &c);
    fv_term(0); fv_term(b);
    for(uint64_t i = 0; i != b; ++i) { fv_term(i); fv_term(i + 1); }
    fv_assert(ax_at_most(&c.n, b), "rank is at most the number of elements");
}
// rank does not decrease
FV_CHECK(lemma_rank_is_monotone)
{
    N c; c.n = fv::any<uint64_t>("n"); c.a = fv::any<uint64_t>("a"); uint64_t b = fv::any<uint64_t>("b");
    fv_assume(c.n <= (uint64_t(1) << 40)); fv_assume(c.a <= b); fv_assume(b <= c.n);
    fv::axiom(fv::ax_rank, &c.n, ""); fv::axiom(ax_at_most, &c.n, "");
    fv::inv(ordered_so_far, &c);
    fv_term(c.a); fv_term(b);
    for(uint64_t i = c.a; i != b; ++i) { fv_term(i); fv_term(i + 1); }
    fv_assert(ax_ordered(&c.n, c.a, b), "rank is monotone");
}
// the forms in which it is used
FV_CHECK(lemma_rank)
{
    uint64_t n = fv::any<uint64_t>("n"), a = fv::any<uint64_t>("a"), b = fv::any<uint64_t>("b");
    fv_assume(n <= (uint64_t(1) << 40)); 
    fv::axiom(fv::ax_rank, &n, ""); fv::axiom(ax_ordered, &n, "");
    fv_term(0); fv_term(n); fv_term(a); fv_term(a + 1); fv_term(b);
    fv_assert(fv::ax_rank_size(&n, b), "rank and size");
    fv_assert(fv::ax_rank_valid(&n, a), "rank of a valid element");
    fv_assert(!(a < n) | fv::ax_ranks(&n, a, b), "ranks of two positions");
}
namespace {
template<class V> void any_element(V const& v, uint64_t k, uint64_t t)
{ uint64_t b = fvp_blk(k); fv_term(k); fv_term(k + 1); fv_term(b); fv_term(b + 1); fv_term(t); fv_term(t + 1); fv_term(v.size()); }
}
// blocks in the order of their numbers, from the uniqueness of owners
FV_CHECK(lemma_blocks)
{
    uint64_t n = fv::any<uint64_t>("n"), k = fv::any<uint64_t>("k"), t = fv::any<uint64_t>("t");
    fv_assume(n <= (uint64_t(1) << 40)); fv_assume(k < n);
    fv::axiom(fv::ax_rank, &n, ""); fv::axiom(ax_ordered, &n, "");
    auto v = index_ranges(fv::any<uint64_t>("blocks") | 1, n);
    any_element(v, k, t);
    for(uint64_t x : {uint64_t(0), k, k + 1, fvp_begin(fvp_blk(k)), fvp_begin(fvp_blk(k) + 1), fvp_begin(t), fvp_begin(t + 1)}) fv_term(x);
    fv_assert(fv::ax_rank_in_block(&fv_b1, k), "ranks in the block of an element");
    fv_assert(fv::ax_rank_begin(&fv_b1, t), "ranks of adjacent blocks");
    fv_assert(fv::ax_rank_begins(&fv_b1, t, k), "ranks of an element and a block");
}
// the place of an element at the front of its block is in the block
FV_CHECK(lemma_place)
{
    uint64_t n = fv::any<uint64_t>("n"), k = fv::any<uint64_t>("k");
    fv_assume(n <= (uint64_t(1) << 40)); fv_assume(k < n);
    fv::axiom(fv::ax_rank, &n, ""); fv::axiom(ax_ordered, &n, "");
    auto v = index_ranges(fv::any<uint64_t>("blocks") | 1, n);
    uint64_t b = fvp_blk(k);
    any_element(v, k, b);
    for(uint64_t x : {k, fvp_begin(b), fvp_begin(b + 1), fv::loc1(k)}) fv_term(x);
    fv_assert(fv::ax_loc1(&fv_b1, k), "the place of an element is in its block, not after the element");
}
#endif

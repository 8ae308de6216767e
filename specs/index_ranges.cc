// index_ranges(): the blocks partition the positions.  The contract used for index_ranges() by the proofs of the parallel
// operations (parallel.h: ax_block, ax_block_cols, ax_owner, ax_only_owner) follows from the chain property proved for the
// body, by the two lemmas at the end (induction over the blocks).
#define FV_REAL_INDEX_RANGES
#include "parallel.h"
using namespace fern::algorithm;
namespace {
struct C { uint64_t nt, size; };
uint64_t height(C const* c) { return c->size / c->nt; }
#ifndef FV_NATIVE
template<size_t D> bool filled(C const* c, uint64_t k, uint64_t i)
{
    auto const& r = std::vector<IndexRanges<D>>::last[k][0];
    return !(k < i) | ((r.begin() == k * height(c)) & (r.end() == k * height(c) + height(c)));
}
struct C2: C { uint64_t size2; };
bool columns(C2 const* c, uint64_t k, uint64_t i)
{
    auto const& r = std::vector<IndexRanges<2>>::last[k][1];
    return !(k < i) | ((r.begin() == 0) & (r.end() == c->size2));
}
uint64_t offset(C const* c, uint64_t i) { return i * height(c); }
template<size_t D> void invariants(C const* c) { fv::inv(filled<D>, c); fv::phi(offset, c); }
#else
struct C2: C { uint64_t size2; };
template<size_t D> void invariants(C const* c) {}
#endif
// the blocks are adjacent, in order, and cover [0, size)
template<size_t D> void chain(std::vector<IndexRanges<D>> const& v, uint64_t size)
{
    uint64_t nb = v.size();
    fv_assert((nb > 0) | (size == 0), "no block is missing");
    if(nb > 0) {
        fv_assert(v[0][0].begin() == 0, "first block starts at the first position");
        fv_assert(v[nb - 1][0].end() == size, "last block ends at the last position");
    }
    FV_FORALL(t, nb) {
        fv_assert(v[t][0].begin() < v[t][0].end(), "no block is empty");
        fv_assert(v[t][0].end() <= size, "end of block not past the last position");
        if(t + 1 < nb) { fv_term(t + 1); fv_assert(v[t][0].end() == v[t + 1][0].begin(), "blocks are adjacent"); }
    }
}
}
FV_CHECK(index_ranges_1d)
{
    C c; c.nt = fv::any<uint64_t>("nr_threads"); c.size = fv::any<uint64_t>("size");
    fv_assume(c.nt > 0);
#ifdef FV_NATIVE
    fv_assume(c.nt < 5000);
#endif
    invariants<1>(&c);
    std::vector<IndexRanges<1>> v = index_ranges(c.nt, c.size);
    chain(v, c.size);
}
FV_CHECK(index_ranges_2d)
{
    C2 c; c.nt = fv::any<uint64_t>("nr_threads"); c.size = fv::any<uint64_t>("size1"); c.size2 = fv::any<uint64_t>("size2");
    fv_assume(c.nt > 0);
#ifdef FV_NATIVE
    fv_assume(c.nt < 5000);
#else
    fv::inv(columns, &c);
#endif
    invariants<2>(&c);
    std::vector<IndexRanges<2>> v = index_ranges(c.nt, c.size, c.size2);
    chain(v, c.size);
    FV_FORALL(t, v.size()) {
        fv_assert(v[t][1].begin() == 0, "block starts at the first column");
        fv_assert(v[t][1].end() == c.size2, "block ends at the last column");
    }
}
#ifndef FV_NATIVE
// Lemmas: from adjacent blocks (b[t], e[t]) to: every position is in exactly one block.
namespace {
struct L { uint64_t const* b; uint64_t const* e; uint64_t nb, size, x; };
bool adjacent(L const* c, uint64_t t)
{
    return !(t < c->nb) | ((c->b[t] <= c->e[t]) & (c->e[t] <= c->size) & ((t != 0) | (c->b[t] == 0)) & ((t + 1 != c->nb) | (c->e[t] == c->size)) &
        ((t + 1 >= c->nb) | (c->e[t] == c->b[t + 1])));
}
void any_blocks(L& c)
{
    c.nb = fv::any<uint64_t>("nb"); c.size = fv::any<uint64_t>("size");
    uint64_t* b = fv::array<uint64_t>("b", c.nb); uint64_t* e = fv::array<uint64_t>("e", c.nb);
    fv::readonly(b); fv::readonly(e); c.b = b; c.e = e;
    fv_assume((c.nb > 0) | (c.size == 0));
    fv::requires_all(adjacent, &c, c.nb);
}
bool before(L const* c, uint64_t, uint64_t t) { return (!(t < c->nb) | (c->b[t] <= c->x)) & ((t == 0) | (c->e[t - 1] <= c->x)); }
bool ordered(L const* c, uint64_t, uint64_t t) { return !(t < c->nb) | (c->e[c->x] <= c->b[t]); }
}
FV_CHECK(lemma_owner_exists)
{
    L c; any_blocks(c); c.x = fv::any<uint64_t>("x"); fv_assume(c.x < c.size);
    fv::inv(before, &c);
    uint64_t t = 0; fv_term(0); fv_term(c.nb - 1);
    while(t < c.nb && c.e[t] <= c.x) { fv_term(t); ++t; }
    fv_assert(t < c.nb, "some block owns the position");
    fv_assert((c.b[t] <= c.x) & (c.x < c.e[t]), "the block owns the position");
}
FV_CHECK(lemma_owner_is_unique)
{
    L c; any_blocks(c); c.x = fv::any<uint64_t>("t1"); uint64_t t2 = fv::any<uint64_t>("t2");
    fv_assume(c.x < t2 && t2 < c.nb); fv_term(c.x); fv_term(c.x + 1);
    fv::inv(ordered, &c);
    uint64_t t = c.x + 1;
    while(t < t2) { fv_term(t); fv_term(t + 1); ++t; }
    fv_assert(c.e[c.x] <= c.b[t2], "a later block starts after an earlier one ends");
}
// blocks follow each other in the order of their numbers (ax_before): k is in block u
namespace { bool later(L const* c, uint64_t t1, uint64_t t2) { return !((t1 < t2) & (t2 < c->nb)) | (c->e[t1] <= c->b[t2]); } }
FV_CHECK(lemma_blocks_in_order)
{
    L c; any_blocks(c); uint64_t k = fv::any<uint64_t>("k"), t = fv::any<uint64_t>("t"), u = fv::any<uint64_t>("u");
    fv_assume(t < c.nb && u < c.nb && c.b[u] <= k && k < c.e[u]);
    fv::axiom(later, &c, "");
    fv_term(t); fv_term(u);
    if(c.b[t] <= k) { fv_assert(t <= u, "not after the owner"); fv_assert(c.b[t] <= c.b[u], "does not start after the owner"); }
    else { fv_assert(u < t, "after the owner"); fv_assert(c.e[u] <= c.b[t], "starts after the owner ends"); }
}
#endif

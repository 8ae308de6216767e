// rank(i): number of valid elements (according to the first input no-data policy) before i
#pragma once
#include "parallel.h"
FV_PURE1(uint64_t, fvp_rank, uint64_t)
namespace fv {
#ifdef FV_NATIVE
inline uint64_t rank(uint64_t i) { uint64_t r = 0; for(uint64_t k = 0; k < i; ++k) r += !fvp_nd0(k); return r; }
inline void rank_axioms(uint64_t const*) {}
#else
inline uint64_t rank(uint64_t i) { return fvp_rank(i); }
inline bool ordered(uint64_t a, uint64_t b) { uint64_t ra = fvp_rank(a), rb = fvp_rank(b); return (ra <= rb) & (rb - ra <= b - a); }
// definition, by recursion
inline bool ax_rank(uint64_t const* n, uint64_t i)
{ return (fvp_rank(0) == 0) & (!(i < *n) | (fvp_rank(i + 1) == fvp_rank(i) + (fvp_nd0(i) ? 0 : 1))); }
// lemmas (proved by rank.cc): rank does not decrease, and increases by the number of elements at most
inline bool ax_rank_size(uint64_t const* n, uint64_t i) { return !(i <= *n) | ((fvp_rank(i) <= i) & ordered(i, *n)); }
// a valid element is one of all valid elements
inline bool ax_rank_valid(uint64_t const* n, uint64_t i) { return !(i < *n) | fvp_nd0(i) | (fvp_rank(i) < fvp_rank(*n)); }
inline bool ax_ranks(uint64_t const* n, uint64_t a, uint64_t b) { return !((a < b) & (b <= *n)) | ordered(a + 1, b); }
// the same for the bounds of blocks of positions
template<class B> inline bool ax_rank_in_block(B const* c, uint64_t k)
{ uint64_t t = fvp_blk(k); return !(k < c->size) | (ordered(fvp_begin(t), k) & ordered(k + 1, fvp_begin(t + 1))); }
template<class B> inline bool ax_rank_begin(B const* c, uint64_t t)
{ return !(t < c->nb) | (ordered(fvp_begin(t), fvp_begin(t + 1)) & ordered(0, fvp_begin(t))); }
template<class B> inline bool ax_rank_begins(B const* c, uint64_t t, uint64_t k)
{ uint64_t b = fvp_begin(t); return !((t <= c->nb) & (k < c->size)) | (b <= k ? ordered(b, k) : ordered(k + 1, b)); }
inline uint64_t const* rank_n;     // number of elements
inline void rank_axioms(uint64_t const* n) { rank_n = n; axiom(ax_rank, n, ""); axiom(ax_rank_size, n, ""); axiom(ax_ranks, n, ""); }
template<class B> inline void rank_block_axioms(B const* c) { axiom(ax_rank_in_block<B>, c, ""); axiom(ax_rank_begin<B>, c, ""); axiom(ax_rank_begins<B>, c, ""); }
// place of element k at the front of the results of its block
inline uint64_t loc1(uint64_t k) { uint64_t b = fvp_begin(fvp_blk(k)); return b + (fvp_rank(k) - fvp_rank(b)); }
inline bool ax_loc1(Blocks1 const* c, uint64_t k) { uint64_t q = loc1(k); return !(k < c->size) | ((fvp_blk(q) == fvp_blk(k)) & (q <= k)); }
#endif
}

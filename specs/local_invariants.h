// Loop invariants shared by all element-wise operations.  The including driver defines, for its context type C
// (with members n and, for 2-d, s):  done(c, k) -- element k has been handled;  untouched(c, k) -- element k has not.
#pragma once
#include "run.h"
namespace {
// sequential 1-d loop over p
bool inv_all(C const* c, uint64_t k, uint64_t p) { return !(k < c->n) | (k < p ? done(c, k) : untouched(c, k)); }
// loop over the blocks of a 1-d / 2-d domain
bool inv_blk1(C const* c, uint64_t k, uint64_t t) { return !(k < c->n) | (fv::blk(k) < t ? done(c, k) : untouched(c, k)); }
bool inv_blk2(C const* c, uint64_t k, uint64_t t) { return !(k < c->n) | (fv::blk(fv::rowof(c->s, k)) < t ? done(c, k) : untouched(c, k)); }
// loop over p inside block t
bool inv_in_blk1(C const* c, uint64_t k, uint64_t t, uint64_t p)
{ uint64_t b = fv::blk(k); return !(k < c->n) | ((b < t) | ((b == t) & (k < p)) ? done(c, k) : untouched(c, k)); }
// loops over rows, and over the cells of a row
bool inv_row(C const* c, uint64_t k, uint64_t p) { return !(k < c->n) | (fv::rowof(c->s, k) < p ? done(c, k) : untouched(c, k)); }
bool inv_cell(C const* c, uint64_t k, uint64_t i, uint64_t j)
{ uint64_t r = fv::rowof(c->s, k); return !(k < c->n) | ((r < i) | ((r == i) & (fv::colof(c->s, k) < j)) ? done(c, k) : untouched(c, k)); }
bool inv_blk_row(C const* c, uint64_t k, uint64_t t, uint64_t i)
{ uint64_t r = fv::rowof(c->s, k), b = fv::blk(r); return !(k < c->n) | ((b < t) | ((b == t) & (r < i)) ? done(c, k) : untouched(c, k)); }
bool inv_blk_cell(C const* c, uint64_t k, uint64_t t, uint64_t i, uint64_t j)
{
    uint64_t r = fv::rowof(c->s, k), b = fv::blk(r);
    return !(k < c->n) | ((b < t) | ((b == t) & ((r < i) | ((r == i) & (fv::colof(c->s, k) < j)))) ? done(c, k) : untouched(c, k));
}
bool owns1(C const* c, uint64_t k, uint64_t t) { return fv::blk(k) == t; }
bool owns2(C const* c, uint64_t k, uint64_t t) { return fv::blk(fv::rowof(c->s, k)) == t; }
}
namespace fv {
inline void invariants_1d(C const* c) { inv(inv_all, c); inv(inv_blk1, c); inv(inv_in_blk1, c); footprint(owns1, c); }
inline void invariants_2d(C const* c)
{ inv(inv_row, c); inv(inv_cell, c); inv(inv_blk2, c); inv(inv_blk_row, c); inv(inv_blk_cell, c); footprint(owns2, c); }
}

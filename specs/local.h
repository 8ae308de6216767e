// Helpers for the drivers of element-wise operations on 0-d, 1-d and 2-d data.
#pragma once
#include "parallel.h"
namespace fv {
// the elements p[0..n) seen as a D-dimensional container
template<int D, class T> inline decltype(auto) view(T* p, Shape2 const& s, uint64_t n)
{
    if constexpr(D == 0) return (*p);
    else if constexpr(D == 1) return fern::A1<T>{p, n};
    else return fern::A2<T>{p, s.rows, s.cols, n};
}
template<int D> inline void any_domain(Shape2& s, uint64_t& n)
{
    if constexpr(D == 2) { any_shape(&s); n = s.n; }
    else if constexpr(D == 1) { n = any<uint64_t>("n"); fv_small(n); }
    else n = 1;
}
// is the argument of dimension d no-data at k?
template<int N, int D> inline bool nd_at(uint64_t k) { return nd<N>(D == 0 ? scalar_slot : k); }
template<int D, class T> inline T const& at(T const* p, uint64_t k) { return p[D == 0 ? 0 : k]; }
constexpr int max_dim(int a, int b) { return a > b ? a : b; }
}
// after done() and untouched(): the invariants for a D-dimensional domain
#define FV_INVARIANTS(D, c) do { if constexpr(D == 2) fv::invariants_2d(c); else if constexpr(D == 1) fv::invariants_1d(c); } while(false)

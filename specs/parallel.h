// Contracts of the standard containers and of the thread pool used by the parallel operations.
// Include first.  With FV_NATIVE nothing is replaced: the real thread pool and the real standard library run.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <boost/algorithm/clamp.hpp>
#include <boost/math/constants/constants.hpp>
#include <boost/mpl/and.hpp>
#include <boost/mpl/if.hpp>
#include <boost/mpl/max_element.hpp>
#include <boost/mpl/sizeof.hpp>
#include <boost/mpl/transform_view.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/multi_array.hpp>
#include <boost/variant.hpp>
#include <boost/any.hpp>
#include "fv.h"
#ifdef FV_NATIVE
#include "fern/core/join_threads.cc"
#include "fern/core/thread_pool.cc"
#include "fern/algorithm/policy/parallel_execution_policy.cc"
#else
namespace fv { inline uint64_t fv_submitted = 0, fv_joined = 0; }   // tasks submitted / waited for so far
namespace std {
// vector: elements p[0..n), capacity never runs out
template<class T> struct fvvector
{
    using value_type = T; using size_type = size_t; using iterator = T*; using const_iterator = T const*;
    using reference = T&; using const_reference = T const&;
    T* p; size_t n;
    static T* last;     // the elements of the vector created last, for invariants
    static T* fresh() { return last = static_cast<T*>(fv_array_("vec", uint64_t(1) << 40, sizeof(T))); }
    fvvector(): p(fresh()), n(0) {}
    explicit fvvector(size_t m): p(fresh()), n(m) { fv_assume(m < (uint64_t(1) << 40)); }
    fvvector(fvvector const&) = default;   // only ever moved or elided by the code under verification
    fvvector(fvvector&& o): p(o.p), n(o.n) {}
    fvvector& operator=(fvvector&& o) { p = o.p; n = o.n; return *this; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    void reserve(size_t) {}
    size_t capacity() const { return uint64_t(1) << 40; }
    T* begin() { return p; } T* end() { return p + n; }
    T const* begin() const { return p; } T const* end() const { return p + n; }
    T const* cbegin() const { return p; } T const* cend() const { return p + n; }
    T& operator[](size_t i) { fv_assert(i < n, "vector index"); return p[i]; }
    T const& operator[](size_t i) const { fv_assert(i < n, "vector index"); return p[i]; }
    T& at(size_t i) { fv_assert(i < n, "vector index"); return p[i]; }
    T const& at(size_t i) const { fv_assert(i < n, "vector index"); return p[i]; }
    T& front() { fv_assert(0 < n, "vector not empty"); return p[0]; }
    T& back() { fv_assert(0 < n, "vector not empty"); return p[n - 1]; }
    T const& back() const { fv_assert(0 < n, "vector not empty"); return p[n - 1]; }
    template<class... A> T& emplace_back(A&&... a) { ::new (static_cast<void*>(p + n)) T(std::forward<A>(a)...); ++n; return p[n - 1]; }
    void push_back(T const& t) { p[n] = t; ++n; }
    void push_back(T&& t) { ::new (static_cast<void*>(p + n)) T(std::move(t)); ++n; }
    void clear() { n = 0; }
};
template<class T> inline T* fvvector<T>::last = nullptr;
template<class R> struct fvfuture
{
    uint64_t id; R r;
    fvfuture(): id(0), r() {}
    fvfuture(uint64_t i, R const& x): id(i), r(x) {}
    R get() { ++fv::fv_joined; return r; }
    bool valid() const { return true; }
};
template<> struct fvfuture<void>
{
    uint64_t id;
    fvfuture(): id(0) {}
    fvfuture(uint64_t i): id(i) {}
    void get() { ++fv::fv_joined; }
    void wait() const {}
    bool valid() const { return true; }
};
}
namespace boost { namespace mpl { template<class... T> using fvvector = vector<T...>; } }
#define vector fvvector
#define future fvfuture
#endif
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/core/index_ranges.h"
#include "fern/algorithm/core/index_range.cc"
#if defined FV_NATIVE || defined FV_REAL_INDEX_RANGES
#include "fern/algorithm/core/index_ranges.cc"
#endif
#include "containers.h"
#include "policies.h"

FV_PURE1(uint64_t, fvp_blk, uint64_t)
FV_PURE1(uint64_t, fvp_begin, uint64_t)

namespace fv {
// the caller waited for every task it submitted
inline void all_joined()
{
#ifndef FV_NATIVE
    fv_assert(fv_submitted == fv_joined, "every submitted task is waited for");
#endif
}
// which elements the task of block t may touch
template<class C> inline void footprint(bool (*f)(C const*, uint64_t, uint64_t), C const* c)
{
#ifndef FV_NATIVE
    fv_footprint_(reinterpret_cast<void*>(f), c);
#endif
}
using fern::algorithm::IndexRanges; using fern::algorithm::IndexRange;
// with FV_BLOCK_LEMMAS: lemmas about the blocks, defined by the driver
struct Blocks1; struct Blocks2; void block_lemmas(Blocks1 const*); void block_lemmas(Blocks2 const*);
struct Blocks1 { IndexRanges<1>* p; uint64_t nb, size; IndexRanges<1> const* o; };    // o: as returned
struct Blocks2 { IndexRanges<2>* p; uint64_t nb, size, size2; };
// block that owns position i (of the first dimension)
#ifndef FV_NATIVE
inline uint64_t blk(uint64_t i) { return fvp_blk(i); }
// Contract of index_ranges(): the blocks partition the positions.  Proved for the body by the index-range check.
template<class B> inline bool ax_block(B const* c, uint64_t t)
{ return !(t < c->nb) | ((c->p[t][0].begin() < c->p[t][0].end()) & (c->p[t][0].end() <= c->size)); }
inline bool ax_block_cols(Blocks2 const* c, uint64_t t)
{ return !(t < c->nb) | ((c->p[t][1].begin() == 0) & (c->p[t][1].end() == c->size2)); }
template<class B> inline bool ax_chain(B const* c, uint64_t t)
{ return !(t < c->nb) | (((t != 0) | (c->p[t][0].begin() == 0)) & ((t + 1 != c->nb) | (c->p[t][0].end() == c->size)) & ((t + 1 >= c->nb) | (c->p[t][0].end() == c->p[t + 1][0].begin()))); }
// fvp_begin(t): begin of block t, or the end of the last one
template<class B> inline bool ax_begin(B const* c, uint64_t t)
{ return (fvp_begin(0) == 0) & (fvp_begin(c->nb) == c->size) & (!(t < c->nb) | ((c->p[t][0].begin() == fvp_begin(t)) & (c->p[t][0].end() == fvp_begin(t + 1)))); }
template<class B> inline bool ax_before(B const* c, uint64_t t, uint64_t k)
{
    uint64_t u = fvp_blk(k);
    return !((t < c->nb) & (k < c->size)) | (fvp_begin(t) <= k ? (t <= u) & (fvp_begin(t) <= fvp_begin(u)) : (u < t) & (fvp_begin(u + 1) <= fvp_begin(t)));
}
template<class B> inline bool ax_owner(B const* c, uint64_t i)
{ uint64_t t = fvp_blk(i); return !(i < c->size) | ((t < c->nb) & (c->p[t][0].begin() <= i) & (i < c->p[t][0].end())); }
template<class B> inline bool ax_only_owner(B const* c, uint64_t i, uint64_t t)
{ return !(i < c->size) | !(t < c->nb) | !((c->p[t][0].begin() <= i) & (i < c->p[t][0].end())) | (fvp_blk(i) == t); }
#else
inline uint64_t blk(uint64_t i) { return 0; }
#endif
}
namespace fern { namespace algorithm {
#if !defined FV_NATIVE && !defined FV_REAL_INDEX_RANGES
// the arguments and the result of the last call, for the invariants of the driver
inline fv::Blocks1 fv_b1; inline fv::Blocks2 fv_b2;
inline std::vector<IndexRanges<1>> index_ranges(size_t const nr_blocks, size_t const size1)
{
    fv_assert(nr_blocks > 0, "index_ranges: number of blocks is positive");
    fv::Blocks1& c = fv_b1;
    uint64_t nb = fv::any<uint64_t>("nr_ranges"); fv_assume(nb < (uint64_t(1) << 40));
    std::vector<IndexRanges<1>> v(nb);
    c.p = v.p; c.nb = nb; c.size = size1;
#ifdef FV_RANGES_CHANGE
    c.o = fv::snapshot(v.p);
#else
    fv::readonly(v.p);
#endif
#ifdef FV_RANGES_CHAIN
    fv_assume((nb > 0) | (size1 == 0)); fv_term(0);
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_chain<fv::Blocks1>), &c, 1, "");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_begin<fv::Blocks1>), &c, 1, "");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_before<fv::Blocks1>), &c, 2, "");
#ifdef FV_BLOCK_LEMMAS
    fv::block_lemmas(&c);
#endif
#endif
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_block<fv::Blocks1>), &c, 1, "");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_owner<fv::Blocks1>), &c, 1, "fvp_blk");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_only_owner<fv::Blocks1>), &c, 2, "fvp_blk");
    return v;
}
inline std::vector<IndexRanges<2>> index_ranges(size_t const nr_blocks, size_t const size1, size_t const size2)
{
    fv_assert(nr_blocks > 0, "index_ranges: number of blocks is positive");
    fv::Blocks2& c = fv_b2;
    uint64_t nb = fv::any<uint64_t>("nr_ranges"); fv_assume(nb < (uint64_t(1) << 40));
    std::vector<IndexRanges<2>> v(nb);
    c.p = v.p; c.nb = nb; c.size = size1; c.size2 = size2;
    fv::readonly(v.p);
#ifdef FV_RANGES_CHAIN
    fv_assume((nb > 0) | (size1 == 0)); fv_term(0);
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_chain<fv::Blocks2>), &c, 1, "");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_begin<fv::Blocks2>), &c, 1, "");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_before<fv::Blocks2>), &c, 2, "");
#ifdef FV_BLOCK_LEMMAS
    fv::block_lemmas(&c);
#endif
#endif
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_block<fv::Blocks2>), &c, 1, "");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_block_cols), &c, 1, "");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_owner<fv::Blocks2>), &c, 1, "fvp_blk");
    fv_axiom_(reinterpret_cast<void*>(&fv::ax_only_owner<fv::Blocks2>), &c, 2, "fvp_blk");
    return v;
}
#endif
} }

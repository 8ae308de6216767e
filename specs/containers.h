// Containers used by the drivers: the real algorithms are instantiated on them.
//   A1  any 1-d container: n elements addressed by index
//   A2  any 2-d container: rows x cols elements, element (r, c) at index row(r) + c for an arbitrary row layout in which
//       distinct elements have distinct indices (the containers of fern are checked against this contract separately)
#pragma once
#include "fv.h"
#include "fern/core/data_type_traits.h"
#include "fern/core/data_customization_point.h"
#include "fern/core/data_type_traits/scalar.h"
#include "fern/core/data_customization_point/scalar.h"

FV_PURE1(uint64_t, fvp_row, uint64_t)
FV_PURE1(uint64_t, fvp_rowof, uint64_t)

namespace fern {
template<class T> struct A1 { T* p; size_t n; };
template<class T> struct A2 { T* p; size_t rows, cols, n; };

template<class T> struct DataTypeTraits<A1<T>> {
    template<class U> struct Clone { using type = A1<U>; };
    using argument_category = array_1d_tag;
    using value_type = T; using reference = T&; using const_reference = T const&;
    static bool const is_masking = false; static size_t const rank = 1u;
};
template<class T> struct DataTypeTraits<A2<T>> {
    template<class U> struct Clone { using type = A2<U>; };
    using argument_category = array_2d_tag;
    using value_type = T; using reference = T&; using const_reference = T const&;
    static bool const is_masking = false; static size_t const rank = 2u;
};
template<class T> inline size_t size(A1<T> const& a) { return a.n; }
template<class T> inline size_t size(A1<T> const& a, size_t) { return a.n; }
template<class T> inline T const& get(A1<T> const& a, size_t i) { return a.p[i]; }
template<class T> inline T& get(A1<T>& a, size_t i) { return a.p[i]; }
template<class T> inline size_t size(A2<T> const& a) { return a.n; }
template<class T> inline size_t size(A2<T> const& a, size_t d) { return d == 0 ? a.rows : a.cols; }
template<class T> inline T const& get(A2<T> const& a, size_t i) { return a.p[i]; }
template<class T> inline T& get(A2<T>& a, size_t i) { return a.p[i]; }
template<class T> inline size_t index(A2<T> const& a, size_t r, size_t c)
{
#ifdef FV_NATIVE
    return r * a.cols + c;
#else
    fv_term(r);
    return fvp_row(r) + c;
#endif
}
} // namespace fern

namespace fv {
// shape of the 2-d domain of a driver
struct Shape2 { uint64_t rows, cols, n; };

inline uint64_t rowof(Shape2 const& s, uint64_t k)
{
#ifdef FV_NATIVE
    return k / s.cols;
#else
    return fvp_rowof(k);
#endif
}
inline uint64_t rowstart(Shape2 const& s, uint64_t r)
{
#ifdef FV_NATIVE
    return r * s.cols;
#else
    return fvp_row(r);
#endif
}
inline uint64_t colof(Shape2 const& s, uint64_t k) { return k - rowstart(s, rowof(s, k)); }

#ifndef FV_NATIVE
inline bool ax_cell(Shape2 const* s, uint64_t r, uint64_t k)
{ uint64_t d = k - fvp_row(r); return !((r < s->rows) & (d < s->cols)) | ((k < s->n) & (fvp_rowof(k) == r)); }
inline bool ax_row(Shape2 const* s, uint64_t r) { return !(r < s->rows) | ((fvp_row(r) <= s->n) & (s->cols <= s->n - fvp_row(r))); }
inline bool ax_rowof(Shape2 const* s, uint64_t k)
{ uint64_t r = fvp_rowof(k); return !(k < s->n) | ((r < s->rows) & (fvp_row(r) <= k) & (k - fvp_row(r) < s->cols)); }
#endif

// an arbitrary 2-d shape; the layout axioms say: the elements are exactly the pairs (row, column)
inline void any_shape(Shape2* s)
{
    s->rows = any<uint64_t>("rows"); s->cols = any<uint64_t>("cols");
#ifdef FV_NATIVE
    fv_small(s->rows); fv_small(s->cols);
    s->n = s->rows * s->cols;
#else
    s->n = any<uint64_t>("cells");
    fv_assume(s->rows <= (uint64_t(1) << 40)); fv_assume(s->cols <= (uint64_t(1) << 40));
    fv_assume(s->n <= (uint64_t(1) << 40));
    fv_axiom_(reinterpret_cast<void*>(&ax_cell), s, 2, "fvp_row");
    fv_axiom_(reinterpret_cast<void*>(&ax_row), s, 1, "fvp_row");
    fv_axiom_(reinterpret_cast<void*>(&ax_rowof), s, 1, "");
#endif
}
// the same with rows that follow each other without gaps: element (r, c) is element r * columns + c
#ifndef FV_NATIVE
inline bool ax_flat(Shape2 const* s, uint64_t r) { return fvp_row(r) == r * s->cols; }
inline bool ax_next_row(Shape2 const* s, uint64_t r) { return (fvp_row(0) == 0) & (fvp_row(s->rows) == s->n) & (!(r < s->rows) | ((fvp_row(r + 1) == fvp_row(r) + s->cols) & (fvp_row(r + 1) <= s->n))); }
#endif
inline void any_flat_shape(Shape2* s)
{
    any_shape(s);
#ifndef FV_NATIVE
    axiom(ax_next_row, s, "");
#endif
}
template<class T> inline fern::A2<T> array2(char const* name, Shape2 const& s) { return fern::A2<T>{array<T>(name, s.n), s.rows, s.cols, s.n}; }
} // namespace fv

// The no-data, domain and range policies: detection looks at exactly the element asked for, marking changes exactly it.
#include "parallel.h"
#include "scalars.h"
#include "fern/algorithm/policy/all_no_data.h"
#include "fern/algorithm/policy/collect_no_data_indices.h"
using namespace fern; using namespace fern::algorithm;
// an element of a 1-, 2- or 3-dimensional mask lives at an index that depends on all of its coordinates
FV_PURE2(uint64_t, fvp_index2, uint64_t, uint64_t)
FV_PURE3(uint64_t, fvp_index3, uint64_t, uint64_t, uint64_t)
namespace fern {
template<class T> struct G { T* p; uint64_t n; };
template<class T> struct DataTypeTraits<G<T>> {
    template<class U> struct Clone { using type = G<U>; };
    using argument_category = array_1d_tag; using value_type = T; using reference = T&; using const_reference = T const&;
    static bool const is_masking = true; static size_t const rank = 1u;
};
inline uint64_t at2(uint64_t n, uint64_t i, uint64_t j) { uint64_t k = fvp_index2(i, j); return fv::native ? k % n : k; }
inline uint64_t at3(uint64_t n, uint64_t i, uint64_t j, uint64_t l) { uint64_t k = fvp_index3(i, j, l); return fv::native ? k % n : k; }
template<class T> inline T const& get(G<T> const& g) { return g.p[0]; }
template<class T> inline T& get(G<T>& g) { return g.p[0]; }
template<class T> inline T const& get(G<T> const& g, size_t i) { return g.p[i]; }
template<class T> inline T& get(G<T>& g, size_t i) { return g.p[i]; }
template<class T> inline T const& get(G<T> const& g, size_t i, size_t j) { return g.p[at2(g.n, i, j)]; }
template<class T> inline T& get(G<T>& g, size_t i, size_t j) { return g.p[at2(g.n, i, j)]; }
template<class T> inline T const& get(G<T> const& g, size_t i, size_t j, size_t l) { return g.p[at3(g.n, i, j, l)]; }
template<class T> inline T& get(G<T>& g, size_t i, size_t j, size_t l) { return g.p[at3(g.n, i, j, l)]; }
template<class T> inline void set_no_data(G<T>& g) { set_no_data(g.p[0]); }
template<class T> inline T no_data_value(G<T> const& g) { return g.p[0]; }
}
namespace {
struct At { uint64_t n, i, j, l, k; };
template<int D> At where()
{
    At a; a.n = fv::any<uint64_t>("n"); fv_small(a.n); fv_assume(a.n > 0);
    a.i = fv::any<uint64_t>("i"); a.j = fv::any<uint64_t>("j"); a.l = fv::any<uint64_t>("l");
    if(fv::native && D == 1) a.i %= a.n;
    a.k = D == 0 ? 0 : D == 1 ? a.i : D == 2 ? at2(a.n, a.i, a.j) : at3(a.n, a.i, a.j, a.l);
    fv_assume(a.k < a.n);
    return a;
}
template<int D, class P> bool is(P const& p, At const& a)
{ if constexpr(D == 0) return p.is_no_data(); else if constexpr(D == 1) return p.is_no_data(a.i); else if constexpr(D == 2) return p.is_no_data(a.i, a.j); else return p.is_no_data(a.i, a.j, a.l); }
template<int D, class P> void mark(P& p, At const& a)
{ if constexpr(D == 0) p.mark_as_no_data(); else if constexpr(D == 1) p.mark_as_no_data(a.i); else if constexpr(D == 2) p.mark_as_no_data(a.i, a.j); else p.mark_as_no_data(a.i, a.j, a.l); }
template<class T> T special() { return std::is_signed<T>::value ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); }

template<class T, int D> void detect_by_value()
{
    At a = where<D>();
    G<T> g{fv::array<T>("mask", a.n), a.n};
    fv::readonly(g.p);
    T v = fv::any<T>("no_data");
    DetectNoDataByValue<G<T>> p{g, v};
    DetectNoDataByValue<G<T>> q{p};     // policies are copied into tasks
    InputNoDataPolicies<DetectNoDataByValue<G<T>>, SkipNoData, AllNoData> ps{DetectNoDataByValue<G<T>>{g, v}, SkipNoData{}, AllNoData{}};
    fv_assert(is<D>(p, a) == (g.p[a.k] == v), "an element is no-data when its mask has the no-data value");
    fv_assert(is<D>(q, a) == (g.p[a.k] == v), "a copy of a policy decides the same");
    fv_assert(is<D>(std::get<0>(ps), a) == (g.p[a.k] == v), "policies are kept in order");
    fv_assert(!is<D>(std::get<1>(ps), a), "skipping finds no no-data");
    fv_assert(is<D>(std::get<2>(ps), a), "everything is no-data");
    DetectNoDataByValue<G<T>> d{g};
    fv_assert(is<D>(d, a) == (g.p[a.k] == g.p[0]), "the no-data value of the mask is used by default");
}
template<class T, int D> void mark_by_value()
{
    At a = where<D>();
    G<T> g{fv::array<T>("mask", a.n), a.n};
    T const* old = fv::snapshot(g.p);
    T v = fv::any<T>("no_data");
    MarkNoDataByValue<G<T>> p{g, v};
    mark<D>(p, a);
    FV_FORALL(k, a.n) fv_assert(fv::same(g.p[k], k == a.k ? v : old[k]), "marking changes exactly the element");
    DetectNoDataByValue<G<T>> q{g, v};
    fv_assert((v != v) || is<D>(q, a), "what is marked is detected");
}
template<class T, int D> void mark_by_default()
{
    At a = where<D>();
    G<T> g{fv::array<T>("mask", a.n), a.n};
    T const* old = fv::snapshot(g.p);
    MarkNoDataByValue<G<T>> p{g};
    mark<D>(p, a);
    FV_FORALL(k, a.n) fv_assert(fv::same(g.p[k], k == a.k ? old[0] : old[k]), "marking changes exactly the element");
}
template<class T, int D> void detect()
{
    At a = where<D>();
    G<T> g{fv::array<T>("values", a.n), a.n};
    fv::readonly(g.p);
    DetectNoData<G<T>> p{g};
    DetectNoData<G<T>> q{const_cast<DetectNoData<G<T>> const&>(p)};
    fv_assert(is<D>(p, a) == (g.p[a.k] == special<T>()), "an element is no-data when it has the special value of its type");
    fv_assert(is<D>(q, a) == (g.p[a.k] == special<T>()), "a copy of a policy decides the same");
}
template<class T, int D> void mark_special()
{
    At a = where<D>();
    G<T> g{fv::array<T>("values", a.n), a.n};
    T const* old = fv::snapshot(g.p);
    MarkNoData<G<T>> p{g};
    mark<D>(p, a);
    FV_FORALL(k, a.n) fv_assert(fv::same(g.p[k], k == a.k ? special<T>() : old[k]), "marking changes exactly the element");
    DetectNoData<G<T>> q{g};
    fv_assert(is<D>(q, a), "what is marked is detected");
}
template<int D> void no_op()
{
    At a = where<D>();
    G<int32_t> g{fv::array<int32_t>("values", a.n), a.n};
    int32_t const* old = fv::snapshot(g.p);
    DontMarkNoData p{}, q{g};
    mark<D>(p, a); mark<D>(q, a);
    SkipNoData s{}, t{g};
    FV_FORALL(k, a.n) fv_assert(g.p[k] == old[k], "nothing is marked");
    fv_assert(!is<D>(s, a) & !is<D>(t, a), "nothing is no-data");
    AllNoData all{};
    fv_assert(is<D>(all, a), "everything is no-data");
}
struct Indices: CollectNoDataIndices<std::vector<size_t>> {};
template<class A, class B, class R> void errors()
{
    A a = fv::any<A>("a"); B b = fv::any<B>("b"); R r = fv::any<R>("r");
    fv_assert(unary::DiscardDomainErrors<A>::within_domain(a), "domain errors are discarded");
    fv_assert(binary::DiscardDomainErrors<A, B>::within_domain(a, b), "domain errors are discarded");
    fv_assert(unary::DiscardRangeErrors<A, R>::within_range(a, r), "range errors are discarded");
    fv_assert(binary::DiscardRangeErrors<A, B, R>::within_range(a, b, r), "range errors are discarded");
    int e = fv::any<int32_t>("errno");
    errno = e;
    fv_assert(DetectOutOfRangeByErrno<A, B, R>::within_range(a, b, r) == (e != ERANGE), "a range error is an errno of ERANGE");
}
}
#define DIMS(X, T, S) X(T, S, 0) X(T, S, 1) X(T, S, 2) X(T, S, 3)
#define BYVALUE(T, S, D) FV_CHECK(detect_by_value_##S##_##D) { detect_by_value<T, D>(); } FV_CHECK(mark_by_value_##S##_##D) { mark_by_value<T, D>(); } \
    FV_CHECK(mark_by_default_##S##_##D) { mark_by_default<T, D>(); }
#define SPECIAL(T, S, D) FV_CHECK(detect_special_##S##_##D) { detect<T, D>(); } FV_CHECK(mark_special_##S##_##D) { mark_special<T, D>(); }
DIMS(BYVALUE, bool, bool) DIMS(BYVALUE, uint8_t, u8) DIMS(BYVALUE, int32_t, i32) DIMS(BYVALUE, double, f64)
DIMS(SPECIAL, uint8_t, u8) DIMS(SPECIAL, int8_t, i8) DIMS(SPECIAL, uint16_t, u16) DIMS(SPECIAL, int16_t, i16)
DIMS(SPECIAL, uint32_t, u32) DIMS(SPECIAL, int32_t, i32) DIMS(SPECIAL, uint64_t, u64) DIMS(SPECIAL, int64_t, i64)
FV_CHECK(no_op_0) { no_op<0>(); } FV_CHECK(no_op_1) { no_op<1>(); } FV_CHECK(no_op_2) { no_op<2>(); } FV_CHECK(no_op_3) { no_op<3>(); }
FV_CHECK(errors_i32) { errors<int32_t, int64_t, int16_t>(); }
FV_CHECK(errors_f64) { errors<double, int64_t, float>(); }
FV_CHECK(collect)
{
    Indices c;
    size_t a = fv::any<uint64_t>("a"), b = fv::any<uint64_t>("b"), d = fv::any<uint64_t>("c");
    fv_assert(c.indices().empty(), "nothing is collected yet");
    c.mark(a); c.mark(b); c.mark(d);
    auto const& v = c.indices();
    fv_assert(v.size() == 3, "every mark is collected");
    fv_assert((v[0] == a) & (v[1] == b) & (v[2] == d), "marks are collected in order");
}

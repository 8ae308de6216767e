// Executable meaning of the specification primitives: used only to replay / search concrete failing inputs against the
// real code after an obligation failed.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <unistd.h>
#include <limits>

namespace fvn {
struct Skip {};
struct Arr { std::string name; void* p; uint64_t n, elem; std::vector<unsigned char> ro; bool readonly; };
struct State {
    uint64_t seed = 1, rng = 1, hash = 1;
    char const* check = "";
    std::vector<std::string> given_names, given_values;      // replayed values, in draw order
    size_t given = 0; bool use_given = false;
    std::string log;
    std::vector<Arr> arrays;
    uint64_t small = 7;
};
inline State& S() { static State s; return s; }
inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline uint64_t rnd() { return S().rng = mix(S().rng); }
inline void report(char const* what)
{
    std::fprintf(stderr, "\nFV-FAIL check=%s seed=%llu obligation=%s\nFV-INPUT %s\n", S().check, (unsigned long long)S().seed, what, S().log.c_str());
    std::fflush(stderr);
}
inline void fail(char const* what) { report(what); std::_Exit(3); }

template<class T> struct Lim { using L = std::numeric_limits<T>; };
template<class T> inline T draw_int()
{
    using L = std::numeric_limits<T>;
    switch(rnd() % 8) {
        case 0: return T(rnd());
        case 1: return T(uint64_t(L::max()) - rnd() % 3);
        case 2: return T(uint64_t(L::min()) + rnd() % 3);
        case 3: { int b = rnd() % (8 * sizeof(T)); uint64_t v = uint64_t(1) << b; return T(v + rnd() % 3 - 1); }
        default: return T(int64_t(rnd() % 17) - (L::is_signed ? 8 : 0));
    }
}
template<class T> inline T draw_fp()
{
    using L = std::numeric_limits<T>;
    switch(rnd() % 12) {
        case 0: return L::quiet_NaN();
        case 1: return (rnd() & 1) ? L::infinity() : -L::infinity();
        case 2: return (rnd() & 1) ? L::max() : L::lowest();
        case 3: return (rnd() & 1) ? T(0) : T(-0.0);
        case 4: return (rnd() & 1) ? L::denorm_min() : -L::min();
        case 5: { T v; unsigned char b[sizeof(T)]; for(auto& x: b) x = rnd(); std::memcpy(&v, b, sizeof(T)); return v; }
        case 6: return T(int64_t(rnd() % 64) - 32) / T(8);
        default: return T(int64_t(rnd() % 17) - 8);
    }
}
template<class T> inline T draw()
{
    if constexpr(std::is_same<T, bool>::value) return rnd() & 1;
    else if constexpr(std::is_floating_point<T>::value) return draw_fp<T>();
    else if constexpr(std::is_integral<T>::value) return draw_int<T>();
    else return T();
}
template<class T> inline std::string show(T v)
{
    char b[64];
    if constexpr(std::is_floating_point<T>::value) std::snprintf(b, sizeof b, "%.17g", double(v));
    else if constexpr(std::is_signed<T>::value) std::snprintf(b, sizeof b, "%lld", (long long)v);
    else std::snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}
template<class T> inline T parse(std::string const& s)
{
    if(s == "True") return T(1);
    if(s == "False") return T(0);
    if constexpr(std::is_floating_point<T>::value) {
        uint64_t bits = std::strtoull(s.c_str(), nullptr, 0); T v;
        if(sizeof(T) == 4) { uint32_t x = uint32_t(bits); std::memcpy(&v, &x, 4); } else std::memcpy(&v, &bits, 8);
        return v;
    }
    else if constexpr(std::is_signed<T>::value) return T(std::strtoll(s.c_str(), nullptr, 0));
    else return T(std::strtoull(s.c_str(), nullptr, 0));
}
template<class T> inline T any(char const* name)
{
    T v;
    State& s = S();
    // replayed values: matched by name, in order of occurrence
    bool found = false;
    if(s.use_given)
        for(size_t i = 0; i < s.given_names.size(); ++i)
            if(s.given_names[i] == name) { v = parse<T>(s.given_values[i]); s.given_names[i] = "\1"; found = true; break; }
    if(!found) v = draw<T>();
    s.log += std::string(name) + "=" + show(v) + " ";
    return v;
}
template<class A> inline uint64_t bits(A a) { uint64_t x = 0; std::memcpy(&x, &a, sizeof(A) < 8 ? sizeof(A) : 8); return x; }
inline uint64_t hash(char const* n) { uint64_t h = S().hash; while(*n) h = mix(h ^ uint64_t(*n++)); return h; }
template<class A, class... R> inline uint64_t fold(uint64_t h, A a, R... r) { h = mix(h ^ bits(a)); if constexpr(sizeof...(r) > 0) return fold(h, r...); else return h; }
template<class R, class... A> inline R pure(char const* name, A... a)
{
    uint64_t h = fold(hash(name), a...);
    if constexpr(std::is_same<R, bool>::value) return (h >> 7) % 3 == 0;
    else if constexpr(std::is_floating_point<R>::value) return R(int64_t(h % 41) - 20) / R(4);
    else return R(h % 1000);
}
struct Check { char const* name; void (*f)(); };
inline std::vector<Check>& checks() { static std::vector<Check> v; return v; }
struct Reg { Reg(char const* n, void (*f)()) { checks().push_back({n, f}); } };
inline void on_signal(int sg) { report(sg == SIGABRT ? "no abort" : sg == SIGALRM ? "terminates" : "no crash"); std::_Exit(3); }
extern "C" inline void on_death() { report("memory safety / no undefined behaviour (sanitizer)"); }
}
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));

inline void fv_assume(bool c) { if(!c) throw fvn::Skip(); }
inline void fv_assert(bool c, char const* what) { if(!c) fvn::fail(what); }
inline void fv_cover(char const*) {}
inline void fv_term(uint64_t) {}
inline bool fv_any_b(char const* n) { return fvn::any<bool>(n); }
inline uint8_t fv_any_u8(char const* n) { return fvn::any<uint8_t>(n); }
inline int8_t fv_any_i8(char const* n) { return fvn::any<int8_t>(n); }
inline uint16_t fv_any_u16(char const* n) { return fvn::any<uint16_t>(n); }
inline int16_t fv_any_i16(char const* n) { return fvn::any<int16_t>(n); }
inline uint32_t fv_any_u32(char const* n) { return fvn::any<uint32_t>(n); }
inline int32_t fv_any_i32(char const* n) { return fvn::any<int32_t>(n); }
inline uint64_t fv_any_u64(char const* n) { return fvn::any<uint64_t>(n); }
inline int64_t fv_any_i64(char const* n) { return fvn::any<int64_t>(n); }
inline float fv_any_f32(char const* n) { return fvn::any<float>(n); }
inline double fv_any_f64(char const* n) { return fvn::any<double>(n); }
inline void* fv_array_(char const* n, uint64_t c, uint64_t e)
{
    void* p = std::malloc(c * e ? c * e : 1);
    fvn::S().arrays.push_back({n, p, c, e, {}, false});
    return p;
}
inline void* fv_snapshot_(void const* q)
{
    for(auto& a: fvn::S().arrays)
        if(a.p == q) { fvn::Arr b = a; void* p = fv_array_("old", b.n, b.elem); std::memcpy(p, q, b.n * b.elem); return p; }
    return nullptr;
}
inline void fv_readonly_(void const* q)
{
    for(auto& a: fvn::S().arrays)
        if(a.p == q) { a.readonly = true; a.ro.assign((unsigned char const*)q, (unsigned char const*)q + a.n * a.elem); }
}
inline void fv_inv_(void*, void const*, int32_t) {}
inline void fv_phi_(void*, void const*, int32_t) {}
inline void fv_axiom_(void*, void const*, int32_t, char const*) {}
inline void fv_footprint_(void*, void const*) {}
template<class T> inline void fv_small_(T& n) { n = T(uint64_t(n) % fvn::S().small); }
#define fv_small(n) fv_small_(n)
#define FV_PURE0(R, name) inline R name() { return fvn::pure<R>(#name, 0); }
#define FV_PURE1(R, name, A) inline R name(A a) { return fvn::pure<R>(#name, a); }
#define FV_PURE2(R, name, A, B) inline R name(A a, B b) { return fvn::pure<R>(#name, a, b); }
#define FV_PURE3(R, name, A, B, C) inline R name(A a, B b, C c) { return fvn::pure<R>(#name, a, b, c); }
#define FV_PURE4(R, name, A, B, C, D) inline R name(A a, B b, C c, D d) { return fvn::pure<R>(#name, a, b, c, d); }
#define FV_FORALL(k, n) for(uint64_t k = 0, fv_end_##k = (n); k < fv_end_##k; ++k)
#define FV_CHECK(name) static void fv_check_##name(); static fvn::Reg fv_reg_##name(#name, &fv_check_##name); static void fv_check_##name()

namespace fv { inline bool const native = true; }

// usage: exe CHECK first_seed count [name=value ...]      exit 0: nothing failed, 3: a specification failed
int main(int argc, char** argv)
{
    if(argc < 4) { for(auto& c: fvn::checks()) std::puts(c.name); return 0; }
    std::signal(SIGABRT, fvn::on_signal); std::signal(SIGALRM, fvn::on_signal); std::signal(SIGFPE, fvn::on_signal);
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(fvn::on_death);
    else std::signal(SIGSEGV, fvn::on_signal);
    uint64_t first = std::strtoull(argv[2], nullptr, 0), count = std::strtoull(argv[3], nullptr, 0), ran = 0;
    for(auto& c: fvn::checks()) {
        if(std::strcmp(c.name, argv[1])) continue;
        for(uint64_t s = first; s < first + count; ++s) {
            fvn::State& st = fvn::S();
            st = fvn::State();
            st.seed = s; st.rng = fvn::mix(s); st.hash = fvn::mix(s * 7 + 3); st.check = c.name;
            st.small = s % 5 == 0 ? 13 : 6;
            for(int i = 4; i < argc; ++i) {
                char const* e = std::strchr(argv[i], '=');
                if(e) { st.given_names.push_back(std::string(argv[i], size_t(e - argv[i]))); st.given_values.push_back(e + 1); st.use_given = true; }
            }
            alarm(20);
            try {
                c.f(); ++ran;
                for(auto& a: st.arrays) if(a.readonly && a.n * a.elem && std::memcmp(a.p, a.ro.data(), a.n * a.elem)) fvn::fail("write to read-only input");
            } catch(fvn::Skip const&) {} catch(std::exception const& e) { fvn::fail("no abort (exception)"); }
            for(auto& a: st.arrays) std::free(a.p);
        }
    }
    std::printf("FV-OK runs=%llu\n", (unsigned long long)ran);
    return 0;
}

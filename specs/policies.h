// Arbitrary no-data policies: the input policy is any function of the index, the output policy records its calls.
#pragma once
#include "fv.h"
FV_PURE1(bool, fvp_nd0, uint64_t)
FV_PURE1(bool, fvp_nd1, uint64_t)
FV_PURE1(bool, fvp_nd2, uint64_t)
namespace fv {
template<int N> inline bool nd(uint64_t k) { return N == 0 ? fvp_nd0(k) : N == 1 ? fvp_nd1(k) : fvp_nd2(k); }
uint64_t const scalar_slot = ~uint64_t(0);
template<int N> struct In {
    bool is_no_data() const { return nd<N>(scalar_slot); }
    bool is_no_data(size_t i) const { return nd<N>(i); }
};
struct Out {
    uint8_t* m;
    void mark_as_no_data() { m[0] = 1; }
    void mark_as_no_data(size_t i) { m[i] = 1; }
};
}

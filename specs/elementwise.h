// Running one operation on one pair of 0-d values, with the marking recorded.
#pragma once
#include "parallel.h"
#include "policies.h"
#include "scalars.h"
namespace fv {
struct Marked { uint8_t m; };
}
using namespace fern; using namespace fern::algorithm;
namespace {
using IP1 = InputNoDataPolicies<SkipNoData>;
using IP2 = InputNoDataPolicies<SkipNoData, SkipNoData>;
}
#define NAME_(op, A, B) op##_##A##_##B
#define NAME(op, A, B) NAME_(op, A, B)
#define CHECK_(n) FV_CHECK(n)
#define INTS(X, A) X(A, u8) X(A, u16) X(A, u32) X(A, u64) X(A, i8) X(A, i16) X(A, i32) X(A, i64)
#define ALL(X, A) INTS(X, A) X(A, f32) X(A, f64)
#define ALLPAIRS(X) ALL(X, u8) ALL(X, u16) ALL(X, u32) ALL(X, u64) ALL(X, i8) ALL(X, i16) ALL(X, i32) ALL(X, i64) ALL(X, f32) ALL(X, f64)

// The ways to execute an operation.
#pragma once
#include "parallel.h"
namespace fv {
// how the operation is executed: RunSequential and RunParallel choose at run time, through fern's variant policy
struct RunSequential {}; struct RunParallel {};
template<class P> struct PolicyOf { using type = P; static P make() { return P{}; } };
template<> struct PolicyOf<RunSequential> { using type = fern::algorithm::ExecutionPolicy; static type make() { return type{fern::algorithm::SequentialExecutionPolicy{}}; } };
#ifndef FV_NATIVE
template<> struct PolicyOf<RunParallel> { using type = fern::algorithm::ExecutionPolicy; static type make() { return type{fern::algorithm::ParallelExecutionPolicy{}}; } };
#else
template<> struct PolicyOf<fern::algorithm::ParallelExecutionPolicy> { using type = fern::algorithm::ParallelExecutionPolicy; static type make() { return type{size_t(1 + any<uint8_t>("threads") % 4)}; } };
template<> struct PolicyOf<RunParallel> { using type = fern::algorithm::ExecutionPolicy; static type make() { return type{fern::algorithm::ParallelExecutionPolicy{size_t(1 + any<uint8_t>("threads") % 4)}}; } };
#endif
template<class P> constexpr bool is_parallel = std::is_same_v<P, RunParallel> || std::is_same_v<P, fern::algorithm::ParallelExecutionPolicy>;
template<class P> inline typename PolicyOf<P>::type policy() { return PolicyOf<P>::make(); }
}
// the checks of one driver template for every way to execute it ("_static": policy selected at compile time)
#define FV_POLICIES(name, ...) \
    FV_CHECK(name##_sequential) { __VA_ARGS__<fv::RunSequential>(); } FV_CHECK(name##_parallel) { __VA_ARGS__<fv::RunParallel>(); } \
    FV_CHECK(name##_sequential_static) { __VA_ARGS__<fern::algorithm::SequentialExecutionPolicy>(); } FV_CHECK(name##_parallel_static) { __VA_ARGS__<fern::algorithm::ParallelExecutionPolicy>(); }

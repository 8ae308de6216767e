#pragma once
#include "fern/core/thread_pool.h"
namespace fern { namespace algorithm {
class ParallelExecutionPolicy
{
public:
    ParallelExecutionPolicy(std::size_t nr_threads = hardware_concurrency()): _n(nr_threads) {}
    ThreadPool& thread_pool() { return *reinterpret_cast<ThreadPool*>(&_n); }
private:
    std::size_t _n;
};
} }

// Contract of fern::ThreadPool, used instead of its body when callers are verified:
//   size() is some positive number; submit(f) runs f exactly once, at some moment before the future is waited for.
// fv_task() executes the task under the task rules: it may only touch the elements its block owns (footprint
// obligation) and may not read variables that change while it may still be running.
#pragma once
#include "fv.h"
#include <type_traits>
#include <utility>
namespace fern {
inline std::size_t hardware_concurrency() { std::size_t n = fv::any<uint64_t>("hardware_concurrency"); fv_assume(n > 0); return n; }
template<class R, class F> __attribute__((noinline)) R fv_task_run(F& f) { return f(); }
class ThreadPool
{
public:
    ThreadPool(std::size_t n): _n(n) { fv_assert(n > 0, "thread pool has threads"); }
    ThreadPool(ThreadPool const&) = delete;
    std::size_t size() const { return _n; }
    template<class Function>
    std::future<typename std::invoke_result<Function>::type> submit(Function function)
    {
        using R = typename std::invoke_result<Function>::type;
        if constexpr (std::is_void_v<R>) { fv_task_run<R, Function>(function); ++fv::fv_submitted; return std::future<R>(1); }
        else { R r = fv_task_run<R, Function>(function); ++fv::fv_submitted; return std::future<R>(1, r); }
    }
private:
    std::size_t _n;
};
}

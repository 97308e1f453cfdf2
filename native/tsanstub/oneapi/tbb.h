// A stand-in for TBB on plain threads, all of which the race detector sees.
#pragma once
#include <algorithm>
#include <exception>
#include <mutex>
#include <thread>
#include <vector>

#include "fairseq2n/detail/thread_pool.h"

namespace tbb {
template <typename T>
struct blocked_range {
    T b, e;
    blocked_range(T x, T y) : b{x}, e{y} {}
    T begin() const { return b; }
    T end() const { return e; }
};
template <typename R, typename F>
void parallel_for(const R &r, const F &f)
{
    auto n = r.end() - r.begin();
    auto k = std::min<decltype(n)>(n, 4);
    if (k <= 1) {
        if (n)
            f(r);
        return;
    }
    std::exception_ptr err{};
    std::mutex m;
    std::vector<std::thread> ts;
    for (decltype(n) i = 0; i < k; ++i)
        ts.emplace_back([&, i] {
            try {
                f(R{r.begin() + n * i / k, r.begin() + n * (i + 1) / k});
            } catch (...) {
                std::lock_guard<std::mutex> g{m};
                if (!err)
                    err = std::current_exception();
            }
        });
    for (auto &t : ts)
        t.join();
    if (err)
        std::rethrow_exception(err);
}
class task_arena : public fairseq2n::detail::thread_pool {
public:
    explicit task_arena(int n) : thread_pool(static_cast<std::size_t>(n)) {}
};
}  // namespace tbb

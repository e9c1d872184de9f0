// the steady clock of the program under test: real time plus what the harness adds for the calling rank
#pragma once
#include <ctime>

#include <chrono>
#include <functional>

namespace vclock {
// hours to add for the calling thread
inline std::function<double()>& extra()
{
    static std::function<double()> f;
    return f;
}
inline long& asked()
{
    static long n = 0;
    return n;
}
} // namespace vclock

// takes the place of the library's function (the program calls it through the dynamic symbol)
auto std::chrono::_V2::steady_clock::now() noexcept -> std::chrono::_V2::steady_clock::time_point
{
    timespec t {};
    ::clock_gettime(CLOCK_MONOTONIC, &t);
    double const h = vclock::extra() ? vclock::extra()() : 0;
    if (h != 0) {
        ++vclock::asked();
    }
    return time_point(duration(std::chrono::seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec) + std::chrono::nanoseconds(static_cast<long long>(h * 3.6e12))));
}

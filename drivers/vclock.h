// The services read the clock through std::chrono: a driver that includes this file sets it.
#pragma once
#include <time.h>
#include <atomic>
#include <chrono>

// ---- virtual clock: the timer and loop services read it through std::chrono
static std::atomic<long long> g_clock { -1 };
static std::atomic<long long> g_tick { 1 };
namespace std
{
namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    if (g_clock.load() < 0) {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return time_point(std::chrono::nanoseconds(ts.tv_sec * 1000000000ll + ts.tv_nsec));
    }
    return time_point(std::chrono::nanoseconds(g_clock.load()));
}
system_clock::time_point system_clock::now() noexcept
{
    if (g_clock.load() < 0) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        return time_point(std::chrono::nanoseconds(ts.tv_sec * 1000000000ll + ts.tv_nsec));
    }
    return time_point(std::chrono::nanoseconds(g_clock.load()));
}
} // namespace _V2
} // namespace chrono
} // namespace std

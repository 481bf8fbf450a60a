#pragma once
#include <chrono>
#include <string>
namespace tf2
{
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
using IDuration = std::chrono::duration<int, std::nano>;
static const TimePoint TimePointZero = TimePoint(Duration(0));
inline Duration durationFromSec(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
inline double durationToSec(const Duration & d) { return static_cast<double>(d.count()) * 1e-9; }
inline TimePoint timeFromSec(double s) { return TimePoint(Duration(static_cast<int64_t>(s * 1e9))); }
inline double timeToSec(const TimePoint & t) { return static_cast<double>(t.time_since_epoch().count()) * 1e-9; }
}

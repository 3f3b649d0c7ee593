// Stand-in for the time types of rclcpp (nanosecond counts with a clock, as in ROS 2).
#pragma once
#include <chrono>
#include <cstdint>
#include <limits>
#include <stdexcept>
namespace rclcpp {
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
class Duration
{
public:
  explicit Duration(std::chrono::nanoseconds ns) : ns_(ns.count()) {}
  Duration(std::int32_t s, std::uint32_t ns) : ns_(s * 1000000000LL + ns) {}
  static Duration from_seconds(double s) { return Duration(std::chrono::nanoseconds(static_cast<std::int64_t>(s * 1e9))); }
  static Duration from_nanoseconds(std::int64_t ns) { return Duration(std::chrono::nanoseconds(ns)); }
  std::int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  template<class D>
  D to_chrono() const
  {
    return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));
  }

private:
  std::int64_t ns_;
};
class Time
{
public:
  explicit Time(std::int64_t ns = 0, rcl_clock_type_t c = RCL_SYSTEM_TIME) : ns_(ns), c_(c) {}
  std::int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  rcl_clock_type_t get_clock_type() const { return c_; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), c_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), c_); }
  Duration operator-(const Time & o) const
  {
    if (c_ != o.c_) throw std::runtime_error("can't subtract times with different time sources");
    return Duration(std::chrono::nanoseconds(ns_ - o.ns_));
  }

private:
  std::int64_t ns_;
  rcl_clock_type_t c_;
};
}  // namespace rclcpp

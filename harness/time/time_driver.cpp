// Replays time arithmetic histories (spec/TimeTrace.tla).
#include <ratio>
#include <smooth/feedback/compat/ros.hpp>
#include <smooth/feedback/time.hpp>

#include "../vh.hpp"
using vh::J;
using namespace std::chrono;

static J pair_of(long double v)
{
  long double f = std::floor(v);
  long long n = llroundl((v - f) * 1e9L);
  if (n >= 1000000000LL) { n -= 1000000000LL; f += 1; }
  if (!(f > -2e9L && f < 2e9L)) { f = 1999999999; n = 0; }
  J r = J::arr(); r.push((long long)(f)); r.push(n); return r;
}
static J pair_of_ns(long long ns)
{
  long long s = ns / 1000000000LL, n = ns % 1000000000LL;
  if (n < 0) { n += 1000000000LL; --s; }
  J r = J::arr(); r.push(s); r.push(n); return r;
}

template<typename T>
struct conv;
template<std::floating_point T>
struct conv<T>
{
  static T make(long long s, long long n) { return T(s + n * 1e-9L); }
  static J show(T t) { return pair_of(t); }
};
template<typename R, typename P>
struct conv<duration<R, P>>
{
  static duration<R, P> make(long long s, long long n)
  {
    if constexpr (std::is_floating_point_v<R>) return duration<R, P>(duration<long double>(s + n * 1e-9L));
    else return duration_cast<duration<R, P>>(seconds(s) + nanoseconds(n));
  }
  static J show(duration<R, P> t)
  {
    if constexpr (std::is_floating_point_v<R>) return pair_of(duration<long double>(t).count());
    else return pair_of_ns(duration_cast<nanoseconds>(t).count());
  }
};
template<typename C, typename D>
struct conv<time_point<C, D>>
{
  static time_point<C, D> make(long long s, long long n) { return time_point<C, D>(conv<D>::make(s, n)); }
  static J show(time_point<C, D> t) { return conv<D>::show(t.time_since_epoch()); }
};
template<>
struct conv<rclcpp::Time>
{
  static rclcpp::Time make(long long s, long long n) { return rclcpp::Time(s * 1000000000LL + n, rclcpp::RCL_ROS_TIME); }
  static J show(rclcpp::Time t) { return pair_of_ns(t.nanoseconds()); }
};

template<typename T>
static J go(const J & cs)
{
  using tt = smooth::feedback::time_trait<T>;
  static_assert(smooth::feedback::Time<T>);
  std::vector<T> ts{conv<T>::make(cs["t0"][0].i, cs["t0"][1].i)};
  J out = J::obj(), res = J::arr();
  out.set("id", cs["id"]).set("ev", "ok").set("t0", conv<T>::show(ts[0]));
  for (auto & i : cs["inc"].a) {
    const double dt = double(i[0].i) + double(i[1].i) * 1e-9;
    const T t = tt::plus(ts.back(), dt);
    J r = J::obj(), d = J::arr(), e = J::arr();
    r.set("t", conv<T>::show(t));
    for (auto & o : ts) { d.push(pair_of(tt::minus(t, o))); e.push(pair_of(tt::minus(o, t))); }
    r.set("d", d).set("e", e).set("z", pair_of(tt::minus(t, t)));
    ts.push_back(t);
    res.push(r);
  }
  out.set("res", res);
  return out;
}

static J run_case(const J & cs)
{
  switch (cs["ty"].i) {
  case 0: return go<double>(cs);
  case 1: return go<long double>(cs);
  case 2: return go<float>(cs);
  case 3: return go<duration<double>>(cs);
  case 4: return go<duration<double, std::milli>>(cs);
  case 5: return go<nanoseconds>(cs);
  case 6: return go<microseconds>(cs);
  case 7: return go<milliseconds>(cs);
  case 8: return go<seconds>(cs);
  case 9: return go<duration<int, std::ratio<1, 10>>>(cs);
  case 10: return go<minutes>(cs);
  case 11: return go<steady_clock::time_point>(cs);
  case 12: return go<system_clock::time_point>(cs);
  case 13: return go<time_point<system_clock, milliseconds>>(cs);
  case 14: return go<duration<float>>(cs);
  case 16: return go<rclcpp::Time>(cs);
  default: return go<time_point<steady_clock, duration<double>>>(cs);
  }
}

int main(int argc, char ** argv) { return vh::run(argc, argv, run_case); }

// Stand-in for smooth/compat/odeint.hpp: integration of group-valued states with boost::numeric::odeint.
// Steppers call op(out, x0, k1, k2, ...) for  out = a1 * x0 + a2 * k1 + a3 * k2 + ... (a1 = 1).
#pragma once
#include <boost/numeric/odeint.hpp>
#include <smooth/shim_core.hpp>

namespace smooth::shim {
struct group_operations
{
  template<typename... Fac>
  struct scale_sum
  {
    std::tuple<Fac...> a;
    scale_sum(Fac... f) : a(f...) {}
    template<typename Out, typename X0, typename... K>
    void operator()(Out & out, const X0 & x0, const K &... k) const
    {
      out = [&]<std::size_t... I>(std::index_sequence<I...>) {
        Tangent<X0> d = Tangent<X0>::Zero();
        ((d += std::get<I + 1>(a) * k), ...);
        return rplus(x0, d);
      }(std::index_sequence_for<K...>{});
    }
    using result_type = void;
  };
  template<class F1 = double, class F2 = F1>
  using scale_sum2 = scale_sum<F1, F2>;
  template<class F1 = double, class F2 = F1, class F3 = F2>
  using scale_sum3 = scale_sum<F1, F2, F3>;
  template<class F1 = double, class F2 = F1, class F3 = F2, class F4 = F3>
  using scale_sum4 = scale_sum<F1, F2, F3, F4>;
  template<class F1 = double, class F2 = F1, class F3 = F2, class F4 = F3, class F5 = F4>
  using scale_sum5 = scale_sum<F1, F2, F3, F4, F5>;
};
}  // namespace smooth::shim

namespace boost::numeric::odeint {
template<typename G>
struct operations_dispatcher_sfinae<G, std::enable_if_t<::smooth::shim_group<G>>>
{
  typedef ::smooth::shim::group_operations operations_type;
};
}  // namespace boost::numeric::odeint

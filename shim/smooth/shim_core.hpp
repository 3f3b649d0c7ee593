// Stand-in for the parts of the Lie group library "smooth" that smooth_feedback uses (the library is not
// installed in this sandbox).  Groups: R^n (Eigen vectors), scalars, two nilpotent matrix groups whose
// exponential, adjoint and Jacobians are polynomials (exact on small integers), and bundles of these.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <limits>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Sparse>

namespace smooth {

// ------------------------------------------------------------------ traits
namespace traits {
template<typename T>
struct man;  // dof, Scalar, PlainObject, CastT
}

template<typename T>
concept RnType = std::is_base_of_v<Eigen::MatrixBase<std::decay_t<T>>, std::decay_t<T>> &&(std::decay_t<T>::ColsAtCompileTime == 1);

template<typename T>
concept shim_scalar = std::is_floating_point_v<std::decay_t<T>>;

/// groups of this shim: static Dof, operator* , inverse, log, static exp, static ad
template<typename T>
concept shim_group = requires { typename std::decay_t<T>::shim_group_tag; };

template<typename M>
concept Manifold = RnType<M> || shim_scalar<M> || shim_group<M>;

template<typename G>
concept LieGroup = Manifold<G>;

namespace traits {
template<shim_scalar T>
struct man<T>
{
  static constexpr Eigen::Index dof = 1;
  using Scalar                      = T;
  using Plain                       = T;
  template<typename S>
  using Cast = S;
};
template<typename T>
  requires(RnType<T>)
struct man<T>
{
  static constexpr Eigen::Index dof = T::RowsAtCompileTime;
  using Scalar                      = typename T::Scalar;
  using Plain                       = Eigen::Matrix<Scalar, dof, 1>;
  template<typename S>
  using Cast = Eigen::Matrix<S, dof, 1>;
};
template<shim_group T>
struct man<T>
{
  static constexpr Eigen::Index dof = T::Dof;
  using Scalar                      = typename T::Scalar;
  using Plain                       = T;
  template<typename S>
  using Cast = typename T::template CastTo<S>;
};
}  // namespace traits

template<typename M>
static inline constexpr Eigen::Index Dof = traits::man<std::decay_t<M>>::dof;
template<typename M>
using Scalar = typename traits::man<std::decay_t<M>>::Scalar;
template<typename M>
using PlainObject = typename traits::man<std::decay_t<M>>::Plain;
template<typename M>
using Tangent = Eigen::Matrix<Scalar<M>, Dof<M>, 1>;
template<typename M>
using TangentMap = Eigen::Matrix<Scalar<M>, Dof<M>, Dof<M>>;
template<typename S, typename M>
using CastT = typename traits::man<std::decay_t<M>>::template Cast<S>;

// ------------------------------------------------------------------ nilpotent groups
/// Common part: elements are identified with their logarithm v; product by the (finite) BCH series.
/// Derived supplies bracket(a, b).  Brackets of length > 4 vanish.
template<typename Derived, typename S, int N>
struct NilBase
{
  using shim_group_tag              = void;
  using Scalar                      = S;
  static constexpr Eigen::Index Dof = N;
  using T                           = Eigen::Matrix<S, N, 1>;
  using TM                          = Eigen::Matrix<S, N, N>;
  T v                               = T::Zero();

  static Derived exp(const T & a)
  {
    Derived r;
    r.v = a;
    return r;
  }
  static Derived Identity() { return exp(T::Zero()); }
  static Derived Random() { return exp(T::Random()); }
  T log() const { return v; }
  Derived inverse() const { return exp(-v); }
  friend Derived operator*(const Derived & x, const Derived & y)
  {
    const T &a = x.v, &b = y.v;
    const T ab = Derived::bracket(a, b);
    const T aab = Derived::bracket(a, ab), bba = -Derived::bracket(b, ab);
    const T baab = Derived::bracket(b, aab);
    return exp(a + b + ab / S(2) + (aab + bba) / S(12) - baab / S(24));
  }
  static TM ad(const T & a)
  {
    TM r;
    for (int i = 0; i < N; ++i) r.col(i) = Derived::bracket(a, T(T::Unit(i)));
    return r;
  }
  TM Ad() const  // exp(ad)
  {
    TM A = ad(v), P = TM::Identity(), R = P;
    for (int k = 1; k < 5; ++k) {
      P = P * A / S(k);
      R += P;
    }
    return R;
  }
  // sum (-1)^k ad^k / (k+1)!
  static TM dr_exp(const T & a)
  {
    TM A = ad(a), P = TM::Identity(), R = P;
    for (int k = 1; k < 5; ++k) {
      P = -P * A / S(k + 1);
      R += P;
    }
    return R;
  }
  // sum B_k (-1)^k ad^k / k!  : 1 + ad/2 + ad^2/12 + 0 - ad^4/720
  static TM dr_expinv(const T & a)
  {
    TM A = ad(a), A2 = A * A;
    return TM::Identity() + A / S(2) + A2 / S(12) - A2 * A2 / S(720);
  }
  bool isApprox(const Derived & o, double eps = 1e-12) const { return (v - o.v).norm() <= eps * (1 + std::min(v.norm(), o.v.norm())); }
  // group difference and sum
  friend Derived operator+(const Derived & g, const T & a) { return g * exp(a); }
  friend T operator-(const Derived & g, const Derived & h) { return (h.inverse() * g).log(); }
  Derived & operator+=(const T & a)
  {
    auto & d = static_cast<Derived &>(*this);
    d        = d * exp(a);
    return d;
  }
};

/// Heisenberg group: [e1,e2] = 2 e3 (2-step nilpotent)
template<typename S>
struct Heis : NilBase<Heis<S>, S, 3>
{
  template<typename S2>
  using CastTo = Heis<S2>;
  using T      = Eigen::Matrix<S, 3, 1>;
  static T bracket(const T & a, const T & b) { return T(S(0), S(0), S(2) * (a(0) * b(1) - a(1) * b(0))); }
};

/// Filiform group of dimension 4: [e1,e2] = 6 e3, [e1,e3] = 2 e4 (3-step nilpotent)
template<typename S>
struct Fili : NilBase<Fili<S>, S, 4>
{
  template<typename S2>
  using CastTo = Fili<S2>;
  using T      = Eigen::Matrix<S, 4, 1>;
  static T bracket(const T & a, const T & b)
  {
    return T(S(0), S(0), S(6) * (a(0) * b(1) - a(1) * b(0)), S(2) * (a(0) * b(2) - a(2) * b(0)));
  }
};
using Heisd = Heis<double>;
using Filid = Fili<double>;

// ------------------------------------------------------------------ bundle
template<typename... Gs>
struct Bundle
{
  using shim_group_tag              = void;
  using Scalar                      = std::common_type_t<smooth::Scalar<Gs>...>;
  static constexpr Eigen::Index Dof = (0 + ... + smooth::Dof<Gs>);
  template<typename S2>
  using CastTo = Bundle<CastT<S2, Gs>...>;
  std::tuple<Gs...> parts{};
  template<std::size_t I>
  auto & part() { return std::get<I>(parts); }
  template<std::size_t I>
  const auto & part() const { return std::get<I>(parts); }
};

// ------------------------------------------------------------------ free functions
template<LieGroup G>
PlainObject<G> Identity()
{
  if constexpr (shim_scalar<G>) return G(0);
  else if constexpr (RnType<G>) return PlainObject<G>::Zero();
  else if constexpr (requires { G::Identity(); }) return G::Identity();
  else return G{};
}
template<LieGroup G>
PlainObject<G> Identity(Eigen::Index n) { return PlainObject<G>::Zero(n); }
template<Manifold M>
PlainObject<M> Default() { return Identity<M>(); }
template<Manifold M>
PlainObject<M> Default(Eigen::Index n) { return PlainObject<M>::Zero(n); }
template<Manifold M>
PlainObject<M> Random()
{
  if constexpr (shim_scalar<M>) return 2. * std::rand() / RAND_MAX - 1;
  else return M::Random();
}

template<Manifold M>
Eigen::Index dof(const M & m)
{
  if constexpr (shim_scalar<M>) return 1;
  else if constexpr (RnType<M>) return m.size();
  else return Dof<M>;
}

template<typename S, Manifold M>
CastT<S, M> cast(const M & m)
{
  if constexpr (shim_scalar<M>) return S(m);
  else if constexpr (RnType<M>) return m.template cast<S>();
  else {
    CastT<S, M> r;
    r.v = m.v.template cast<S>();
    return r;
  }
}

template<Manifold M, typename D>
PlainObject<M> rplus(const M & m, const Eigen::MatrixBase<D> & a)
{
  if constexpr (shim_scalar<M>) return m + a(0);
  else return PlainObject<M>(m + Tangent<M>(a));
}
template<Manifold M, Manifold Mo>
auto rminus(const M & a, const Mo & b)
{
  if constexpr (shim_scalar<M>) return Eigen::Matrix<M, 1, 1>(a - b);
  else if constexpr (RnType<M>) return Tangent<M>(a - b);
  else return Tangent<M>(a - b);
}
template<LieGroup G, typename D>
PlainObject<G> exp(const Eigen::MatrixBase<D> & a)
{
  if constexpr (shim_scalar<G>) return a(0);
  else if constexpr (RnType<G>) return PlainObject<G>(a);
  else return G::exp(typename G::T(a));
}
template<LieGroup G>
Tangent<G> log(const G & g)
{
  if constexpr (RnType<G>) return g;
  else return g.log();
}
template<LieGroup G>
PlainObject<G> inverse(const G & g)
{
  if constexpr (RnType<G>) return -g;
  else return g.inverse();
}
template<LieGroup G>
PlainObject<G> composition(const G & a, const G & b)
{
  if constexpr (RnType<G>) return a + b;
  else return a * b;
}
template<LieGroup G>
TangentMap<G> Ad(const G & g)
{
  if constexpr (RnType<G> || shim_scalar<G>) return TangentMap<G>::Identity();
  else return g.Ad();
}
template<LieGroup G, typename D>
TangentMap<G> ad(const Eigen::MatrixBase<D> & a)
{
  if constexpr (RnType<G> || shim_scalar<G>) return TangentMap<G>::Zero();
  else return G::ad(typename G::T(a));
}
template<LieGroup G, typename D>
TangentMap<G> dr_exp(const Eigen::MatrixBase<D> & a)
{
  if constexpr (RnType<G> || shim_scalar<G>) return TangentMap<G>::Identity();
  else return G::dr_exp(typename G::T(a));
}
template<LieGroup G, typename D>
TangentMap<G> dr_expinv(const Eigen::MatrixBase<D> & a)
{
  if constexpr (RnType<G> || shim_scalar<G>) return TangentMap<G>::Identity();
  else return G::dr_expinv(typename G::T(a));
}
template<LieGroup G, typename D>
TangentMap<G> dl_exp(const Eigen::MatrixBase<D> & a) { return dr_exp<G>(-a); }
template<LieGroup G, typename D>
TangentMap<G> dl_expinv(const Eigen::MatrixBase<D> & a) { return dr_expinv<G>(-a); }

template<LieGroup G>
static inline constexpr bool IsCommutative = RnType<G> || shim_scalar<G>;

// ------------------------------------------------------------------ utils
namespace utils {
template<std::size_t I, typename F, std::size_t... Idx>
constexpr void static_for_impl(F && f, std::index_sequence<Idx...>)
{
  (f(std::integral_constant<std::size_t, Idx>{}), ...);
}
template<std::size_t I, typename F>
constexpr void static_for(F && f)
{
  static_for_impl<I>(std::forward<F>(f), std::make_index_sequence<I>{});
}

/// tuple of ranges iterated in parallel until the shortest ends
template<typename... Rs>
struct zip_range
{
  std::tuple<Rs...> rs;
  struct sentinel
  {};
  struct iterator
  {
    std::tuple<std::ranges::iterator_t<std::remove_reference_t<Rs>>...> it;
    std::tuple<std::ranges::sentinel_t<std::remove_reference_t<Rs>>...> en;
    using value_type      = std::tuple<std::ranges::range_reference_t<std::remove_reference_t<Rs>>...>;
    using difference_type = std::ptrdiff_t;
    value_type operator*() const
    {
      return std::apply([](auto &... i) { return value_type(*i...); }, const_cast<iterator *>(this)->it);
    }
    iterator & operator++()
    {
      std::apply([](auto &... i) { (++i, ...); }, it);
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(const sentinel &) const
    {
      return []<std::size_t... I>(const iterator & s, std::index_sequence<I...>) {
        return ((std::get<I>(s.it) == std::get<I>(s.en)) || ...);
      }(*this, std::index_sequence_for<Rs...>{});
    }
    bool operator!=(const sentinel & s) const { return !(*this == s); }
  };
  iterator begin()
  {
    return std::apply([](auto &... r) { return iterator{{std::ranges::begin(r)...}, {std::ranges::end(r)...}}; }, rs);
  }
  sentinel end() { return {}; }
};
template<typename... Rs>
constexpr auto zip(Rs &&... rs)
{
  return zip_range<Rs...>{std::tuple<Rs...>(std::forward<Rs>(rs)...)};
}

/// last element not larger than t, end() if empty or t < front
template<typename R, typename T, typename WO>
constexpr auto binary_interval_search(const R & r, const T & t, WO && wo)
{
  auto it = std::ranges::begin(r), en = std::ranges::end(r);
  if (it == en || wo(*it, t) > 0) return en;
  auto best = it;
  std::size_t lo = 0, hi = std::size_t(en - it);
  while (hi - lo > 1) {
    const std::size_t mid = (lo + hi) / 2;
    if (wo(*(it + mid), t) <= 0) lo = mid;
    else hi = mid;
  }
  return best + lo;
}
}  // namespace utils

// ------------------------------------------------------------------ differentiation
template<typename... A>
auto wrt(A &&... a)
{
  return std::forward_as_tuple(std::forward<A>(a)...);
}

namespace diff {
enum class Type { Numerical, Autodiff, Ceres, Analytic, Default };
/// number of differentiations by requested method (read by the conformance harness)
inline std::array<long, 5> shim_calls{};

namespace detail {
template<typename F, typename W>
struct has1 : std::false_type
{};
template<typename F, typename... A>
struct has1<F, std::tuple<A...>>
    : std::bool_constant<requires(std::remove_reference_t<F> & f, const std::decay_t<A> &... a) { f.jacobian(a...); }>
{};
template<typename F, typename W>
struct has2 : std::false_type
{};
template<typename F, typename... A>
struct has2<F, std::tuple<A...>>
    : std::bool_constant<requires(std::remove_reference_t<F> & f, const std::decay_t<A> &... a) { f.hessian(a...); }>
{};
template<typename F, typename W>
concept diffable_order1 = has1<F, W>::value;
template<typename F, typename W>
concept diffable_order2 = has1<F, W>::value && has2<F, W>::value;

inline constexpr double H1 = 1. / 128, H2 = 1. / 16;

template<typename Tup>
constexpr Eigen::Index total_dof = []<typename... A>(std::tuple<A...> *) {
  return ((Dof<A> < 0) || ...) ? Eigen::Index(-1) : (Eigen::Index(0) + ... + Dof<A>);
}(static_cast<Tup *>(nullptr));

/// perturb component i (counted over all arguments) by h
template<typename Tup>
void perturb(Tup & t, Eigen::Index i, double h)
{
  std::apply(
    [&](auto &... x) {
      Eigen::Index b = 0;
      (
        [&](auto & y) {
          using M = std::decay_t<decltype(y)>;
          const Eigen::Index n = smooth::dof(y);
          if (i >= b && i < b + n) {
            if constexpr (shim_scalar<M>) y += h;
            else y = rplus(y, Tangent<M>(h * Tangent<M>::Unit(n, i - b)));
          }
          b += n;
        }(x),
        ...);
    },
    t);
}

template<typename Tup>
struct plain;
template<typename... A>
struct plain<std::tuple<A...>>
{
  using type = std::tuple<PlainObject<A>...>;
};

template<typename F, typename P>
auto jac_num(F & f, const P & x0, double h)
{
  auto f0   = PlainObject<std::decay_t<decltype(std::apply(f, x0))>>(std::apply(f, x0));
  using Res = std::decay_t<decltype(f0)>;
  static constexpr auto Nx = total_dof<P>;
  static constexpr auto Ny = Dof<Res>;
  const Eigen::Index nx    = std::apply([](const auto &... a) { return (Eigen::Index(0) + ... + smooth::dof(a)); }, x0);
  const Eigen::Index ny    = smooth::dof(f0);
  static constexpr int opt = (Ny == 1 && Nx != 1) ? int(Eigen::RowMajor) : int(Eigen::ColMajor);
  Eigen::Matrix<double, Ny, Nx, opt> J(ny, nx);
  for (Eigen::Index i = 0; i < nx; ++i) {
    Eigen::Matrix<double, Ny, 1> d = Eigen::Matrix<double, Ny, 1>::Zero(ny);
    const double c[4] = {-1, 8, -8, 1}, s[4] = {2, 1, -1, -2};
    for (int k = 0; k < 4; ++k) {
      P x = x0;
      perturb(x, i, s[k] * h);
      const Res y = std::apply(f, x);
      d += c[k] * rminus(y, f0);
    }
    J.col(i) = d / (12 * h);
  }
  return std::make_pair(f0, J);
}
}  // namespace detail

template<std::size_t K, Type D, typename F, typename W>
auto dr(F && f, W && w)
{
  ++shim_calls[std::size_t(D)];
  using Fd = std::remove_reference_t<F>;
  using P  = typename detail::plain<std::decay_t<W>>::type;
  using WD = P;
  if constexpr (K == 0) {
    return std::make_tuple(std::apply(f, w));
  } else if constexpr (
    D == Type::Analytic || (D == Type::Default && K == 1 && detail::has1<Fd, WD>::value)
    || (D == Type::Default && K == 2 && detail::has1<Fd, WD>::value && detail::has2<Fd, WD>::value)) {
    auto jac = [&](auto &&... a) -> decltype(auto) { return f.jacobian(a...); };
    if constexpr (K == 1) {
      return std::make_tuple(std::apply(f, w), std::apply(jac, w));
    } else {
      auto hes = [&](auto &&... a) -> decltype(auto) { return f.hessian(a...); };
      return std::make_tuple(std::apply(f, w), std::apply(jac, w), std::apply(hes, w));
    }
  } else {
    const P x0 = std::apply([](auto &&... a) { return P(a...); }, w);
    auto [f0, J] = detail::jac_num(f, x0, detail::H1);
    if constexpr (K == 1) {
      return std::make_tuple(std::move(f0), std::move(J));
    } else {
      static constexpr auto Nx = detail::total_dof<P>;
      static constexpr auto Ny = Dof<std::decay_t<decltype(f0)>>;
      const Eigen::Index nx = J.cols(), ny = J.rows();
      Eigen::Matrix<double, Nx, (Nx < 0 || Ny < 0) ? -1 : Nx * Ny, Nx == 1 ? Eigen::RowMajor : Eigen::ColMajor> H(nx, nx * ny);
      H.setZero();
      const double c[4] = {-1, 8, -8, 1}, s[4] = {2, 1, -1, -2};
      for (Eigen::Index j = 0; j < nx; ++j) {
        for (int k = 0; k < 4; ++k) {
          P x = x0;
          detail::perturb(x, j, s[k] * detail::H2);
          const auto Jk = detail::jac_num(f, x, detail::H2).second;
          for (Eigen::Index o = 0; o < ny; ++o)
            for (Eigen::Index i = 0; i < nx; ++i) H(i, o * nx + j) += c[k] * Jk(o, i) / (12 * detail::H2);
        }
      }
      return std::make_tuple(std::move(f0), std::move(J), std::move(H));
    }
  }
}
template<std::size_t K = 1, typename F, typename W>
auto dr(F && f, W && w)
{
  return dr<K, Type::Default>(std::forward<F>(f), std::forward<W>(w));
}
}  // namespace diff

// ------------------------------------------------------------------ sparse Lie functions
namespace shim {
template<LieGroup G>
void each_part(auto && fn)  // fn.template operator()<Part>(offset)
{
  if constexpr (RnType<G> || shim_scalar<G> || requires { typename G::T; }) fn.template operator()<G>(0);
  else
    []<typename... Gs>(Bundle<Gs...> *, auto && fun) {
      Eigen::Index b = 0;
      ((fun.template operator()<Gs>(b), b += Dof<Gs>), ...);
    }(static_cast<G *>(nullptr), fn);
}
/// dense derivative of (dr_exp or dr_expinv): row s, col r*N + c is the derivative of entry (r, s) w.r.t. c
template<LieGroup G, bool Inv>
Eigen::MatrixXd d2(const Eigen::VectorXd & a)
{
  static constexpr auto N = Dof<G>;
  Eigen::MatrixXd R       = Eigen::MatrixXd::Zero(N, N * N);
  each_part<G>([&]<typename P>(Eigen::Index b) {
    if constexpr (!(RnType<P> || shim_scalar<P>)) {
      static constexpr auto n = Dof<P>;
      for (int c = 0; c < n; ++c) {
        Eigen::Matrix<double, n, n> d = Eigen::Matrix<double, n, n>::Zero();
        const double co[4] = {-1, 8, -8, 1}, st[4] = {2, 1, -1, -2};
        for (int k = 0; k < 4; ++k) {
          Eigen::Matrix<double, n, 1> x = a.segment(b, n);
          x(c) += st[k] / 8;
          d += co[k] * (Inv ? dr_expinv<P>(x) : dr_exp<P>(x));
        }
        d /= 12. / 8;
        for (int r = 0; r < n; ++r)
          for (int s = 0; s < n; ++s) R(b + s, (b + r) * N + b + c) = d(r, s);
      }
    }
  });
  return R;
}
template<LieGroup G>
Eigen::SparseMatrix<double> blockpat()
{
  Eigen::SparseMatrix<double> r(Dof<G>, Dof<G>);
  each_part<G>([&]<typename P>(Eigen::Index b) {
    if constexpr (RnType<P> || shim_scalar<P>)
      for (int i = 0; i < Dof<P>; ++i) r.insert(b + i, b + i) = 0;
    else
      for (int j = 0; j < Dof<P>; ++j)
        for (int i = 0; i < Dof<P>; ++i) r.insert(b + i, b + j) = 0;
  });
  r.makeCompressed();
  return r;
}
template<LieGroup G>
Eigen::SparseMatrix<double> d2pat()
{
  Eigen::SparseMatrix<double> R(Dof<G>, Dof<G> * Dof<G>);
  each_part<G>([&]<typename P>(Eigen::Index b) {
    if constexpr (!(RnType<P> || shim_scalar<P>))
      for (int r = 0; r < Dof<P>; ++r)
        for (int c = 0; c < Dof<P>; ++c)
          for (int s = 0; s < Dof<P>; ++s) R.insert(b + s, (b + r) * Dof<G> + b + c) = 0;
  });
  R.makeCompressed();
  return R;
}
}  // namespace shim

template<LieGroup G>
inline Eigen::SparseMatrix<double> d_exp_sparse_pattern = shim::blockpat<G>();
template<LieGroup G>
inline Eigen::SparseMatrix<double> d2_exp_sparse_pattern = shim::d2pat<G>();
template<LieGroup G>
inline Eigen::SparseMatrix<double> ad_sparse_pattern = []() {
  if constexpr (IsCommutative<G>) return Eigen::SparseMatrix<double>(Dof<G>, Dof<G>);
  else return shim::blockpat<G>();
}();
template<LieGroup G>
inline std::array<Eigen::SparseMatrix<double, Eigen::RowMajor>, std::size_t(Dof<G>)> generators_sparse = []() {
  std::array<Eigen::SparseMatrix<double, Eigen::RowMajor>, std::size_t(Dof<G>)> r;
  for (int i = 0; i < Dof<G>; ++i) {
    const Eigen::MatrixXd m = ad<G>(Tangent<G>(Tangent<G>::Unit(i)));
    r[i]                    = m.sparseView();
    r[i].makeCompressed();
  }
  return r;
}();

template<LieGroup G, typename D>
void dr_exp_sparse(auto & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  shim::each_part<G>([&]<typename P>(Eigen::Index b) {
    if constexpr (RnType<P> || shim_scalar<P>)
      for (int i = 0; i < Dof<P>; ++i) sp.coeffRef(i0 + b + i, i0 + b + i) = 1;
    else {
      const TangentMap<P> m = dr_exp<P>(Tangent<P>(a.segment(b, Dof<P>)));
      for (int j = 0; j < Dof<P>; ++j)
        for (int i = 0; i < Dof<P>; ++i) sp.coeffRef(i0 + b + i, i0 + b + j) = m(i, j);
    }
  });
}
template<LieGroup G, typename D>
void dr_expinv_sparse(auto & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  shim::each_part<G>([&]<typename P>(Eigen::Index b) {
    if constexpr (RnType<P> || shim_scalar<P>)
      for (int i = 0; i < Dof<P>; ++i) sp.coeffRef(i0 + b + i, i0 + b + i) = 1;
    else {
      const TangentMap<P> m = dr_expinv<P>(Tangent<P>(a.segment(b, Dof<P>)));
      for (int j = 0; j < Dof<P>; ++j)
        for (int i = 0; i < Dof<P>; ++i) sp.coeffRef(i0 + b + i, i0 + b + j) = m(i, j);
    }
  });
}
template<LieGroup G, typename D>
void d2r_exp_sparse(auto & sp, const Eigen::MatrixBase<D> & a)
{
  const Eigen::MatrixXd m = shim::d2<G, false>(a);
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i)
      if (m(i, j) != 0 || sp.coeff(i, j) != 0) sp.coeffRef(i, j) = m(i, j);
}
template<LieGroup G, typename D>
void d2r_expinv_sparse(auto & sp, const Eigen::MatrixBase<D> & a)
{
  const Eigen::MatrixXd m = shim::d2<G, true>(a);
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i)
      if (m(i, j) != 0 || sp.coeff(i, j) != 0) sp.coeffRef(i, j) = m(i, j);
}
template<LieGroup G, typename D>
void ad_sparse(auto & sp, const Eigen::MatrixBase<D> & a)
{
  if constexpr (!IsCommutative<G>) {
    const TangentMap<G> m = ad<G>(a);
    for (int j = 0; j < m.cols(); ++j)
      for (int i = 0; i < m.rows(); ++i) sp.coeffRef(i, j) = m(i, j);
  }
}

// ------------------------------------------------------------------ polynomials
template<typename S, std::size_t R, std::size_t C>
struct StaticMatrix : std::array<std::array<S, C>, R>
{
  constexpr StaticMatrix() : std::array<std::array<S, C>, R>{} {}
  template<std::size_t R2, std::size_t C2>
  constexpr StaticMatrix<S, R2, C2> block(std::size_t r0, std::size_t c0) const
  {
    StaticMatrix<S, R2, C2> m;
    for (std::size_t i = 0; i < R2; ++i)
      for (std::size_t j = 0; j < C2; ++j) m[i][j] = (*this)[r0 + i][c0 + j];
    return m;
  }
  template<std::size_t C2>
  constexpr StaticMatrix<S, R, C2> operator*(const StaticMatrix<S, C, C2> & o) const
  {
    StaticMatrix<S, R, C2> m;
    for (std::size_t i = 0; i < R; ++i)
      for (std::size_t j = 0; j < C2; ++j) {
        m[i][j] = 0;
        for (std::size_t k = 0; k < C; ++k) m[i][j] += (*this)[i][k] * o[k][j];
      }
    return m;
  }
};

namespace shim {
constexpr double legendre(std::size_t n, double x)
{
  double a = 1, b = x;
  if (n == 0) return a;
  for (std::size_t k = 2; k <= n; ++k) {
    const double c = ((2. * k - 1) * x * b - (k - 1.) * a) / k;
    a = b, b = c;
  }
  return b;
}
// (P_{K-1} + P_K) / (1 + x) has the K-1 interior nodes as roots
constexpr double lgr_f(std::size_t K, double x) { return legendre(K - 1, x) + legendre(K, x); }
}  // namespace shim

/// Legendre-Gauss-Radau nodes and weights on [-1, 1)
template<std::size_t K, std::size_t I = 8>
constexpr std::pair<std::array<double, K>, std::array<double, K>> lgr_nodes()
{
  std::array<double, K> x{}, w{};
  x[0] = -1;
  w[0] = 2. / (K * K);
  // scan for sign changes, then bisect
  const std::size_t M = 40 * K + 7;
  std::size_t c       = 1;
  double a = -1 + 1e-6, fa = shim::lgr_f(K, a);
  for (std::size_t i = 1; i <= M && c < K; ++i) {
    const double b = -1 + 2. * i / M, fb = shim::lgr_f(K, b);
    if ((fa < 0) != (fb < 0)) {
      double lo = a, hi = b, flo = fa;
      for (int it = 0; it < 60; ++it) {
        const double m = (lo + hi) / 2, fm = shim::lgr_f(K, m);
        if ((flo < 0) != (fm < 0)) hi = m;
        else lo = m, flo = fm;
      }
      x[c]           = (lo + hi) / 2;
      const double p = shim::legendre(K - 1, x[c]);
      w[c]           = (1 - x[c]) / (K * K * p * p);
      ++c;
    }
    a = b, fa = fb;
  }
  return {x, w};
}

/// column i holds the monomial coefficients of the Lagrange polynomial of node i
template<std::size_t K>
constexpr StaticMatrix<double, K + 1, K + 1> lagrange_basis(const std::array<double, K + 1> & ts)
{
  StaticMatrix<double, K + 1, K + 1> B;
  for (std::size_t i = 0; i <= K; ++i) {
    std::array<double, K + 1> p{};
    p[0]          = 1;
    std::size_t d = 0;
    double den    = 1;
    for (std::size_t j = 0; j <= K; ++j) {
      if (j == i) continue;
      den *= ts[i] - ts[j];
      for (std::size_t k = d + 2; k-- > 0;) p[k] = (k > 0 ? p[k - 1] : 0) - (k <= d ? ts[j] * p[k] : 0);
      ++d;
    }
    for (std::size_t k = 0; k <= K; ++k) B[k][i] = p[k] / den;
  }
  return B;
}

/// p-th derivative of [1 u u^2 ... u^K]
template<std::size_t K>
constexpr StaticMatrix<double, 1, K + 1> monomial_derivative(double u, std::size_t p = 0)
{
  StaticMatrix<double, 1, K + 1> r;
  for (std::size_t k = 0; k <= K; ++k) {
    if (k < p) {
      r[0][k] = 0;
      continue;
    }
    double v = 1;
    for (std::size_t j = 0; j < p; ++j) v *= double(k - j);
    for (std::size_t j = 0; j < k - p; ++j) v *= u;
    r[0][k] = v;
  }
  return r;
}

/// entry (i, j): derivative of basis polynomial i at ts[j]
template<std::size_t K, std::size_t N>
constexpr StaticMatrix<double, K + 1, N>
polynomial_basis_derivatives(const StaticMatrix<double, K + 1, K + 1> & B, const std::array<double, N> & ts)
{
  StaticMatrix<double, K + 1, N> r;
  for (std::size_t j = 0; j < N; ++j) {
    const auto U = monomial_derivative<K>(ts[j], 1);
    const auto W = U * B;
    for (std::size_t i = 0; i <= K; ++i) r[i][j] = W[0][i];
  }
  return r;
}

// ------------------------------------------------------------------ spline
/// polynomial curve t -> exp(c1 t + c2 t^2) style stand-in: callable (t, vel, acc)
template<int K, LieGroup G>
struct Spline
{
  Tangent<G> b = Tangent<G>::Zero(), c = Tangent<G>::Zero();
  G operator()(double t, std::optional<Eigen::Ref<Tangent<G>>> vel = {}, std::optional<Eigen::Ref<Tangent<G>>> acc = {}) const
  {
    if constexpr (IsCommutative<G>) {
      if (vel) *vel = b + 2 * t * c;
      if (acc) *acc = 2 * c;
      return b * t + c * t * t;
    } else {
      if (vel) *vel = b;
      if (acc) acc->setZero();
      return smooth::exp<G>(b * t);
    }
  }
};

}  // namespace smooth

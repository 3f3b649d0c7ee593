// Functions with exact first and second right derivatives.
#pragma once
#include "ocp_common.hpp"

// right derivatives of functions of the logarithm
template<typename X>
static void dmap(Eigen::MatrixXd & D, std::vector<Eigen::MatrixXd> & dD, long b, const X & x)
{
  static constexpr int n = smooth::Dof<X>;
  const auto a           = smooth::ad<X>(smooth::log(x));
  D.block(b, b, n, n)    = smooth::dr_expinv<X>(smooth::log(x));
  for (long c = 0; c < n; ++c) {
    const auto ac                           = smooth::ad<X>(smooth::Tangent<X>::Unit(c));
    dD[std::size_t(b + c)].block(b, b, n, n) = ac / 2. + (ac * a + a * ac) / 12.;
  }
}
template<typename X, typename U, int Nf>
struct Run : Polys<1 + smooth::Dof<X> + smooth::Dof<U>, Nf>
{
  using B = Polys<1 + smooth::Dof<X> + smooth::Dof<U>, Nf>;
  using B::B;
  static auto z(double t, const X & x, const U & u) { return RunFun<X, U, Nf>::z(t, x, u); }
  static void maps(Eigen::MatrixXd & D, std::vector<Eigen::MatrixXd> & dD, double, const X & x, const U & u)
  {
    dmap<X>(D, dD, 1, x);
    dmap<U>(D, dD, 1 + smooth::Dof<X>, u);
  }
  template<typename T>
  typename B::Y operator()(const T & t, const smooth::CastT<T, X> & x, const smooth::CastT<T, U> & u) const { return this->val(z(t, x, u)); }
};
template<typename X, int Nq, int Nf, bool Scal>
struct End : Polys<1 + 2 * smooth::Dof<X> + Nq, Nf>
{
  using B = Polys<1 + 2 * smooth::Dof<X> + Nq, Nf>;
  using Q = Eigen::Matrix<double, Nq, 1>;
  using B::B;
  static auto z(double t, const X & x0, const X & xf, const Q & q) { return EndFun<X, Nq, Nf>::z(t, x0, xf, q); }
  static void maps(Eigen::MatrixXd & D, std::vector<Eigen::MatrixXd> & dD, double, const X & x0, const X & xf, const Q &)
  {
    dmap<X>(D, dD, 1, x0);
    dmap<X>(D, dD, 1 + smooth::Dof<X>, xf);
  }
  template<typename T>
  std::conditional_t<Scal, T, typename B::Y> operator()(const T & t, const smooth::CastT<T, X> & x0, const smooth::CastT<T, X> & xf, const Q & q) const
  {
    if constexpr (Scal) return this->val(z(t, x0, xf, q))(0);
    else return this->val(z(t, x0, xf, q));
  }
};
template<typename F>
struct Der : F
{
  using F::F;
  static constexpr long n = F::Z::RowsAtCompileTime;
  template<typename... A>
  void maps_(Eigen::MatrixXd & D, std::vector<Eigen::MatrixXd> & dD, const A &... a) const
  {
    D = Eigen::MatrixXd::Identity(n, n);
    dD.assign(std::size_t(n), Eigen::MatrixXd::Zero(n, n));
    F::maps(D, dD, a...);
  }
  Eigen::MatrixXd jac_(const auto &... a) const
  {
    Eigen::MatrixXd D;
    std::vector<Eigen::MatrixXd> dD;
    maps_(D, dD, a...);
    return this->jac(F::z(a...)) * D;
  }
  Eigen::MatrixXd hes_(const auto &... a) const
  {
    Eigen::MatrixXd D;
    std::vector<Eigen::MatrixXd> dD;
    maps_(D, dD, a...);
    const Eigen::MatrixXd g = this->jac(F::z(a...)), h = this->hes();
    Eigen::MatrixXd r(n, h.cols());
    for (long j = 0; j < g.rows(); ++j) {
      Eigen::MatrixXd S = D.transpose() * h.middleCols(j * n, n);
      for (long c = 0; c < n; ++c) S.col(c) += (g.row(j) * dD[std::size_t(c)]).transpose();
      r.middleCols(j * n, n) = S * D;
    }
    return r;
  }
};

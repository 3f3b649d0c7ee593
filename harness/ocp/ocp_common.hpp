// Polynomial functions, meshes and optimal control problems of the generated cases.
#pragma once
#include <smooth/feedback/collocation/mesh.hpp>
#include <smooth/feedback/ocp.hpp>

#include "../lie/groups.hpp"
using vh::J;
using namespace smooth::feedback;
using M12 = Mesh<1, 2>;

struct Poly
{
  double c;
  Eigen::VectorXd l;
  Eigen::MatrixXd q;
};
template<int NV, int Nf>
struct Polys
{
  using Z = Eigen::Matrix<double, NV, 1>;
  using Y = Eigen::Matrix<double, Nf, 1>;
  std::vector<Poly> p;
  explicit Polys(const J & j)
  {
    for (auto & f : j.a) {
      Poly r{double(f["c"].i), Eigen::VectorXd(NV), Eigen::MatrixXd(NV, NV)};
      for (int a = 0; a < NV; ++a) r.l(a) = double(f["l"][a].i);
      for (int a = 0; a < NV; ++a)
        for (int b = 0; b < NV; ++b) r.q(a, b) = double(f["q"][a][b].i);
      p.push_back(r);
    }
  }
  Y val(const Z & v) const
  {
    Y r;
    for (int i = 0; i < Nf; ++i) r(i) = p[std::size_t(i)].c + p[std::size_t(i)].l.dot(v) + v.dot(p[std::size_t(i)].q * v);
    return r;
  }
  Eigen::MatrixXd jac(const Z & v) const
  {
    Eigen::MatrixXd r(Nf, NV);
    for (int i = 0; i < Nf; ++i) r.row(i) = (p[std::size_t(i)].l + (p[std::size_t(i)].q + p[std::size_t(i)].q.transpose()) * v).transpose();
    return r;
  }
  Eigen::MatrixXd hes() const
  {
    Eigen::MatrixXd r(NV, NV * Nf);
    for (int i = 0; i < Nf; ++i) r.middleCols(i * NV, NV) = p[std::size_t(i)].q + p[std::size_t(i)].q.transpose();
    return r;
  }
};

// (t, x, u) -> R^Nf
template<typename X, typename U, int Nf>
struct RunFun : Polys<1 + smooth::Dof<X> + smooth::Dof<U>, Nf>
{
  using B = Polys<1 + smooth::Dof<X> + smooth::Dof<U>, Nf>;
  using B::B;
  static typename B::Z z(double t, const X & x, const U & u)
  {
    typename B::Z r;
    r << t, smooth::log(x), smooth::log(u);
    return r;
  }
  typename B::Y operator()(double t, const X & x, const U & u) const { return this->val(z(t, x, u)); }
  // derivative of z in the tangent space
  static auto tmap(double, const X & x, const U &)
  {
    static constexpr int n = smooth::Dof<X>;
    Eigen::MatrixXd r      = Eigen::MatrixXd::Identity(B::Z::RowsAtCompileTime, B::Z::RowsAtCompileTime);
    r.block(1, 1, n, n)    = smooth::dr_expinv<X>(smooth::log(x));
    return r;
  }
};
// (tf, x0, xf, q) -> R^Nf or a scalar
template<typename X, int Nq, int Nf, bool Scal = false>
struct EndFun : Polys<1 + 2 * smooth::Dof<X> + Nq, Nf>
{
  using B = Polys<1 + 2 * smooth::Dof<X> + Nq, Nf>;
  using Q = Eigen::Matrix<double, Nq, 1>;
  using B::B;
  static typename B::Z z(double t, const X & x0, const X & xf, const Q & q)
  {
    typename B::Z r;
    r << t, smooth::log(x0), smooth::log(xf), q;
    return r;
  }
  std::conditional_t<Scal, double, typename B::Y> operator()(double t, const X & x0, const X & xf, const Q & q) const
  {
    if constexpr (Scal) return this->val(z(t, x0, xf, q))(0);
    else return this->val(z(t, x0, xf, q));
  }
  static auto tmap(double, const X & x0, const X & xf, const Q &)
  {
    static constexpr int n      = smooth::Dof<X>;
    Eigen::MatrixXd r           = Eigen::MatrixXd::Identity(B::Z::RowsAtCompileTime, B::Z::RowsAtCompileTime);
    r.block(1, 1, n, n)         = smooth::dr_expinv<X>(smooth::log(x0));
    r.block(1 + n, 1 + n, n, n) = smooth::dr_expinv<X>(smooth::log(xf));
    return r;
  }
};
// the second derivatives are only right for functions of the abelian part
template<typename F>
struct DenseFun : F
{
  using F::F;
  Eigen::MatrixXd jacobian(const auto &... a) const requires(requires { F::z(a...); }) { return this->jac(F::z(a...)) * F::tmap(a...); }
  auto hessian(const auto &...) const { return this->hes(); }
};
template<typename F>
struct SparseFun : F
{
  using F::F;
  Eigen::SparseMatrix<double> jacobian(const auto &... a) const requires(requires { F::z(a...); }) { return Eigen::MatrixXd(this->jac(F::z(a...)) * F::tmap(a...)).sparseView(); }
  Eigen::SparseMatrix<double> hessian(const auto &...) const { return this->hes().sparseView(); }
};
template<typename F>
struct PlainFun : F
{
  using F::F;
};

template<int N>
static Eigen::Matrix<double, N, 1> bound(const J & j)
{
  Eigen::Matrix<double, N, 1> r;
  for (int i = 0; i < N; ++i) r(i) = j[i].i == 99 ? HUGE_VAL : j[i].i == -99 ? -HUGE_VAL : double(j[i].i);
  return r;
}
template<template<typename> typename W, typename X, typename U, int Nq, int Ncr, int Nce>
static auto make_ocp(const J & cs)
{
  using Th = W<EndFun<X, Nq, 1, true>>;
  using F  = W<RunFun<X, U, smooth::Dof<X>>>;
  using G  = W<RunFun<X, U, Nq>>;
  using CR = W<RunFun<X, U, Ncr>>;
  using CE = W<EndFun<X, Nq, Nce>>;
  return OCP<X, U, Th, F, G, CR, CE>{
    .theta = Th(cs["theta"]),
    .f     = F(cs["f"]),
    .g     = G(cs["g"]),
    .cr    = CR(cs["cr"]),
    .crl   = bound<Ncr>(cs["crl"]),
    .cru   = bound<Ncr>(cs["cru"]),
    .ce    = CE(cs["ce"]),
    .cel   = bound<Nce>(cs["cel"]),
    .ceu   = bound<Nce>(cs["ceu"]),
  };
}
static M12 make_mesh(const J & m)
{
  M12 r(std::size_t(m["n"].i), 1);
  if (m["sp"].i > 0) r.refine_ph(std::size_t(m["sp"].i - 1), 3);
  for (std::size_t i = 0; i < m["k"].size() && i < r.N_ivals(); ++i) r.set_N_colloc_ival(i, std::size_t(m["k"][int(i)].i));
  return r;
}
static long long mesh_units(const J & m)
{
  long long U = 0;
  for (auto & l : m["len"].a) U += l.i;
  return U;
}
// scaled number that should be an integer
struct Num
{
  bool integral = true, fin = true;
  long long operator()(double v, double D)
  {
    const double w = v * D;
    if (!std::isfinite(w)) {
      fin = false;
      return 0;
    }
    if (std::abs(w - std::round(w)) > 1e-4 + 1e-9 * std::abs(w)) integral = false;
    return vh::fx(w, 1);
  }
  J mat(const auto & m, double D)
  {
    const Eigen::MatrixXd d(m);
    J r = J::arr();
    for (long i = 0; i < d.rows(); ++i) {
      J q = J::arr();
      for (long k = 0; k < d.cols(); ++k) q.push((*this)(d(i, k), D));
      r.push(q);
    }
    return r;
  }
  J vec(const auto & v, double D)
  {
    J r = J::arr();
    for (long i = 0; i < v.size(); ++i) r.push((*this)(v(i), D));
    return r;
  }
};

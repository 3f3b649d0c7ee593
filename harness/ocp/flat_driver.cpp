// Flattens optimal control problems and evaluates them (spec/FlatTrace.tla).
#include <smooth/feedback/ocp_flatten.hpp>

#include "der_common.hpp"

static int MOD = 5;
template<typename X>
struct TableTraj
{
  std::vector<std::array<long long, 4>> c;
  explicit TableTraj(const J & j)
  {
    for (auto & e : j.a) c.push_back({e["a"].i, e["b"].i, e["da"].i, e["db"].i});
  }
  smooth::Tangent<X> ev(double t, int o) const
  {
    smooth::Tangent<X> r;
    for (long i = 0; i < r.size(); ++i) r(i) = double((c[std::size_t(i)][std::size_t(o)] + c[std::size_t(i)][std::size_t(o + 1)] * std::llround(t)) % MOD - MOD / 2);
    return r;
  }
  template<typename T>
  smooth::CastT<T, X> operator()(const T & t) const { return smooth::exp<X>(ev(t, 0)); }
  smooth::Tangent<X> jacobian(double t) const { return ev(t, 2); }
};

template<typename F>
struct SparseDer : Der<F>
{
  using Der<F>::Der;
  Eigen::SparseMatrix<double> jacobian(const auto &... a) const requires(requires { F::z(a...); }) { return this->jac_(a...).sparseView(); }
  Eigen::SparseMatrix<double> hessian(const auto &... a) const requires(requires { F::z(a...); }) { return this->hes_(a...).sparseView(); }
};

template<template<typename> typename W, typename X, typename U, int Nq, int Ncr, int Nce>
static J go(const J & cs)
{
  static constexpr int Nx = smooth::Dof<X>, Nu = smooth::Dof<U>;
  using Q  = Eigen::Matrix<double, Nq, 1>;
  using E  = smooth::Tangent<X>;
  using V  = smooth::Tangent<U>;
  using Th = W<End<X, Nq, 1, true>>;
  using F  = W<Run<X, U, Nx>>;
  using G  = W<Run<X, U, Nq>>;
  using CR = W<Run<X, U, Ncr>>;
  using CE = W<End<X, Nq, Nce, false>>;
  MOD      = int(cs["mod"].i);
  const OCP<X, U, Th, F, G, CR, CE> ocp{
    .theta = Th(cs["theta"]), .f = F(cs["f"]), .g = G(cs["g"]), .cr = CR(cs["cr"]), .crl = bound<Ncr>(cs["crl"]), .cru = bound<Ncr>(cs["cru"]), .ce = CE(cs["ce"]), .cel = bound<Nce>(cs["cel"]), .ceu = bound<Nce>(cs["ceu"])};
  const TableTraj<X> xl(cs["xl"]);
  const TableTraj<U> ul(cs["ul"]);
  // from temporary or long-living trajectories
  auto flat = cs["id"].i % 2 ? flatten_ocp(ocp, xl, ul) : flatten_ocp(ocp, TableTraj<X>(xl), TableTraj<U>(ul));
  static_assert(FlatOCPType<decltype(flat)>);
  J out = J::obj(), res = J::arr();
  Num nb;
  out.set("crl", nb.vec(flat.crl, 1)).set("cru", nb.vec(flat.cru, 1)).set("cel", nb.vec(flat.cel, 1)).set("ceu", nb.vec(flat.ceu, 1));
  static constexpr bool ana = requires(double t, E e, V v, Q q) {
    flat.f.jacobian(t, e, v), flat.f.hessian(t, e, v), flat.g.jacobian(t, e, v), flat.g.hessian(t, e, v), flat.cr.jacobian(t, e, v), flat.cr.hessian(t, e, v);
    flat.theta.jacobian(t, e, e, q), flat.theta.hessian(t, e, e, q), flat.ce.jacobian(t, e, e, q), flat.ce.hessian(t, e, e, q);
  };
  static constexpr bool any = requires(double t, E e, V v, Q q) { flat.f.jacobian(t, e, v); } || requires(double t, E e, V v, Q q) { flat.theta.hessian(t, e, e, q); };
  out.set("ana", ana ? 1LL : any ? 2LL : 0LL);
  for (auto & o : cs["ops"].a) {
    const double t = double(o["t"].i);
    const E e = to_vec<Nx>(o["e"]), ef = to_vec<Nx>(o["ef"]);
    const V v = to_vec<Nu>(o["v"]);
    const Q q = to_vec<Nq>(o["q"]);
    Num num;
    J r = J::obj();
    if (o["fn"].s == "sol") {
      OCPSolution<E, V, Nq, Ncr, Nce> fs{.t0 = 1, .tf = 7, .Q = q, .u = [=](double s) -> V { return s == t ? v : V(V::Zero()); }, .x = [=](double s) -> E { return s == t ? e : E(E::Zero()); }};
      fs.lambda_q   = Q::LinSpaced(Nq, 11, 10 + Nq);
      fs.lambda_ce  = Eigen::Matrix<double, Nce, 1>::LinSpaced(Nce, 21, 20 + Nce);
      fs.lambda_dyn = [=](double s) -> Eigen::Matrix<double, Nx, 1> { return Eigen::Matrix<double, Nx, 1>::LinSpaced(Nx, s + 31, s + 30 + Nx); };
      fs.lambda_cr  = [=](double s) -> Eigen::Matrix<double, Ncr, 1> { return Eigen::Matrix<double, Ncr, 1>::LinSpaced(Ncr, s + 41, s + 40 + Ncr); };
      const auto s  = unflatten_ocpsol<X, U>(fs, TableTraj<X>(xl), TableTraj<U>(ul));
      fs            = {};
      r.set("x", num.vec(smooth::log(s.x(t)), 1)).set("u", num.vec(smooth::log(s.u(t)), 1)).set("t0", num(s.t0, 1)).set("tf", num(s.tf, 1)).set("Q", num.vec(s.Q, 1));
      r.set("lq", num.vec(s.lambda_q, 1)).set("lce", num.vec(s.lambda_ce, 1)).set("ld", num.vec(s.lambda_dyn(t), 1)).set("lcr", num.vec(s.lambda_cr(t), 1));
    } else {
      auto work = [&](auto & f, const auto &... a) {
        const auto y = f(a...);
        if constexpr (std::is_same_v<std::decay_t<decltype(y)>, double>) r.set("v", J::arr().push(num(y, 1)));
        else r.set("v", num.vec(y, 1));
        if constexpr (ana) {
          if (o["od"].i == 1) r.set("J", num.mat(Eigen::MatrixXd(f.jacobian(a...).get()), 1));
          if (o["od"].i == 2) {
            // in either order
            if (o["t"].i % 2) r.set("J", num.mat(Eigen::MatrixXd(f.jacobian(a...).get()), 1));
            r.set("H", num.mat(Eigen::MatrixXd(f.hessian(a...).get()), 1));
            if (o["t"].i % 2 == 0) r.set("J", num.mat(Eigen::MatrixXd(f.jacobian(a...).get()), 1));
          }
        }
      };
      const std::string & fn = o["fn"].s;
      if (fn == "f") work(flat.f, t, e, v);
      else if (fn == "g") work(flat.g, t, e, v);
      else if (fn == "cr") work(flat.cr, t, e, v);
      else if (fn == "theta") work(flat.theta, t, e, ef, q);
      else work(flat.ce, t, e, ef, q);
    }
    res.push(r.set("int", num.integral && num.fin));
  }
  return out.set("id", cs["id"]).set("ev", "ok").set("res", res);
}
template<template<typename> typename W>
static J dims(const J & cs)
{
  using R1 = Eigen::Matrix<double, 1, 1>;
  using R2 = Eigen::Vector2d;
  switch (cs["dim"].i) {
  case 0: return go<W, R2, R1, 1, 1, 1>(cs);
  case 1: return go<W, smooth::Heisd, R1, 1, 2, 1>(cs);
  case 2: return go<W, smooth::Filid, R2, 2, 1, 2>(cs);
  case 3: return go<W, smooth::Heisd, smooth::Heisd, 1, 1, 1>(cs);
  default: return go<W, R1, smooth::Heisd, 1, 2, 2>(cs);
  }
}
static J run_case(const J & cs)
{
  if (cs["form"].i == 1) return dims<SparseDer>(cs);
  return dims<PlainFun>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

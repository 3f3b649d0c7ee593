// Runs test_ocp_derivatives on problems with planted errors in their derivatives (spec/DerTrace.tla).
#include <iostream>
#include <memory>

#include "der_common.hpp"

struct Plan
{
  std::string fn, kind;
  int od, r, c, at;
  double sz;
};
static std::vector<Plan> plans;

template<typename F>
struct Faulty : Der<F>
{
  using Z = typename F::Z;
  std::string name;
  std::shared_ptr<std::vector<Z>> seen = std::make_shared<std::vector<Z>>();
  Faulty(const J & j, const std::string & n) : Der<F>(j), name(n) {}
  Eigen::MatrixXd faults(Eigen::MatrixXd m, int od, const Z & z) const
  {
    auto it = std::find_if(seen->begin(), seen->end(), [&](const Z & s) { return s == z; });
    const auto at = it - seen->begin() + 1;
    if (it == seen->end()) seen->push_back(z);
    for (auto & p : plans) {
      if (p.fn != name || p.od != od || (p.at != 0 && p.at != at)) continue;
      if (p.kind == "wide") m.conservativeResizeLike(Eigen::MatrixXd::Zero(m.rows(), m.cols() + 1));
      else if (p.kind == "nan") m(p.r % m.rows(), p.c % m.cols()) = std::numeric_limits<double>::quiet_NaN();
      else if (p.kind == "inf") m(p.r % m.rows(), p.c % m.cols()) = std::numeric_limits<double>::infinity();
      else m(p.r % m.rows(), p.c % m.cols()) += p.sz;
    }
    return m;
  }
};
template<typename F>
struct FaultySparse : Faulty<F>
{
  using Faulty<F>::Faulty;
  Eigen::SparseMatrix<double> jacobian(const auto &... a) const requires(requires { F::z(a...); }) { return this->faults(this->jac_(a...), 1, F::z(a...)).sparseView(); }
  Eigen::SparseMatrix<double> hessian(const auto &... a) const requires(requires { F::z(a...); }) { return this->faults(this->hes_(a...), 2, F::z(a...)).sparseView(); }
};
template<typename F>
struct FaultyDense : Faulty<F>
{
  using Faulty<F>::Faulty;
  Eigen::MatrixXd jacobian(const auto &... a) const requires(requires { F::z(a...); }) { return this->faults(this->jac_(a...), 1, F::z(a...)); }
  Eigen::MatrixXd hessian(const auto &... a) const requires(requires { F::z(a...); }) { return this->faults(this->hes_(a...), 2, F::z(a...)); }
};
template<typename F>
struct FaultyFirst : Faulty<F>
{
  using Faulty<F>::Faulty;
  Eigen::MatrixXd jacobian(const auto &... a) const requires(requires { F::z(a...); }) { return this->faults(this->jac_(a...), 1, F::z(a...)); }
};
template<typename F>
struct None : Faulty<F>
{
  using Faulty<F>::Faulty;
};

template<template<typename> typename W, typename X, typename U, int Nq, int Ncr, int Nce>
static J go(const J & cs)
{
  using Th = W<End<X, Nq, 1, true>>;
  using F  = W<Run<X, U, smooth::Dof<X>>>;
  using G  = W<Run<X, U, Nq>>;
  using CR = W<Run<X, U, Ncr>>;
  using CE = W<End<X, Nq, Nce, false>>;
  plans.clear();
  for (auto & p : cs["plans"].a) plans.push_back({p["fn"].s, p["kind"].s, int(p["od"].i), int(p["r"].i), int(p["c"].i), int(p["at"].i), double(p["sz"].i)});
  OCP<X, U, Th, F, G, CR, CE> ocp{
    .theta = Th(cs["theta"], "theta"), .f = F(cs["f"], "f"), .g = G(cs["g"], "g"), .cr = CR(cs["cr"], "cr"), .crl = bound<Ncr>(cs["crl"]), .cru = bound<Ncr>(cs["cru"]), .ce = CE(cs["ce"], "ce"), .cel = bound<Nce>(cs["cel"]), .ceu = bound<Nce>(cs["ceu"])};
  std::srand(unsigned(cs["id"].i));
  namespace sd       = smooth::diff;
  const auto n       = uint32_t(cs["trials"].i);
  const auto eps     = cs["eps"].i;  // 0: not given
  const auto before  = sd::shim_calls;
  auto call          = [&]<sd::Type T>() {
    if (eps) return test_ocp_derivatives<T>(ocp, n, double(eps));
    if (n != 1) return test_ocp_derivatives<T>(ocp, n);
    return test_ocp_derivatives<T>(ocp);
  };
  std::ostringstream os;
  auto * old     = std::cout.rdbuf(os.rdbuf());
  const bool res = cs["dt"].i == 0 ? (eps || n != 1 ? call.template operator()<sd::Type::Numerical>() : test_ocp_derivatives(ocp))
                 : cs["dt"].i == 1 ? call.template operator()<sd::Type::Autodiff>()
                                   : call.template operator()<sd::Type::Ceres>();
  std::cout.rdbuf(old);
  J used = J::arr();
  for (std::size_t i = 0; i < 5; ++i) used.push((long long)(sd::shim_calls[i] > before[i]));
  return J::obj().set("id", cs["id"]).set("ev", "ok").set("ok", res).set("used", used);
}
template<template<typename> typename W>
static J dims(const J & cs)
{
  using R1 = Eigen::Matrix<double, 1, 1>;
  using R2 = Eigen::Vector2d;
  switch (cs["dim"].i) {
  case 0: return go<W, R2, R1, 1, 1, 1>(cs);
  case 1: return go<W, smooth::Heisd, R1, 1, 2, 1>(cs);
  case 2: return go<W, smooth::Filid, R2, 2, 1, 2>(cs);
  case 3: return go<W, smooth::Heisd, smooth::Heisd, 1, 1, 1>(cs);
  default: return go<W, R1, smooth::Heisd, 1, 2, 2>(cs);
  }
}
static J run_case(const J & cs)
{
  switch (cs["form"].i) {
  case 1: return dims<FaultySparse>(cs);
  case 2: return dims<FaultyDense>(cs);
  case 3: return dims<FaultyFirst>(cs);
  default: return dims<None>(cs);
  }
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

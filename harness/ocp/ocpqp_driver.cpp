// Builds and updates the quadratic program of an optimal control problem (spec/OcpQpTrace.tla).
#include <memory>
#include <smooth/feedback/ocp_to_qp.hpp>

#include "ocp_common.hpp"

// trajectories that take integer values at integer times
template<typename X>
struct Traj
{
  std::vector<std::array<long long, 4>> c;
  explicit Traj(const J & j)
  {
    for (auto & e : j.a) c.push_back({e["a"].i, e["b"].i, e["da"].i, e["db"].i});
  }
};
template<typename X>
struct TableTraj : Traj<X>
{
  using Traj<X>::Traj;
  smooth::Tangent<X> ev(double t, int o) const
  {
    if (std::abs(t - std::round(t)) > 1e-6) std::abort();
    smooth::Tangent<X> r;
    for (long i = 0; i < r.size(); ++i) r(i) = double((this->c[std::size_t(i)][std::size_t(o)] + this->c[std::size_t(i)][std::size_t(o + 1)] * std::llround(t)) % 5 - 2);
    return r;
  }
  X operator()(double t) const { return smooth::exp<X>(ev(t, 0)); }
  smooth::Tangent<X> jacobian(double t) const { return ev(t, 2); }
};
template<typename X>
struct LinTraj : Traj<X>
{
  using Traj<X>::Traj;
  X operator()(double t) const
  {
    X r;
    for (long i = 0; i < r.size(); ++i) r(i) = double(this->c[std::size_t(i)][0]) + t * double(this->c[std::size_t(i)][1]);
    return r;
  }
};

template<template<typename> typename W, template<typename> typename Tr, typename X, int Nu, int Ncr, int Nce>
static J go(const J & cs)
{
  static constexpr int Nx = smooth::Dof<X>;
  using U                 = Eigen::Matrix<double, Nu, 1>;
  J out = J::obj(), res = J::arr();
  const J & mj    = cs["mesh"];
  const M12 mesh  = make_mesh(mj);
  const double un = double(mesh_units(mj));
  J cs2           = cs;
  cs2.set("g", cs["g0"]);
  auto ocp     = make_ocp<W, X, U, 1, Ncr, Nce>(cs2);
  using ocp_t  = decltype(ocp);
  const auto co = ocp;
  QuadraticProgramSparse<double> shared;
  detail::OcpToQpWorkmemory work;
  bool alloc = false;
  for (auto & o : cs["ops"].a) {
    const double T = 3 * un * double(o["sc"].i);
    const Tr<X> xl(o["xl"]);
    const Tr<U> ul(o["ul"]);
    QuadraticProgramSparse<double> tmp;
    if (o["fresh"].i) tmp = ocp_to_qp(co, mesh, T, xl, ul);
    else {
      if (!alloc) detail::ocp_to_qp_allocate(shared, work, ocp, mesh);
      alloc = true;
      detail::ocp_to_qp_update(shared, work, ocp, mesh, T, xl, ul);
      if (o["comp"].i) shared.A.makeCompressed(), shared.P.makeCompressed();
    }
    const auto & qp = o["fresh"].i ? tmp : shared;
    Num num;
    J r      = J::obj();
    auto bnd = [&](const Eigen::VectorXd & v) {
      J q = J::arr();
      for (long i = 0; i < v.size(); ++i) q.push(v(i) == HUGE_VAL ? 999999LL : v(i) == -HUGE_VAL ? -999999LL : num(v(i), 72));
      return q;
    };
    r.set("pr", (long long)qp.P.rows()).set("pc", (long long)qp.P.cols()).set("ar", (long long)qp.A.rows()).set("ac", (long long)qp.A.cols());
    r.set("P", num.mat(qp.P, 4 * un)).set("q", num.vec(qp.q, 4 * un)).set("A", num.mat(qp.A, 72)).set("l", bnd(qp.l)).set("u", bnd(qp.u));
    // trajectories of a solution
    std::vector<double> pv;
    for (auto & v : o["x"].a)
      for (auto & e : v.a) pv.push_back(double(e.i));
    for (auto & v : o["u"].a)
      for (auto & e : v.a) pv.push_back(double(e.i));
    auto sol = [&] {
      QPSolution<-1, -1, double> qs;
      qs.primal = Eigen::Map<Eigen::VectorXd>(pv.data(), long(pv.size()));
      auto m    = std::make_unique<M12>(mesh);
      auto s    = qpsol_to_ocpsol(co, *m, qs, T, Tr<X>(xl), Tr<U>(ul));
      qs.primal.setConstant(77);
      *m = M12(5, 2);
      return s;
    }();
    const double E = 162. * double(o["sc"].i * o["sc"].i);
    J at           = J::arr();
    for (auto & t : o["at"].a) {
      const double v = double(t.i);
      if (v > T) at.push(J::obj());
      else at.push(J::obj().set("x", num.vec(smooth::log(sol.x(v)), E)).set("u", num.vec(sol.u(v), E)));
    }
    r.set("at", at).set("tf", num(sol.tf, 1)).set("t0", num(sol.t0, 1)).set("same", std::is_same_v<decltype(sol), typename ocp_t::Solution>);
    res.push(r.set("int", num.integral).set("fin", num.fin));
  }
  return out.set("id", cs["id"]).set("ev", "ok").set("res", res);
}
template<template<typename> typename W, template<typename> typename Tr>
static J dims(const J & cs)
{
  using R1 = Eigen::Matrix<double, 1, 1>;
  using R2 = Eigen::Vector2d;
  switch (cs["dim"].i) {
  case 0: return go<W, Tr, R1, 1, 1, 1>(cs);
  case 1: return go<W, Tr, R2, 1, 1, 2>(cs);
  case 2: return go<W, Tr, R1, 2, 2, 1>(cs);
  case 3: return go<W, Tr, R2, 2, 1, 1>(cs);
  case 4:
    if constexpr (!std::is_same_v<W<int>, PlainFun<int>>) return go<W, Tr, smooth::Heisd, 1, 2, 1>(cs);
    else return J::obj();
  default:
    if constexpr (!std::is_same_v<W<int>, PlainFun<int>>) return go<W, Tr, smooth::Heisd, 2, 1, 3>(cs);
    else return J::obj();
  }
}
static J run_case(const J & cs)
{
  if (cs["form"].i == 0) return dims<DenseFun, TableTraj>(cs);
  if (cs["form"].i == 1) return dims<SparseFun, TableTraj>(cs);
  return dims<PlainFun, LinTraj>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

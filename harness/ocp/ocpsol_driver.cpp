// Converts solutions of nonlinear programs to trajectories and back (spec/OcpSolTrace.tla).
#include <memory>
#include <smooth/feedback/ocp_to_nlp.hpp>

#include "ocp_common.hpp"

template<int Nx, int Nu, int Nq, int Ncr, int Nce>
static J go(const J & cs)
{
  using X = Eigen::Matrix<double, Nx, 1>;
  using U = Eigen::Matrix<double, Nu, 1>;
  auto theta = [](double, const X &, const X &, const Eigen::Matrix<double, Nq, 1> &) -> double { return 0; };
  auto f     = [](double, const X &, const U &) -> X { return X::Zero(); };
  auto g     = [](double, const X &, const U &) -> Eigen::Matrix<double, Nq, 1> { return Eigen::Matrix<double, Nq, 1>::Zero(); };
  auto cr    = [](double, const X &, const U &) -> Eigen::Matrix<double, Ncr, 1> { return Eigen::Matrix<double, Ncr, 1>::Zero(); };
  auto ce    = [](double, const X &, const X &, const Eigen::Matrix<double, Nq, 1> &) -> Eigen::Matrix<double, Nce, 1> { return Eigen::Matrix<double, Nce, 1>::Zero(); };
  const OCP<X, U, decltype(theta), decltype(f), decltype(g), decltype(cr), decltype(ce)> ocp{.theta = theta, .f = f, .g = g, .cr = cr, .ce = ce};

  const J & mj    = cs["mesh"];
  const double sc = 12. / double(mesh_units(mj)), E = 162 * sc * sc;
  std::vector<double> xv{36}, lv;
  auto cat = [&](std::vector<double> & o, const J & j) {
    for (auto & v : j.a) {
      if (v.a.empty()) o.push_back(double(v.i));
      for (auto & e : v.a) o.push_back(double(e.i));
    }
  };
  cat(xv, cs["q"]), cat(xv, cs["x"]), cat(xv, cs["u"]);
  cat(lv, cs["ld"]), cat(lv, cs["lq"]), cat(lv, cs["lcr"]), cat(lv, cs["lce"]);
  const M12 mesh = make_mesh(mj), mesh2 = make_mesh(cs["mesh2"]);
  Num num;
  J out = J::obj(), at = J::arr();
  auto sol = [&] {
    // the conversion keeps no reference to its arguments
    NLPSolution n;
    n.x      = Eigen::Map<Eigen::VectorXd>(xv.data(), long(xv.size()));
    n.lambda = Eigen::Map<Eigen::VectorXd>(lv.data(), long(lv.size()));
    auto m   = std::make_unique<M12>(mesh);
    auto s   = nlpsol_to_ocpsol(ocp, *m, n);
    n.x.setConstant(77);
    n.lambda.setConstant(77);
    *m = M12(5, 2);
    return s;
  }();
  out.set("t0", num(sol.t0, E)).set("tf", num(sol.tf, E)).set("Q", num.vec(sol.Q, E)).set("lq", num.vec(sol.lambda_q, E)).set("lce", num.vec(sol.lambda_ce, E));
  for (auto & t : cs["at"].a) {
    const double v = double(t.i);
    at.push(J::obj().set("x", num.vec(sol.x(v), E)).set("u", num.vec(sol.u(v), E)).set("ld", num.vec(sol.lambda_dyn(v), E)).set("lcr", num.vec(sol.lambda_cr(v), E)));
  }
  auto back = [&](const M12 & m) {
    const NLPSolution n = ocpsol_to_nlpsol(ocp, m, sol);
    return J::obj().set("x", num.vec(n.x, E)).set("lam", num.vec(n.lambda, E)).set("zl", num.vec(n.zl, 1)).set("zu", num.vec(n.zu, 1)).set("status", n.status == NLPSolution::Status::Unknown ? 4LL : 0LL);
  };
  const J same = back(mesh), other = back(mesh2);
  return out.set("id", cs["id"]).set("ev", "ok").set("at", at).set("same", same).set("other", other).set("int", num.integral && num.fin);
}
static J run_case(const J & cs)
{
  switch (cs["dim"].i) {
  case 0: return go<1, 1, 1, 1, 1>(cs);
  case 1: return go<2, 1, 1, 2, 1>(cs);
  case 2: return go<1, 2, 2, 1, 2>(cs);
  case 3: return go<2, 2, 1, 1, 2>(cs);
  default: return go<2, 1, 2, 2, 2>(cs);
  }
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

// Evaluates the nonlinear program of an optimal control problem (spec/OcpNlpTrace.tla).
#include <smooth/feedback/ocp_to_nlp.hpp>

#include "ocp_common.hpp"

template<template<typename> typename W, int Nx, int Nu, int Nq, int Ncr, int Nce>
static J go(const J & cs)
{
  using X = Eigen::Matrix<double, Nx, 1>;
  using U = Eigen::Matrix<double, Nu, 1>;
  J out = J::obj(), res = J::arr();
  const J & mj    = cs["mesh"];
  const double un = double(mesh_units(mj));
  auto nlp        = ocp_to_nlp(make_ocp<W, X, U, Nq, Ncr, Nce>(cs), make_mesh(mj));
  double w        = 0;
  for (std::size_t i = 0; i < mj["len"].size(); ++i) w = std::max(w, double(mj["len"][int(i)].i) * (mj["k"][int(i)].i == 1 ? 4 : 3));
  Num bn;
  auto bnd = [&](const Eigen::VectorXd & v, double D) {
    J r = J::arr();
    for (long i = 0; i < v.size(); ++i) r.push(v(i) == HUGE_VAL ? 999999LL : v(i) == -HUGE_VAL ? -999999LL : bn(v(i), D));
    return r;
  };
  out.set("n", (long long)(nlp.n())).set("m", (long long)(nlp.m()));
  out.set("xl", bnd(nlp.xl(), 1)).set("xu", bnd(nlp.xu(), 1)).set("gl", bnd(nlp.gl(), w)).set("gu", bnd(nlp.gu(), w));
  for (auto & o : cs["ops"].a) {
    const double T = 3 * un * double(o["sc"].i), S = 2 * T * T * w;
    std::vector<double> xv{T}, lv;
    for (auto & v : o["q"].a) xv.push_back(double(v.i));
    for (auto & v : o["x"].a)
      for (auto & e : v.a) xv.push_back(double(e.i));
    for (auto & v : o["u"].a)
      for (auto & e : v.a) xv.push_back(double(e.i));
    for (auto & v : o["lam"].a) lv.push_back(double(v.i));
    const Eigen::VectorXd x = Eigen::Map<Eigen::VectorXd>(xv.data(), long(xv.size()));
    const Eigen::VectorXd l = Eigen::Map<Eigen::VectorXd>(lv.data(), long(lv.size()));
    J rs                    = J::arr();
    for (auto & wh : o["what"].a) {
      Num num;
      J r = J::obj();
      if (wh.s == "f") r.set("v", num(nlp.f(x), S));
      else if (wh.s == "df") r.set("v", num.mat(nlp.df_dx(x), S));
      else if (wh.s == "g") r.set("v", num.vec(nlp.g(x), S));
      else if (wh.s == "dg") r.set("v", num.mat(nlp.dg_dx(x), S));
      else if constexpr (!std::is_same_v<W<int>, PlainFun<int>>) {
        if (wh.s == "d2f") r.set("v", num.mat(nlp.d2f_dx2(x), S));
        else r.set("v", num.mat(nlp.d2g_dx2(x, l), S));
      }
      rs.push(r.set("int", num.integral).set("st", num.fin));
    }
    res.push(rs);
  }
  return out.set("id", cs["id"]).set("ev", "ok").set("res", res);
}
template<template<typename> typename W>
static J dims(const J & cs)
{
  switch (cs["dim"].i) {
  case 0: return go<W, 1, 1, 1, 1, 1>(cs);
  case 1: return go<W, 2, 1, 1, 2, 1>(cs);
  case 2: return go<W, 1, 2, 2, 1, 2>(cs);
  case 3: return go<W, 2, 2, 1, 1, 2>(cs);
  default: return go<W, 2, 1, 2, 2, 2>(cs);
  }
}
static J run_case(const J & cs)
{
  if (cs["form"].i == 0) return dims<DenseFun>(cs);
  if (cs["form"].i == 1) return dims<SparseFun>(cs);
  return dims<PlainFun>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

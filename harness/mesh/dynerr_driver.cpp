// Relative dynamics errors (spec/DynErrTrace.tla).
#include <numeric>
#include <smooth/feedback/collocation/dyn_error.hpp>

#include "../vh.hpp"
using vh::fx;
using vh::J;

template<int Nx, std::size_t A, std::size_t B>
static J go2(const J & cs)
{
  using V = Eigen::Vector<double, Nx>;
  const std::string mode = cs["mode"].s;
  const double t0 = double(cs["t0"].i), tf = double(cs["tf"].i);
  smooth::feedback::Mesh<A, B> m(std::size_t(cs["n"].i), A);
  std::size_t kmin = 100;
  for (std::size_t i = 0; i < m.N_ivals(); ++i) {
    m.set_N_colloc_ival(i, std::size_t(cs["ks"][i].i));
    kmin = std::min(kmin, std::size_t(cs["ks"][i].i));
  }
  V dir;
  if constexpr (Nx == 1) dir << 1;
  else dir << 3, 4;
  auto at = [&](const char * k, double t) { return double(cs[k].a.at(std::size_t(std::lround(t - t0))).i); };
  auto poly = [&](double t, int der) {
    double v = 0;
    for (std::size_t j = 0; j < 5 && j <= kmin; ++j) {
      if (der == 0) v += double(cs["q"][j].i) * std::pow(t / 4, double(j));
      else if (j > 0) v += double(cs["q"][j].i) * double(j) / 4 * std::pow(t / 4, double(j - 1));
    }
    return v;
  };
  auto xfun = [&](double t) -> V {
    if (mode == "table") return dir * at("x", t);
    if (mode == "poly") return dir * poly(t, 0);
    return dir * double(cs["x0"].i);
  };
  auto ufun = [&](double t) -> Eigen::Vector<double, 1> {
    double u = 0;
    if (mode == "table") u = at("u", t);
    else if (mode == "poly") u = poly(t, 1);
    else {
      const double s = (t - t0) / (tf - t0) * double(cs["n"].i) - double(cs["m"].i);
      u              = (s > -1e-9 && s < 1 - 1e-9) ? double(cs["B"].i) : 0.;
    }
    return Eigen::Vector<double, 1>(u);
  };
  auto f = [&](double t, const V & x, const Eigen::Vector<double, 1> & u) -> V {
    if (mode == "table")
      return dir * (double(cs["f"][0].i) * t + double(cs["f"][2].i) * u(0) + double(cs["f"][3].i)) + double(cs["f"][1].i) * x;
    if (cs["form"].i == 0 || mode == "bump") return dir * u(0);
    if (cs["form"].i == 1) return dir * poly(t, 1);
    return dir * (u(0) - 3 * poly(t, 0)) + 3 * x;
  };
  const Eigen::VectorXd e = smooth::feedback::mesh_dyn_error(f, m, t0, tf, xfun, ufun);
  J out = J::obj(), es = J::arr(), kept = J::arr(), above = J::arr();
  for (long i = 0; i < e.size(); ++i) es.push(fx(e(i), mode == "poly" ? 1e6 : 1e4));
  // refine and compare
  const double tgt = std::ldexp(1., -int(cs["te"].i)) * 1.01;
  struct Iv
  {
    double a, b;
    std::size_t k;
  };
  auto ivs = [&](auto & mm) {
    std::vector<Iv> r;
    for (std::size_t i = 0; i < mm.N_ivals(); ++i) {
      double a = 0, b = 0;
      bool first = true;
      for (double d : mm.interval_nodes(i)) {
        if (first) a = d;
        first = false;
        b     = d;
      }
      r.push_back({a, b, mm.N_colloc_ival(i)});
    }
    return r;
  };
  const auto before = ivs(m);
  m.refine_errors(e, tgt);
  const auto after = ivs(m);
  for (std::size_t i = 0; i < before.size(); ++i) {
    bool found = false;
    for (auto & x : after) found = found || (x.a == before[i].a && x.b == before[i].b && x.k == before[i].k);
    kept.push(std::abs(e(long(i)) - tgt) < 1e-9 ? 2 : int(found));
    above.push(e(long(i)) > tgt);
  }
  out.set("id", cs["id"]).set("ev", "ok").set("e", es).set("kept", kept).set("above", above);
  return out;
}
template<std::size_t A, std::size_t B>
static J go(const J & cs)
{
  return cs["dim"].i == 1 ? go2<1, A, B>(cs) : go2<2, A, B>(cs);
}
static J run_case(const J & cs)
{
  const long a = cs["tpl"][0].i, b = cs["tpl"][1].i;
  if (a == 1 && b == 2) return go<1, 2>(cs);
  if (a == 1) return go<1, 5>(cs);
  if (a == 2) return go<2, 4>(cs);
  if (a == 4) return go<4, 6>(cs);
  return go<5, 10>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

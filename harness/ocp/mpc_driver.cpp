// Histories of model-predictive controllers (spec/MpcTrace.tla).
#include <memory>
#include <smooth/feedback/mpc.hpp>

#include "ocp_common.hpp"

template<typename T, bool TV, bool Ana, typename X, typename U, int Nf>
struct Fun : RunFun<X, U, Nf>
{
  using B = RunFun<X, U, Nf>;
  using B::B;
  Fun() : B(J::arr()) {}
  double now = 0;
  void set_time(const T & t) requires(TV) { now = time_trait<T>::minus(t, T(0)); }
  Eigen::Matrix<double, Nf, 1> operator()(const X & x, const U & u) const { return this->val(B::z(now, x, u)); }
  Eigen::Matrix<double, Nf, B::Z::RowsAtCompileTime - 1> jacobian(const X & x, const U & u) const
    requires(Ana)
  {
    const Eigen::MatrixXd r = this->jac(B::z(now, x, u)) * B::tmap(now, x, u);
    return r.rightCols(r.cols() - 1);
  }
};

template<typename X>
static X table(const J & tr, double t, int o = 0)
{
  static const char * const nm[2][2] = {{"a", "b"}, {"da", "db"}};
  if (std::abs(t - std::round(t)) > 1e-6) std::abort();
  smooth::Tangent<X> r;
  for (int i = 0; i < int(r.size()); ++i) {
    const long long v = (tr[i][nm[o][0]].i + tr[i][nm[o][1]].i * std::llround(t)) % 5;
    r(i)              = double(v - 2);
  }
  return smooth::exp<X>(r);
}

template<typename T, typename X, int Nu, int Ncr, bool TV, bool Ana, int Km = 1>
static J go(const J & cs)
{
  static constexpr int Nx = smooth::Dof<X>;
  using U                 = Eigen::Matrix<double, Nu, 1>;
  using E                 = smooth::Tangent<X>;
  using F                 = Fun<T, TV, Ana, X, U, Nx>;
  using CR                = Fun<T, TV, Ana, X, U, Ncr>;
  using Mpc               = MPC<T, X, U, F, CR, Km>;
  const auto tm           = [](long long t) { return time_trait<T>::plus(T(0), double(t)); };
  MPCParams prm{.K = std::size_t(cs["K"].i), .tf = Km == 1 ? double(cs["K"].i * cs["h"].i) : double((cs["K"].i + 1) / 2 * 3 * cs["h"].i), .warmstart = cs["warm"].i == 1};
  prm.qp.eps_abs = prm.qp.eps_rel = 1e-6;
  prm.qp.max_iter                  = 20000;
  prm.qp.eps_primal_inf = prm.qp.eps_dual_inf = 1e-9;  // the problems are feasible and bounded
  std::array<std::unique_ptr<Mpc>, 3> ctl;
  const Eigen::Matrix<double, Ncr, 1> crl = bound<Ncr>(cs["crl"]), cru = bound<Ncr>(cs["cru"]);
  if (cs["ctor"].i) {
    const F f(cs["f"]);
    const CR cr(cs["cr"]);
    ctl[0] = std::make_unique<Mpc>(f, cr, crl, cru, prm);
  } else ctl[0] = std::make_unique<Mpc>(F(cs["f"]), CR(cs["cr"]), Eigen::Matrix<double, Ncr, 1>(crl), Eigen::Matrix<double, Ncr, 1>(cru), MPCParams(prm));
  J out = J::obj(), res = J::arr();
  for (auto & o : cs["ops"].a) {
    J r                  = J::obj();
    const std::string op = o["op"].s;
    const std::size_t c = std::size_t(o["c"].i - 1), d = std::size_t(o["d"].i - 1);
    if (!ctl[c]) {
      res.push(r);
      continue;
    }
    Mpc & m = *ctl[c];
    if (op == "call") {
      Num num;
      const X x = smooth::exp<X>(to_vec<Nx>(o["x"]));
      std::vector<U> us(std::size_t(o["wu"].i), U::Constant(77));
      std::vector<X> xs(std::size_t(o["wx"].i));
      const bool wu = o["wu"].i, wx = o["wx"].i;
      std::pair<U, QPSolutionStatus> a = wu && wx ? m(tm(o["t"].i), x, us, xs) : wu ? m(tm(o["t"].i), x, us) : wx ? m(tm(o["t"].i), x, std::nullopt, xs) : m(tm(o["t"].i), x);
      std::vector<U> u2 = us;
      std::vector<X> x2 = xs;
      QPSolutionStatus code = a.second;
      if (!wu || !wx) {
        const auto b = m(tm(o["t"].i), x, u2, x2);
        if (code == QPSolutionStatus::Optimal || code == QPSolutionStatus::PolishFailed) code = b.second;
      }
      const auto & uu = wu ? us : u2;
      const auto & xx = wx ? xs : x2;
      J ju = J::arr(), jx = J::arr();
      for (auto & u : uu) ju.push(num.vec(u, 1000));
      for (auto & y : xx) jx.push(num.vec(smooth::log(y), 1000));
      r.set("u0", num.vec(a.first, 1000)).set("u", ju).set("x", jx).set("fin", num.fin);
      r.set("code", code == QPSolutionStatus::Optimal ? "Optimal" : code == QPSolutionStatus::PolishFailed ? "PolishFailed" : code == QPSolutionStatus::MaxIterations ? "limit" : code == QPSolutionStatus::PrimalInfeasible ? "PI" : code == QPSolutionStatus::DualInfeasible ? "DI" : "other");
    } else if (op == "copy") {
      if (c == d) {
        Mpc & self = m;
        m          = self;
      } else if (o["ctor"].i) ctl[d] = std::make_unique<Mpc>(m);
      else {
        if (!ctl[d]) ctl[d] = std::make_unique<Mpc>();
        *ctl[d] = m;
      }
    } else if (op == "move") {
      if (c != d) {
        if (o["ctor"].i) ctl[d] = std::make_unique<Mpc>(std::move(m));
        else {
          if (!ctl[d]) ctl[d] = std::make_unique<Mpc>();
          *ctl[d] = std::move(m);
        }
        ctl[c].reset();
      }
    } else if (op == "xdes") {
      const J tr = o["traj"];
      const std::function<X(T)> f  = [tr](T t) { return table<X>(tr, time_trait<T>::minus(t, T(0))); };
      const std::function<E(T)> df = [tr](T t) -> E { return table<E>(tr, time_trait<T>::minus(t, T(0)), 1); };
      if (o["ctor"].i) m.set_xdes(f, df);
      else m.set_xdes(std::function<X(T)>(f), std::function<E(T)>(df));
    } else if (op == "udes") {
      const J tr = o["traj"];
      const std::function<U(T)> f = [tr](T t) { return table<U>(tr, time_trait<T>::minus(t, T(0))); };
      if (o["ctor"].i) m.set_udes(f);
      else m.set_udes(std::function<U(T)>(f));
    } else if (op == "xrel") {
      const X a0 = smooth::exp<X>(to_vec<Nx>(o["lin"]["a"]));
      const E b0 = to_vec<Nx>(o["lin"]["b"]);
      m.set_xdes_rel([a0, b0](double t) -> X { return smooth::rplus(a0, E(t * b0)); }, tm(o["lin"]["t0"].i));
    } else if (op == "urel") {
      const U a0 = to_vec<Nu>(o["lin"]["a"]), b0 = to_vec<Nu>(o["lin"]["b"]);
      m.set_udes_rel([a0, b0](double t) -> U { return a0 + t * b0; }, tm(o["lin"]["t0"].i));
    } else if (op == "w") {
      MPCWeights<X, U> w;
      const J & jw = o["w"][0];
      for (int i = 0; i < Nx; ++i)
        for (int j = 0; j < Nx; ++j) w.Q(i, j) = double(jw["Q"][i][j].i), w.Qtf(i, j) = double(jw["Qtf"][i][j].i);
      for (int i = 0; i < Nu; ++i)
        for (int j = 0; j < Nu; ++j) w.R(i, j) = double(jw["R"][i][j].i);
      m.set_weights(w);
    } else m.reset_warmstart();
    res.push(r);
  }
  return out.set("id", cs["id"]).set("ev", "ok").set("res", res);
}
static J run_case(const J & cs)
{
  using R1 = Eigen::Matrix<double, 1, 1>;
  using R2 = Eigen::Vector2d;
  using D  = std::chrono::duration<double>;
  using Ms = std::chrono::milliseconds;
  switch (cs["dim"].i) {
  case 0: return go<double, R1, 1, 1, false, false>(cs);
  case 1: return go<D, R2, 1, 1, true, true>(cs);
  case 2: return go<Ms, R1, 2, 2, true, false>(cs);
  case 3: return go<D, R2, 2, 1, false, true>(cs);
  case 4: return go<D, R1, 3, 2, false, true>(cs);
  case 5: return go<Ms, smooth::Heisd, 1, 1, true, true>(cs);
  case 6: return go<double, smooth::Heisd, 2, 2, false, false>(cs);
  case 7: return go<D, R2, 2, 2, true, true>(cs);
  case 8: return go<double, R1, 1, 1, true, true, 2>(cs);
  case 9: return go<D, R2, 1, 1, false, true, 2>(cs);
  default: return go<D, smooth::Heisd, 1, 1, true, false, 2>(cs);
  }
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

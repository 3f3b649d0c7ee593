// Replays safety filter problems and histories (spec/AsifTrace.tla).
#include <chrono>
#include <optional>
#include <smooth/feedback/asif.hpp>

#include "groups.hpp"
using vh::J;
using namespace smooth::feedback;

constexpr double S = 200, Q = 200, INF = std::numeric_limits<double>::infinity();
static double lim(long long v) { return v == 99999 ? INF : v == -99999 ? -INF : double(v); }

template<typename G, typename U>
struct Dynamics
{
  static constexpr int N = smooth::Dof<G>, M = smooth::Dof<U>;
  Eigen::Matrix<double, N, N> A;
  Eigen::Matrix<double, N, M> B;
  Eigen::Matrix<double, N, 1> c;
  double q, tu;
  Dynamics(const J & d, double tu_) : A(to_mat(d["A"])), B(to_mat(d["B"])), c(to_vec<N>(d["c"])), q(double(d["q"].i)), tu(tu_) {}
  template<typename T>
  smooth::Tangent<smooth::CastT<T, G>> operator()(const smooth::CastT<T, G> & x, const smooth::CastT<T, U> & u) const
  {
    const smooth::Tangent<G> lx = smooth::log(x);
    smooth::Tangent<G> r        = A * lx + B * smooth::log(u) + c;
    r(N - 1) += q * lx(0) * lx(0);
    return tu * r;
  }
  smooth::Tangent<G> operator()(const G & x, const U & u) const { return this->template operator()<double>(x, u); }
};
template<typename G, typename U>
struct Backup
{
  static constexpr int N = smooth::Dof<G>, M = smooth::Dof<U>;
  Eigen::Matrix<double, M, N> K;
  Eigen::Matrix<double, M, 1> kt, k0;
  double tu;
  Backup(const J & d, double tu_) : K(to_mat(d["Kb"])), kt(to_vec<M>(d["kt"])), k0(to_vec<M>(d["k0"])), tu(tu_) {}
  U operator()(double t, const G & x) const { return smooth::exp<U>(smooth::Tangent<U>(K * smooth::log(x) + (tu * t) * kt + k0)); }
};
template<typename G, int nh>
struct Barrier
{
  static constexpr int N = smooth::Dof<G>;
  using V                = Eigen::Matrix<double, nh, 1>;
  Eigen::Matrix<double, nh, N> H;
  V a, b, e, h0;
  double tu;
  Barrier(const J & d, double tu_)
      : H(to_mat(d["H"])), a(to_vec<nh>(d["ha"])), b(to_vec<nh>(d["hb"])), e(to_vec<nh>(d["he"])), h0(to_vec<nh>(d["h0"])), tu(tu_)
  {}
  V operator()(double t, const G & x) const
  {
    const smooth::Tangent<G> l = smooth::log(x);
    const double s             = tu * t;
    return H * l + s * a + (s * s) * b + (l(0) * l(0)) * e + h0;
  }
};

template<typename G, typename U, int nh>
static J go(const J & cs)
{
  constexpr int M = smooth::Dof<U>;
  using smooth::diff::Type;
  const double tu = double(cs["tu"].i);
  const int K = int(cs["K"].i), ni = int(cs["ni"].i);
  J out = J::obj(), res = J::arr();

  auto params = [&](const J & d) {
    ASIFtoQPParams p;
    p.K          = std::size_t(K);
    p.alpha      = tu * double(d["al"].i);
    p.dt         = double(d["dt"].i) / tu;
    p.relax_cost = double(d["rc"].i);
    return p;
  };
  auto limits = [&](const J & d) {
    smooth::feedback::ManifoldBounds<U> b;
    b.A.resize(ni, M);
    b.l.resize(ni);
    b.u.resize(ni);
    for (int i = 0; i < ni; ++i) {
      for (int j = 0; j < M; ++j) b.A(i, j) = double(d["uA"][i][j].i);
      b.l(i) = lim(d["ul"][i].i);
      b.u(i) = lim(d["uu"][i].i);
    }
    b.c = to_group<U>(d["uc"]);
    return b;
  };
  auto horizon = [&](const J & d) { return double(K) * (double(d["tau"].i) / tu); };
  auto weights = [&](const J & d) -> Eigen::Matrix<double, M, 1> { return to_vec<M>(d["W"]); };

  QuadraticProgram<-1, -1, double> shared;
  asif_to_qp_allocate<G, U>(shared, std::size_t(K), std::size_t(ni), nh);

  using Filter = ASIFilter<G, U, Dynamics<G, U>>;
  auto make    = [&](const J & d) {
    ASIFilterParams<U> p;
    p.T            = horizon(d);
    p.nh           = nh;
    p.u_weight     = weights(d);
    p.ulim         = limits(d);
    p.asif         = params(d);
    p.qp.eps_abs   = 1e-6;
    p.qp.eps_rel   = 1e-6;
    p.qp.eps_primal_inf = 1e-10;
    p.qp.eps_dual_inf = 1e-10;
    p.qp.max_iter  = 60000;
    p.qp.polish    = true;
    const Dynamics<G, U> f(d, tu);
    return Filter(f, p);
  };
  std::optional<Filter> filter;

  for (auto & o : cs["ops"].a) {
    const J & d         = o["d"];
    const std::string k = o["o"].s;
    const Dynamics<G, U> f(d, tu);
    const Backup<G, U> bu(d, tu);
    const Barrier<G, nh> h(d, tu);
    J r = J::obj();
    if (k == "filter") {
      if (!filter) filter.emplace(make(d));
      if (o["cp"].i == 1) { Filter c(*filter); filter.emplace(std::move(c)); }
      if (o["cp"].i == 2) { Filter c(*filter); *filter = c; }
      if (o["cp"].i == 3) { Filter c(std::move(*filter)); filter.emplace(c); }
      const U ud = to_group<U>(d["ud"]);
      const G x  = to_group<G>(d["x"]);
      Filter fresh = make(d);
      const auto [u, code]   = (*filter)(x, ud, h, bu);
      const auto [u2, code2] = fresh(x, ud, h, bu);
      const Eigen::Matrix<double, M, 1> mu = smooth::rminus(u, ud), mu2 = smooth::rminus(u2, ud);
      r.set("mu", fxv(mu, Q)).set("code", int(code)).set("eq", int(code) > 1 || int(code2) > 1 || !((mu - mu2).cwiseAbs().maxCoeff() > 1e-4 * (1 + mu2.cwiseAbs().maxCoeff())));
    } else {
      ASIFProblem<G, U> pbm;
      pbm.T     = horizon(d);
      pbm.x0    = to_group<G>(d["x"]);
      pbm.u_des = to_group<U>(d["ud"]);
      pbm.W_u   = weights(d);
      pbm.ulim  = limits(d);
      QuadraticProgram<-1, -1, double> qp;
      smooth::diff::shim_calls = {};
      if (k == "fresh") {
        if (o["num"].i) qp = asif_to_qp<G, U, Type::Numerical>(pbm, params(d), f, h, bu);
        else qp = asif_to_qp<G, U>(pbm, params(d), f, h, bu);
      } else {
        if (o["num"].i) asif_to_qp_update<G, U, Type::Numerical>(shared, pbm, params(d), f, h, bu);
        else asif_to_qp_update<G, U>(shared, pbm, params(d), f, h, bu);
        qp = shared;
      }
      const auto & n = smooth::diff::shim_calls;
      r.set("dt", o["num"].i ? (n[std::size_t(Type::Numerical)] > 0 && n[std::size_t(Type::Default)] == 0) : (n[std::size_t(Type::Numerical)] == 0 && n[std::size_t(Type::Default)] > 0));
      // barrier rows in the time unit of the case
      for (int i = 0; i < K * nh && i < qp.A.rows(); ++i) {
        qp.A.row(i).head(M) /= tu;
        qp.l(i) /= tu;
      }
      r.set("A", fxm(qp.A.leftCols(M), S)).set("rel", fxv(qp.A.col(M), S)).set("l", fxv(qp.l, S)).set("u", fxv(qp.u, S)).set("P", fxm(qp.P, S)).set("q", fxv(qp.q, S));
    }
    res.push(r);
  }
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}
template<typename G, typename U>
static J byh(const J & cs)
{
  if (cs["nh"].i == 1) return go<G, U, 1>(cs);
  return go<G, U, 2>(cs);
}
template<typename G>
static J byu(const J & cs)
{
  const std::string g = cs["gu"].s;
  if (g == "R1") return byh<G, Eigen::Matrix<double, 1, 1>>(cs);
  if (g == "R2") return byh<G, Eigen::Vector2d>(cs);
  return byh<G, smooth::Heisd>(cs);
}
static J run_case(const J & cs)
{
  const std::string g = cs["g"].s;
  if (g == "R1") return byu<Eigen::Matrix<double, 1, 1>>(cs);
  if (g == "R2") return byu<Eigen::Vector2d>(cs);
  if (g == "R3") return byu<Eigen::Vector3d>(cs);
  return byu<smooth::Heisd>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

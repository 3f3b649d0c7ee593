// Replays extended Kalman filter histories (spec/EkfTrace.tla).
#include <optional>
#include <smooth/feedback/ekf.hpp>

#include "groups.hpp"
using vh::J;
using namespace smooth::feedback;

template<typename G, smooth::diff::Type DT, template<typename...> typename St>
static J go(const J & cs)
{
  constexpr int N = smooth::Dof<G>;
  using E         = EKF<G, DT, St>;
  using CovT      = typename E::CovT;
  E ekf;
  J out = J::obj(), res = J::arr();
  for (auto & o : cs["ops"].a) {
    const std::string k = o["o"].s;
    auto apply          = [&](E & e) {
      if (k == "reset") e.reset(to_group<G>(o["x"]), CovT(to_mat(o["P"])));
      if (k == "predict") {
        const Eigen::Matrix<double, N, N> A = to_mat(o["A"]), A2 = to_mat(o["A2"]), Q = to_mat(o["Q"]);
        const Eigen::Matrix<double, N, 1> b = to_vec<N>(o["b"]), c = to_vec<N>(o["c"]);
        auto f = [=](double t, const G & x) -> Eigen::Matrix<double, N, 1> { return A * smooth::log(x) + t * (A2 * smooth::log(x)) + t * b + c; };
        if (o["dt"].i > 0) e.predict(f, Q, double(o["tau"].i), double(o["dt"].i));
        else e.predict(f, Q, double(o["tau"].i));
      }
      if (k == "update") {
        auto run = [&]<int Ny>(std::integral_constant<int, Ny>) {
          using Y                           = Eigen::Matrix<double, Ny, 1>;
          const Eigen::Matrix<double, Ny, N> H = to_mat(o["H"]).topRows(Ny);
          const Y h0 = to_vec<2>(o["h0"]).template head<Ny>(), y = to_vec<2>(o["y"]).template head<Ny>();
          const Eigen::Matrix<double, Ny, Ny> R = to_mat(o["R"]).template topLeftCorner<Ny, Ny>();
          if (o["an"].i) {
            struct Hf
            {
              Eigen::Matrix<double, Ny, N> H;
              Y h0;
              Y operator()(const G & x) const { return H * smooth::log(x) + h0; }
              Eigen::Matrix<double, Ny, N> jacobian(const G & x) const { return H * smooth::dr_expinv<G>(smooth::log(x)); }
            };
            e.update(Hf{H, h0}, y, R);
          } else e.update([=](const G & x) -> Y { return H * smooth::log(x) + h0; }, y, R);
        };
        if (o["ny"].i == 1) run(std::integral_constant<int, 1>{});
        else run(std::integral_constant<int, 2>{});
      }
    };
    E fresh;
    fresh.reset(ekf.estimate(), ekf.covariance());
    apply(fresh);
    apply(ekf);
    const double scale = 1 + ekf.covariance().cwiseAbs().maxCoeff() + smooth::log(ekf.estimate()).cwiseAbs().maxCoeff();
    const bool eq = !((fresh.covariance() - ekf.covariance()).cwiseAbs().maxCoeff() > 1e-9 * scale)
                 && !((smooth::log(fresh.estimate()) - smooth::log(ekf.estimate())).cwiseAbs().maxCoeff() > 1e-9 * scale);
    J r = J::obj();
    r.set("g", fxv(smooth::log(ekf.estimate()), 2400)).set("P", fxm(ekf.covariance(), 2400)).set("eq", eq);
    res.push(r);
  }
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}
template<typename G>
static J byd(const J & cs)
{
  using boost::numeric::odeint::euler;
  if (cs["dt"].i) return go<G, smooth::diff::Type::Default, euler>(cs);
  return go<G, smooth::diff::Type::Numerical, euler>(cs);
}
static J run_case(const J & cs)
{
  const std::string g = cs["g"].s;
  if (cs["rk"].i) return go<Eigen::Vector2d, smooth::diff::Type::Default, boost::numeric::odeint::runge_kutta4>(cs);
  if (g == "R1") return byd<Eigen::Matrix<double, 1, 1>>(cs);
  if (g == "R2") return byd<Eigen::Vector2d>(cs);
  if (g == "R3") return byd<Eigen::Vector3d>(cs);
  if (g == "H") return byd<smooth::Heisd>(cs);
  return byd<smooth::Filid>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

// Replays PID histories (spec/PidTrace.tla).
#include <smooth/feedback/pid.hpp>

#include "groups.hpp"
using vh::J;
using namespace std::chrono;
using namespace smooth::feedback;

template<typename T>
static T mk(long q)
{
  if constexpr (std::is_floating_point_v<T>) return T(q) / 4;
  else if constexpr (requires { typename T::clock; }) return T(duration_cast<typename T::duration>(milliseconds(250 * q)));
  else if constexpr (std::is_floating_point_v<typename T::rep>) return T(milliseconds(250 * q));
  else return duration_cast<T>(milliseconds(250 * q));
}

template<typename T, typename G>
static J go(const J & cs)
{
  using P           = PID<T, G>;
  using Tn          = smooth::Tangent<G>;
  constexpr int N   = smooth::Dof<G>;
  auto make         = [&](int s) {
    PIDParams prm;
    if (cs["wl"][s].i >= 0) prm.windup_limit = double(cs["wl"][s].i) / 4;
    return P(prm);
  };
  P pids[2] = {make(0), cs["wl"][1].i < 0 ? P() : make(1)};
  long now  = cs["t0"].i;
  J out = J::obj(), res = J::arr();
  for (auto & o : cs["ops"].a) {
    now += o["dt"].i;
    const T t           = mk<T>(now);
    const int s         = int(o["sl"].i);
    P & p               = pids[s];
    const std::string k = o["o"].s;
    J r                 = J::arr();
    if (k == "call") r = fxv(p(t, to_group<G>(o["x"]), to_vec<N>(o["v"])), 400);
    auto gain = [&](auto && sc, auto && ve) {
      if (o["vec"].i) ve(to_vec<N>(o["gain"]));
      else sc(double(o["gain"][0].i));
    };
    if (k == "kp") gain([&](double d) { p.set_kp(d); }, [&](auto v) { p.set_kp(v); });
    if (k == "kd") gain([&](double d) { p.set_kd(d); }, [&](auto v) { p.set_kd(v); });
    if (k == "ki") gain([&](double d) { p.set_ki(d); }, [&](auto v) { p.set_ki(v); });
    if (k == "reset") p.reset_integral();
    if (k == "xdes") {
      const Tn g0 = to_vec<N>(o["g0"]), g1 = to_vec<N>(o["g1"]), v0 = to_vec<N>(o["v0"]), v1 = to_vec<N>(o["v1"]), a0 = to_vec<N>(o["a0"]);
      using R = typename P::TrajectoryReturnT;
      if (o["kind"].i <= 1) {
        std::function<R(T)> f = [=, mv = o["kind"].i](T tt) -> R {
          if (mv == 0) return R(smooth::exp<G>(g0), Tn::Zero(), Tn::Zero());
          const double q = 4 * time_trait<T>::minus(tt, mk<T>(0));
          return R(smooth::exp<G>(Tn(g0 + q * g1)), Tn(v0 + q * v1), a0);
        };
        if (o["rv"].i) p.set_xdes(std::move(f));
        else p.set_xdes(f);
      } else {
        smooth::Spline<3, G> c;
        c.b = 4 * to_vec<N>(o["b"]);
        c.c = 16 * to_vec<N>(o["c"]);
        if (o["rv"].i) p.set_xdes(t, std::move(c));
        else p.set_xdes(t, c);
      }
    }
    if (k == "copy") {
      if (o["mv"].i == 0) pids[1 - s] = p;
      else if (o["mv"].i == 1) {
        P c(p);
        pids[1 - s] = std::move(c);
      } else {
        P c(p);
        P d(std::move(c));
        pids[1 - s] = d;
      }
    }
    res.push(r);
  }
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}
template<typename G>
static J byt(const J & cs)
{
  switch (cs["ty"].i) {
  case 0: return go<double, G>(cs);
  case 1: return go<duration<double>, G>(cs);
  case 2: return go<steady_clock::time_point, G>(cs);
  case 3: return go<milliseconds, G>(cs);
  default: return go<float, G>(cs);
  }
}
static J run_case(const J & cs)
{
  const std::string g = cs["g"].s;
  if (g == "R1") return byt<Eigen::Matrix<double, 1, 1>>(cs);
  if (g == "R2") return byt<Eigen::Vector2d>(cs);
  if (g == "H") return byt<smooth::Heisd>(cs);
  return byt<smooth::Filid>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

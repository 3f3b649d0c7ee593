#include "qp_common.hpp"
using vh::J;

Prob load_problem(const J & p)
{
  constexpr double inf = std::numeric_limits<double>::infinity();
  Prob r;
  r.n = int(p["n"].i); r.m = int(p["m"].i);
  const int rank = int(p["B"].size());
  Eigen::MatrixXd B = Eigen::MatrixXd::Zero(rank, r.n);
  for (int k = 0; k < rank; ++k) for (int j = 0; j < r.n; ++j) B(k, j) = double(p["B"][k][j].i);
  r.P = Eigen::MatrixXd::Zero(r.n, r.n);
  if (rank > 0) r.P = B.transpose() * B;
  r.A.resize(r.m, r.n); r.q.resize(r.n); r.l.resize(r.m); r.u.resize(r.m);
  for (int j = 0; j < r.n; ++j) r.q(j) = double(p["q"][j].i);
  for (int i = 0; i < r.m; ++i) {
    for (int j = 0; j < r.n; ++j) r.A(i, j) = double(p["A"][i][j].i);
    r.l(i) = p["lf"][i].i == 0 ? -inf : p["lf"][i].i == 2 ? inf : double(p["l"][i].i);
    r.u(i) = p["uf"][i].i == 0 ? inf : p["uf"][i].i == 2 ? -inf : double(p["u"][i].i);
  }
  return r;
}

Cfg load_cfg(const J & r)
{
  Cfg c;
  const auto eps = [](long long e) { return e == 0 ? 0.f : float(std::pow(10., -double(e))); };
  c.prm.verbose = r.get("verbose", 0);
  c.prm.alpha   = float(r.get("alpha", 160)) / 100.f;
  c.prm.rho     = float(r.get("rho", 100)) / 1000.f;
  c.prm.scaling = r.get("scaling", 1);
  c.prm.polish  = r.get("polish", 1);
  c.prm.eps_abs = eps(r.get("ea", 3));
  c.prm.eps_rel = eps(r.get("er", 3));
  c.prm.stop_check_iter = uint32_t(r.get("stop", 25));
  if (r.get("maxit", -1) >= 0) c.prm.max_iter = uint32_t(r.get("maxit", -1));
  if (r.get("mt", 0) == 1) c.prm.max_time = std::chrono::nanoseconds(0);
  if (r.get("mt", 0) == 2) c.prm.max_time = std::chrono::hours(1);
  if (r.get("pd", 0) == 1) c.prm.delta = 0;
  if (r.get("pd", 0) == 2) c.prm.polish_iter = 2;
  if (r.get("pd", 0) == 4) c.prm.polish_iter = 20;
  c.tri = int(r.get("tri", 0)); c.rep = int(r.get("rep", 0)); c.ws = int(r.get("ws", 0));
  return c;
}

// integer projection of a solver result
J project(const Prob & p, const Res & r)
{
  J o = J::obj();
  o.set("code", r.code);
  o.set("iter", r.iter > 2000000000u ? 2000000000L : long(r.iter));
  const bool dims = r.x.size() == p.n && r.y.size() == p.m;
  bool fin = dims && r.x.allFinite() && r.y.allFinite() && std::isfinite(r.obj);
  Eigen::VectorXd x = Eigen::VectorXd::Zero(p.n), y = Eigen::VectorXd::Zero(p.m);
  if (fin) { x = r.x; y = r.y; }
  // scale: all sums formed by the specification stay far below 2^31
  const Eigen::VectorXd ax = x.cwiseAbs(), ay = y.cwiseAbs();
  double W = 1;
  if (p.m > 0) W = std::max(W, (p.A.cwiseAbs() * ax).maxCoeff());
  for (int i = 0; i < p.m; ++i) { if (std::isfinite(p.l(i))) W = std::max(W, std::fabs(p.l(i))); if (std::isfinite(p.u(i))) W = std::max(W, std::fabs(p.u(i))); }
  W = std::max(W, (p.P.cwiseAbs() * ax + p.q.cwiseAbs() + (p.m > 0 ? Eigen::VectorXd(p.A.cwiseAbs().transpose() * ay) : Eigen::VectorXd::Zero(p.n))).maxCoeff());
  W = std::max({W, p.n ? ax.maxCoeff() : 0., p.m ? ay.maxCoeff() : 0.});
  if (4 * W > 2e9) { fin = false; x.setZero(); y.setZero(); }  // far outside of what the specification can represent
  o.set("fin", fin);
  long long S = 10000000;
  while (S > 1 && 4 * W * double(S) > 2e9) S /= 10;
  long long So = 4096;
  while (So > 1 && (4 * W * double(So) * double(So) > 2e9)) So /= 2;
  o.set("S", S);
  J jx = J::arr(), jy = J::arr(), jo = J::arr();
  for (int j = 0; j < p.n; ++j) jx.push(vh::fx(x(j), double(S)));
  for (int i = 0; i < p.m; ++i) jy.push(vh::fx(y(i), double(S)));
  for (int j = 0; j < p.n; ++j) jo.push(vh::fx(x(j), double(So)));
  o.set("x", jx); o.set("y", jy); o.set("So", So); o.set("xo", jo);
  o.set("vo", vh::fx(fin ? r.obj : 0., double(So)));
  // bit-exact digest of the result
  uint64_t h = 1469598103934665603ULL;
  const auto mix = [&h](double v) { uint64_t b; if (v == 0) v = 0; std::memcpy(&b, &v, 8); for (int k = 0; k < 8; ++k) { h ^= (b >> (8 * k)) & 255; h *= 1099511628211ULL; } };
  for (int j = 0; j < r.x.size(); ++j) mix(r.x(j));
  for (int i = 0; i < r.y.size(); ++i) mix(r.y(i));
  mix(r.obj);
  o.set("h1", long((h >> 33) & 0x3fffffff)); o.set("h2", long(h & 0x3fffffff));
  return o;
}

// Calls the TNLP callbacks of the Ipopt adapter in the order of a generated history (spec/NlpTrace.tla).
#include <algorithm>
#include <vector>
#include <smooth/feedback/compat/ipopt.hpp>

#include "poly.hpp"
using vh::J;
using namespace smooth::feedback;

static long long ex(double v) { return (v == std::floor(v) && std::fabs(v) < 1e9) ? (long long)v : 1888888888LL; }
static long long bd(double v) { return v <= -1e19 ? -1000000000LL : v >= 1e19 ? 1000000000LL : ex(v); }
template<typename V> static J jv(const V & v) { J r = J::arr(); for (long k = 0; k < long(v.size()); ++k) r.push(ex(v[k])); return r; }

template<typename P>
static J go(const J & cs)
{
  P p;
  const int n = p.n_ = int(cs["n"].i), m = p.m_ = int(cs["m"].i);
  p.c = ivec(cs["c"]); p.t = ivec(cs["t"]); p.Q = imat(cs["Q"], n, n); p.a = imat(cs["a"], m, n);
  for (int r = 0; r < m; ++r) p.b.push_back(imat(cs["b"][r], n, n));
  p.extra = cs["extra"].i; p.unc = cs["unc"].i;
  p.l = ivec(cs["l"]); p.u = ivec(cs["u"]);
  for (int j = 0; j < n + m; ++j) {
    if (!cs["lf"][j].i) p.l(j) = -std::numeric_limits<double>::infinity();
    if (!cs["uf"][j].i) p.u(j) = std::numeric_limits<double>::infinity();
  }
  const bool hess = cs["hess"].i && HessianNLP<P>;
  Ipopt::SmartPtr<IpoptNLP<P>> a;
  const P & cp = p;
  if (cs["lval"].i) a = new IpoptNLP<P>(cp, hess); else a = new IpoptNLP<P>(P(p), hess);
  a->sol().x = ivec(cs["s0"]["x"]); a->sol().zl = ivec(cs["s0"]["zl"]); a->sol().zu = ivec(cs["s0"]["zu"]); a->sol().lambda = ivec(cs["s0"]["lam"]);

  Ipopt::Index nj = 0, nh = 0;
  J out = J::obj(), res = J::arr();
  std::vector<Ipopt::Index> jr, jc, hr, hc;
  const auto structJ = [&] { jr.assign(std::size_t(nj) + 1, -7); jc = jr; bool ok = a->eval_jac_g(n, nullptr, false, m, nj, jr.data(), jc.data(), nullptr); return ok && jr.back() == -7; };
  const auto structH = [&] { hr.assign(std::size_t(nh) + 1, -7); hc = hr; bool ok = a->eval_h(n, nullptr, false, 1, m, nullptr, false, nh, hr.data(), hc.data(), nullptr); return ok && hr.back() == -7; };
  const auto pairs = [](const auto & r, const auto & c) { J s = J::arr(); for (std::size_t k = 0; k + 1 < r.size(); ++k) { J e = J::arr(); e.push(long(r[k])); e.push(long(c[k])); s.push(e); } return s; };
  for (auto & o : cs["ops"].a) {
    const std::string op = o["a"].s;
    Eigen::VectorXd x = ivec(o["x"]), lam = ivec(o["lam"]);
    const bool nw = o["new"].i;
    J r = J::obj();
    bool ok = true;
    if (op == "info") {
      Ipopt::Index rn, rm; Ipopt::TNLP::IndexStyleEnum st;
      ok = a->get_nlp_info(rn, rm, nj, nh, st);
      r.set("n", long(rn)).set("m", long(rm)).set("nj", long(nj)).set("nh", long(nh)).set("style", st == Ipopt::TNLP::C_STYLE ? 0 : 1);
      ok = structJ() && ok;
      long filledJ = 0; for (std::size_t k = 0; k + 1 < jr.size(); ++k) filledJ += jr[k] >= 0;
      long filledH = 0; if (hess) { ok = structH() && ok; for (std::size_t k = 0; k + 1 < hr.size(); ++k) filledH += hr[k] >= 0; }
      r.set("njs", filledJ).set("nhs", filledH);
    } else if (op == "bounds") {
      Eigen::VectorXd xl = Eigen::VectorXd::Constant(n, 77), xu = xl, gl = Eigen::VectorXd::Constant(m, 77), gu = gl;
      ok = a->get_bounds_info(n, xl.data(), xu.data(), m, gl.data(), gu.data());
      J l = J::arr(), u = J::arr();
      for (int j = 0; j < n; ++j) { l.push(bd(xl(j))); u.push(bd(xu(j))); }
      for (int j = 0; j < m; ++j) { l.push(bd(gl(j))); u.push(bd(gu(j))); }
      r.set("l", l).set("u", u);
    } else if (op == "start") {
      Eigen::VectorXd x0 = Eigen::VectorXd::Constant(n, 77), zl = x0, zu = x0, la = Eigen::VectorXd::Constant(m, 77);
      const bool fz = o["fz"].i, fl = o["fl"].i;
      ok = a->get_starting_point(n, true, x0.data(), fz, fz ? zl.data() : nullptr, fz ? zu.data() : nullptr, m, fl, fl ? la.data() : nullptr);
      r.set("x", jv(x0)).set("zl", jv(zl)).set("zu", jv(zu)).set("lam", jv(la));
    } else if (op == "f") {
      double v = 77; ok = a->eval_f(n, x.data(), nw, v); r.set("val", ex(v));
    } else if (op == "grad") {
      Eigen::VectorXd v = Eigen::VectorXd::Constant(n, 77); ok = a->eval_grad_f(n, x.data(), nw, v.data()); r.set("v", jv(v));
    } else if (op == "g") {
      Eigen::VectorXd v = Eigen::VectorXd::Constant(m, 77); ok = a->eval_g(n, x.data(), nw, m, v.data()); r.set("v", jv(v));
    } else if (op == "jacS") {
      ok = structJ(); r.set("st", pairs(jr, jc));
    } else if (op == "jac") {
      Eigen::VectorXd v = Eigen::VectorXd::Constant(nj, 1777777); ok = a->eval_jac_g(n, x.data(), nw, m, nj, nullptr, nullptr, v.data());
      r.set("st", pairs(jr, jc)).set("v", jv(v));
    } else if (op == "hesS") {
      ok = structH(); r.set("st", pairs(hr, hc));
    } else if (op == "hes") {
      Eigen::VectorXd v = Eigen::VectorXd::Constant(nh, 1777777);
      ok = a->eval_h(n, x.data(), nw, double(o["sigma"].i), m, lam.data(), nw, nh, nullptr, nullptr, v.data());
      r.set("st", pairs(hr, hc)).set("v", jv(v));
    } else if (op == "final") {
      static const Ipopt::SolverReturn codes[] = {Ipopt::SUCCESS, Ipopt::MAXITER_EXCEEDED, Ipopt::CPUTIME_EXCEEDED, Ipopt::STOP_AT_TINY_STEP, Ipopt::STOP_AT_ACCEPTABLE_POINT,
        Ipopt::LOCAL_INFEASIBILITY, Ipopt::USER_REQUESTED_STOP, Ipopt::FEASIBLE_POINT_FOUND, Ipopt::DIVERGING_ITERATES, Ipopt::RESTORATION_FAILURE,
        Ipopt::ERROR_IN_STEP_COMPUTATION, Ipopt::INVALID_NUMBER_DETECTED, Ipopt::TOO_FEW_DEGREES_OF_FREEDOM, Ipopt::INTERNAL_ERROR};
      Eigen::VectorXd zl = ivec(o["zl"]), zu = ivec(o["zu"]), g = Eigen::VectorXd::Constant(m, 55);
      Ipopt::SmartPtr<Ipopt::IpoptData> data = new Ipopt::IpoptData();
      data->Set_iter_count(int(o["iter"].i));
      a->finalize_solution(codes[o["status"].i], n, x.data(), zl.data(), zu.data(), m, g.data(), lam.data(), double(o["obj"].i), Ipopt::GetRawPtr(data), nullptr);
      const auto & s = a->sol();
      static const NLPSolution::Status sts[] = {NLPSolution::Status::Optimal, NLPSolution::Status::PrimalInfeasible, NLPSolution::Status::DualInfeasible,
        NLPSolution::Status::MaxIterations, NLPSolution::Status::MaxTime, NLPSolution::Status::Unknown};
      int si = -1; for (int k = 0; k < 6; ++k) if (sts[k] == s.status) si = k;
      r.set("status", si).set("x", jv(s.x)).set("zl", jv(s.zl)).set("zu", jv(s.zu)).set("lam", jv(s.lambda)).set("obj", ex(s.objective)).set("iter", long(s.iter));
    }
    r.set("ok", ok);
    res.push(r);
  }
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}

static J run_case(const J & cs)
{
  // without Hessian, use a problem type that has none (every other case)
#ifdef VH_NO_PLAIN_NLP
  return go<PolyHess>(cs);
#else
  return (!cs["hess"].i && cs["id"].i % 2) ? go<PolyBase>(cs) : go<PolyHess>(cs);
#endif
}

int main(int argc, char ** argv) { return vh::run(argc, argv, run_case); }

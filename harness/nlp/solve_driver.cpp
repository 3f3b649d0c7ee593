// Solves small convex problems through Ipopt (spec/NlpSolveTrace.tla).
#include <algorithm>
#include <vector>
#include <smooth/feedback/compat/ipopt.hpp>

#include "poly.hpp"
#include "../qp/qp_common.hpp"
using vh::J;
using namespace smooth::feedback;

static long g_hess, g_eval;
struct CountHess : PolyHess
{
  double f(const Eigen::Ref<const Eigen::VectorXd> x) { ++g_eval; return PolyHess::f(x); }
  const Eigen::SparseMatrix<double> & d2f_dx2(const Eigen::Ref<const Eigen::VectorXd> x) { ++g_hess; return PolyHess::d2f_dx2(x); }
};
struct CountBase : PolyBase
{
  double f(const Eigen::Ref<const Eigen::VectorXd> x) { ++g_eval; return PolyBase::f(x); }
};

template<typename P> static P problem(const Prob & q, bool extra)
{
  P p;
  const int n = p.n_ = q.n, m = p.m_ = q.m - q.n;
  p.c = q.q; p.t = Eigen::VectorXd::Zero(n); p.Q = Eigen::MatrixXd::Zero(n, n);
  for (int i = 0; i < n; ++i) { p.Q(i, i) = q.P(i, i) / 2; for (int j = i + 1; j < n; ++j) p.Q(i, j) = q.P(i, j); }
  p.a = q.A.bottomRows(m);
  p.b.assign(std::size_t(m), Eigen::MatrixXd::Zero(n, n));
  p.l = q.l; p.u = q.u; p.extra = extra;
  return p;
}

template<typename P> static NLPSolution solve(const Prob & q, const J & r, std::optional<NLPSolution> w)
{
  std::vector<std::pair<std::string, int>> io{{"print_level", 0}};
  std::vector<std::pair<std::string, std::string>> so;
  std::vector<std::pair<std::string, double>> no;
  if (r["maxit"].i >= 0) io.emplace_back("max_iter", int(r["maxit"].i));
  if (r["opt"].i == 1) { so.emplace_back("mu_strategy", "adaptive"); so.emplace_back("hessian_approximation", "exact"); no.emplace_back("tol", 1e-9); }
  if (r["opt"].i == 2) { so.emplace_back("hessian_approximation", "limited-memory"); }
  if (r["rv"].i) return solve_nlp_ipopt(problem<P>(q, r["extra"].i), w, io, so, no);
  P p = problem<P>(q, r["extra"].i);
  return solve_nlp_ipopt(p, w, io, so, no);
}

static J run_case(const J & cs)
{
  const Prob q = load_problem(cs["p"]);
  J res = J::arr();
  std::optional<NLPSolution> last;
  for (auto & r : cs["runs"].a) {
    std::optional<NLPSolution> w;
    if (r["ws"].i == 1) {
      NLPSolution s{}; s.status = NLPSolution::Status::Optimal;
      s.x.setZero(q.n); s.zl.setZero(q.n); s.zu.setZero(q.n); s.lambda.setZero(q.m - q.n);
      w = s;
    }
    if (r["ws"].i == 2 && last && last->zl.size() == q.n) w = last;
    g_hess = g_eval = 0;
    const NLPSolution s = r["plain"].i ? solve<CountBase>(q, r, w) : solve<CountHess>(q, r, w);
    static const NLPSolution::Status sts[] = {NLPSolution::Status::Optimal, NLPSolution::Status::PrimalInfeasible, NLPSolution::Status::DualInfeasible,
      NLPSolution::Status::MaxIterations, NLPSolution::Status::MaxTime, NLPSolution::Status::Unknown};
    int si = -1; for (int k = 0; k < 6; ++k) if (sts[k] == s.status) si = k;
    J o = J::obj();
    Res pr; pr.code = 0; pr.iter = unsigned(s.iter); pr.x = s.x; pr.obj = s.objective;
    bool zneg = false;
    if (si == 0 && s.x.size() == q.n && s.zl.size() == q.n && s.zu.size() == q.n && s.lambda.size() == q.m - q.n) {
      pr.y.resize(q.m); pr.y << (s.zu - s.zl), s.lambda;
      zneg = s.zl.minCoeff() < -1e-6 || s.zu.minCoeff() < -1e-6;
      last = s;
      o = project(q, pr);
    } else { o.set("fin", 0).set("iter", long(s.iter)); }
    o.set("status", si).set("nh", g_hess).set("evals", g_eval).set("zneg", zneg);
    res.push(o);
  }
  return J::obj().set("id", cs["id"]).set("ev", "ok").set("res", res);
}

int main(int argc, char ** argv) { return vh::run(argc, argv, run_case); }

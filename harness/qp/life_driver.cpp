// Replays histories of QPSolver objects (spec/QPLife.tla) on the real class.
#include <utility>

#include "qp_common.hpp"
using vh::J;
using namespace smooth::feedback;

// sparse problem with stored entries where mP, mA are nonzero (upper triangle of P only if !full)
static QuadraticProgramSparse<double> pattern_problem(const Prob & p, const Eigen::MatrixXd & mP, const Eigen::MatrixXd & mA, bool full)
{
  QuadraticProgramSparse<double> r;
  r.P.resize(p.n, p.n);
  r.A.resize(p.m, p.n);
  for (int j = 0; j < p.n; ++j)
    for (int i = 0; i < p.n; ++i)
      if (mP(i, j) != 0 && (full || i <= j)) r.P.insert(i, j) = p.P(i, j);
  for (int i = 0; i < p.m; ++i)
    for (int j = 0; j < p.n; ++j)
      if (mA(i, j) != 0) r.A.insert(i, j) = p.A(i, j);
  r.P.makeCompressed(); r.A.makeCompressed();
  r.q = p.q; r.l = p.l; r.u = p.u;
  return r;
}

template<typename Pbm>
static J run_life(const J & cs, const std::function<Pbm(Prob &, const Eigen::MatrixXd &, const Eigen::MatrixXd &)> & make)
{
  using Solver = QPSolver<Pbm>;
  using Sol    = smooth::feedback::detail::qp_solution_t<Pbm>;
  std::vector<Prob> probs;
  std::vector<Pbm> pool;
  // problems of one structure have the same sparsity pattern: the union of their nonzeros
  const auto per = std::size_t(cs["per"].i);
  for (auto & p : cs["pool"].a) probs.push_back(load_problem(p));
  const auto orig = probs;
  for (std::size_t p = 0; p < probs.size(); ++p) {
    Eigen::MatrixXd mP = Eigen::MatrixXd::Zero(probs[p].n, probs[p].n), mA = Eigen::MatrixXd::Zero(probs[p].m, probs[p].n);
    for (std::size_t o = p / per * per; o < p / per * per + per; ++o) { mP += orig[o].P.cwiseAbs(); mA += orig[o].A.cwiseAbs(); }
    pool.push_back(make(probs[p], mP, mA));
  }
  std::vector<QPSolverParams> prms;
  for (auto & r : cs["prms"].a) prms.push_back(load_cfg(r).prm);
  const int ns = int(cs["slots"].i);
  std::vector<std::optional<Solver>> slot(std::size_t(ns + 1));
  std::vector<int> sprm(std::size_t(ns + 1), 0), lastp(std::size_t(ns + 1), 0);
  const auto proj = [&](const Sol & s, int p) {
    Res r; r.code = int(s.code); r.iter = s.iter; r.x = s.primal; r.y = s.dual; r.obj = s.objective;
    return project(probs[std::size_t(p - 1)], r);
  };
  J res = J::arr();
  for (auto & o : cs["ops"].a) {
    const std::string a = o["a"].s;
    const auto s = std::size_t(o["s"].i), t = std::size_t(o["t"].i), p = std::size_t(o["p"].i), r = std::size_t(o["r"].i);
    J rec = J::obj();
    if (a == "construct") { slot[s].emplace(pool[p - 1], prms[r - 1]); sprm[s] = int(r); lastp[s] = 0; }
    else if (a == "create") { slot[s].emplace(prms[r - 1]); sprm[s] = int(r); lastp[s] = 0; }
    else if (a == "analyze") { slot[s]->analyze(pool[p - 1]); lastp[s] = 0; }
    else if (a == "copy") { slot[s].reset(); slot[s].emplace(std::as_const(*slot[t])); sprm[s] = sprm[t]; lastp[s] = lastp[t]; }
    else if (a == "move") { slot[s].reset(); slot[s].emplace(std::move(*slot[t])); sprm[s] = sprm[t]; lastp[s] = lastp[t]; slot[t].reset(); lastp[t] = 0; }
    else if (a == "copyassign") { *slot[s] = std::as_const(*slot[t]); sprm[s] = sprm[t]; lastp[s] = lastp[t]; }
    else if (a == "moveassign") { *slot[s] = std::move(*slot[t]); sprm[s] = sprm[t]; lastp[s] = lastp[t]; slot[t].reset(); lastp[t] = 0; }
    else if (a == "selfassign") { const Solver & self = *slot[s]; *slot[s] = self; }
    else if (a == "destroy") { slot[s].reset(); lastp[s] = 0; }
    else if (a == "solve") {
      const auto w = o["w"].i;
      std::optional<std::reference_wrapper<const Sol>> ws, wf;
      Sol copy;
      if (w) {
        const Sol & src = slot[w == 1 ? s : t]->sol();
        copy = src; ws = src; wf = copy;
      }
      const Sol fresh = solve_qp(pool[p - 1], prms[std::size_t(sprm[s] - 1)], wf);
      const Sol ret = slot[s]->solve(pool[p - 1], ws);
      lastp[s] = int(p);
      J jr = proj(ret, int(p)), jf = proj(fresh, int(p));
      // compare with the same scale
      const long long S = std::min(jr["S"].i, jf["S"].i);
      const auto rescale = [&](J & j, const Sol & v) {
        if (j["fin"].i == 0) return;
        J x = J::arr(), y = J::arr();
        for (int q = 0; q < v.primal.size(); ++q) x.push(vh::fx(v.primal(q), double(S)));
        for (int q = 0; q < v.dual.size(); ++q) y.push(vh::fx(v.dual(q), double(S)));
        j.set("S", S); j.set("x", x); j.set("y", y);
      };
      rescale(jr, ret); rescale(jf, fresh);
      rec.set("ret", jr); rec.set("fresh", jf);
    }
    J sols = J::arr();
    for (std::size_t q = 1; q <= std::size_t(ns); ++q) {
      J e = J::obj();
      if (slot[q] && lastp[q]) {
        const J j = proj(slot[q]->sol(), lastp[q]);
        for (auto * f : {"code", "iter", "h1", "h2"}) e.set(f, j[f]);
      } else { for (auto * f : {"code", "iter", "h1", "h2"}) e.set(f, -1); }
      sols.push(e);
    }
    rec.set("sol", sols);
    res.push(rec);
  }
  J out = J::obj();
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}

static J run_case(const J & cs)
{
  switch (cs["rep"].i) {
  case 0: return run_life<QuadraticProgram<-1, -1>>(cs, [](Prob & p, const auto & mP, const auto & mA) { return dense_problem<-1, -1>(p, 0); });
  case 1: return run_life<QuadraticProgramSparse<double>>(cs, [](Prob & p, const auto & mP, const auto & mA) { return pattern_problem(p, mP, mA, true); });
  case 2: return run_life<QuadraticProgramSparse<double>>(cs, [](Prob & p, const auto & mP, const auto & mA) { return pattern_problem(p, mP, mA, false); });
  default: {
    // all problems of the pool in the dimensions of the first structure, zero padded, so that static sizes apply
    return run_life<QuadraticProgram<3, 3>>(cs, [](Prob & p, const auto & mP, const auto & mA) {
      Prob q; q.n = 3; q.m = 3;
      q.P = Eigen::MatrixXd::Identity(3, 3); q.A = Eigen::MatrixXd::Zero(3, 3); q.q = Eigen::VectorXd::Zero(3);
      q.l = Eigen::VectorXd::Zero(3); q.u = Eigen::VectorXd::Zero(3);
      q.P.topLeftCorner(p.n, p.n) = p.P; q.A.topLeftCorner(p.m, p.n) = p.A; q.q.head(p.n) = p.q;
      q.l.head(p.m) = p.l; q.u.head(p.m) = p.u;
      p = q;
      return dense_problem<3, 3>(q, 0);
    });
  }
  }
}

int main(int argc, char ** argv) { return vh::run(argc, argv, run_case); }

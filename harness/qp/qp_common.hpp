// Shared between the translation units of the QP driver.
#pragma once
#include <smooth/feedback/qp_solver.hpp>

#include "../vh.hpp"

struct Prob
{
  int n = 0, m = 0;
  Eigen::MatrixXd P, A;
  Eigen::VectorXd q, l, u;
};

struct Cfg
{
  smooth::feedback::QPSolverParams prm;
  int tri = 0, rep = 0, ws = 0;
  Eigen::VectorXd wx, wy;  // warm start (ws = 1)
};

struct Res
{
  int code = -1;
  unsigned iter = 0;
  Eigen::VectorXd x, y;
  double obj = 0;
};

Prob load_problem(const vh::J & p);
Cfg load_cfg(const vh::J & r);

// dense problem with the requested use of the strict lower triangle of P
inline Eigen::MatrixXd tri_P(const Prob & p, int tri)
{
  Eigen::MatrixXd P = p.P;
  for (int i = 0; i < p.n; ++i)
    for (int j = 0; j < i; ++j) {
      if (tri == 1) P(i, j) = 0;
      if (tri == 2) P(i, j) = 7;
    }
  return P;
}

template<Eigen::Index M, Eigen::Index N>
smooth::feedback::QuadraticProgram<M, N> dense_problem(const Prob & p, int tri)
{
  smooth::feedback::QuadraticProgram<M, N> r;
  r.P = tri_P(p, tri);
  r.q = p.q;
  r.A = p.A;
  r.l = p.l;
  r.u = p.u;
  return r;
}

// kind 0: compressed, only nonzeros; kind 1: uncompressed with explicit zeros
inline smooth::feedback::QuadraticProgramSparse<double> sparse_problem(const Prob & p, int tri, int kind)
{
  smooth::feedback::QuadraticProgramSparse<double> r;
  const Eigen::MatrixXd P = tri_P(p, tri);
  r.P.resize(p.n, p.n);
  r.A.resize(p.m, p.n);
  if (kind == 1) {
    r.P.reserve(Eigen::VectorXi::Constant(p.n, p.n + 2));
    if (p.m > 0) r.A.reserve(Eigen::VectorXi::Constant(p.m, p.n + 2));
  }
  for (int j = 0; j < p.n; ++j)
    for (int i = 0; i < p.n; ++i)
      if ((kind == 1 && !(tri == 1 && i > j)) || P(i, j) != 0) r.P.insert(i, j) = P(i, j);
  for (int i = 0; i < p.m; ++i)
    for (int j = 0; j < p.n; ++j)
      if (kind == 1 || p.A(i, j) != 0) r.A.insert(i, j) = p.A(i, j);
  if (kind == 0) { r.P.makeCompressed(); r.A.makeCompressed(); }
  r.q = p.q; r.l = p.l; r.u = p.u;
  return r;
}

// sparse or dense problem in single precision
template<bool Sparse>
auto float_problem(const Prob & p, int tri)
{
  std::conditional_t<Sparse, smooth::feedback::QuadraticProgramSparse<float>, smooth::feedback::QuadraticProgram<-1, -1, float>> r;
  if constexpr (Sparse) {
    const auto d = sparse_problem(p, tri, 0);
    r.P = d.P.cast<float>();
    r.A = d.A.cast<float>();
  } else {
    r.P = tri_P(p, tri).cast<float>();
    r.A = p.A.cast<float>();
  }
  r.q = p.q.cast<float>();
  r.l = p.l.cast<float>();
  r.u = p.u.cast<float>();
  return r;
}

template<typename Pbm>
Res run_one(const Pbm & pbm, const Cfg & c)
{
  using Sol = smooth::feedback::detail::qp_solution_t<Pbm>;
  std::optional<std::reference_wrapper<const Sol>> w;
  Sol wsol;
  if (c.ws == 1 || c.ws == 2) {
    using Sc    = typename decltype(wsol.primal)::Scalar;
    wsol.primal = c.wx.cast<Sc>();
    wsol.dual   = c.wy.cast<Sc>();
    w           = wsol;
  }
  Res r;
  const auto fill = [&r](const Sol & s) {
    r.code = int(s.code); r.iter = s.iter; r.x = s.primal.template cast<double>(); r.y = s.dual.template cast<double>(); r.obj = s.objective;
  };
  if (c.ws == 3) {
    smooth::feedback::QPSolver<Pbm> solver(pbm, c.prm);
    solver.solve(pbm);
    fill(solver.solve(pbm, solver.sol()));
  } else {
    fill(smooth::feedback::solve_qp(pbm, c.prm, w));
  }
  return r;
}

Res run_dyn(const Prob &, const Cfg &);
Res run_sparse(const Prob &, const Cfg &, int kind);
Res run_static(const Prob &, const Cfg &);   // falls back to dynamic
Res run_partial(const Prob &, const Cfg &);  // falls back to dynamic
Res run_float(const Prob &, const Cfg &, bool sparse);
vh::J project(const Prob & p, const Res & r);

#include "qp_common.hpp"
Res run_static(const Prob & p, const Cfg & c)
{
  if (p.m == 1 && p.n == 1) return run_one(dense_problem<1, 1>(p, c.tri), c);
  if (p.m == 2 && p.n == 2) return run_one(dense_problem<2, 2>(p, c.tri), c);
  if (p.m == 3 && p.n == 2) return run_one(dense_problem<3, 2>(p, c.tri), c);
  return run_dyn(p, c);
}

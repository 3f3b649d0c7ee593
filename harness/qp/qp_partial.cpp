#include "qp_common.hpp"
Res run_partial(const Prob & p, const Cfg & c)
{
  if (p.n == 2) return run_one(dense_problem<-1, 2>(p, c.tri), c);
  if (p.m == 2) return run_one(dense_problem<2, -1>(p, c.tri), c);
  return run_dyn(p, c);
}

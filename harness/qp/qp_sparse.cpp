#include "qp_common.hpp"
Res run_sparse(const Prob & p, const Cfg & c, int kind) { return run_one(sparse_problem(p, c.tri, kind), c); }

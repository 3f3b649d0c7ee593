#include "qp_common.hpp"
Res run_dyn(const Prob & p, const Cfg & c) { return run_one(dense_problem<-1, -1>(p, c.tri), c); }

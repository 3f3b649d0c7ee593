#include "qp_common.hpp"
Res run_float(const Prob & p, const Cfg & c, bool sparse) { return sparse ? run_one(float_problem<true>(p, c.tri), c) : run_one(float_problem<false>(p, c.tri), c); }

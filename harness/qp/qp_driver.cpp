// Replays QP cases (problem + runs) on the real solver and records the results.
#include "qp_common.hpp"
using vh::J;

static J run_case(const J & cs)
{
  const Prob p = load_problem(cs["p"]);
  J out = J::obj();
  out.set("id", cs["id"]).set("ev", "ok");
  J rs = J::arr();
  std::vector<Res> hist;
  for (auto & jr : cs["runs"].a) {
    Cfg c = load_cfg(jr);
    if (c.ws == 1) {
      c.wx.resize(p.n); c.wy.resize(p.m);
      for (int j = 0; j < p.n; ++j) c.wx(j) = double(jr["wx"][j].i);
      for (int i = 0; i < p.m; ++i) c.wy(i) = double(jr["wy"][i].i);
    } else if (c.ws == 2) {
      const auto & h = hist[std::size_t(jr["wj"].i - 1)];
      c.wx = h.x; c.wy = h.y;
    }
    const auto solve = [&p](const Cfg & c) {
    Res r;
    switch (c.rep) {
    case 0: r = run_dyn(p, c); break;
    case 1: r = run_sparse(p, c, 0); break;
    case 2: r = run_static(p, c); break;
    case 3: r = run_partial(p, c); break;
    case 4: r = run_sparse(p, c, 1); break;
    case 6: r = run_float(p, c, false); break;
    case 7: r = run_float(p, c, true); break;
    default: {
      Prob pr = p; pr.A = p.A.colwise().reverse().eval(); pr.l = p.l.reverse().eval(); pr.u = p.u.reverse().eval();
      Cfg cr = c; if (c.ws == 1 || c.ws == 2) cr.wy = c.wy.reverse().eval();
      r = run_dyn(pr, cr); r.y = r.y.reverse().eval();
    }
    }
    return r;
    };
    const Res r = solve(c);
    hist.push_back(r);
    J o = project(p, r);
    // infeasibility verdicts are repeated with tight certificate tolerances
    int tc = r.code;
    if (r.code == 2 || r.code == 3) {
      for (const float e : {1e-9f, 1e-12f}) {
        if (tc != r.code) { break; }
        Cfg ct = c;
        ct.prm.eps_primal_inf = ct.prm.eps_dual_inf = e;
        ct.prm.max_iter = 5000;
        tc = solve(ct).code;
      }
    }
    o.set("tc", tc);
    rs.push(o);
  }
  out.set("res", rs);
  return out;
}

int main(int argc, char ** argv) { return vh::run(argc, argv, run_case); }

// Uses of the OSQP interface by solve_qp_osqp (spec/OsqpTrace.tla).
#include <memory>
#include <set>
#include <smooth/feedback/compat/osqp.hpp>

#include "../vh.hpp"
using vh::J;
using namespace smooth::feedback;

static J script, events;
static std::map<void *, int> blocks;  // allocated with c_malloc
static std::map<void *, int> works;   // workspaces
static int next_id;
static constexpr double U = 1024;
static long long fx(double v) { return std::isinf(v) ? (v < 0 ? -99 * 1024 : 99 * 1024) : vh::fx(v, U); }
static J ev(const char * k) { return J::obj().set("e", k).set("w", 0); }
static int widx(void * w) { return !w ? 0 : works.count(w) ? works[w] : -1; }
void * vh_malloc(std::size_t n)
{
  void * p = std::malloc(n ? n : 1);
  std::memset(p, 0x5a, n);
  blocks[p] = ++next_id;
  events.push(ev("malloc").set("w", next_id));
  return p;
}
void * vh_calloc(std::size_t a, std::size_t b)
{
  void * p = vh_malloc(a * b);
  std::memset(p, 0, a * b);
  return p;
}
void vh_free(void * p)
{
  if (!p) return;
  events.push(ev("free").set("w", blocks.count(p) ? blocks[p] : -1));
  if (blocks.count(p)) std::memset(p, 0x5b, 1);
  blocks.erase(p);
}
csc * csc_matrix(c_int m, c_int n, c_int nz, c_float * x, c_int * i, c_int * p)
{
  csc * c = (csc *)vh_malloc(sizeof(csc));
  *c      = {nz, m, n, p, i, x, -1};
  return c;
}
void osqp_set_default_settings(OSQPSettings * s)
{
  *s = {0.1, 1e-6, 10, 1, 0, 5, 0.4, 4000, 1e-3, 1e-3, 1e-4, 1e-4, 1.6, QDLDL_SOLVER, 1e-6, 0, 3, 1, 0, 25, 1, 0};
}
static J dense(const csc * c, bool upper, bool & ok)
{
  std::vector<std::vector<double>> d(std::size_t(c->m), std::vector<double>(std::size_t(c->n), 0));
  ok &= c->p[0] == 0 && c->p[c->n] <= c->nzmax;
  for (c_int j = 0; ok && j < c->n; ++j) {
    c_int last = -1;
    for (c_int k = c->p[j]; k < c->p[j + 1]; ++k) {
      const c_int i = c->i[k];
      ok &= i > last && i < c->m && (!upper || i <= j);
      if (!ok) break;
      last                                = i;
      d[std::size_t(i)][std::size_t(j)] += c->x[k];
    }
  }
  J r = J::arr();
  for (auto & row : d) {
    J q = J::arr();
    for (double v : row) q.push(fx(v));
    r.push(q);
  }
  return r;
}
static J vec(const double * p, long long n)
{
  J r = J::arr();
  for (long long i = 0; i < n; ++i) r.push(fx(p[i]));
  return r;
}
struct Work
{
  OSQPWorkspace w{};
  OSQPData d{};
  OSQPSettings s{};
  OSQPSolution sol{};
  OSQPInfo info{};
  std::vector<double> x, y;
};
c_int osqp_setup(OSQPWorkspace ** wp, const OSQPData * d, const OSQPSettings * s)
{
  bool ok = d->P->m == d->n && d->P->n == d->n && d->A->m == d->m && d->A->n == d->n;
  J e     = ev("setup");
  e.set("n", d->n).set("m", d->m).set("P", dense(d->P, true, ok)).set("A", dense(d->A, false, ok));
  e.set("q", vec(d->q, d->n)).set("l", vec(d->l, d->m)).set("u", vec(d->u, d->m)).set("form", ok);
  J st = J::obj();
  st.set("rho", fx(s->rho)).set("sigma", fx(s->sigma)).set("alpha", fx(s->alpha)).set("eps_abs", fx(s->eps_abs)).set("eps_rel", fx(s->eps_rel));
  st.set("eps_pi", fx(s->eps_prim_inf)).set("eps_di", fx(s->eps_dual_inf)).set("delta", fx(s->delta)).set("check", s->check_termination);
  st.set("polish", s->polish != 0).set("refine", s->polish_refine_iter).set("scaling", s->scaling != 0).set("verbose", s->verbose != 0).set("scaled", s->scaled_termination != 0);
  st.set("iter", s->max_iter > 1000000000LL ? -1 : s->max_iter).set("time", vh::fx(s->time_limit, 1e6)).set("lim", s->time_limit > 0);
  e.set("set", st);
  const std::string how = script["setup"].s;
  const bool valid      = s->max_iter > 0 && s->time_limit >= 0;
  c_int rc              = 0;
  if (how == "invalid" || !valid) rc = 1;  // nothing allocated, *wp is not written
  else {
    Work * w = new Work;
    *wp      = &w->w;
    works[&w->w] = ++next_id;
    e.set("w", next_id);
    if (how == "partial") rc = 4;
    else {
      w->d = *d;
      w->s = *s;
      w->x.assign(std::size_t(d->n), 0);
      w->y.assign(std::size_t(d->m), 0);
      w->sol = {w->x.data(), w->y.data()};
      w->info.status_val = OSQP_UNSOLVED;
      w->w = {&w->d, &w->s, &w->sol, &w->info};
    }
  }
  events.push(e.set("rc", rc));
  return rc;
}
static c_int warm(OSQPWorkspace * w, const double * x, const double * y)
{
  J e = ev("warm").set("w", widx(w));
  if (widx(w) > 0 && w->data) e.set("x", x ? vec(x, w->data->n) : J::arr()).set("y", y ? vec(y, w->data->m) : J::arr());
  events.push(e);
  if (widx(w) > 0 && w->settings) w->settings->warm_start = 1;
  return 0;
}
c_int osqp_warm_start(OSQPWorkspace * w, const double * x, const double * y) { return warm(w, x, y); }
c_int osqp_warm_start_x(OSQPWorkspace * w, const double * x) { return warm(w, x, nullptr); }
c_int osqp_warm_start_y(OSQPWorkspace * w, const double * y) { return warm(w, nullptr, y); }
c_int osqp_solve(OSQPWorkspace * w)
{
  events.push(ev("solve").set("w", widx(w)));
  if (widx(w) <= 0 || !w->solution) return 7;
  w->info->iter       = script["iter"].i;
  w->info->status_val = script["status"].i;
  w->info->obj_val    = double(script["obj"].i);
  for (std::size_t i = 0; i < std::size_t(w->data->n); ++i) w->solution->x[i] = double(script["x"][i].i);
  for (std::size_t i = 0; i < std::size_t(w->data->m); ++i) w->solution->y[i] = double(script["y"][i].i);
  return script["ret"].i;
}
c_int osqp_cleanup(OSQPWorkspace * w)
{
  events.push(ev("cleanup").set("w", widx(w)));
  if (widx(w) > 0) {
    if (w->solution) std::fill_n(w->solution->x, w->data->n, 12345.), std::fill_n(w->solution->y, w->data->m, 12345.);
    if (w->info) w->info->obj_val = 12345., w->info->iter = 12345;
    works.erase(w);
  }
  return 0;
}

static double num(long long v) { return v == 99 ? std::numeric_limits<double>::infinity() : v == -99 ? -std::numeric_limits<double>::infinity() : double(v); }
template<typename Pbm>
static J go(const J & cs)
{
  const long long n = cs["n"].i, m = cs["m"].i;
  Pbm pb;
  if constexpr (requires { pb.P.nonZeros(); pb.P.insert(0, 0); }) {
    pb.P.resize(n, n);
    pb.A.resize(m, n);
    if (cs["room"].i) pb.A.reserve(Eigen::VectorXi::Constant(m, 4)), pb.P.reserve(Eigen::VectorXi::Constant(n, 4));
  } else {
    pb.P.resize(n, n);
    pb.A.resize(m, n);
    pb.P.setZero();
    pb.A.setZero();
  }
  pb.q.resize(n);
  pb.l.resize(m);
  pb.u.resize(m);
  for (int i = 0; i < n; ++i) {
    pb.q(i) = double(cs["q"][i].i);
    for (int j = 0; j < n; ++j)
      if (cs["P"][i][j].i != 0 || cs["room"].i) pb.P.coeffRef(i, j) = double(cs["P"][i][j].i);
  }
  for (int i = 0; i < m; ++i) {
    pb.l(i) = num(cs["l"][i].i);
    pb.u(i) = num(cs["u"][i].i);
    for (int j = 0; j < n; ++j)
      if (cs["A"][i][j].i != 0 || cs["room"].i) pb.A.coeffRef(i, j) = double(cs["A"][i][j].i);
  }
  if constexpr (requires { pb.P.makeCompressed(); })
    if (!cs["room"].i) pb.P.makeCompressed(), pb.A.makeCompressed();
  const J & p = cs["prm"];
  QPSolverParams prm;
  prm.verbose = p["verbose"].i;
  prm.alpha = float(p["alpha"].i / U), prm.rho = float(p["rho"].i / U), prm.sigma = float(p["sigma"].i / U), prm.scaling = p["scaling"].i;
  prm.eps_abs = float(p["eps_abs"].i / U), prm.eps_rel = float(p["eps_rel"].i / U), prm.eps_primal_inf = float(p["eps_pi"].i / U), prm.eps_dual_inf = float(p["eps_di"].i / U);
  if (p["iter"].i >= 0) prm.max_iter = std::uint32_t(p["iter"].i);
  if (p["time"].i >= 0) prm.max_time = std::chrono::microseconds(p["time"].i);
  prm.stop_check_iter = std::uint32_t(p["check"].i), prm.polish = p["polish"].i, prm.polish_iter = std::uint32_t(p["refine"].i), prm.delta = float(p["delta"].i / U);
  script = cs["script"];
  events = J::arr();
  blocks.clear();
  works.clear();
  next_id = 0;
  QPSolution<-1, -1, double> ws;
  ws.primal.resize(n);
  ws.dual.resize(m);
  for (int i = 0; i < n; ++i) ws.primal(i) = double(cs["wx"][i].i);
  for (int i = 0; i < m; ++i) ws.dual(i) = double(cs["wy"][i].i);
  QPSolution<-1, -1, double> s = cs["warm"].i ? solve_qp_osqp(pb, prm, ws) : solve_qp_osqp(pb, prm);
  static const char * const nm[] = {"Optimal", "PolishFailed", "PrimalInfeasible", "DualInfeasible", "MaxIterations", "MaxTime", "Unknown"};
  J a = J::obj();
  a.set("code", nm[int(s.code)]);
  const bool full = s.primal.size() == n && s.dual.size() == m;
  a.set("full", full).set("x", full ? vec(s.primal.data(), n) : J::arr()).set("y", full ? vec(s.dual.data(), m) : J::arr()).set("iter", full ? (long long)(s.iter) : 0).set("obj", fx(s.objective));
  J out = J::obj();
  return out.set("id", cs["id"]).set("ev", "ok").set("events", events).set("ans", a).set("left", (long long)(blocks.size() + works.size()));
}
static J run_case(const J & cs)
{
  switch (cs["kind"].i) {
  case 0: return go<QuadraticProgram<-1, -1, double>>(cs);
  case 1: return go<QuadraticProgramSparse<double>>(cs);
  case 2: return go<QuadraticProgram<2, 2, double>>(cs);
  case 3: return go<QuadraticProgram<3, 1, double>>(cs);
  default: return go<QuadraticProgram<-1, 2, double>>(cs);
  }
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

// Evaluates functions over meshes into fresh or shared result objects (spec/MeshFunTrace.tla).
#include <map>
#include <smooth/feedback/collocation/mesh_function.hpp>

#include "../lie/groups.hpp"
using vh::J;
using namespace smooth::feedback;
using M12 = Mesh<1, 2>;

struct Poly
{
  double c;
  Eigen::VectorXd l;
  Eigen::MatrixXd q;
};

template<typename X, int Nu, int Nf>
struct Fun
{
  static constexpr int Nx = smooth::Dof<X>, NV = 1 + Nx + Nu;
  using U = Eigen::Matrix<double, Nu, 1>;
  using Y = Eigen::Matrix<double, Nf, 1>;
  using Z = Eigen::Matrix<double, NV, 1>;
  std::vector<Poly> p;
  explicit Fun(const J & j)
  {
    for (auto & f : j.a) {
      Poly r{double(f["c"].i), Eigen::VectorXd(NV), Eigen::MatrixXd(NV, NV)};
      for (int a = 0; a < NV; ++a) r.l(a) = double(f["l"][a].i);
      for (int a = 0; a < NV; ++a)
        for (int b = 0; b < NV; ++b) r.q(a, b) = double(f["q"][a][b].i);
      p.push_back(r);
    }
  }
  static Z z(double t, const X & x, const U & u)
  {
    Z r;
    r << t, smooth::log(x), u;
    return r;
  }
  Y operator()(double t, const X & x, const U & u) const
  {
    const Z v = z(t, x, u);
    Y r;
    for (int i = 0; i < Nf; ++i) r(i) = p[i].c + p[i].l.dot(v) + v.dot(p[i].q * v);
    return r;
  }
};
template<typename F>
struct Dense : F
{
  using F::F;
  Eigen::Matrix<double, -1, -1> jacobian(double t, const auto & x, const auto & u) const
  {
    const auto v = F::z(t, x, u);
    Eigen::MatrixXd r(F::Y::RowsAtCompileTime, F::NV);
    for (long i = 0; i < r.rows(); ++i) r.row(i) = (this->p[std::size_t(i)].l + (this->p[std::size_t(i)].q + this->p[std::size_t(i)].q.transpose()) * v).transpose();
    return r;
  }
  Eigen::Matrix<double, -1, -1> hessian(double, const auto &, const auto &) const
  {
    Eigen::MatrixXd r(F::NV, F::NV * F::Y::RowsAtCompileTime);
    for (long i = 0; i < F::Y::RowsAtCompileTime; ++i) r.middleCols(i * F::NV, F::NV) = this->p[std::size_t(i)].q + this->p[std::size_t(i)].q.transpose();
    return r;
  }
};
// derivatives as sparse matrices without explicit zeros
template<typename F>
struct Sparse : Dense<F>
{
  using Dense<F>::Dense;
  Eigen::SparseMatrix<double> jacobian(double t, const auto & x, const auto & u) const { return Dense<F>::jacobian(t, x, u).sparseView(); }
  Eigen::SparseMatrix<double> hessian(double t, const auto & x, const auto & u) const { return Dense<F>::hessian(t, x, u).sparseView(); }
};

static M12 make_mesh(const J & m)
{
  M12 r(std::size_t(m["n"].i), 1);
  if (m["sp"].i > 0) r.refine_ph(std::size_t(m["sp"].i - 1), 3);
  for (std::size_t i = 0; i < m["k"].size() && i < r.N_ivals(); ++i) r.set_N_colloc_ival(i, std::size_t(m["k"][i].i));
  return r;
}

static bool integral = true, allfin = true;
static long long num(double v, double D)
{
  const double w = v * D;
  if (!std::isfinite(w)) allfin = false;
  if (std::abs(w - std::round(w)) > 1e-4 + 1e-9 * std::abs(w)) integral = false;
  return vh::fx(w, 1);
}
static J dense(const Eigen::SparseMatrix<double> & m, double D)
{
  const Eigen::MatrixXd d(m);
  J r = J::arr();
  for (long i = 0; i < d.rows(); ++i) {
    J q = J::arr();
    for (long k = 0; k < d.cols(); ++k) q.push(num(d(i, k), D));
    r.push(q);
  }
  return r;
}

template<int Deriv>
static void eval(const std::string & fn, auto & out, const M12 & m, auto & f, double t0, double tf, const auto & xs, const auto & us, bool scale)
{
  if (fn == "eval") mesh_eval<Deriv>(out, m, f, t0, tf, xs, us, scale);
  else if (fn == "int") mesh_integrate<Deriv>(out, m, f, t0, tf, xs, us);
  else {
    using X = std::decay_t<decltype(xs[0])>;
    if constexpr (smooth::IsCommutative<X> && smooth::Dof<X> == std::decay_t<decltype(f)>::Y::RowsAtCompileTime) mesh_dyn<Deriv>(out, m, f, t0, tf, xs, us);
  }
}

template<typename X, int Nu, int Nf>
static J go(const J & cs)
{
  constexpr int Nx   = smooth::Dof<X>;
  constexpr int MaxD = smooth::IsCommutative<X> ? 2 : 1;
  const bool fresh   = cs["ops"].size() && cs["fresh"].i;
  struct Slots
  {
    MeshValue<0> v0;
    MeshValue<1> v1;
    MeshValue<2> v2, top;
    int m0 = -1, m1 = -1, m2 = -1, mt = -1;
  };
  std::map<std::string, Slots> slots;
  J out = J::obj(), res = J::arr();
  for (auto & o : cs["ops"].a) {
    const std::string fn = o["fn"].s;
    if (fresh) slots.clear();
    Slots & s   = slots[fn];
    const int mi = int(o["ms"].i);
    const J & mj = cs["meshes"][mi];
    const M12 m  = make_mesh(mj);
    long long U = 0;
    for (auto & l : mj["len"].a) U += l.i;
    const double T = double(3 * U * cs["sc"].i), D = 8. * double(U) * T * T, t0 = double(o["t0"].i);
    std::vector<X> xs;
    std::vector<Eigen::Matrix<double, Nu, 1>> us;
    for (auto & x : o["x"].a) xs.push_back(to_group<X>(x));
    for (auto & u : o["u"].a) us.push_back(to_vec<Nu>(u));
    const Eigen::VectorXd lam = [&] {
      Eigen::VectorXd r(long(o["lam"].size()));
      for (long i = 0; i < r.size(); ++i) r(i) = double(o["lam"][int(i)].i);
      return r;
    }();
    J r      = J::obj();
    integral = allfin = true;
    auto work = [&](auto & f) {
      auto run = [&]<int Dv>(std::integral_constant<int, Dv>, auto & mv, int & last) {
        if (last != mi) mv.allocated = false;
        if constexpr (std::is_same_v<std::decay_t<decltype(mv)>, MeshValue<2>>) mv.lambda = lam;
        // the first evaluation allocates
        auto & view = static_cast<MeshValue<Dv> &>(mv);
        eval<Dv>(fn, view, m, f, t0, t0 + T, xs, us, o["scale"].i != 0);
        last    = mi;
        J F     = J::arr();
        for (long i = 0; i < mv.F.size(); ++i) F.push(num(mv.F(i), D));
        r.set("F", F);
        if constexpr (Dv >= 1) r.set("J", dense(mv.dF, D)).set("vars", (long long)(mv.dF.cols()));
        if constexpr (Dv >= 2) r.set("H", dense(mv.d2F, D));
        if (o["comp"].i) {
          if constexpr (Dv >= 1) mv.dF.makeCompressed();
          if constexpr (Dv >= 2) mv.d2F.makeCompressed();
        }
      };
      const int dv = int(o["deriv"].i);
      if (o["zx"].i % 2 && s.mt == mi) {
        // object with derivatives up to the largest order
        if (dv == 0) run(std::integral_constant<int, 0>{}, s.top, s.mt);
        else if (dv == 1) run(std::integral_constant<int, 1>{}, s.top, s.mt);
        else if constexpr (MaxD == 2 && requires { f.hessian(0., xs[0], us[0]); }) run(std::integral_constant<int, 2>{}, s.top, s.mt);
      } else if (dv == 0) run(std::integral_constant<int, 0>{}, s.v0, s.m0);
      else if (dv == 1) {
        if constexpr (MaxD == 1) run(std::integral_constant<int, 1>{}, s.top, s.mt);
        else run(std::integral_constant<int, 1>{}, s.v1, s.m1);
      } else if constexpr (MaxD == 2 && requires { f.hessian(0., xs[0], us[0]); }) run(std::integral_constant<int, 2>{}, s.top, s.mt);
    };
    auto pick = [&]<int NF>(std::integral_constant<int, NF>, const J & fj) {
      using F = Fun<X, Nu, NF>;
      if constexpr (MaxD == 1) {
        const F f(fj);
        work(f);
      } else {
        if (o["form"].i == 0) { Dense<F> f(fj); work(f); }
        else if (o["deriv"].i == 2) { Sparse<F> f(fj); work(f); }
        else { const F f(fj); work(f); }
      }
    };
    if (fn == "dyn") pick(std::integral_constant<int, Nx>{}, cs["fd"][int(o["fi"].i)]);
    else pick(std::integral_constant<int, Nf>{}, cs["f"][int(o["fi"].i)]);
    r.set("int", integral).set("st", allfin);
    res.push(r);
  }
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}
template<typename X>
static J dims(const J & cs)
{
  const int nu = int(cs["nu"].i), nf = int(cs["nf"].i);
  if (nu == 1) return nf == 1 ? go<X, 1, 1>(cs) : go<X, 1, 2>(cs);
  return nf == 1 ? go<X, 2, 1>(cs) : go<X, 2, 2>(cs);
}
static J run_case(const J & cs)
{
  if (cs["g"].s == "H") return dims<smooth::Heisd>(cs);
  if (cs["nx"].i == 1) return dims<Eigen::Matrix<double, 1, 1>>(cs);
  return dims<Eigen::Vector2d>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

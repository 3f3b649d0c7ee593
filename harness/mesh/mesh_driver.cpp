// Replays mesh histories (spec/MeshTrace.tla).
#include <numeric>
#include <smooth/feedback/collocation/mesh.hpp>

#include "../vh.hpp"
using vh::fx;
using vh::J;

template<typename R>
static std::vector<double> coll(R && r)
{
  std::vector<double> v;
  for (double d : r) v.push_back(d);
  return v;
}
static J fv(const std::vector<double> & v, double S)
{
  J r = J::arr();
  for (double d : v) r.push(fx(d, S));
  return r;
}

template<typename M>
static J state(const M & m, const std::string & o, bool cp)
{
  J r = J::obj(), k = J::arr(), a = J::arr(), b = J::arr();
  for (std::size_t i = 0; i < m.N_ivals(); ++i) {
    k.push(m.N_colloc_ival(i));
    auto ns = coll(m.interval_nodes(i));
    a.push(fx(ns.front(), 1e5)), b.push(fx(ns.back(), 1e5));
  }
  r.set("o", o).set("n", m.N_ivals()).set("nc", m.N_colloc()).set("k", k).set("a", a).set("b", b).set("cp", cp);
  return r;
}

template<std::size_t A, std::size_t B>
static J go(const J & cs)
{
  using M = smooth::feedback::Mesh<A, B>;
  M m     = cs["n"].i < 0 ? M{} : M(std::size_t(cs["n"].i), std::size_t(cs["k"].i));
  J out = J::obj(), res = J::arr();
  out.set("id", cs["id"]).set("ev", "ok");
  res.push(state(m, "construction", true));
  for (auto & o : cs["ops"].a) {
    const std::string op = o["o"].s;
    bool cp              = true;
    if (m.N_ivals() <= 12) {
      const std::size_t i = std::size_t(o["i"].i) % m.N_ivals();
      if (op == "ph") m.refine_ph(i, std::size_t(o["d"].i));
      if (op == "err") {
        const double tgt = std::ldexp(1., -int(o["tgt"].i));
        std::vector<double> es;
        for (std::size_t j = 0; j < m.N_ivals(); ++j) es.push_back(tgt * double(o["e"][j % o["e"].size()].i));
        m.refine_errors(es, tgt);
      }
      if (op == "set") m.set_N_colloc_ival(i, std::size_t(o["d"].i));
      if (op == "inc") m.increase_degrees();
      if (op == "dec") m.decrease_degrees();
      if (op == "copy") {
        M c = m;
        const auto before = state(m, "x", true).str();
        c.refine_ph(i, 2 * B + 1);
        cp = state(m, "x", true).str() == before;
        M d = m;
        c   = std::move(d);
        m   = c;
        cp  = cp && state(m, "x", true).str() == before;
      }
    }
    res.push(state(m, op, cp));
  }
  out.set("res", res);

  // final mesh
  J fin = J::obj(), in = J::arr(), iw = J::arr(), mat = J::arr();
  const std::size_t N = m.N_ivals();
  for (std::size_t i = 0; i < N; ++i) in.push(fv(coll(m.interval_nodes(i)), 1e8)), iw.push(fv(coll(m.interval_weights(i)), 1e8));
  fin.set("nodes", fv(coll(m.all_nodes()), 1e8)).set("wts", fv(coll(m.all_weights()), 1e8)).set("inode", in).set("iw", iw);

  // interpolation data
  const bool ext     = cs["ext"].i;
  const std::size_t p = std::size_t(cs["p"].i);
  auto y             = [&](std::size_t i) { return double(cs["y"][i % 5].i); };
  auto q             = [&](std::size_t i, std::size_t j) { return double(cs["q"][(i + 1 + j - 1) % 4].i); };
  auto poly          = [&](std::size_t i, double nu) {
    long d = long(m.N_colloc_ival(i)) - (i + 1 == N && !ext ? 1 : 0);
    d      = std::min(d, 5L);
    if (d == 0) return y(i);
    double v = y(i) + (y(i + 1) - y(i)) * nu;
    for (long j = 1; j <= d - 1; ++j) v += q(i, std::size_t(j)) * (std::pow(nu, double(j)) - std::pow(nu, double(j + 1)));
    return v;
  };
  std::vector<double> nv;
  for (std::size_t i = 0; i < N; ++i) {
    auto ns = coll(m.interval_nodes(i));
    for (std::size_t j = 0; j + 1 < ns.size(); ++j) nv.push_back(poly(i, (ns[j] - ns.front()) / (ns.back() - ns.front())));
  }
  if (ext) nv.push_back(poly(N - 1, 1.));
  Eigen::Matrix<double, 2, -1> V(2, long(nv.size()));
  for (std::size_t j = 0; j < nv.size(); ++j) V.col(long(j)) << nv[j], 2 * nv[j];
  auto eval = [&](double t, std::size_t pp) -> Eigen::Vector2d {
    if (cs["id"].i % 2) return m.template eval<Eigen::Vector2d>(t, V.colwise(), pp, ext);
    return m.template eval<Eigen::VectorXd>(t, V.colwise(), pp, ext);
  };

  std::vector<std::size_t> sel{0};
  if (N > 1) sel.push_back(N - 1);
  if (N > 2) sel.push_back(N / 2);
  for (auto i : sel) {
    J r       = J::obj();
    auto ns   = coll(m.interval_nodes(i));
    auto wt   = coll(m.interval_weights(i));
    const double a = ns.front(), h = ns.back() - a;
    const std::size_t K = ns.size() - 1;
    J mom = J::arr(), pw = J::arr(), dm = J::arr(), im = J::arr(), ev = J::arr(), nn = J::arr();
    for (std::size_t d = 0; d + 2 <= 2 * K; ++d) {
      double s = 0;
      for (std::size_t j = 0; j <= K; ++j) s += wt[j] * std::pow((ns[j] - a) / h, double(d)) / h * double(d + 1);
      mom.push(fx(s, 1e8));
    }
    const Eigen::MatrixXd D = m.interval_diffmat(i), I = m.interval_intmat(i);
    for (std::size_t d = 0; d <= K; ++d) {
      Eigen::RowVectorXd v = Eigen::RowVectorXd::Zero(long(K) + 1), g = Eigen::RowVectorXd::Zero(long(K));
      for (std::size_t j = 0; j <= K; ++j) v(long(j)) = std::pow((ns[j] - a) / h, double(d));
      pw.push(fv(std::vector<double>(v.data(), v.data() + v.size()), 1e7));
      if (D.rows() == long(K + 1)) {
        const Eigen::RowVectorXd w = v * D * h;
        dm.push(fv(std::vector<double>(w.data(), w.data() + w.size()), 1e7));
      }
      if (d > 0 && I.rows() == long(K)) {
        for (std::size_t j = 0; j < K; ++j) g(long(j)) = double(d) * std::pow((ns[j] - a) / h, double(d - 1));
        const Eigen::RowVectorXd w = g * I / h;
        im.push(fv(std::vector<double>(w.data(), w.data() + w.size()), 1e7));
      }
    }
    const auto [al, Du] = m.interval_diffmat_unscaled(i);
    const bool same     = Du.rows() == D.rows() && Du.cols() == D.cols() && (al * Du - D).cwiseAbs().maxCoeff() <= 1e-9 * (1 + D.cwiseAbs().maxCoeff());
    for (int s = 1; s <= 3; ++s) {
      const Eigen::Vector2d e = eval(a + h * s / 4, p) * std::pow(h, double(p));
      J x = J::arr();
      x.push(fx(e(0), 1024000)).push(fx(e(1), 1024000));
      ev.push(x);
    }
    for (std::size_t j = 0; j <= K; ++j) {
      if (!ext && j == K) continue;
      // end points belong to two intervals with the same value
      J x = J::arr();
      x.push(fx(poly(i, (ns[j] - a) / h), 1024000)).push(fx(eval(ns[j], 0)(0), 1024000));
      nn.push(x);
    }
    r.set("i", i + 1).set("mom", mom).set("pw", pw).set("dm", dm).set("im", im).set("ev", ev).set("nv", nn);
    r.set("dr", D.rows()).set("dc", D.cols()).set("ir", I.rows()).set("ic", I.cols()).set("us", same ? 0 : 1).set("al", fx(al * h, 1e7));
    mat.push(r);
  }
  J find = J::arr(), fs = J::arr();
  for (auto & t : cs["ts"].a) find.push(m.interval_find(double(t[0].i) / double(t[1].i)));
  for (std::size_t i = 0; i < N; ++i) fs.push(m.interval_find(*m.interval_nodes(i).begin()));
  fin.set("mat", mat).set("find", find).set("fstart", fs).set("fone", m.interval_find(1.));
  out.set("fin", fin);
  return out;
}

static J run_case(const J & cs)
{
  const long a = cs["tpl"][0].i, b = cs["tpl"][1].i;
  if (a == 1 && b == 1) return go<1, 1>(cs);
  if (a == 1 && b == 2) return go<1, 2>(cs);
  if (a == 2 && b == 4) return go<2, 4>(cs);
  if (a == 3 && b == 3) return go<3, 3>(cs);
  if (a == 4 && b == 6) return go<4, 6>(cs);
  if (a == 5 && b == 10) return go<5, 10>(cs);
  if (a == 1 && b == 5) return go<1, 5>(cs);
  return go<2, 2>(cs);
}
int main(int c, char ** v) { return vh::run(c, v, run_case); }

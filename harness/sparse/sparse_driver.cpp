// Replays block operations on sparse matrices (spec/SparseMat.tla).
#include <smooth/feedback/utils/sparse.hpp>

#include "../vh.hpp"
using vh::J;
namespace sf = smooth::feedback;

static long long num(double v) { return std::isfinite(v) && std::fabs(v) < 1e9 ? llround(v * 1) : 1999999999LL; }
static long long exact(double v) { return v == std::floor(v) ? num(v) : 1888888888LL; }

template<typename Mat>
static J observe(const Mat & m, bool extra)
{
  J r = J::obj(), v = J::arr(), p = J::arr();
  Eigen::MatrixXi pat = Eigen::MatrixXi::Zero(m.rows(), m.cols());
  Eigen::MatrixXd val = Eigen::MatrixXd::Zero(m.rows(), m.cols());
  for (int k = 0; k < m.outerSize(); ++k)
    for (typename Mat::InnerIterator it(m, k); it; ++it) { pat(it.row(), it.col()) += 1; val(it.row(), it.col()) += it.value(); }
  for (int i = 0; i < m.rows(); ++i) {
    J a = J::arr(), b = J::arr();
    for (int j = 0; j < m.cols(); ++j) { a.push(exact(val(i, j))); b.push(pat(i, j)); }
    v.push(a); p.push(b);
  }
  r.set("v", v);
  if (!extra) return r;
  r.set("p", p).set("comp", m.isCompressed()).set("nnz", long(m.nonZeros()));
  r.set("zeros", long(sf::count_explicit_zeros(m)));
  const Mat copy = m;
  r.set("zerosT", long(sf::count_explicit_zeros(copy.transpose())));
  const auto mk = sf::mark_explicit_zeros(m);
  J mm = J::arr();
  for (int i = 0; i < m.rows(); ++i) { J a = J::arr(); for (int j = 0; j < m.cols(); ++j) a.push(exact(mk(i, j))); mm.push(a); }
  r.set("mark", mm);
  return r;
}

static Eigen::MatrixXd mat(const J & j, long r, long c)
{
  Eigen::MatrixXd m(r, c);
  for (int i = 0; i < r; ++i) for (int k = 0; k < c; ++k) m(i, k) = double(j[i][k].i);
  return m;
}

template<typename Sp>
static Sp masked(const Eigen::MatrixXd & m, const J & mask)
{
  Sp s(m.rows(), m.cols());
  for (int i = 0; i < m.rows(); ++i) for (int k = 0; k < m.cols(); ++k) if (mask[i][k].i) s.insert(i, k) = m(i, k);
  s.makeCompressed();
  return s;
}

template<typename Dest, typename Src>
static void apply(Dest & d, const J & o, const Src & src)
{
  const long r0 = o["r0"].i, c0 = o["c0"].i;
  const double scale = double(o["scale"].i);
  const bool up = o["up"].i;
  const bool add = o["a"].s == "add";
  if (!up && scale == 1) { add ? sf::block_add(d, r0, c0, src) : sf::block_write(d, r0, c0, src); }
  else if (!up) { add ? sf::block_add(d, r0, c0, src, scale) : sf::block_write(d, r0, c0, src, scale); }
  else { add ? sf::block_add(d, r0, c0, src, scale, up) : sf::block_write(d, r0, c0, src, scale, up); }
}

template<int Opt>
static J history(const J & cs)
{
  using Sp = Eigen::SparseMatrix<double, Opt>;
  Sp d(cs["rows"].i, cs["cols"].i);
  for (auto & e : cs["init"].a) d.insert(e[0].i, e[1].i) = double(e[2].i);
  if (cs["comp"].i) d.makeCompressed(); else if (d.isCompressed()) d.uncompress();
  J res = J::arr();
  for (auto & o : cs["ops"].a) {
    const std::string a = o["a"].s;
    const long r0 = o["r0"].i, c0 = o["c0"].i, h = o["h"].i, w = o["w"].i, n = o["n"].i;
    const double scale = double(o["scale"].i);
    if (a == "add" || a == "write") {
      const Eigen::MatrixXd m = mat(o["src"], h, w);
      switch (o["kind"].i) {
      case 0: apply(d, o, m); break;
      case 1: apply(d, o, masked<Eigen::SparseMatrix<double>>(m, o["mask"])); break;
      case 2: apply(d, o, masked<Eigen::SparseMatrix<double, Eigen::RowMajor>>(m, o["mask"])); break;
      case 3: { Eigen::MatrixXd big = Eigen::MatrixXd::Constant(h + 1, w + 2, 5); big.block(1, 1, h, w) = m; apply(d, o, big.block(1, 1, h, w)); break; }
      case 4: { Eigen::SparseMatrix<double> t = masked<Eigen::SparseMatrix<double>>(m, o["mask"]).transpose(); apply(d, o, t.transpose()); break; }
      default: {
        Eigen::SparseMatrix<double> big(h, w + 2);
        for (int i = 0; i < h; ++i) { big.insert(i, 0) = 7; for (int k = 0; k < w; ++k) if (o["mask"][i][k].i) big.insert(i, k + 1) = m(i, k); big.insert(i, w + 1) = 8; }
        big.makeCompressed();
        apply(d, o, big.middleCols(1, w));
      }
      }
    } else if (a == "addI") {
      if (scale == 1) sf::block_add_identity(d, r0, c0, n); else sf::block_add_identity(d, r0, c0, n, scale);
    } else if (a == "writeI") {
      if (scale == 1) sf::block_write_identity(d, r0, c0, n); else sf::block_write_identity(d, r0, c0, n, scale);
    } else if (a == "zero") {
      sf::set_zero(d);
    } else if (a == "zeroBlock") {
      if constexpr (Opt == Eigen::RowMajor) sf::set_zero(d.middleRows(r0, h)); else sf::set_zero(d.middleCols(c0, w));
    } else if (a == "compress") {
      d.makeCompressed();
    } else if (a == "uncompress") {
      if (d.isCompressed()) d.uncompress();
    }
    res.push(observe(d, true));
  }
  J out = J::obj();
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}

static J fog(const J & cs)
{
  const long No = cs["No"].i, Ny = cs["Ny"].i, Nx = cs["Nx"].i, r0 = cs["r0"].i, c0 = cs["c0"].i;
  const Eigen::MatrixXd Jf = mat(cs["Jf"], No, Ny), Hf = mat(cs["Hf"], Ny, No * Ny), Jg = mat(cs["Jg"], Ny, Nx), Hg = mat(cs["Hg"], Nx, Ny * Nx);
  Eigen::SparseMatrix<double> d = mat(cs["pre"], cs["rows"].i, cs["cols"].i).sparseView();
  if (cs["comp"].i) d.makeCompressed(); else if (d.isCompressed()) d.uncompress();
  const Eigen::SparseMatrix<double> sJf = Jf.sparseView(), sHf = Hf.sparseView(), sJg = Jg.sparseView(), sHg = Hg.sparseView();
  const Eigen::SparseMatrix<double, Eigen::RowMajor> rJf = sJf;
  switch (cs["kind"].i) {
  case 0: sf::d2r_fog(d, Jf, Hf, Jg, Hg, r0, c0); break;
  case 1: sf::d2r_fog(d, sJf, sHf, sJg, sHg, r0, c0); break;
  case 2: sf::d2r_fog(d, Jf, Hf, sJg, sHg, r0, c0); break;
  default: sf::d2r_fog(d, rJf, sHf, sJg, sHg, r0, c0); break;
  }
  J res = J::arr(); res.push(observe(d, false));
  J out = J::obj();
  out.set("id", cs["id"]).set("ev", "ok").set("res", res);
  return out;
}

static J run_case(const J & cs)
{
  if (cs.has("No")) return fog(cs);
  return cs["major"].i ? history<Eigen::RowMajor>(cs) : history<Eigen::ColMajor>(cs);
}

int main(int argc, char ** argv) { return vh::run(argc, argv, run_case); }

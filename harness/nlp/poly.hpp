// Polynomial test NLP; evaluation buffers are shared between calls like in OCPNLP.
#pragma once
#include <smooth/feedback/nlp.hpp>

#include "../vh.hpp"

struct PolyBase
{
  int n_ = 0, m_ = 0;
  Eigen::VectorXd c, t, l, u;         // l, u: variable bounds then constraint bounds
  Eigen::MatrixXd Q;                  // upper
  Eigen::MatrixXd a;                  // m x n
  std::vector<Eigen::MatrixXd> b;     // upper
  bool extra = false, unc = false;
  Eigen::SparseMatrix<double> J_, G_;
  Eigen::VectorXd gv_;

  std::size_t n() const { return std::size_t(n_); }
  std::size_t m() const { return std::size_t(m_); }
  Eigen::VectorXd xl() const { return l.head(n_); }
  Eigen::VectorXd xu() const { return u.head(n_); }
  Eigen::VectorXd gl() const { return l.tail(m_); }
  Eigen::VectorXd gu() const { return u.tail(m_); }

  static double quad(const Eigen::MatrixXd & Q, const Eigen::VectorXd & x) { return x.dot(Q * x); }
  double f(const Eigen::Ref<const Eigen::VectorXd> x) { return c.dot(x) + quad(Q, x) + t.dot(x.cwiseProduct(x).cwiseProduct(x)); }
  Eigen::SparseMatrix<double> pack(const Eigen::MatrixXd & v, const Eigen::MatrixXd & mask) const
  {
    Eigen::SparseMatrix<double> r(v.rows(), v.cols());
    if (unc && v.cols()) r.reserve(Eigen::VectorXi::Constant(v.cols(), int(v.rows()) + 2));
    for (int j = 0; j < v.cols(); ++j) for (int i = 0; i < v.rows(); ++i) if (extra || mask(i, j) != 0) r.insert(i, j) = v(i, j);
    if (!unc) r.makeCompressed();
    return r;
  }
  const Eigen::SparseMatrix<double> & df_dx(const Eigen::Ref<const Eigen::VectorXd> x)
  {
    const Eigen::VectorXd v = c + (Q + Q.transpose()) * x + 3 * t.cwiseProduct(x).cwiseProduct(x);
    const Eigen::VectorXd mk = c.cwiseAbs() + t.cwiseAbs() + (Q + Q.transpose()).cwiseAbs() * Eigen::VectorXd::Ones(n_);
    G_ = pack(v.transpose(), mk.transpose());
    return G_;
  }
  const Eigen::VectorXd & g(const Eigen::Ref<const Eigen::VectorXd> x)
  {
    gv_.resize(m_);
    for (int r = 0; r < m_; ++r) gv_(r) = a.row(r).dot(x) + quad(b[std::size_t(r)], x);
    return gv_;
  }
  const Eigen::SparseMatrix<double> & dg_dx(const Eigen::Ref<const Eigen::VectorXd> x)
  {
    Eigen::MatrixXd v(m_, n_), mk(m_, n_);
    for (int r = 0; r < m_; ++r) {
      const Eigen::MatrixXd S = b[std::size_t(r)] + b[std::size_t(r)].transpose();
      v.row(r)  = a.row(r) + (S * x).transpose();
      mk.row(r) = a.row(r).cwiseAbs() + (S.cwiseAbs() * Eigen::VectorXd::Ones(n_)).transpose();
    }
    J_ = pack(v, mk);
    return J_;
  }
};

struct PolyHess : PolyBase
{
  Eigen::SparseMatrix<double> Hf_, Hg_;
  Eigen::SparseMatrix<double> packu(const Eigen::MatrixXd & v, const Eigen::MatrixXd & mask) const
  {
    Eigen::SparseMatrix<double> r(n_, n_);
    if (unc) r.reserve(Eigen::VectorXi::Constant(n_, n_ + 2));
    for (int j = 0; j < n_; ++j) for (int i = 0; i <= j; ++i) if (extra || mask(i, j) != 0) r.insert(i, j) = v(i, j);
    if (!unc) r.makeCompressed();
    return r;
  }
  const Eigen::SparseMatrix<double> & d2f_dx2(const Eigen::Ref<const Eigen::VectorXd> x)
  {
    Eigen::MatrixXd v = Q + Q.transpose(), mk = v.cwiseAbs();
    for (int i = 0; i < n_; ++i) { v(i, i) += 6 * t(i) * x(i); mk(i, i) += std::fabs(t(i)); }
    Hf_ = packu(v, mk);
    return Hf_;
  }
  const Eigen::SparseMatrix<double> & d2g_dx2(const Eigen::Ref<const Eigen::VectorXd>, const Eigen::Ref<const Eigen::VectorXd> lambda)
  {
    Eigen::MatrixXd v = Eigen::MatrixXd::Zero(n_, n_), mk = v;
    for (int r = 0; r < m_; ++r) { const Eigen::MatrixXd S = b[std::size_t(r)] + b[std::size_t(r)].transpose(); v += lambda(r) * S; mk += S.cwiseAbs(); }
    Hg_ = packu(v, mk);
    return Hg_;
  }
};

static_assert(smooth::feedback::NLP<PolyBase> && !smooth::feedback::HessianNLP<PolyBase>);
static_assert(smooth::feedback::HessianNLP<PolyHess>);

inline Eigen::VectorXd ivec(const vh::J & j) { Eigen::VectorXd v(long(j.size())); for (std::size_t k = 0; k < j.size(); ++k) v(long(k)) = double(j[k].i); return v; }
inline Eigen::MatrixXd imat(const vh::J & j, int r, int c) { Eigen::MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int k = 0; k < c; ++k) m(i, k) = double(j[i][k].i); return m; }

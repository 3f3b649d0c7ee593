// conversions between integer vectors and the groups of the stand-in library (logarithmic coordinates)
#pragma once
#include <smooth/shim_core.hpp>

#include "../vh.hpp"
template<typename G>
G to_group(const vh::J & j)
{
  smooth::Tangent<G> v;
  for (long i = 0; i < v.size(); ++i) v(i) = double(j[int(i)].i);
  return smooth::exp<G>(v);
}
template<int N>
Eigen::Matrix<double, N, 1> to_vec(const vh::J & j)
{
  Eigen::Matrix<double, N, 1> v;
  for (long i = 0; i < v.size(); ++i) v(i) = double(j[int(i)].i);
  return v;
}
inline Eigen::MatrixXd to_mat(const vh::J & j)
{
  Eigen::MatrixXd m(long(j.size()), j.size() ? long(j[0].size()) : 0);
  for (long r = 0; r < m.rows(); ++r)
    for (long c = 0; c < m.cols(); ++c) m(r, c) = double(j[int(r)][int(c)].i);
  return m;
}
template<typename D>
vh::J fxv(const Eigen::MatrixBase<D> & v, double S)
{
  vh::J r = vh::J::arr();
  for (long i = 0; i < v.size(); ++i) r.push(vh::fx(v(i), S));
  return r;
}
template<typename D>
vh::J fxm(const Eigen::MatrixBase<D> & m, double S)
{
  vh::J r = vh::J::arr();
  for (long i = 0; i < m.rows(); ++i) {
    vh::J q = vh::J::arr();
    for (long k = 0; k < m.cols(); ++k) q.push(vh::fx(m(i, k), S));
    r.push(q);
  }
  return r;
}

// What is observed of a quadratic program handed to the scripted solver.
#pragma once
#include "scripted_solver.h"

namespace vp
{
  const long BIG = 2000000000;
  // the segment of t for which d0 + t d1 satisfies the rows and the bounds
  template <class S, class V> std::string segment(const MPCWalkgen::QPMatrices<S>& Q, const V& d0, const V& d1)
  {
    const double inf = 1e10, eps = sizeof(S) == 8 ? 1e-9 : 3e-6;
    double lo = -1e300, hi = 1e300; bool none = false;
    auto limit = [&](double a, double b, double l, double u, double sa, double sb)
    {
      for (int k = 0; k < 2; ++k)
      {
        double lim = k ? u : l;
        if (std::fabs(lim) >= inf && (k ? lim > 0 : lim < 0)) continue;
        double s = k ? -1 : 1;              // s (a + b t - lim) >= 0
        double x = s*(a - lim), y = s*b;
        if (std::fabs(y) <= eps*sb) { if (x < -eps*(sa + std::fabs(lim))) none = true; }
        else if (y > 0) lo = std::max(lo, -x/y);
        else hi = std::min(hi, x/-y);
      }
    };
    Eigen::VectorXd a = d0.template cast<double>(), b = d1.template cast<double>();
    for (int i = 0; i < Q.A.rows(); ++i)
    {
      Eigen::VectorXd row = Q.A.row(i).template cast<double>().transpose();
      limit(row.dot(a), row.dot(b), Q.bl(i), Q.bu(i), row.cwiseAbs().maxCoeff()*a.cwiseAbs().sum(), row.cwiseAbs().maxCoeff()*b.cwiseAbs().sum());
    }
    for (int i = 0; i < a.rows(); ++i) limit(a(i), b(i), Q.xl(i), Q.xu(i), std::fabs(a(i)), std::fabs(b(i)));
    Obj o;
    o.b("none", none).i("lo", rnd(lo, 1000, 100000000)).i("hi", rnd(hi, 1000, 100000000));
    return o.done();
  }

  // a program for n variables was submitted once, with matrices of one size that is the solver's
  template <class S> bool sized(const Scripted<S>& q, int n)
  {
    const MPCWalkgen::QPMatrices<S>& Q = q.program;
    const long dm[] = {q.nv, q.nc, (long)Q.Q.rows(), (long)Q.Q.cols(), (long)Q.p.rows(), (long)Q.A.rows(), (long)Q.A.cols(), (long)Q.bl.rows(),
      (long)Q.bu.rows(), (long)Q.xl.rows(), (long)Q.xu.rows()};
    return q.calls == 1 && dm[0] == n && dm[2] == n && dm[3] == n && dm[4] == n && (dm[6] == n || dm[5] == 0) && dm[9] == n && dm[10] == n &&
      dm[5] == dm[1] && dm[7] == dm[1] && dm[8] == dm[1];
  }

  // Hessian and gradient over the largest diagonal entry, for jerks in units of J, lengths in units of L
  template <class S> void costs(const MPCWalkgen::QPMatrices<S>& Q, double J, double L, Obj& o)
  {
    int n = Q.Q.rows();
    // derivatives for jerks counted in lengths per cubic tick and costs in squared lengths
    Eigen::MatrixXd H = Q.Q.template cast<double>()*(J/L)*(J/L);
    Eigen::VectorXd g = Q.p.template cast<double>()*(J/L)/L;
    int k = 0; for (int i = 1; i < n; ++i) if (H(i, i) > H(k, k)) k = i;
    double sc = H(k, k) > 0 ? 1e5/H(k, k) : 0;
    o.i("k", k + 1).b("pos", H(k, k) > 0).raw("H", mat(H, sc, BIG)).raw("g", vec(g, n, sc, BIG));
  }
}

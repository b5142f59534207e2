// A QP solver that records the program it is given and answers what the script says.  The
// controllers obtain it through makeQPSolver.
#pragma once
#include "common.h"
#include <mpc-walkgen/qpsolverfactory.h>
#include <mpc-walkgen/qpsolver.h>

namespace vp
{
  template <class S> struct Scripted
  {
    typedef typename MPCWalkgen::QPMatrices<S>::VectorX VectorX;
    int calls, code, warm, nv, nc; VectorX answer; double warmDiff;
    MPCWalkgen::QPMatrices<S> program;
    Scripted() : calls(0), code(1), warm(0), nv(0), nc(0), warmDiff(0) {}
    static long sgn(double v, double e) { return v > e ? 1 : v < -e ? -1 : 0; }
    // -1 when d is strictly feasible, 1 when it violates a row or a bound, 0 otherwise
    long side(const VectorX& d, double e) const
    {
      long s = -1;
      Eigen::VectorXd v = (program.A*d).template cast<double>();
      for (int i = 0; i < v.rows(); ++i)
      {
        double t = e*program.A.row(i).cwiseAbs().sum();
        s = std::max(s, std::max(sgn(v(i) - program.bu(i), t), sgn(program.bl(i) - v(i), t)));
      }
      for (int i = 0; i < d.rows(); ++i) s = std::max(s, std::max(sgn(double(d(i)) - program.xu(i), e), sgn(program.xl(i) - double(d(i)), e)));
      return s;
    }
  };
  template <class S> Scripted<S>& scripted() { static Scripted<S> s; return s; }

  template <class A, class B> double relDiff(const A& a, const B& b)
  {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return 10;
    if (a.size() == 0) return 0;
    double m = b.cwiseAbs().maxCoeff();
    return (a - b).cwiseAbs().maxCoeff()/(m > 0 ? m : 1e-30);
  }

  template <class S> struct Solver : MPCWalkgen::QPSolver<S>
  {
    typedef MPCWalkgen::QPMatrices<S> QP;
    int nv, nc; bool started; QP with;
    Solver(int v, int c) : nv(v), nc(c), started(false) {}
    int getNbVar() const { return nv; }
    int getNbCtr() const { return nc; }
    bool solve(const QP& m, int, typename QP::VectorX& sol, bool useWarmStart, std::ostream*)
    {
      Scripted<S>& s = scripted<S>();
      ++s.calls; s.nv = nv; s.nc = nc; s.program = m; s.warm = useWarmStart && started;
      // a hot start goes on with the matrices of the last cold start
      if (s.warm) s.warmDiff = std::max(s.warmDiff, std::max(relDiff(m.Q, with.Q), relDiff(m.A, with.A)));
      else if (s.code) { started = true; with = m; }
      sol = s.answer.rows() == m.p.rows() ? s.answer : typename QP::VectorX(QP::VectorX::Zero(m.p.rows()));
      return s.code != 0;
    }
  };
}
namespace MPCWalkgen
{
  template <> QPSolver<double>* makeQPSolver<double>(int nbVar, int nbCtr) { return new vp::Solver<double>(nbVar, nbCtr); }
  template <> QPSolver<float>* makeQPSolver<float>(int nbVar, int nbCtr) { return new vp::Solver<float>(nbVar, nbCtr); }
}

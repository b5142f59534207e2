// Executes histories of public calls on HumanoidFeetSupervisor and records, after every call,
// the projection of the observable state that FeetSupervisor.tla speaks about.
#pragma once
#include "common.h"
#include <memory>
#include <mpc-walkgen/humanoid_feet_supervisor.h>

using namespace MPCWalkgen;

namespace feet
{
  const double G = 1e4;      // lengths: 1e-4 m
  const double P = 1e5;      // foot positions: 1e-5 m

  template <class S> struct Runner
  {
    typedef typename Type<S>::VectorX VectorX;
    typedef typename Type<S>::Vector2 Vector2;
    typedef typename Type<S>::vectorOfVector2 Points;

    virtual ~Runner() {}
    // further calls of the drivers built on this one
    virtual bool extra(const std::string&, vp::Reader&, vp::Obj&) { return false; }
    virtual void started() {}
    virtual void preview(long) {}

    std::unique_ptr<HumanoidFeetSupervisor<S> > f;
    VectorX var;
    int N, K;
    double dt;
    double mark;

    ConvexPolygon<S> poly(vp::Reader& r)
    {
      long n = r.i();
      Points p;
      for (long i = 0; i < n; ++i) { double x = r.i()/G; double y = r.i()/G; p.push_back(Vector2(S(x), S(y))); }
      return ConvexPolygon<S>(p);
    }
    void polys(vp::Reader& r)
    {
      f->setLeftFootCopConvexPolygon(poly(r));
      f->setRightFootCopConvexPolygon(poly(r));
      f->setLeftFootKinematicConvexPolygon(poly(r));
      f->setRightFootKinematicConvexPolygon(poly(r));
    }
    VectorX at(double p) { VectorX v(3); v << S(p), S(0), S(0); return v; }
    void place(double lx, double ly, double rx, double ry)
    {
      f->setLeftFootStateX(at(lx)); f->setLeftFootStateY(at(ly)); f->setLeftFootStateZ(at(0));
      f->setRightFootStateX(at(rx)); f->setRightFootStateY(at(ry)); f->setRightFootStateZ(at(0));
    }
    void markCop() { for (int i = 0; i < 2*N; ++i) var(i) = S((i + 1)*mark); }

    std::string foot(const VectorX& x, const VectorX& y, const VectorX& z)
    {
      vp::Obj o; const VectorX* v[3] = {&x, &y, &z}; const char* k[3] = {"x", "y", "z"};
      for (int i = 0; i < 3; ++i)
      {
        std::vector<long> w;
        w.push_back(vp::rnd((*v[i])(0), P));
        w.push_back(vp::rnd((*v[i])(1)*dt, P*10, 10*vp::LIM));
        w.push_back(vp::rnd((*v[i])(2)*dt*dt, P*100, 10*vp::LIM));
        o.raw(k[i], vp::ints(w));
      }
      return o.done();
    }
    void feetObs(vp::Obj& o)
    {
      o.raw("L", foot(f->getLeftFootStateX(), f->getLeftFootStateY(), f->getLeftFootStateZ()));
      o.raw("R", foot(f->getRightFootStateX(), f->getRightFootStateY(), f->getRightFootStateZ()));
    }
    // everything a controller reads after updateTimeline
    void updObs(vp::Obj& o)
    {
      o.i("M", f->getNbPreviewedSteps()).b("ds", f->isInDS()).i("nbc", f->getNbOfCallsBeforeNextSample());
      o.i("rows", var.rows());
      int steps = (var.rows() - 2*N)/2;
      if (steps < 0) steps = 0;
      std::vector<long> c, sx, sy;
      for (int i = 0; i < 2*N && i < var.rows(); ++i) c.push_back(vp::rnd(var(i), 1.0/mark*100));
      for (int i = 0; i < steps; ++i) { sx.push_back(vp::rnd(var(2*N + i), G)); sy.push_back(vp::rnd(var(2*N + steps + i), G)); }
      o.raw("cop", vp::ints(c)).raw("sx", vp::ints(sx)).raw("sy", vp::ints(sy));
      const typename Type<S>::MatrixX& w = f->getSampleWeightMatrix();
      bool diag = w.rows() == N && w.cols() == N;
      for (int i = 0; i < w.rows(); ++i) for (int j = 0; j < w.cols(); ++j) if (i != j && w(i, j) != S(0)) diag = false;
      o.raw("w", vp::vec(w.diagonal(), w.rows(), 1e4)).b("wdiag", diag);
      const SelectionMatrices<S>& m = f->getSelectionMatrices();
      o.raw("V", vp::mat(m.V, 1)).raw("VT", vp::mat(m.VT, 1)).raw("V0", vp::mat(m.V0, 1));
      o.i("vc", m.V.cols()).i("vtr", m.VT.rows());
      const LinearDynamic<S>& d = f->getFeetPosLinearDynamic();
      o.raw("U", vp::mat(d.U, 1000)).raw("UT", vp::mat(d.UT, 1000)).raw("S", vp::mat(d.S, 1000));
      // rotation is the identity (feet yaw is not modelled)
      typename Type<S>::MatrixX I = Type<S>::MatrixX::Identity(2*N, 2*N);
      const typename Type<S>::MatrixX& r = f->getRotationMatrix(); const typename Type<S>::MatrixX& rt = f->getRotationMatrixT();
      o.b("rot", r.rows() == 2*N && r.cols() == 2*N && rt.rows() == 2*N && rt.cols() == 2*N && r == I && rt == I);
      o.raw("sup", "[" + std::to_string(vp::rnd(f->getSupportFootStateX()(0), G)) + "," + std::to_string(vp::rnd(f->getSupportFootStateY()(0), G)) + "]");
      std::string cp = "[", kp = "[";
      for (int i = 0; i < N; ++i)
      {
        const ConvexPolygon<S>& q = f->getCopConvexPolygon(i);
        cp += (i ? "," : "") + vp::points(q.getVertices(), G);
      }
      for (int i = 0; i < f->getNbPreviewedSteps(); ++i)
      {
        const ConvexPolygon<S>& q = f->getKinematicConvexPolygon(i);
        kp += (i ? "," : "") + vp::points(q.getVertices(), G);
      }
      o.raw("copP", cp + "]").raw("kinP", kp + "]");
      o.i("maxCop", f->getMaximumNbOfCopConstraints()).i("maxKin", f->getMaximumNbOfKinematicConstraints());
    }

    void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
    {
      for (size_t k = 0; k < lines.size(); ++k)
      {
        vp::Reader r(lines[k]);
        const std::string& op = lines[k][0];
        vp::Obj o; o.str("op", op);
        if (op == "reset")
        {
          r.s();                              // scalar type
          int how = r.i();
          dt = r.d(); N = r.i(); K = r.i(); mark = 0.01;
          if (how == 0) f.reset(new HumanoidFeetSupervisor<S>(N, S(K*dt)));
          else
          {
            f.reset(new HumanoidFeetSupervisor<S>());
            f->setNbSamples(N); f->setSamplingPeriod(S(K*dt));
            f->setStepPeriod(S(2*K*dt)); f->setInitialDoubleSupportLength(S(2*K*dt));
          }
          f->setLeftFootMaxHeight(S(0.05)); f->setRightFootMaxHeight(S(0.04));
          place(0, 0.1, 0, -0.1);
          polys(r);
          var.setZero(2*N);
          started();
        }
        else if (op == "move") { f->setMove(r.i() != 0); }
        else if (op == "step") { f->setStepPeriod(S(r.i()*dt)); }
        else if (op == "ds") { f->setInitialDoubleSupportLength(S(r.i()*dt)); }
        else if (op == "N")
        {
          int n = r.i();
          f->setNbSamples(n);
          VectorX v = VectorX::Zero(2*n + var.rows() - 2*N);
          v.tail(var.rows() - 2*N) = var.tail(var.rows() - 2*N);
          var = v; N = n;
          started();
        }
        else if (op == "poly") { polys(r); }
        else if (op == "height") { double a = r.i()/P, b = r.i()/P; f->setLeftFootMaxHeight(S(a)); f->setRightFootMaxHeight(S(b)); }
        else if (op == "place") { double a = r.i()/P, b = r.i()/P, c = r.i()/P, d = r.i()/P; place(a, b, c, d); }
        else if (op == "update")
        {
          long fb = r.i();
          mark = 0.01*(1 + k%7);
          markCop();
          f->updateTimeline(var, S(fb*dt));
          preview(fb);
          updObs(o);
          feetObs(o);
        }
        else if (op == "feet")
        {
          long fb = r.i(); long m = r.i();
          // the chosen steps; when the implementation disagrees about their number (reported by
          // the preceding update) the specification's choice is forced into the variable
          if (var.rows() != 2*N + 2*m)
          {
            VectorX v = VectorX::Zero(2*N + 2*m);
            for (int i = 0; i < 2*N && i < var.rows(); ++i) v(i) = var(i);
            var = v;
          }
          for (long i = 0; i < m; ++i) var(2*N + i) = S(r.i()/G);
          for (long i = 0; i < m; ++i) var(2*N + m + i) = S(r.i()/G);
          VectorX steps = var.segment(2*N, 2*m);
          f->updateFeetStates(steps, S(fb*dt));
          feetObs(o);
        }
        else if (op == "keep")
        {
          long fb = r.i();
          VectorX steps = var.segment(2*N, var.rows() - 2*N);
          f->updateFeetStates(steps, S(fb*dt));
          feetObs(o);
        }
        else if (extra(op, r, o)) {}
        else { std::fprintf(stderr, "unknown op\n"); _exit(97); }
        out << o.done() << "\n"; out.flush();
      }
    }
  };

}

// Prediction models (C21): LIPModel, BaseModel, NoDynamicModel.
#include "common.h"
#include <memory>
#include <Eigen/SVD>
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/tools.h>

using namespace MPCWalkgen;

namespace
{
  const double TICK = 1./32;

  template <class S> struct Runner
  {
    typedef typename Type<S>::VectorX VectorX;
    typedef typename Type<S>::MatrixX MatrixX;
    typedef typename Type<S>::Vector3 Vector3;
    std::unique_ptr<LIPModel<S> > lip;
    std::unique_ptr<BaseModel<S> > base;
    std::unique_ptr<NoDynamicModel<S> > nod;
    bool tools; int tN; double th, tg[3], tm;       // the parameters of the library's functions
    int T, fb; double M;
    bool ready, autoc;

    // order: the derivative order of the predicted quantity (0 position ... 3 jerk); states of
    // `ns` components driven by the derivative of order `drive`
    std::string dyn(const LinearDynamic<S>& d, int order, int ns, int drive, double scale, double kscale)
    {
      vp::Obj o;
      const long lim = 1000000000;
      MatrixX s = d.S, u = d.U;
      std::string t = "[";
      for (int i = 0; i < s.rows(); ++i)
      {
        t += i ? ",[" : "[";
        for (int k = 0; k < s.cols(); ++k)
          t += (k ? "," : "") + std::to_string(vp::rnd(double(s(i, k))*std::pow(TICK, order - k), scale, lim));
        t += "]";
      }
      o.raw("S", t + "]");
      t = "[";
      for (int i = 0; i < u.rows(); ++i)
      {
        t += i ? ",[" : "[";
        for (int k = 0; k < u.cols(); ++k)
          t += (k ? "," : "") + std::to_string(vp::rnd(double(u(i, k))*std::pow(TICK, order - drive), scale, lim));
        t += "]";
      }
      o.raw("U", t + "]");
      o.raw("K", vp::vec(d.K, d.K.rows(), kscale, lim));
      bool tr = d.UT.rows() == d.U.cols() && d.UT.cols() == d.U.rows() && d.UT == d.U.transpose()
             && d.Uinv.rows() == d.U.cols() && d.UTinv.rows() == d.U.rows()
             && s.cols() == ns && s.rows() == u.rows();
      // residual of the inverse in units of its rounding bound
      double worst = 0;
      if (tr && d.Uinv.rows() == d.U.rows())
      {
        Eigen::MatrixXd U = d.U.template cast<double>(), I = d.Uinv.template cast<double>();
        Eigen::MatrixXd R = U*I - Eigen::MatrixXd::Identity(U.rows(), U.rows());
        Eigen::MatrixXd Bd = U.cwiseAbs()*I.cwiseAbs();
        double eps = sizeof(S) == 8 ? 1e-11 : 5e-4;
        for (int i = 0; i < R.rows(); ++i)
          for (int j = 0; j < R.cols(); ++j)
          {
            double b = eps*Bd(i, j) + 1.01e-4*U.row(i).cwiseAbs().sum() + eps;
            double q = std::fabs(R(i, j))/b;
            if (!(q <= worst)) worst = q;
          }
        // the inverse is only asked for where U is invertible at the working precision
        Eigen::VectorXd sv = U.jacobiSvd().singularValues();
        double cond = sv(0)/sv(sv.size() - 1);
        if (!(cond < (sizeof(S) == 8 ? 1e12 : 5e4))) worst = 0;
        if (!(d.UTinv == d.Uinv.transpose())) { bool nan = false; for (int i = 0; i < I.size(); ++i) nan = nan || I.data()[i] != I.data()[i]; if (!nan) tr = false; }
      }
      else worst = 1e6;
      o.b("tr", tr);
      o.i("inv", vp::rnd(worst, 1000));
      return o.done();
    }
    std::string one(const LinearDynamic<S>& pos, const LinearDynamic<S>& vel, const LinearDynamic<S>& acc,
                    const LinearDynamic<S>& jerk, const LinearDynamic<S>* cx, const LinearDynamic<S>* cy,
                    const LinearDynamic<S>* ta, const LinearDynamic<S>* tv)
    {
      vp::Obj o;
      o.raw("pos", dyn(pos, 0, 3, 3, 60, 60)).raw("vel", dyn(vel, 1, 3, 3, 60, 60));
      o.raw("acc", dyn(acc, 2, 3, 3, 60, 60)).raw("jerk", dyn(jerk, 3, 3, 3, 60, 60));
      double ks = 60*M*4/(TICK*TICK);
      if (cx) o.raw("copX", dyn(*cx, 0, 3, 3, 60*M, ks)).raw("copY", dyn(*cy, 0, 3, 3, 60*M, ks));
      if (ta) o.raw("tilt", dyn(*ta, 0, 2, 2, 60, 60)).raw("tiltVel", dyn(*tv, 1, 2, 2, 60, 60));
      return o.done();
    }
    void observe(vp::Obj& o)
    {
      if (!ready) { o.raw("d", "[]"); return; }
      std::string s = "[";
      if (lip)
      {
        // the number of feedback indices: the index that equals the default one
        int n = done_T/done_fb;
        for (int i = 0; i < n; ++i)
          s += (i ? "," : "") + one(lip->getComPosLinearDynamic(i), lip->getComVelLinearDynamic(i), lip->getComAccLinearDynamic(i),
                                    lip->getComJerkLinearDynamic(i), &lip->getCopXLinearDynamic(i), &lip->getCopYLinearDynamic(i), 0, 0);
        o.b("last", &lip->getComPosLinearDynamic() == &lip->getComPosLinearDynamic(n - 1)
                 && &lip->getComVelLinearDynamic() == &lip->getComVelLinearDynamic(n - 1)
                 && &lip->getComAccLinearDynamic() == &lip->getComAccLinearDynamic(n - 1)
                 && &lip->getCopXLinearDynamic() == &lip->getCopXLinearDynamic(n - 1)
                 && &lip->getCopYLinearDynamic() == &lip->getCopYLinearDynamic(n - 1)
                 && lip->getComJerkLinearDynamic().U == lip->getComJerkLinearDynamic(n - 1).U);
      }
      else if (base)
        s += one(base->getBasePosLinearDynamic(), base->getBaseVelLinearDynamic(), base->getBaseAccLinearDynamic(),
                 base->getBaseJerkLinearDynamic(), &base->getCopXLinearDynamic(), &base->getCopYLinearDynamic(),
                 &base->getBaseTiltAngleLinearDynamic(), &base->getBaseTiltAngularVelLinearDynamic());
      else if (tools)
      {
        typedef Tools::ConstantJerkDynamic<S> D;
        LinearDynamic<S> pos, vel, acc, jerk, cx, cy, ta, tv;
        S f = S(fb*TICK), t = S(T*TICK), z = S(tg[2]/4);
        D::computePosDynamic(f, t, tN, pos); D::computeVelDynamic(f, t, tN, vel); D::computeAccDynamic(f, t, tN, acc); D::computeJerkDynamic(tN, jerk);
        D::computeCopDynamic(f, t, tN, cx, S(th/16), S(tg[0]/4), z, S(tm), S(M)); D::computeCopDynamic(f, t, tN, cy, S(th/16), S(tg[1]/4), z, S(tm), S(M));
        D::computeOrder2PosDynamic(f, t, tN, ta); D::computeOrder2VelDynamic(f, t, tN, tv);
        s += one(pos, vel, acc, jerk, &cx, &cy, &ta, &tv);
      }
      else
        s += one(nod->getPosLinearDynamic(), nod->getVelLinearDynamic(), nod->getAccLinearDynamic(), nod->getJerkLinearDynamic(),
                 0, 0, 0, 0);
      o.raw("d", s + "]");
    }
    int done_T, done_fb;

    std::string st(const VectorX& v)
    {
      std::string s = "[";
      for (int k = 0; k < 3; ++k) s += (k ? "," : "") + std::to_string(vp::rnd(double(v(k))*std::pow(TICK, k), 60, 1000000000));
      return s + "]";
    }
    void up(vp::Reader& r, vp::Obj& o)
    {
      VectorX x(3); double j, d;
      for (int k = 0; k < 3; ++k) x(k) = S(r.i()/std::pow(TICK, k));
      j = r.i()/std::pow(TICK, 3); d = r.i()*TICK;
      std::string s = "[";
      if (lip)
      {
        lip->setStateX(x); lip->setStateY(x); lip->setStateYaw(x);
        lip->updateStateX(S(j), S(d)); lip->updateStateY(S(j), S(d)); lip->updateStateYaw(S(j), S(d));
        s += st(lip->getStateX()) + "," + st(lip->getStateY()) + "," + st(lip->getStateYaw());
      }
      else if (base)
      {
        base->setStateX(x); base->setStateY(x);
        base->updateStateX(S(j), S(d)); base->updateStateY(S(j), S(d));
        s += st(base->getStateX()) + "," + st(base->getStateY());
      }
      else if (nod) { nod->setState(x); nod->updateState(S(j), S(d)); s += st(nod->getState()); }
      else { Tools::ConstantJerkDynamic<S>::updateState(S(j), S(d), x); s += st(x); }
      o.raw("up", s + "]");
    }

    void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
    {
      for (size_t i = 0; i < lines.size(); ++i)
      {
        vp::Reader r(lines[i]);
        std::string op = lines[i][0];
        vp::Obj o; o.str("op", op);
        if (op == "reset")
        {
          r.s();
          std::string kind = r.s(); int n = r.i(); T = fb = r.i(); autoc = r.i() == 1; M = 1; ready = autoc;
          lip.reset(); base.reset(); nod.reset();
          tools = kind == "tools"; tN = n; th = 16; tg[0] = tg[1] = 0; tg[2] = 32; tm = 1;
          S t = S(T*TICK);
          if (kind == "lip") { lip.reset(new LIPModel<S>(n, t, autoc)); g(0, 0, 32); }
          else if (kind == "base") { base.reset(new BaseModel<S>(n, t, autoc)); g(0, 0, 32); }
          else if (!tools) nod.reset(new NoDynamicModel<S>(n, t, autoc));
        }
        else if (op == "N") { int n = r.i(); tN = n; if (lip) lip->setNbSamples(n); else if (base) base->setNbSamples(n); else if (nod) nod->setNbSamples(n); }
        else if (op == "T") { T = fb = r.i(); S t = S(T*TICK); if (lip) lip->setSamplingPeriod(t); else if (base) base->setSamplingPeriod(t); else if (nod) nod->setSamplingPeriod(t); }
        else if (op == "fb") { fb = r.i(); if (lip) lip->setFeedbackPeriod(S(fb*TICK)); }
        else if (op == "h") { th = r.i(); S h = S(th/16.); if (lip) lip->setComHeight(h); else if (base) base->setComHeight(h); }
        else if (op == "g") { double a = r.i(), b = r.i(), c = r.i(); g(a, b, c); }
        else if (op == "m") { tm = r.i(); S m = S(tm); if (lip) lip->setMass(m); else if (base) base->setMass(m); }
        else if (op == "M") { double m = r.i(); if (autoc) M = m; pendM = m; if (lip) lip->setTotalMass(S(m)); else if (base) base->setTotalMass(S(m)); }
        else if (op == "compute") { if (lip) lip->computeDynamics(); else if (base) base->computeDynamics(); else nod->computeDynamics(); ready = true; if (!autoc && pendM > 0) M = pendM; }
        else if (op == "up") up(r, o);
        else { std::fprintf(stderr, "unknown op\n"); _exit(97); }
        if (autoc || op == "compute") { done_T = T; done_fb = fb; }
        // for a model without automatic computation the vectors are those of the last computation
        if (op != "up") observe(o);
        out << o.done() << "\n"; out.flush();
      }
    }
    double pendM = 0;
    void g(double x, double y, double z)
    {
      Vector3 v(S(x/4), S(y/4), S(z/4));
      tg[0] = x; tg[1] = y; tg[2] = z;
      if (lip) lip->setGravity(v); else if (base) base->setGravity(v);
    }
  };

  void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
  {
    if (lines[0][1] == "double") { Runner<double> r; r.history(lines, out); }
    else { Runner<float> r; r.history(lines, out); }
  }
}

int main(int argc, char** argv) { return vp::run(argc, argv, history); }

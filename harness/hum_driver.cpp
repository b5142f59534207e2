// C08, C09, C10: the constraints and objectives of the humanoid controller, evaluated along
// histories of the feet supervisor.
#include "feet_runner.h"
#include "roll.h"
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/function/humanoid_cop_constraint.h>
#include <mpc-walkgen/function/humanoid_foot_constraint.h>
#include <mpc-walkgen/function/humanoid_cop_centering_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_velocity_tracking_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_jerk_minimization_objective.h>

namespace
{
  const double L = 1/64.;          // length unit of the objective tests (m)
  const double tick = 1/32.;

  template <class S> struct Hum : feet::Runner<S>
  {
    typedef feet::Runner<S> B;
    typedef typename Type<S>::VectorX VectorX;
    typedef typename Type<S>::MatrixX MatrixX;
    using B::f; using B::N; using B::K; using B::var;

    std::unique_ptr<LIPModel<S> > lip;
    std::unique_ptr<HumanoidCopConstraint<S> > cop;
    std::unique_ptr<HumanoidFootConstraint<S> > foot;
    std::unique_ptr<HumanoidCopCenteringObjective<S> > centering;
    std::unique_ptr<HumanoidLipComVelocityTrackingObjective<S> > vel;
    std::unique_ptr<HumanoidLipComJerkMinimizationObjective<S> > jerk;
    HumanoidFeetSupervisor<S>* owner;
    double h, g[3];
    long fb;
    Hum() : owner(0), h(1), fb(1) { g[0] = g[1] = 0; g[2] = 9.81; }

    void started()
    {
      if (owner != f.get())
      {
        owner = f.get();
        lip.reset(new LIPModel<S>(N, S(K*tick), true));
        cop.reset(new HumanoidCopConstraint<S>(*lip, *f)); foot.reset(new HumanoidFootConstraint<S>(*lip, *f));
        centering.reset(new HumanoidCopCenteringObjective<S>(*lip, *f));
        vel.reset(new HumanoidLipComVelocityTrackingObjective<S>(*lip, *f));
        jerk.reset(new HumanoidLipComJerkMinimizationObjective<S>(*lip, *f));
        fb = K; h = 1; g[0] = g[1] = 0; g[2] = 9.81;
      }
      else { lip->setNbSamples(N); cop->computeConstantPart(); }
    }
    void preview(long p) { if (p != fb) lip->setFeedbackPeriod(S(p*tick)); fb = p; }

    static long sgn(double v, double e) { return v > e ? 1 : v < -e ? -1 : 0; }
    // largest sign over the rows (value / size of the row) and the bounds at 0
    static long side(const VectorX& fun, const MatrixX& A, const VectorX& lo, const VectorX& hi, double e)
    {
      long s = -1;
      for (int i = 0; i < fun.rows(); ++i) s = std::max(s, sgn(fun(i), e*A.row(i).cwiseAbs().sum()));
      for (int i = 0; i < lo.rows(); ++i) { s = std::max(s, sgn(lo(i), e)); s = std::max(s, sgn(-hi(i), e)); }
      return s;
    }
    // residual of f(x) - f(y) = A (x - y), relative; in 1e-6
    static long affine(const VectorX& fx, const VectorX& fy, const MatrixX& A, const VectorX& d)
    {
      if (fx.rows() != fy.rows() || fx.rows() != A.rows() || A.cols() != d.rows()) return vp::LIM;
      if (fx.rows() == 0) return 0;
      VectorX r = fx - fy - A*d;
      return vp::rnd(r.cwiseAbs().maxCoeff()/(1e-9 + (A.cwiseAbs()*d.cwiseAbs()).maxCoeff() + fx.cwiseAbs().maxCoeff()), 1e6);
    }
    // ctr n, each: N CoP points and 8 step displacements (half units of 1e-4 m)
    void ctr(vp::Reader& r, vp::Obj& o)
    {
      int M = f->getNbPreviewedSteps(), n = (int)r.i();
      const double u = 0.5e-4, e = 2e-6;
      std::vector<long> cs, fs, res; std::string sup = "[", inf = "[";
      VectorX old; VectorX oldc, oldf, olds, oldi, oldsf, oldif;
      for (int k = 0; k < n; ++k)
      {
        VectorX x = VectorX::Zero(2*N + 2*M);
        for (int i = 0; i < N; ++i) { x(i) = S(r.i()*u); x(N + i) = S(r.i()*u); }
        double px = f->getSupportFootStateX()(0), py = f->getSupportFootStateY()(0);
        for (int i = 0; i < 8; ++i)
        {
          px += r.i()*u; py += r.i()*u;
          if (i < M) { x(2*N + i) = S(px); x(2*N + M + i) = S(py); }
        }
        int sz = 2*N + 2*M;
        VectorX fc = cop->getFunction(x); MatrixX Ac = cop->getGradient(sz);
        VectorX sc = cop->getSupBounds(x), ic = cop->getInfBounds(x);
        VectorX ff = foot->getFunction(x); MatrixX Af = foot->getGradient(sz);
        VectorX sf = foot->getSupBounds(x), jf = foot->getInfBounds(x);
        cs.push_back(side(fc, Ac, ic, sc, e)); fs.push_back(side(ff, Af, jf, sf, e));
        if (k == 0)
        {
          o.i("nc", cop->getNbConstraints()).i("nf", foot->getNbConstraints());
          std::vector<long> dm; const long d[] = {(long)fc.rows(), (long)Ac.rows(), (long)Ac.cols(), (long)sc.rows(), (long)ic.rows(),
            (long)ff.rows(), (long)Af.rows(), (long)Af.cols(), (long)sf.rows(), (long)jf.rows()};
          dm.assign(d, d + 10); o.raw("dim", vp::ints(dm));
          // the CoP rows do not involve the steps, nor the step rows the CoP
          o.b("sepC", Ac.rows() == 0 || M == 0 || Ac.rightCols(2*M).cwiseAbs().maxCoeff() == 0);
          o.b("sepF", Af.rows() == 0 || Af.leftCols(2*N).cwiseAbs().maxCoeff() == 0);
          old = x; oldc = fc; oldf = ff; olds = sc; oldi = ic; oldsf = sf; oldif = jf;
        }
        else
        {
          VectorX d = x - old;
          res.push_back(affine(fc, oldc, Ac, d)); res.push_back(affine(ff, oldf, Af, d));
          // CoP bounds move with the iterate (infinite ones stay infinite)
          VectorX dc = d.head(2*N); double w = 0;
          for (int i = 0; i < 2*N; ++i)
          {
            if (std::fabs(sc(i)) < 1e9) w = std::max(w, std::fabs(double(sc(i) + dc(i) - olds(i)))); else if (olds(i) < 1e9) w = 1;
            if (std::fabs(ic(i)) < 1e9) w = std::max(w, std::fabs(double(ic(i) + dc(i) - oldi(i)))); else if (oldi(i) > -1e9) w = 1;
          }
          res.push_back(vp::rnd(w, 1e6));
        }
        sup += (k ? "," : "") + vp::vec(sf, sf.rows(), 2e4); inf += (k ? "," : "") + vp::vec(jf, jf.rows(), 2e4);
      }
      o.raw("c", vp::ints(cs)).raw("f", vp::ints(fs)).raw("res", vp::ints(res)).raw("sup", sup + "]").raw("inf", inf + "]");
    }

    // model h gx gy gz (1/16 m, 1/4 m/s^2)
    void model(vp::Reader& r)
    {
      h = r.i()/16.; for (int i = 0; i < 3; ++i) g[i] = r.i()/4.;
      typename Type<S>::Vector3 v; v << S(g[0]), S(g[1]), S(g[2]);
      lip->setComHeight(S(h)); lip->setGravity(v);
    }
    double cop6(const vp::State& x, double gk) const { return 6*(x.p - h/(g[2]*tick*tick)*x.a - gk); }

    // obj x y (3 each), ref (2N), jerks of the point (2N), steps of the point (8 x 2, absolute)
    void obj(vp::Reader& r, vp::Obj& o)
    {
      int M = f->getNbPreviewedSteps(), n = 2*N + 2*M;
      vp::State x[2];
      for (int k = 0; k < 2; ++k) { x[k].p = r.i(); x[k].v = r.i(); x[k].a = r.i(); }
      VectorX ref(2*N); for (int i = 0; i < 2*N; ++i) ref(i) = S(r.i()/2.*L/tick);
      std::vector<double> u[2];
      for (int k = 0; k < 2; ++k) for (int i = 0; i < N; ++i) u[k].push_back(r.i());
      std::vector<double> q[2];
      for (int i = 0; i < 8; ++i) { double a = r.i(), b = r.i(); if (i < M) { q[0].push_back(a); q[1].push_back(b); } }

      for (int k = 0; k < 2; ++k)
      {
        VectorX s(3); s << S(x[k].p*L), S(x[k].v*L/tick), S(x[k].a*L/(tick*tick));
        if (k == 0) lip->setStateX(s); else lip->setStateY(s);
      }
      vel->setVelRefInWorldFrame(ref);
      double first = f->getNbOfCallsBeforeNextSample()*double(fb);
      const SelectionMatrices<S>& m = f->getSelectionMatrices();
      double sup[2] = {double(f->getSupportFootStateX()(0))/L, double(f->getSupportFootStateY()(0))/L};
      // the point, and the directions: unit jerks with fixed steps, unit steps with fixed jerks
      Eigen::VectorXd z(n); Eigen::MatrixXd D = Eigen::MatrixXd::Zero(n, n);
      for (int k = 0; k < 2; ++k)
      {
        std::vector<vp::State> t = vp::roll(x[k], u[k], first, K);
        for (int i = 0; i < N; ++i)
        {
          double c = cop6(t[i], h*g[k]/g[2]/L)/6 - double(m.V0(i, 0))*sup[k];
          for (int j = 0; j < M; ++j) c -= double(m.V(i, j))*q[k][j];
          z(k*N + i) = c;
        }
        for (int j = 0; j < M; ++j) z(2*N + k*M + j) = q[k][j];
        for (int j = 0; j < N; ++j)
        {
          std::vector<double> e(N, 0.); e[j] = 1;
          std::vector<vp::State> w = vp::roll(vp::State(), e, first, K);
          for (int i = 0; i < N; ++i) D(k*N + i, k*N + j) = cop6(w[i], 0)/6;
        }
        for (int j = 0; j < M; ++j)
        {
          D(2*N + k*M + j, 2*N + k*M + j) = 1;
          for (int i = 0; i < N; ++i) D(k*N + i, 2*N + k*M + j) = -double(m.V(i, j));
        }
      }
      o.raw("z", vp::vec(z, n, 6)).raw("D", vp::mat(D, 6));
      VectorX p = (z*L).template cast<S>();
      long lim = 2000000000;
      double sv = 80.*K*tick*tick, sj = 20.*K*std::pow(tick, 6.);    // to (20 K w)(2 v)(2 v') and (20 K w) u u'
      Eigen::MatrixXd Hv = vel->getHessian().template cast<double>(), Hj = jerk->getHessian().template cast<double>();
      Eigen::VectorXd gv = vel->getGradient(p).template cast<double>(), gj = jerk->getGradient(p).template cast<double>();
      MatrixX Hc = centering->getHessian(); VectorX gc = centering->getGradient(p);
      std::vector<long> dm; const long d[] = {(long)Hv.rows(), (long)Hv.cols(), (long)gv.rows(), (long)Hj.rows(), (long)Hj.cols(), (long)gj.rows(),
        (long)Hc.rows(), (long)Hc.cols(), (long)gc.rows()};
      dm.assign(d, d + 9); o.raw("dim", vp::ints(dm));
      bool ok = true; for (int i = 0; i < 9; ++i) ok = ok && d[i] == n;
      if (!ok) return;
      Eigen::MatrixXd Ev = D.transpose()*Hv*D, Ej = D.transpose()*Hj*D;
      Eigen::VectorXd ev = D.transpose()*gv/L, ej = D.transpose()*gj/L;
      o.raw("Hv", vp::mat(Ev, sv, lim)).raw("gv", vp::vec(ev, n, sv, lim)).raw("Hj", vp::mat(Ej, sj, lim)).raw("gj", vp::vec(ej, n, sj, lim));
      o.raw("Hc", vp::mat(Hc, 1000)).raw("gc", vp::vec(gc, n, 6/L));
    }
    bool extra(const std::string& op, vp::Reader& r, vp::Obj& o)
    {
      if (op == "ctr") ctr(r, o);
      else if (op == "model") model(r);
      else if (op == "obj") obj(r, o);
      else return false;
      return true;
    }
  };
  void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
  {
    if (lines[0][1] == "double") { Hum<double> r; r.history(lines, out); }
    else { Hum<float> r; r.history(lines, out); }
  }
}
int main(int argc, char** argv) { return vp::run(argc, argv, history); }

// C11, C12, C18: the whole humanoid controller over a scripted QP solver.  A second feet
// supervisor, fed with the plans the harness hands out, tells the reference points of the plan.
#include "feet_runner.h"
#include "roll.h"
#include "scripted_solver.h"
#include <mpc-walkgen/humanoid_walkgen.h>

namespace
{
  const double L = 1/64.;
  const double tick = 1/32.;

  template <class S> struct Walk : feet::Runner<S>
  {
    typedef feet::Runner<S> B;
    typedef typename Type<S>::VectorX VectorX;
    typedef typename Type<S>::MatrixX MatrixX;
    using B::f; using B::N; using B::K; using B::var; using B::at;

    std::unique_ptr<HumanoidWalkgen<S> > w;
    HumanoidWalkgenWeighting<S> wt;
    HumanoidWalkgenConfig<S> cf;
    double rho;
    bool first;
    Walk() : rho(80), first(true) {}

    VectorX v3(double p, double v, double a) { VectorX x(3); x << S(p), S(v), S(a); return x; }
    double height() const { return rho*9.81*tick*tick; }
    static std::string com(const VectorX& x)
    {
      std::vector<long> c; const long lim = 2000000000;
      c.push_back(vp::rnd(x(0), 1e6, lim)); c.push_back(vp::rnd(x(1)*tick, 1e7, lim)); c.push_back(vp::rnd(x(2)*tick*tick, 1e8, lim));
      return vp::ints(c);
    }
    void feetObsW(vp::Obj& o)
    {
      o.raw("L", this->foot(w->getLeftFootStateX(), w->getLeftFootStateY(), w->getLeftFootStateZ()));
      o.raw("R", this->foot(w->getRightFootStateX(), w->getRightFootStateY(), w->getRightFootStateZ()));
    }
    // one polygon: which 0..3 (CoP left, right, reach left, right)
    void poly1(int which, const ConvexPolygon<S>& c)
    {
      switch (which)
      {
      case 0: w->setLeftFootCopConvexPolygon(c); f->setLeftFootCopConvexPolygon(c); break;
      case 1: w->setRightFootCopConvexPolygon(c); f->setRightFootCopConvexPolygon(c); break;
      case 2: w->setLeftFootKinematicConvexPolygon(c); f->setLeftFootKinematicConvexPolygon(c); break;
      default: w->setRightFootKinematicConvexPolygon(c); f->setRightFootKinematicConvexPolygon(c);
      }
    }
    void placeBoth(double lx, double ly, double rx, double ry)
    {
      w->setLeftFootStateX(at(lx)); w->setLeftFootStateY(at(ly)); w->setLeftFootStateZ(at(0));
      w->setRightFootStateX(at(rx)); w->setRightFootStateY(at(ry)); w->setRightFootStateZ(at(0));
      this->place(lx, ly, rx, ry);
    }
    void heights(double a, double b)
    {
      w->setLeftFootMaxHeight(S(a)); w->setRightFootMaxHeight(S(b));
      f->setLeftFootMaxHeight(S(a)); f->setRightFootMaxHeight(S(b));
    }
    void setRho(long r) { rho = r; w->setComStateZ(v3(height(), 0, 0)); }
    void freshPlan() { var.setZero(2*N + 2*f->getNbPreviewedSteps()); }

    // reset type order K-periods...: N K, then the setters in a given order (digits), polygons
    void reset(vp::Reader& r)
    {
      r.s(); std::string order = r.s();
      N = r.i(); K = r.i(); this->dt = tick;
      w.reset(new HumanoidWalkgen<S>()); f.reset(new HumanoidFeetSupervisor<S>());
      wt = HumanoidWalkgenWeighting<S>(); cf = HumanoidWalkgenConfig<S>();
      std::vector<ConvexPolygon<S> > p; for (int i = 0; i < 4; ++i) p.push_back(this->poly(r));
      first = true; rho = 80;
      for (char c : order)
      {
        if (c >= '0' && c <= '3') poly1(c - '0', p[c - '0']);
        else if (c == 'N') { w->setNbSamples(N); f->setNbSamples(N); }
        else if (c == 'T')
        {
          w->setSamplingPeriod(S(K*tick)); f->setSamplingPeriod(S(K*tick));
          w->setStepPeriod(S(2*K*tick)); f->setStepPeriod(S(2*K*tick));
        }
        else if (c == 'D') { w->setInitialDoubleSupportLength(S(2*K*tick)); f->setInitialDoubleSupportLength(S(2*K*tick)); }
        else if (c == 'C') { w->setConfig(cf); }
        else if (c == 'W') { w->setWeightings(wt); }
        else if (c == 'H') setRho(80);
        else if (c == 'F') placeBoth(0, 0.1, 0, -0.1);
        else if (c == 'U') heights(0.05, 0.04);
      }
      freshPlan();
    }
    // irrelevant to the plan: the feet yaw is not modelled
    void yaw(vp::Reader& r)
    {
      S a = S(r.i()/100.);
      w->setLeftFootYawUpperBound(a); w->setLeftFootYawLowerBound(-a); w->setRightFootYawUpperBound(a); w->setRightFootYawLowerBound(-a);
      w->setLeftFootYawSpeedUpperBound(a); w->setRightFootYawSpeedUpperBound(a);
      w->setLeftFootYawAccelerationUpperBound(a); w->setRightFootYawAccelerationUpperBound(a);
      w->setAngularVelRefInWorldFrame(VectorX::Constant(N, a));
    }

    // solve fb code, jerk of the plan (2, 1e-6 m/tick^3), other CoP points (N x 2, 1e-3 m), m, steps (x.., y..),
    //   probes: n, each N CoP points and 8 displacements (half units of 1e-4 m),
    //   exact: 0, or 1 and jerks (2N) and steps (8 x 2) of the point where the gradient is taken
    void solve(vp::Reader& r, vp::Obj& o)
    {
      long fb = r.i(), code = r.i();
      double j[2]; for (int k = 0; k < 2; ++k) j[k] = r.i()*1e-6;
      std::vector<double> other; for (int i = 0; i < 2*N; ++i) other.push_back(r.i()*1e-3);
      long m = r.i();
      std::vector<double> st; for (long i = 0; i < 2*m; ++i) st.push_back(r.i()/feet::G);
      // the plan so far, as the controller is specified to keep it
      f->updateTimeline(var, S(fb*tick));
      int M = f->getNbPreviewedSteps(), n = 2*N + 2*M;
      VectorX cx = w->getComStateX(), cy = w->getComStateY();
      if (first)
      {
        double g = 9.81, h = w->getComStateZ()(0);
        double px = cx(0) - h*cx(2)/g - f->getLeftFootStateX()(0), py = cy(0) - h*cy(2)/g - f->getLeftFootStateY()(0);
        for (int i = 0; i < N && N + i < var.rows(); ++i) { var(i) = S(px); var(N + i) = S(py); }
        first = false;
      }
      const long lim = 2000000000;
      o.i("M", M).raw("X", vp::vec(var.head(2*N), 2*N, 1e6, lim));
      std::vector<long> sx; for (int i = 0; i < 2*M; ++i) sx.push_back(vp::rnd(var(2*N + i), feet::G));
      o.raw("Xs", vp::ints(sx));
      if (M != m || var.rows() != n) { o.b("same", false); return; }   // judged by C03, C04
      o.b("same", true);
      // the plan handed out
      const SelectionMatrices<S>& sel = f->getSelectionMatrices();
      double sup[2] = {double(f->getSupportFootStateX()(0)), double(f->getSupportFootStateY()(0))};
      double d = f->getNbOfCallsBeforeNextSample()*double(fb);
      Eigen::VectorXd z(n);
      for (int k = 0; k < 2; ++k)
      {
        const VectorX& c = k ? cy : cx;
        vp::State s; s.p = c(0); s.v = c(1)*tick; s.a = c(2)*tick*tick;
        s = vp::integrate(s, j[k], d);
        double p1 = s.p - rho*s.a - double(sel.V0(0, 0))*sup[k];
        for (int i = 0; i < M; ++i) p1 -= double(sel.V(0, i))*st[k*M + i];
        z(k*N) = p1;
        for (int i = 1; i < N; ++i) z(k*N + i) = other[k*N + i];
        for (int i = 0; i < M; ++i) z(2*N + k*M + i) = st[k*M + i];
      }
      o.raw("Z", vp::vec(z.head(2*N), 2*N, 1e6, lim));
      vp::Scripted<S>& q = vp::scripted<S>();
      q.calls = 0; q.code = code; q.answer = z.template cast<S>() - var; q.warmDiff = 0;
      bool ret = w->solve(S(fb*tick));
      o.b("ret", ret).i("calls", q.calls).i("warm", q.warm).i("wd", vp::rnd(q.warmDiff, 1e6));
      if (q.calls == 0) return;
      const QPMatrices<S>& Q = q.program;
      const long dm[] = {q.nv, q.nc, (long)Q.Q.rows(), (long)Q.Q.cols(), (long)Q.p.rows(), (long)Q.A.rows(), (long)Q.A.cols(), (long)Q.bl.rows(),
        (long)Q.bu.rows(), (long)Q.xl.rows(), (long)Q.xu.rows()};
      o.raw("dim", vp::ints(std::vector<long>(dm, dm + 11)));
      bool ok = dm[0] == n && dm[2] == n && dm[3] == n && dm[4] == n && dm[6] == n && dm[9] == n && dm[10] == n && dm[5] == dm[1] && dm[7] == dm[1] &&
        dm[8] == dm[1];
      o.b("sizes", ok);
      if (!ok) return;
      o.raw("cx", com(w->getComStateX())).raw("cy", com(w->getComStateY()));
      feetObsW(o);
      // what the plan becomes
      VectorX old = var; var = old + q.answer;
      VectorX steps = var.tail(2*M);
      f->updateFeetStates(steps, S(fb*tick));

      // membership of probe points
      int np = r.i(); const double u = 0.5e-4;
      std::vector<long> cs;
      for (int k = 0; k < np; ++k)
      {
        VectorX x = VectorX::Zero(n);
        for (int i = 0; i < N; ++i) { x(i) = S(r.i()*u); x(N + i) = S(r.i()*u); }
        double px = sup[0], py = sup[1];
        for (int i = 0; i < 8; ++i)
        {
          px += r.i()*u; py += r.i()*u;
          if (i < M) { x(2*N + i) = S(px); x(2*N + M + i) = S(py); }
        }
        cs.push_back(q.side(x - old, 2e-6));
      }
      o.raw("c", vp::ints(cs));
      // objective at an exact point, along rolled-out directions
      if (!r.i()) return;
      double p0[2] = {cx(0)/L, cy(0)/L}, v0[2] = {cx(1)*tick/L, cy(1)*tick/L}, a0[2] = {cx(2)*tick*tick/L, cy(2)*tick*tick/L};
      std::vector<double> uu[2], qq[2];
      for (int k = 0; k < 2; ++k) for (int i = 0; i < N; ++i) uu[k].push_back(r.i());
      for (int i = 0; i < 8; ++i) { double a = r.i(), b = r.i(); if (i < M) { qq[0].push_back(a); qq[1].push_back(b); } }
      Eigen::VectorXd t(n); Eigen::MatrixXd D = Eigen::MatrixXd::Zero(n, n);
      for (int k = 0; k < 2; ++k)
      {
        vp::State s; s.p = std::floor(p0[k] + .5); s.v = std::floor(v0[k] + .5); s.a = std::floor(a0[k] + .5);
        std::vector<vp::State> y = vp::roll(s, uu[k], d, K);
        for (int i = 0; i < N; ++i)
        {
          double c = y[i].p - rho*y[i].a - double(sel.V0(i, 0))*sup[k]/L;
          for (int a = 0; a < M; ++a) c -= double(sel.V(i, a))*qq[k][a];
          t(k*N + i) = c;
        }
        for (int a = 0; a < M; ++a) t(2*N + k*M + a) = qq[k][a];
        for (int b = 0; b < N; ++b)
        {
          std::vector<double> e(N, 0.); e[b] = 1;
          std::vector<vp::State> g = vp::roll(vp::State(), e, d, K);
          for (int i = 0; i < N; ++i) D(k*N + i, k*N + b) = g[i].p - rho*g[i].a;
        }
        for (int a = 0; a < M; ++a)
        {
          D(2*N + k*M + a, 2*N + k*M + a) = 1;
          for (int i = 0; i < N; ++i) D(k*N + i, 2*N + k*M + a) = -double(sel.V(i, a));
        }
      }
      Eigen::MatrixXd Hq = q.program.Q.template cast<double>();
      Eigen::VectorXd gr = q.program.p.template cast<double>()/L + Hq*(t - old.template cast<double>()/L);
      Eigen::MatrixXd E = D.transpose()*Hq*D; Eigen::VectorXd e = D.transpose()*gr;
      int k = 0; for (int i = 1; i < n; ++i) if (E(i, i) > E(k, k)) k = i;
      double sc = E(k, k) > 0 ? 1e5/E(k, k) : 0;
      o.i("k", k + 1).b("pos", E(k, k) > 0).raw("H", vp::mat(E, sc, lim)).raw("g", vp::vec(e, n, sc, lim));
    }

    void call(const vp::Tokens& line, std::ostream& out)
    {
      {
        vp::Reader r(line); const std::string& op = line[0];
        vp::Obj o; o.str("op", op);
        if (op == "reset") reset(r);
        else if (op == "move") { bool b = r.i(); w->setMove(b); f->setMove(b); if (f->isInDS()) first = true; }
        else if (op == "step") { S p = S(r.i()*tick); w->setStepPeriod(p); f->setStepPeriod(p); }
        else if (op == "ds") { S p = S(r.i()*tick); w->setInitialDoubleSupportLength(p); f->setInitialDoubleSupportLength(p); }
        else if (op == "N") { N = r.i(); w->setNbSamples(N); f->setNbSamples(N); freshPlan(); }
        else if (op == "poly1") { int i = r.i(); poly1(i, this->poly(r)); }
        else if (op == "height") { double a = r.i()/feet::P, b = r.i()/feet::P; heights(a, b); }
        else if (op == "place") { double a = r.i()/feet::P, b = r.i()/feet::P, c = r.i()/feet::P, d = r.i()/feet::P; placeBoth(a, b, c, d); }
        else if (op == "yaw") yaw(r);
        else if (op == "rho") setRho(r.i());
        else if (op == "wt")
        {
          wt.velocityTracking = S(r.i()*80*tick*tick); wt.jerkMinimization = S(r.i()*20*std::pow(tick, 6)); wt.copCentering = S(36*r.i());
          S k = std::ldexp(S(1), r.i());
          wt.velocityTracking *= k; wt.jerkMinimization *= k; wt.copCentering *= k;
          w->setWeightings(wt);
        }
        else if (op == "cfg") { cf.withCopConstraints = r.i(); cf.withFeetConstraints = r.i(); w->setConfig(cf); }
        else if (op == "ref") { VectorX v(2*N); for (int i = 0; i < 2*N; ++i) v(i) = S(r.i()/2.*L/tick); w->setVelRefInWorldFrame(v); }
        else if (op == "com")      // exact: lengths L
        {
          double x[6]; for (int i = 0; i < 6; ++i) x[i] = r.i()*L;
          w->setComStateX(v3(x[0], x[1]/tick, x[2]/(tick*tick))); w->setComStateY(v3(x[3], x[4]/tick, x[5]/(tick*tick)));
        }
        else if (op == "comp")     // physical: 1e-6 m, 1e-7 m/tick, 1e-8 m/tick^2
        {
          double x[6]; for (int i = 0; i < 6; ++i) x[i] = r.i();
          w->setComStateX(v3(x[0]*1e-6, x[1]*1e-7/tick, x[2]*1e-8/(tick*tick)));
          w->setComStateY(v3(x[3]*1e-6, x[4]*1e-7/tick, x[5]*1e-8/(tick*tick)));
        }
        else if (op == "solve") solve(r, o);
        else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(97); }
        out << o.done() << "\n"; out.flush();
      }
    }
  };
  void history(const std::vector<vp::Tokens>& lines, std::ostream& out) { vp::play<Walk<double>, Walk<float> >(lines, out); }
}
int main(int argc, char** argv) { return vp::run(argc, argv, history); }

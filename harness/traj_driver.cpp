// C20, C18: the trajectory generator over a scripted QP solver.  Units: ticks of 1/8 s, lengths of
// 1/64 m (see TrajWalkgen.tla).
#include "scripted_solver.h"
#include "program.h"
#include <mpc-walkgen/trajectory_walkgen.h>

using namespace MPCWalkgen;
namespace
{
  const double L = 1/64., tick = 1/8., J = L/(tick*tick*tick);

  template <class S> struct Traj
  {
    typedef typename Type<S>::VectorX VectorX;
    std::unique_ptr<TrajectoryWalkgen<S> > w;
    int N; VectorX X;

    VectorX vec(vp::Reader& r, int n, double k) { VectorX v(n); for (int i = 0; i < n; ++i) v(i) = S(r.i()*k); return v; }

    // solve feedback-period code plan(N) n lines(N + N)
    void solve(vp::Reader& r, vp::Obj& o)
    {
      long fb = r.i(), code = r.i();
      VectorX plan = vec(r, N, J);
      vp::Scripted<S>& q = vp::scripted<S>();
      q.calls = 0; q.code = code; q.answer = plan - X; q.warmDiff = 0;
      bool ret = w->solve(S(fb*tick));
      o.b("ret", ret).i("calls", q.calls).i("warm", q.warm).i("wd", vp::rnd(q.warmDiff, 1e6));
      const VectorX& s = w->getState();
      std::vector<long> v;
      v.push_back(vp::rnd(s(0), 6000/L, vp::BIG)); v.push_back(vp::rnd(s(1), 2000*tick/L, vp::BIG)); v.push_back(vp::rnd(s(2), 1000*tick*tick/L, vp::BIG));
      o.raw("s", vp::ints(v)).i("jerk", vp::rnd(w->getJerk(), 1000/J, vp::BIG));
      bool ok = vp::sized(q, N);
      o.b("sizes", ok);
      int nl = r.i();
      std::string seg = "[";
      for (int k = 0; k < nl; ++k)
      {
        VectorX u = vec(r, N, J), d = vec(r, N, J);
        if (!ok) continue;
        if (k) seg += ",";
        seg += vp::segment(q.program, VectorX(u - X), d);
      }
      o.raw("seg", seg + "]");
      X += q.answer;
      if (ok) vp::costs(q.program, J, L, o);
    }

    void call(const vp::Tokens& line, std::ostream& out)
    {
      {
        vp::Reader r(line); const std::string& op = line[0];
        vp::Obj o; o.str("op", op);
        if (op == "reset")
        {
          // whatever an earlier user of the memory left there
          void* m = ::operator new(sizeof(TrajectoryWalkgen<S>));
          std::memset(m, 0x42, sizeof(TrajectoryWalkgen<S>));
          ::operator delete(m);
          w.reset(new TrajectoryWalkgen<S>()); N = 1; X.setZero(1);
        }
        else if (op == "N") { N = r.i(); w->setNbSamples(N); X.setZero(N); }
        else if (op == "T") w->setSamplingPeriod(S(r.i()*tick));
        else if (op == "vl") w->setVelLimit(S(r.i()*L/(2*tick)));
        else if (op == "al") w->setAccLimit(S(r.i()*L/(tick*tick)));
        else if (op == "jl") w->setJerkLimit(S(r.i()*J));
        else if (op == "wt")
        {
          TrajectoryWalkgenWeighting<S> t;
          t.velocityTracking = S(r.i()*4*tick*tick); t.positionTracking = S(r.i()*36); t.jerkMinimization = S(r.i()*std::pow(tick, 6));
          S k = std::ldexp(S(1), r.i());
          t.velocityTracking *= k; t.positionTracking *= k; t.jerkMinimization *= k;
          w->setWeightings(t);
        }
        else if (op == "cfg") { TrajectoryWalkgenConfig<S> c; c.withMotionConstraints = r.i(); w->setConfig(c); }
        else if (op == "vref") w->setVelRefInWorldFrame(vec(r, N, L/(2*tick)));
        else if (op == "pref") w->setPosRefInWorldFrame(vec(r, N, L));
        else if (op == "s")
        {
          double a = r.i(), b = r.i(), c = r.i();
          VectorX x(3); x << S(a*L/6), S(b*L/(2*tick)), S(c*L/(tick*tick));
          w->setState(x);
        }
        else if (op == "solve") solve(r, o);
        else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(97); }
        out << o.done() << "\n"; out.flush();
      }
    }
  };
  void history(const std::vector<vp::Tokens>& lines, std::ostream& out) { vp::play<Traj<double>, Traj<float> >(lines, out); }
}
int main(int argc, char** argv) { return vp::run(argc, argv, history); }

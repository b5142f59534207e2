// C13..C19: the wheeled-base controller over a scripted QP solver.  Units: ticks of 1/8 s,
// lengths of 1/64 m, heights of 1/16 m, gravity of 1/4 m/s^2 (see ZebWalkgen.tla).
#include "scripted_solver.h"
#include "program.h"
#include <mpc-walkgen/zebulon_walkgen.h>

using namespace MPCWalkgen;
namespace
{
  const double L = 1/64., tick = 1/8.;
  using vp::BIG;

  template <class S> struct Zeb
  {
    typedef typename Type<S>::VectorX VectorX;
    typedef typename Type<S>::Vector2 Vector2;
    typedef typename Type<S>::Vector3 Vector3;
    std::unique_ptr<ZebulonWalkgen<S> > w;
    int N; VectorX X;
    std::vector<S> garbage;

    VectorX v3(double a, double b, double c) { VectorX x(3); x << S(a), S(b), S(c); return x; }
    // state <<6 p, 2 v, a>>
    VectorX state(vp::Reader& r)
    {
      double a = r.i(), b = r.i(), c = r.i();
      return v3(a*L/6, b*L/(2*tick), c*L/(tick*tick));
    }
    std::string obs(const VectorX& x)
    {
      std::vector<long> v;
      v.push_back(vp::rnd(x(0), 6000/L, BIG)); v.push_back(vp::rnd(x(1), 2000*tick/L, BIG)); v.push_back(vp::rnd(x(2), 1000*tick*tick/L, BIG));
      return vp::ints(v);
    }
    VectorX vec(vp::Reader& r, int n, double k) { VectorX v(n); for (int i = 0; i < n; ++i) v(i) = S(r.i()*k); return v; }
    template <class V, class P> P points(vp::Reader& r)
    {
      int n = r.i(); P p(n);
      for (int i = 0; i < n; ++i) { V v; v.setZero(); v(0) = S(r.i()*L); v(1) = S(r.i()*L); p[i] = v; }
      return p;
    }

    // solve feedback-period code plan(4N) n lines(4N + 4N)
    void solve(vp::Reader& r, vp::Obj& o)
    {
      long fb = r.i(), code = r.i();
      const double J = L/(tick*tick*tick);
      VectorX plan = vec(r, 4*N, J);
      vp::Scripted<S>& q = vp::scripted<S>();
      q.calls = 0; q.code = code; q.answer = plan - X; q.warmDiff = 0;
      bool ret = w->solve(S(fb*tick));
      o.b("ret", ret).i("calls", q.calls).i("warm", q.warm).i("wd", vp::rnd(q.warmDiff, 1e6));
      o.raw("cx", obs(w->getComStateX())).raw("cy", obs(w->getComStateY())).raw("bx", obs(w->getBaseStateX())).raw("by", obs(w->getBaseStateY()));
      const QPMatrices<S>& Q = q.program;
      int n = 4*N;
      bool ok = vp::sized(q, n);
      o.b("sizes", ok);
      int nl = r.i();
      std::string seg = "[";
      for (int k = 0; k < nl; ++k)
      {
        VectorX u = vec(r, n, J), d = vec(r, n, J);
        if (!ok) continue;
        if (k) seg += ",";
        seg += vp::segment(Q, VectorX(u - X), d);
      }
      o.raw("seg", seg + "]");
      X += q.answer;
      if (!ok) return;
      vp::costs(Q, J, L, o);
    }

    void call(const vp::Tokens& line, std::ostream& out)
    {
      {
        vp::Reader r(line); const std::string& op = line[0];
        vp::Obj o; o.str("op", op);
        if (op == "reset")
        {
          // whatever an earlier user of the memory left there
          void* m = ::operator new(sizeof(ZebulonWalkgen<S>));
          std::memset(m, 0x42, sizeof(ZebulonWalkgen<S>));
          ::operator delete(m);
          w.reset(new ZebulonWalkgen<S>()); N = 1; X.setZero(4);
        }
        else if (op == "N") { N = r.i(); w->setNbSamples(N); X.setZero(4*N); }
        else if (op == "T") w->setSamplingPeriod(S(r.i()*tick));
        else if (op == "g") { Vector3 g; for (int k = 0; k < 3; ++k) g(k) = S(r.i()/4.); w->setGravity(g); }
        else if (op == "h") w->setComBodyHeight(S(r.i()/16.));
        else if (op == "L") w->setComBaseHeight(S(r.i()/16.));
        else if (op == "m") w->setBodyMass(S(r.i()));
        else if (op == "M") w->setBaseMass(S(r.i()));
        else if (op == "cop") w->setBaseCopConvexPolygon(ConvexPolygon<S>(points<Vector2, typename Type<S>::vectorOfVector2>(r)));
        else if (op == "com") w->setBaseComConvexPolygon(ConvexPolygon<S>(points<Vector2, typename Type<S>::vectorOfVector2>(r)));
        else if (op == "copHull") w->setBaseCopHull(points<Vector3, typename Type<S>::vectorOfVector3>(r));
        else if (op == "comHull") w->setBaseComHull(points<Vector3, typename Type<S>::vectorOfVector3>(r));
        else if (op == "vl") w->setBaseVelLimit(S(r.i()*L/(2*tick)));
        else if (op == "al") w->setBaseAccLimit(S(r.i()*L/(tick*tick)));
        else if (op == "jl") w->setBaseJerkLimit(S(r.i()*L/(tick*tick*tick)));
        else if (op == "wt")
        {
          ZebulonWalkgenWeighting<S> t;
          t.velocityTracking = S(r.i()*4*tick*tick); t.positionTracking = S(r.i()*36); t.jerkMinimization = S(r.i()*std::pow(tick, 6));
          t.copCentering = S(r.i()*36); t.comCentering = S(r.i()*36); t.tiltMinimization = S(r.i()); t.tiltVelMinimization = S(r.i());
          S k = std::ldexp(S(1), r.i());
          t.velocityTracking *= k; t.positionTracking *= k; t.jerkMinimization *= k; t.copCentering *= k; t.comCentering *= k;
          t.tiltMinimization *= k; t.tiltVelMinimization *= k;
          w->setWeightings(t);
        }
        else if (op == "cfg")
        {
          ZebulonWalkgenConfig<S> c;
          c.withCopConstraints = r.i(); c.withComConstraints = r.i(); c.withBaseMotionConstraints = r.i(); c.withTiltMotionConstraints = r.i();
          w->setConfig(c);
        }
        else if (op == "vref") w->setVelRefInWorldFrame(vec(r, 2*N, L/(2*tick)));
        else if (op == "pref") w->setPosRefInWorldFrame(vec(r, 2*N, L));
        else if (op == "cref") w->setCopRefInLocalFrame(vec(r, 2*N, L));
        else if (op == "mref") w->setComRefInLocalFrame(vec(r, 2*N, L));
        else if (op == "world")
        {
          VectorX a = vec(r, 2*N, L), b = vec(r, 2*N, L/(tick*tick)), c = vec(r, 2*N, L), d = vec(r, 2*N, L/(tick*tick));
          w->setComAndCopRefInWorldFrame(a, b, c, d);
        }
        else if (op == "bx") w->setBaseStateX(state(r));
        else if (op == "by") w->setBaseStateY(state(r));
        else if (op == "cx") w->setComStateX(state(r));
        else if (op == "cy") w->setComStateY(state(r));
        else if (op == "pose") { w->setComStateX(state(r)); w->setComStateY(state(r)); w->setBaseStateX(state(r)); w->setBaseStateY(state(r)); }
        else if (op == "roll") { double a = r.i()*1e-3, b = r.i()*1e-3; w->setBaseStateRoll(v3(a, b, .125)); }
        else if (op == "pitch") { double a = r.i()*1e-3, b = r.i()*1e-3; w->setBaseStatePitch(v3(a, b, -.25)); }
        else if (op == "yaw") { double s = r.i(), c = r.i(); w->setBaseStateYaw(v3(std::atan2(s, c), .5, -.25)); }
        else if (op == "dx") w->setTiltContactPointOnTheGroundInLocalFrameX(S(r.i()*L));
        else if (op == "dy") w->setTiltContactPointOnTheGroundInLocalFrameY(S(r.i()*L));
        else if (op == "solve") solve(r, o);
        else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); _exit(97); }
        out << o.done() << "\n"; out.flush();
      }
    }
  };
  void history(const std::vector<vp::Tokens>& lines, std::ostream& out) { vp::play<Zeb<double>, Zeb<float> >(lines, out); }
}
int main(int argc, char** argv) { return vp::run(argc, argv, history); }

// Convex polygons (C22, C23) and spline interpolation (C24).
#include "common.h"
#include <mpc-walkgen/convexpolygon.h>
#include <mpc-walkgen/interpolator.h>
#include <mpc-walkgen/tools.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>

using namespace MPCWalkgen;

namespace
{
  template <class S> struct Runner
  {
    typedef typename Type<S>::VectorX VectorX;
    typedef typename Type<S>::Vector2 Vector2;
    typedef typename Type<S>::Vector3 Vector3;
    typedef typename Type<S>::Vector4 Vector4;
    typedef typename Type<S>::vectorOfVector2 Points;

    Points read(vp::Reader& r, double unit)
    {
      Points p;
      long n = r.i();
      for (long i = 0; i < n; ++i) { double x = r.i()*unit; double y = r.i()*unit; p.push_back(Vector2(S(x), S(y))); }
      return p;
    }

    // hull DEN n x y ... : points in units of 1/DEN metre
    void hull(vp::Reader& r, vp::Obj& o)
    {
      double den = r.i();
      Points p = read(r, 1/den);
      ConvexPolygon<S> c(p);
      o.raw("v", vp::points(c.getVertices(), den));
      o.raw("w", vp::points(ConvexPolygon<S>::extractVertices(p), den));
      o.i("n", c.getNbVertices());
    }

    static long sgn(double v, double tol) { return v > tol ? 1 : v < -tol ? -1 : 0; }

    // member DEN n x y ... m px py ... : probes in half units
    void member(vp::Reader& r, vp::Obj& o)
    {
      double den = r.i();
      ConvexPolygon<S> c(read(r, 1/den));
      std::vector<long> side;
      long m = r.i();
      const VectorX& a = c.getGeneralConstraintsMatrixCoefsForX();
      const VectorX& b = c.getGeneralConstraintsMatrixCoefsForY();
      const VectorX& k = c.getGeneralConstraintsConstantPart();
      double eps = 1e-6;
      for (long i = 0; i < m; ++i)
      {
        double x = r.i()/(2*den), y = r.i()/(2*den);
        double e = eps/den*20;
        long s = -1;
        s = std::max(s, sgn(x - c.getXSupBound(), e));
        s = std::max(s, sgn(c.getXInfBound() - x, e));
        s = std::max(s, sgn(y - c.getYSupBound(), e));
        s = std::max(s, sgn(c.getYInfBound() - y, e));
        for (int j = 0; j < c.getNbGeneralConstraints(); ++j)
          s = std::max(s, sgn(double(a(j))*x + double(b(j))*y + double(k(j)), e*(std::fabs(a(j)) + std::fabs(b(j)))));
        side.push_back(s);
      }
      o.raw("side", vp::ints(side));
      o.i("n", c.getNbGeneralConstraints());
      o.i("na", a.rows()); o.i("nb", b.rows());
      std::vector<long> f;    // which bounds are finite
      f.push_back(c.getXInfBound() > -1e9); f.push_back(c.getXSupBound() < 1e9);
      f.push_back(c.getYInfBound() > -1e9); f.push_back(c.getYSupBound() < 1e9);
      o.raw("fin", vp::ints(f));
    }

    // spline P0 V0 A0 P1 V1 A1 TM TD : states in units of 1/16 m over a horizon of TM 2^TD s, the
    // derivatives given in normalised time
    void spline(vp::Reader& r, vp::Obj& o)
    {
      double s[6]; for (int i = 0; i < 6; ++i) s[i] = r.i()/16.;
      double T = r.i(); T = std::ldexp(T, (int)r.i());
      int q = r.i(), fq = r.i(), nf = r.i();
      Interpolator<S> in;
      VectorX f(12); f.setConstant(S(77));
      in.computePolynomialNormalisedFactors(f, Vector3(S(s[0]), S(s[1]/T), S(s[2]/(T*T))),
                                               Vector3(S(s[3]), S(s[4]/T), S(s[5]/(T*T))), S(T));
      std::string p = "[", d = "[", dd = "[";
      double eps = sizeof(S) == 8 ? 1e-12 : 1e-6;
      std::vector<long> ks, fd;
      for (int k = 0; k <= q; ++k)
        for (int side = 0; side < ((k == q/3 || k == 2*q/3) ? 2 : 1); ++side)
        {
          double t = T*k/q;
          ks.push_back(k);
          if (k == q/3 || k == 2*q/3) t *= side == 0 ? 1 - eps : 1 + eps;
          Vector4 g; g.setConstant(S(99));
          in.selectFactors(g, f, S(t), S(T));
          S x = S(t)/S(T);
          const char* sep = (k == 0) ? "" : ",";
          long lim = 2000000000;
          p += sep + std::to_string(vp::rnd(Tools::polynomValue<S>(g, x), 16*12.*q*q*q, lim));
          d += sep + std::to_string(vp::rnd(Tools::dPolynomValue<S>(g, x), 16*12.*q*q, lim));
          dd += sep + std::to_string(vp::rnd(Tools::ddPolynomValue<S>(g, x), 16*12.*q, lim));
        }
      for (int i = 0; i < nf; ++i)
      {
        double t = T*r.i()/fq;
        Vector4 g; g.setConstant(S(99));
        in.selectFactors(g, f, S(t), S(T));
        fd.push_back(vp::rnd(Tools::ddPolynomValue<S>(g, S(t)/S(T)), 16*12.*fq, 2000000000));
      }
      o.raw("k", vp::ints(ks)).raw("fd", vp::ints(fd));
      o.raw("p", p + "]").raw("d", d + "]").raw("dd", dd + "]");
    }

    void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
    {
      for (size_t i = 0; i < lines.size(); ++i)
      {
        vp::Reader r(lines[i]);
        vp::Obj o; o.str("op", lines[i][0]);
        if (lines[i][0] == "hull") hull(r, o);
        else if (lines[i][0] == "member") member(r, o);
        else if (lines[i][0] == "spline") spline(r, o);
        else if (lines[i][0] != "reset") { std::fprintf(stderr, "unknown op\n"); _exit(97); }
        out << o.done() << "\n"; out.flush();
      }
    }
  };

  void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
  {
    if (lines[0][1] == "double") { Runner<double> r; r.history(lines, out); }
    else { Runner<float> r; r.history(lines, out); }
  }
}

int main(int argc, char** argv) { return vp::run(argc, argv, history); }

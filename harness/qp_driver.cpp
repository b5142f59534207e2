// Program data (C25) and the qpOASES adapter (C26), compiled with a scripted stand-in for qpOASES.
#include "common.h"
#include <QProblem.hpp>
#include <memory>
#include <mpc-walkgen/qpsolver.h>
#include <mpc-walkgen/qpsolverfactory.h>

using namespace MPCWalkgen;

namespace
{
  template <class S> struct Runner
  {
    typedef QPMatrices<S> QP;
    typedef typename QP::VectorX VectorX;
    typedef typename QP::MatrixXrm Mat;
    std::unique_ptr<QPSolver<S> > solver;

    Mat matrix(vp::Reader& r, int n, int m, double den) { Mat a(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a(i, j) = S(r.i()/den); return a; }
    VectorX vec(vp::Reader& r, int n, double den) { VectorX a(n); for (int i = 0; i < n; ++i) a(i) = S(r.i()/den); return a; }
    QP read(vp::Reader& r, int nv, int nc, double den)
    {
      QP q;
      q.Q = matrix(r, nv, nv, den); q.p = vec(r, nv, den); q.xl = vec(r, nv, den); q.xu = vec(r, nv, den);
      q.A = matrix(r, nc, nv, den); q.bl = vec(r, nc, den); q.bu = vec(r, nc, den);
      return q;
    }
    // norm DEN E nv nc Q p xl xu A bl bu : entries in units of 1/DEN, epsilon = (E + 1/2)/DEN
    void norm(vp::Reader& r, vp::Obj& o)
    {
      double den = r.i(), e = r.i() + 0.5;
      int nv = (int)r.i(), nc = (int)r.i();
      QP q = read(r, nv, nc, den);
      const double sc = 16384; const long lim = 2000000000;
      o.i("fq", vp::rnd(QP::getNormalizationFactor(q.Q, S(e/den)), sc, lim)).i("fa", vp::rnd(QP::getNormalizationFactor(q.A, S(e/den)), sc, lim));
      q.normalizeMatrices(S(e/den));
      o.raw("Q", vp::mat(q.Q, sc, lim)).raw("p", vp::vec(q.p, q.p.size(), sc, lim));
      o.raw("xl", vp::vec(q.xl, q.xl.size(), sc, lim)).raw("xu", vp::vec(q.xu, q.xu.size(), sc, lim));
      o.raw("A", vp::mat(q.A, sc, lim)).raw("bl", vp::vec(q.bl, q.bl.size(), sc, lim)).raw("bu", vp::vec(q.bu, q.bu.size(), sc, lim));
    }
    // dims nv nc Qr Qc p xl xu Ar Ac bl bu
    void dims(vp::Reader& r, vp::Obj& o)
    {
      int nv = (int)r.i(), nc = (int)r.i();
      QP q; int a, b;
      a = (int)r.i(); b = (int)r.i(); q.Q.setZero(a, b);
      q.p.setZero(r.i()); q.xl.setZero(r.i()); q.xu.setZero(r.i());
      a = (int)r.i(); b = (int)r.i(); q.A.setZero(a, b);
      q.bl.setZero(r.i()); q.bu.setZero(r.i());
      o.b("ok", q.dimensionsAreConsistent(nv, nc));
    }
    static std::string list(const std::vector<double>& v) { std::vector<long> l; for (double d : v) l.push_back(vp::rnd(d, 1)); return vp::ints(l); }
    // new nv nc
    void make(vp::Reader& r, vp::Obj& o)
    {
      int nv = (int)r.i(), nc = (int)r.i();
      qpOASES::script() = qpOASES::Script();
      solver.reset(makeQPSolver<S>(nv, nc));
      o.i("nv", solver->getNbVar()).i("nc", solver->getNbCtr());
    }
    // solve warm os code maxit nv nc Q p xl xu A bl bu primal
    void solve(vp::Reader& r, vp::Obj& o)
    {
      bool warm = r.i(), os = r.i(); int code = (int)r.i(), it = (int)r.i();
      int nv = (int)r.i(), nc = (int)r.i();
      QP q = read(r, nv, nc, 1);
      VectorX pr = vec(r, nv, 1);
      qpOASES::Script& s = qpOASES::script();
      s.calls.clear(); s.next = qpOASES::returnValue(code); s.primal.assign(pr.data(), pr.data() + nv);
      VectorX sol = VectorX::Constant(nv, S(-777));
      std::ostringstream text;
      bool ok = solver->solve(q, it, sol, warm, os ? &text : nullptr);
      o.b("ok", ok).b("text", !text.str().empty()).raw("sol", vp::vec(sol, nv, 1));
      std::string c = "[";
      for (size_t i = 0; i < s.calls.size(); ++i)
      {
        const qpOASES::Call& k = s.calls[i];
        vp::Obj e; e.str("k", k.kind).i("it", k.nwsr).raw("Q", list(k.Q)).raw("p", list(k.p)).raw("A", list(k.A)).raw("xl", list(k.xl))
          .raw("xu", list(k.xu)).raw("bl", list(k.bl)).raw("bu", list(k.bu));
        c += (i ? "," : "") + e.done();
      }
      o.raw("calls", c + "]");
    }
    void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
    {
      for (size_t i = 0; i < lines.size(); ++i)
      {
        vp::Reader r(lines[i]);
        vp::Obj o; o.str("op", lines[i][0]);
        if (lines[i][0] == "norm") norm(r, o);
        else if (lines[i][0] == "dims") dims(r, o);
        else if (lines[i][0] == "new") make(r, o);
        else if (lines[i][0] == "solve") solve(r, o);
        else if (lines[i][0] != "reset") { std::fprintf(stderr, "unknown op\n"); _exit(97); }
        out << o.done() << "\n"; out.flush();
      }
    }
  };
  void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
  {
    if (lines[0][1] == "double") { Runner<double> r; r.history(lines, out); }
    else { Runner<float> r; r.history(lines, out); }
  }
}
int main(int argc, char** argv) { return vp::run(argc, argv, history); }

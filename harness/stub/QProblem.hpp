// Stand-in for qpOASES: the class records how it is called and answers as the script says.
#pragma once
#include <vector>
#include <string>
#include <ostream>
#include <cstring>

namespace qpOASES
{
  enum returnValue { SUCCESSFUL_RETURN = 0, RET_MAX_NWSR_REACHED = 64, RET_INIT_FAILED = 33, RET_INIT_FAILED_INFEASIBILITY = 37,
                     RET_HOTSTART_FAILED = 39, RET_HOTSTART_STOPPED_INFEASIBILITY = 61, RET_QP_INFEASIBLE = 60, RET_QP_NOT_SOLVED = 63 };
  enum PrintLevel { PL_TABULAR = -2, PL_NONE = 0, PL_LOW, PL_MEDIUM, PL_HIGH };
  enum BooleanType { BT_FALSE, BT_TRUE };
  enum QProblemStatus { QPS_NOTINITIALISED, QPS_SOLVED = 6 };

  struct Call
  {
    std::string kind; int nwsr;
    std::vector<double> Q, p, A, xl, xu, bl, bu;
  };
  struct Script
  {
    int nv, nc;                 // dimensions of the last constructed problem
    returnValue next;
    std::vector<double> primal;
    std::vector<Call> calls;
    int primalReads;
    Script() : nv(-1), nc(-1), next(SUCCESSFUL_RETURN), primalReads(0) {}
  };
  inline Script& script() { static Script s; return s; }

  class Options { public: PrintLevel printLevel; void setToMPC() {} void setToReliable() {} void setToDefault() {} void setToFast() {} };

  class QProblem
  {
    int nv_, nc_; bool init_; returnValue last_;
    template <class T> static std::vector<double> copy(const T* p, int n) { return p ? std::vector<double>(p, p + n) : std::vector<double>(); }
  public:
    QProblem(int nv, int nc) : nv_(nv), nc_(nc), init_(false), last_(RET_QP_NOT_SOLVED) { script().nv = nv; script().nc = nc; }
    void setPrintLevel(PrintLevel) {}
    void setOptions(const Options&) {}
    returnValue reset() { init_ = false; last_ = RET_QP_NOT_SOLVED; return SUCCESSFUL_RETURN; }
    int getNV() const { return nv_; }
    int getNC() const { return nc_; }
    BooleanType isInitialised() const { return init_ ? BT_TRUE : BT_FALSE; }
    BooleanType isSolved() const { return last_ == SUCCESSFUL_RETURN ? BT_TRUE : BT_FALSE; }
    BooleanType isInfeasible() const { return last_ == RET_INIT_FAILED_INFEASIBILITY || last_ == RET_HOTSTART_STOPPED_INFEASIBILITY ? BT_TRUE : BT_FALSE; }
    QProblemStatus getStatus() const { return last_ == SUCCESSFUL_RETURN ? QPS_SOLVED : QPS_NOTINITIALISED; }
    template <class T> returnValue init(const T* Q, const T* p, const T* A, const T* xl, const T* xu, const T* bl, const T* bu,
                                        int& nWSR, T* const = 0)
    {
      Call c; c.kind = "init"; c.nwsr = nWSR;
      c.Q = copy(Q, nv_*nv_); c.p = copy(p, nv_); c.A = copy(A, nc_*nv_); c.xl = copy(xl, nv_); c.xu = copy(xu, nv_);
      c.bl = copy(bl, nc_); c.bu = copy(bu, nc_);
      script().calls.push_back(c);
      last_ = script().next;
      init_ = last_ == SUCCESSFUL_RETURN;
      return last_;
    }
    template <class T> returnValue init(const T* Q, const T* p, const T* A, const T* xl, const T* xu, const T* bl, const T* bu,
                                        int& nWSR, int) { return init(Q, p, A, xl, xu, bl, bu, nWSR, (T*)0); }
    template <class T> returnValue hotstart(const T* p, const T* xl, const T* xu, const T* bl, const T* bu, int& nWSR, T* const = 0)
    {
      Call c; c.kind = "hot"; c.nwsr = nWSR;
      c.p = copy(p, nv_); c.xl = copy(xl, nv_); c.xu = copy(xu, nv_); c.bl = copy(bl, nc_); c.bu = copy(bu, nc_);
      script().calls.push_back(c);
      // as the real one: a problem that was not initialised successfully cannot be continued
      last_ = init_ ? script().next : RET_HOTSTART_FAILED;
      return last_;
    }
    template <class T> returnValue hotstart(const T* p, const T* xl, const T* xu, const T* bl, const T* bu, int& nWSR, int)
    { return hotstart(p, xl, xu, bl, bu, nWSR, (T*)0); }
    template <class T> returnValue getPrimalSolution(T* const x) const
    {
      ++script().primalReads;
      for (int i = 0; i < nv_; ++i) x[i] = T(i < (int)script().primal.size() ? script().primal[i] : 0);
      return last_ == SUCCESSFUL_RETURN ? SUCCESSFUL_RETURN : RET_QP_NOT_SOLVED;
    }
    double getObjVal() const { return 0; }
  };
}

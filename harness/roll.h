// Directions for derivative tests: a piecewise constant jerk (integers, units of L m per cubic
// tick of 2^-5 s) is rolled out so that the judged derivatives become exact integers.  The
// resulting directions are recorded and compared with the specification's own roll-out.
#pragma once
#include <vector>
namespace vp
{
  struct State { double p, v, a; };
  inline State integrate(State x, double j, double d)
  {
    State y;
    y.p = x.p + x.v*d + x.a*d*d/2 + j*d*d*d/6;
    y.v = x.v + x.a*d + j*d*d/2;
    y.a = x.a + j*d;
    return y;
  }
  inline std::vector<State> roll(State x, const std::vector<double>& js, double first, double T)
  {
    std::vector<State> out;
    for (size_t i = 0; i < js.size(); ++i) { x = integrate(x, js[i], i ? T : first); out.push_back(x); }
    return out;
  }
}

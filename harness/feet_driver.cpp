// C01..C07: histories of public calls on HumanoidFeetSupervisor.
#include "feet_runner.h"

static void history(const std::vector<vp::Tokens>& lines, std::ostream& out)
{
  if (lines[0][1] == "double") { feet::Runner<double> r; r.history(lines, out); }
  else { feet::Runner<float> r; r.history(lines, out); }
}

int main(int argc, char** argv) { return vp::run(argc, argv, history); }

// Stands between the code under test and ceres::Solve (linked with -Wl,--wrap): the simulator can make a
// solve take time or fail; otherwise the real solver runs, as one step of the schedule.
#include "kernel.hpp"
#include <ceres/ceres.h>
extern "C" void __real__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(const ceres::Solver::Options &, ceres::Problem *, ceres::Solver::Summary *);
extern "C" void __wrap__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(const ceres::Solver::Options & o, ceres::Problem * p, ceres::Solver::Summary * s)
{
  sim::SolveCtl c;
  if (sim::on_solve && sim::active()) c = sim::on_solve(0, false);
  if (c.delay > 0 && sim::active()) sim::sleep_for(c.delay);
  if (c.fail)
  {
    sim::NoPreempt np;
    *s = ceres::Solver::Summary();
    s->termination_type = ceres::FAILURE;
    s->message = "injected failure";
  }
  else
  {
    sim::NoPreempt np;
    ceres::Solver::Options quiet = o;
    quiet.logging_type = ceres::SILENT;
    quiet.num_threads = 1;
    __real__ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE(quiet, p, s);
  }
  if (sim::on_solve && sim::active()) sim::on_solve(1, s->IsSolutionUsable());
}

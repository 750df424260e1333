// Instantiates the header-only entry points so that the exporter sees their bodies.
// Nothing here is run: the translation unit is only parsed.
#include <hpp/bezier-com-traj/solve_end_effector.hh>

struct verif_path {
  bezier_com_traj::Vector3 operator()(double t) const;
};

namespace bezier_com_traj {
template ResultDataCOMTraj solveEndEffector<verif_path>(
    const ProblemData&, const verif_path&, const double, const double, bool);
}

// Callers of the public interface that leave out what may be left out. Never run.
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>

struct verif_path {
  bezier_com_traj::Vector3 operator()(double t) const;
};

namespace verif {
using namespace bezier_com_traj;
typedef std::pair<MatrixXX, VectorX> MV;

ResultData solve_3(const MV& Ab, const MV& Hg, const VectorX& x) { return solve(Ab, Hg, x); }
ResultData solve_4(const MV& Ab, const MV& Hg, const VectorX& x, solvers::SolverType s) { return solve(Ab, Hg, x, s); }
ResultData solve_6(const MV& Ab, const MV& Dd, const MV& Hg, Cref_vectorX lo, Cref_vectorX hi, const VectorX& x) { return solve(Ab, Dd, Hg, lo, hi, x); }
ResultData solve_7(const MV& Ab, const MV& Dd, const MV& Hg, Cref_vectorX lo, Cref_vectorX hi, const VectorX& x, solvers::SolverType s) { return solve(Ab, Dd, Hg, lo, hi, x, s); }
ResultData solve_lim(Cref_matrixXX A, Cref_vectorX b, Cref_matrixXX H, Cref_vectorX g, Cref_vectorX x, Cref_vectorX lo, Cref_vectorX hi) { return solve(A, b, H, g, x, lo, hi); }
ResultData solve_lim_s(Cref_matrixXX A, Cref_vectorX b, Cref_matrixXX H, Cref_vectorX g, Cref_vectorX x, Cref_vectorX lo, Cref_vectorX hi, solvers::SolverType s) { return solve(A, b, H, g, x, lo, hi, s); }
ResultData solve_eq(Cref_matrixXX A, Cref_vectorX b, Cref_matrixXX D, Cref_vectorX d, Cref_matrixXX H, Cref_vectorX g, Cref_vectorX x) { return solve(A, b, D, d, H, g, x); }
ResultData solve_eq_s(Cref_matrixXX A, Cref_vectorX b, Cref_matrixXX D, Cref_vectorX d, Cref_matrixXX H, Cref_vectorX g, Cref_vectorX x, solvers::SolverType s) { return solve(A, b, D, d, H, g, x, s); }
ResultDataCOMTraj com_2(const ProblemData& p, const VectorX& T) { return computeCOMTraj(p, T); }
ResultDataCOMTraj com_3(const ProblemData& p, const VectorX& T, double t) { return computeCOMTraj(p, T, t); }
ResultDataCOMTraj fixed_2(const ProblemData& p, const VectorX& T) { return computeCOMTrajFixedSize(p, T); }
ResultDataCOMTraj zero_2(const ProblemData& p, const std::vector<double>& T) { return solve0step(p, T); }
ResultDataCOMTraj ee_4(const ProblemData& p, const verif_path& f, double T, double w) { return solveEndEffector(p, f, T, w); }
}  // namespace verif

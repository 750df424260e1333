// Drivers that name the operations of the data carriers, so that the analysis
// sees whatever constructor or operator the compiler selects. Never run.
#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/utils.hh>

namespace verif {
using namespace bezier_com_traj;

ContactData contact_default() { return ContactData(); }
ContactData contact_copy(const ContactData& a) { ContactData b(a); return b; }
ContactData contact_of(centroidal_dynamics::Equilibrium* e) { return ContactData(e); }
Constraints constraints_default() { return Constraints(); }
Constraints constraints_of(ConstraintFlag f) { return Constraints(f); }
Constraints constraints_copy(const Constraints& a) { Constraints b(a); return b; }
void constraints_assign(Constraints& a, const Constraints& b) { a = b; }
ProblemData problem_default() { return ProblemData(); }
ProblemData problem_copy(const ProblemData& a) { ProblemData b(a); return b; }
void problem_assign(ProblemData& a, const ProblemData& b) { a = b; }
void problem_add(ProblemData& a, const ContactData& c) { a.contacts_.push_back(c); }
ResultDataCOMTraj result_default() { return ResultDataCOMTraj(); }
ResultDataCOMTraj result_copy(const ResultDataCOMTraj& a) { ResultDataCOMTraj b(a); return b; }
void result_assign(ResultDataCOMTraj& a, const ResultDataCOMTraj& b) { a = b; }
solvers::ResultData solver_default() { return solvers::ResultData(); }
solvers::ResultData solver_copy(const solvers::ResultData& a) { solvers::ResultData b(a); return b; }
void solver_assign(solvers::ResultData& a, const solvers::ResultData& b) { a = b; }
solvers::ResultData solver_of(const bool s, const double c, solvers::Cref_vectorX x) { return solvers::ResultData(s, c, x); }

ConstraintFlag f_or(ConstraintFlag a, ConstraintFlag b) { return a | b; }
ConstraintFlag f_and(ConstraintFlag a, ConstraintFlag b) { return a & b; }
ConstraintFlag f_xor(ConstraintFlag a, ConstraintFlag b) { return a ^ b; }
ConstraintFlag f_not(ConstraintFlag a) { return ~a; }
ConstraintFlag f_or_eq(ConstraintFlag a, ConstraintFlag b) { a |= b; return a; }
ConstraintFlag f_and_eq(ConstraintFlag a, ConstraintFlag b) { a &= b; return a; }
ConstraintFlag f_xor_eq(ConstraintFlag a, ConstraintFlag b) { a ^= b; return a; }
ConstraintFlag f_chain(ConstraintFlag a, ConstraintFlag b, ConstraintFlag c) { (a |= b) ^= c; return a; }

waypoint_t wp_add(const waypoint_t& a, const waypoint_t& b) { return a + b; }
waypoint_t wp_sub(const waypoint_t& a, const waypoint_t& b) { return a - b; }
waypoint_t wp_mul(const waypoint_t& a, const double k) { return a * k; }
waypoint_t wp_lmul(const waypoint_t& a, const double k) { return k * a; }
waypoint_t wp_init(const size_t r, const size_t c) { return initwp(r, c); }
waypoint_t wp_zero(const size_t r) { return waypoint_t::Zero(r); }
waypoint_t wp_copy(const waypoint_t& a) { waypoint_t b(a); return b; }
void wp_assign(waypoint_t& a, const waypoint_t& b) { a = b; }
waypoint_t wp_default() { return waypoint_t(); }
size_t wp_size(const waypoint_t& a) { return a.size(); }
bool wp_eq(const waypoint_t& a, const waypoint_t& b) { return a == b; }
bool wp_ne(const waypoint_t& a, const waypoint_t& b) { return a != b; }
bool wp_near(const waypoint_t& a, const waypoint_t& b, const double p) { return a.isApprox(b, p); }
waypoint9_t wp9() { return initwp<waypoint9_t>(); }
waypoint6_t wp6() { return initwp<waypoint6_t>(); }
waypoint3_t wp3() { return initwp<waypoint3_t>(); }
Matrix3 skew_of(const point_t& x) { return skew(x); }
int normalize(MatrixXX& A, VectorX& b) { return Normalize(A, b); }
}  // namespace verif

// Drivers of the dense QP solver: what a caller can see of a solve. Never run.
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>

namespace verif {
using tsid::solvers::EiquadprogFast;
typedef EiquadprogFast::MatrixXd MatrixXd;
typedef EiquadprogFast::VectorXd VectorXd;
typedef EiquadprogFast::VectorXi VectorXi;

struct QpOut {
  int status, active, iterations;
  double cost;
  VectorXd x, u;
  VectorXi A;
};

void qp_read(EiquadprogFast& qp, int status, const VectorXd& x, QpOut& o) {
  o.status = status;
  o.active = qp.getActiveSetSize();
  o.iterations = qp.getIteratios();
  o.cost = qp.getObjValue();
  o.x = x;
  o.u = qp.getLagrangeMultipliers();
  o.A = qp.getActiveSet();
}

QpOut qp_run(const MatrixXd& H, const VectorXd& g, const MatrixXd& CE, const VectorXd& ce, const MatrixXd& CI, const VectorXd& ci, int iters) {
  EiquadprogFast qp;
  QpOut o;
  VectorXd x(g.size());
  if (iters >= 0) qp.setMaxIter(iters);
  int s = qp.solve_quadprog(H, g, CE, ce, CI, ci, x);
  qp_read(qp, s, x, o);
  return o;
}

QpOut qp_sparse(const EiquadprogFast::SpMat& H, const VectorXd& g, const MatrixXd& CE, const VectorXd& ce, const MatrixXd& CI, const VectorXd& ci, int iters) {
  EiquadprogFast qp;
  QpOut o;
  VectorXd x(g.size());
  if (iters >= 0) qp.setMaxIter(iters);
  int s = qp.solve_quadprog_sparse(H, g, CE, ce, CI, ci, x);
  qp_read(qp, s, x, o);
  return o;
}

// the same object solves another problem first
QpOut qp_again(const MatrixXd& H0, const VectorXd& g0, const MatrixXd& CE0, const VectorXd& ce0, const MatrixXd& CI0, const VectorXd& ci0,
               const MatrixXd& H, const VectorXd& g, const MatrixXd& CE, const VectorXd& ce, const MatrixXd& CI, const VectorXd& ci, int iters, int sparse) {
  EiquadprogFast qp;
  QpOut o;
  VectorXd x(g.size()), x0(g0.size());
  qp.reset((int)g0.size(), (int)ce0.size(), (int)ci0.size());
  if (sparse & 1)
    qp.solve_quadprog_sparse(EiquadprogFast::SpMat(H0.sparseView()), g0, CE0, ce0, CI0, ci0, x0);
  else
    qp.solve_quadprog(H0, g0, CE0, ce0, CI0, ci0, x0);
  qp.setMaxIter(iters);
  int s;
  if (sparse & 2)
    s = qp.solve_quadprog_sparse(EiquadprogFast::SpMat(H.sparseView()), g, CE, ce, CI, ci, x);
  else
    s = qp.solve_quadprog(H, g, CE, ce, CI, ci, x);
  qp_read(qp, s, x, o);
  return o;
}

// the caller provides J with J J^T = H^-1
QpOut qp_inverse(const MatrixXd& J, const MatrixXd& H, const VectorXd& g, const MatrixXd& CE, const VectorXd& ce, const MatrixXd& CI, const VectorXd& ci) {
  EiquadprogFast qp;
  QpOut o;
  VectorXd x(g.size());
  qp.reset((int)g.size(), (int)ce.size(), (int)ci.size());
  qp.m_J = J;
  qp.is_inverse_provided_ = true;
  int s = qp.solve_quadprog(H, g, CE, ce, CI, ci, x);
  qp_read(qp, s, x, o);
  return o;
}

int qp_max(int iters, bool& ok) {
  EiquadprogFast qp;
  ok = qp.setMaxIter(iters);
  return qp.getMaxIter();
}
}  // namespace verif

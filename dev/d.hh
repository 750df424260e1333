#pragma once
#include <hpp/bezier-com-traj/common_solve_methods.hh>
#include <hpp/bezier-com-traj/solve.hh>
#include <hpp/bezier-com-traj/solve_end_effector.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#include <hpp/centroidal-dynamics/centroidal_dynamics.hh>
#include <cstdio>
#include <cstdlib>
#include <iostream>
using namespace bezier_com_traj;
typedef centroidal_dynamics::Equilibrium Eq;

#define REQ(c, ...)                                \
  do {                                             \
    if (!(c)) {                                    \
      std::printf("FAILED %s: ", #c);              \
      std::printf(__VA_ARGS__);                    \
      std::printf("\n");                           \
      std::exit(3);                                \
    }                                              \
  } while (0)

// a rectangular flat support polygon centred in (cx, cy), contacts in the corners
inline Eq* flat(double cx, double cy, double lx, double ly, double mass = 50.) {
  Eq* e = new Eq("e", mass, 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 10, false);
  centroidal_dynamics::MatrixX3 P(4, 3), N(4, 3);
  P << cx + lx, cy + ly, 0, cx + lx, cy - ly, 0, cx - lx, cy + ly, 0, cx - lx, cy - ly, 0;
  N << 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1;
  e->setNewContacts(P, N, 0.5, centroidal_dynamics::EQUILIBRIUM_ALGORITHM_PP);
  return e;
}

// box lo <= c <= hi as kinematic constraints
inline void box(ContactData& c, const Vector3& lo, const Vector3& hi) {
  c.Kin_ = MatrixX3::Zero(6, 3);
  c.kin_ = VectorX::Zero(6);
  for (int i = 0; i < 3; ++i) {
    c.Kin_(i, i) = 1;
    c.kin_(i) = hi(i);
    c.Kin_(3 + i, i) = -1;
    c.kin_(3 + i) = -lo(i);
  }
}

// row a x <= b is among the rows of (A, b), up to scaling
inline bool hasRow(const MatrixXX& A, const VectorX& b, VectorX a, double c) {
  double n = a.norm();
  a /= n;
  c /= n;
  for (int i = 0; i < A.rows(); ++i) {
    double m = A.row(i).norm();
    if (m < 1e-12) continue;
    VectorX r = VectorX::Zero(A.cols());
    r.head(a.size()) = a;
    if ((A.row(i).transpose() / m - r).norm() < 1e-6 && std::fabs(b(i) / m - c) < 1e-6) return true;
  }
  return false;
}

inline double binom(int n, int k) { return k == 0 ? 1. : binom(n - 1, k - 1) * n / k; }
inline Vector3 bezierAt(const std::vector<Vector3>& p, double u) {
  Vector3 r = Vector3::Zero();
  int n = (int)p.size() - 1;
  for (int i = 0; i <= n; ++i) r += binom(n, i) * std::pow(u, i) * std::pow(1 - u, n - i) * p[i];
  return r;
}
inline std::vector<Vector3> bezierDer(const std::vector<Vector3>& p, double T) {
  std::vector<Vector3> r;
  for (size_t i = 0; i + 1 < p.size(); ++i) r.push_back((p[i + 1] - p[i]) * double(p.size() - 1) / T);
  return r;
}

#ifdef CAPTURE
// the problem handed to the back end
struct Cap {
  MatrixXX A, D, H;
  VectorX b, d, g, lo, hi;
  int n;
  bool succeed;
  VectorX x;
};
static Cap cap;
namespace solvers {
ResultData solve(const MatrixXd& A, const VectorXd& b, const MatrixXd& D, const VectorXd& d, const MatrixXd& Hess, const VectorXd& g, const VectorXd& init, Cref_vectorX lo,
                 Cref_vectorX hi, const SolverType) {
  cap.A = A, cap.b = b, cap.D = D, cap.d = d, cap.H = Hess, cap.g = g, cap.lo = lo, cap.hi = hi;
  cap.n++;
  ResultData r;
  r.success_ = cap.succeed;
  r.cost_ = 1.;
  r.x = cap.x.size() == g.size() ? cap.x : VectorXd(VectorXd::Constant(g.size(), 0.25));
  return r;
}
}  // namespace solvers
#endif

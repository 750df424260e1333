"""seeded changes: edits (file, old, new), demonstration, what they need"""
B = {}
W = "include/hpp/bezier-com-traj/waypoints/"


def bug(id, prop, edits, demo, needs, breaks, extra="", files=()):
    B[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, extra=extra, files=dict(files))


bug("b01-kin-switch", "C05", [("src/computeCOMTraj.cpp", """          b.segment(id_rows, current_size) =
              pData.contacts_[id_phase].kin_ -
              (pData.contacts_[id_phase].Kin_ * wps_c[id_step].second);
          id_rows += current_size;
        }
      }""", """          const int id_switch = stepIdForPhase[std::min(i, (std::size_t)1)];
          b.segment(id_rows, current_size) =
              pData.contacts_[id_phase].kin_ -
              (pData.contacts_[id_phase].Kin_ * wps_c[id_switch].second);
          id_rows += current_size;
        }
      }""")], r'''#define CAPTURE
#include "d.hh"
int main() {
  ProblemData pd;
  for (int i = 0; i < 4; ++i) {
    pd.contacts_.push_back(ContactData(flat(0.1 * i, 0, 0.5, 0.5)));
    box(pd.contacts_.back(), Vector3(-1 - i, -1, 0.2), Vector3(1 + i, 1 + 0.1 * i, 1.2));
  }
  pd.c0_ << 0, 0, 0.8;
  pd.c1_ << 0.3, 0.1, 0.8;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS | END_VEL;
  VectorX Ts(4);
  Ts << 1., 1., 1., 1.;
  cap.succeed = false;
  computeCOMTrajFixedSize(pd, Ts, 4);
  REQ(cap.n == 1, "solver called %d times", cap.n);
  // curve: 4 control points fixed around the free one; the point is (b2 x + rest)
  std::vector<Vector3> p = {pd.c0_, pd.c0_, Vector3::Zero(), pd.c1_, pd.c1_};
  for (int w = 1; w < 4; ++w) {
    double u = w / 4.;
    double k = binom(4, 2) * u * u * (1 - u) * (1 - u);
    Vector3 s = bezierAt(p, u);
    for (int i = w - 1; i <= w; ++i) {
      const ContactData& c = pd.contacts_[i];
      for (int r = 0; r < 6; ++r)
        REQ(hasRow(cap.A, cap.b, k * c.Kin_.row(r).transpose(), c.kin_(r) - c.Kin_.row(r).dot(s)), "phase %d constraint %d missing at switch %d", i, r, w);
    }
  }
  return 0;
}
''', "four contact phases, discretised formulation", "the kinematic constraints of the last phase are imposed at the wrong instant when it starts")

bug("b02-acc-power", "C02", [(W + "waypoints_c0_dc0_ddc0_dc1_c1.hh", "             180.0 * pi[1] * t - 40.0 * pi[1] - 200.0 * pi[2] * t3 +", "             180.0 * pi[1] * t2 - 40.0 * pi[1] - 200.0 * pi[2] * t3 +")], r'''#include "d.hh"
int main() {
  ProblemData pd;
  pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
  pd.c0_ << 0.1, 0.2, 0.8;
  pd.dc0_ << 0.3, -0.2, 0.1;
  pd.ddc0_ << -0.3, 0.4, 0.2;
  pd.c1_ << 0.5, -0.1, 0.9;
  pd.dc1_ << 0.1, 0.2, 0.;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL;
  double T = 1.7;
  std::vector<point_t> pi = computeConstantWaypoints(pd, T);
  std::vector<Vector3> p(pi.begin(), pi.end());
  Vector3 x(0.2, -0.3, 0.7);
  p[3] = x;
  std::vector<Vector3> dd = bezierDer(bezierDer(p, T), T);
  for (int k = 0; k <= 10; ++k) {
    std::pair<double, point3_t> a = evaluateAccelerationCurveAtTime(pd, pi, T, k / 10.);
    REQ((a.first * x + a.second - bezierAt(dd, k / 10.)).norm() < 1e-8, "acceleration at %f", k / 10.);
  }
  return 0;
}
''', "the family with initial acceleration and terminal velocity, a non zero term in the second control point, an instant inside the curve",
    "the acceleration of the curve is wrong between its ends")

bug("b03-margin", "C06", [("src/computeCOMTraj.cpp", """    h -= VectorX::Ones(h.rows()) * pData.constraints_.reduce_h_;""", """    h -= h.cwiseAbs() * pData.constraints_.reduce_h_;""")], r'''#define CAPTURE
#include "d.hh"
int main() {
  ProblemData pd;
  pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
  pd.c0_ << 0, 0, 0.8;
  pd.c1_ << 0.3, 0, 0.8;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS;
  VectorX Ts(1);
  Ts << 2.;
  cap.succeed = false;
  pd.constraints_.reduce_h_ = 0;
  computeCOMTraj(pd, Ts);
  MatrixXX A = cap.A;
  VectorX b = cap.b;
  pd.constraints_.reduce_h_ = 5.;
  computeCOMTraj(pd, Ts);
  REQ(cap.n == 2 && A.rows() == cap.A.rows() && A.rows() > 0, "solver called %d times", cap.n);
  for (int i = 0; i < A.rows(); ++i) REQ(cap.b(i) < b(i) - 1e-6, "row %d has no margin", i);
  return 0;
}
''', "a robustness margin large enough to matter", "the margin of the stability constraints is lost")

bug("b04-cost-phase", "C07", [("src/costfunction_definition.cpp", """  for (size_t i = 0; i < wps_ddc.size(); ++i) {
    H.block<3, 3>(0, 0) +=
        Matrix3::Identity() * wps_ddc[i].first * wps_ddc[i].first;
    g.head<3>() += wps_ddc[i].first * wps_ddc[i].second;
  }""", """  for (size_t i = 0; i < wps_ddc.size(); ++i) {
    // instants shared by two phases count once
    H.block<3, 3>(0, 0) +=
        Matrix3::Identity() * wps_ddc[i].first * wps_ddc[i].first;
    if (i > 0 && timeArray[i].first == timeArray[i - 1].first) continue;
    g.head<3>() += wps_ddc[i].first * wps_ddc[i].second;
  }""")], r'''#define CAPTURE
#include "d.hh"
int main() {
  ProblemData pd;
  pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
  pd.contacts_.push_back(ContactData(flat(0.3, 0, 0.5, 0.5)));
  pd.c0_ << 0, 0.1, 0.8;
  pd.dc0_ << 0.5, -0.3, 0.1;
  pd.c1_ << 0.3, 0, 0.9;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS | END_VEL;
  VectorX Ts(2);
  Ts << 1., 1.5;
  cap.succeed = false;
  computeCOMTraj(pd, Ts, 0.25);
  REQ(cap.n == 1, "solver called %d times", cap.n);
  // independent sum over the sampled instants
  std::vector<double> t;
  for (int i = 0; i < 4; ++i) t.push_back(i * 0.25);
  t.push_back(1.);
  for (int i = 0; i < 6; ++i) t.push_back(1. + i * 0.25);
  t.push_back(2.5);
  std::vector<Vector3> p = {pd.c0_, pd.c0_ + pd.dc0_ * 2.5 / 4, Vector3::Zero(), pd.c1_, pd.c1_};
  std::vector<Vector3> e(5, Vector3::Zero());
  e[2] = Vector3::Ones();
  double H = 0;
  Vector3 g = Vector3::Zero();
  std::vector<Vector3> dp = bezierDer(bezierDer(p, 2.5), 2.5), de = bezierDer(bezierDer(e, 2.5), 2.5);
  for (double s : t) {
    double k = bezierAt(de, s / 2.5)(0);
    H += k * k;
    g += k * bezierAt(dp, s / 2.5);
  }
  Vector3 x = -g / H, y = -cap.H.topLeftCorner(3, 3).inverse() * cap.g.head(3);
  REQ((x - y).norm() < 1e-3, "minimiser %f %f %f instead of %f %f %f", y(0), y(1), y(2), x(0), x(1), x(2));
  return 0;
}
''', "at least two phases sampled with a time step, so that an instant is sampled twice", "the quadratic and the linear part of the acceleration objective are summed over different instants")

bug("b05-step-times", "C08", [("src/utils.cpp", """    while (t < currentTiming) {""", """    while (t + timeStep <= currentTiming) {""")], r'''#include "d.hh"
int main() {
  VectorX Ts(3);
  Ts << 1.1, 0.6, 2.;
  T_time t = computeDiscretizedTime(Ts, 0.25);
  for (size_t k = 1; k < t.size(); ++k) REQ(t[k].first - t[k - 1].first < 0.25 + 1e-9, "no instant between %f and %f", t[k - 1].first, t[k].first);
  return 0;
}
''', "a phase whose duration is not a multiple of the time step", "the last part of the phase is sampled with nearly twice the requested step")

bug("b06-lp-small", "C10", [("src/glpk-wrapper.cpp", "      if (CE(i, j) != 0.) {", "      if (CE(i, j) > 1e-9 || CE(i, j) < -1e-6) {")], r'''#include "d.hh"
#include <hpp/bezier-com-traj/solver/solver-abstract.hpp>
int main() {
  // x0 - 5e-7 x1 = 0, 0 <= x1 <= 1e4, x0 <= 1, minimise -x1 - 10 x0: x1 = 1e4, x0 = 5e-3
  MatrixXX A(1, 2), D(1, 2), H = MatrixXX::Zero(2, 2);
  VectorX b(1), d(1), g(2), lo(2), hi(2), x = VectorX::Zero(2);
  A << 1, 0;
  b << 1;
  D << 1, -5e-7;
  d << 0;
  g << -10, -1;
  lo << -1, 0;
  hi << 1, 1e4;
  ResultData r = solvers::solve(A, b, D, d, H, g, x, lo, hi, solvers::SOLVER_GLPK);
  REQ(r.success_, "no solution");
  REQ(std::fabs(r.x(0) - 5e-7 * r.x(1)) < 1e-9, "x = %g %g", r.x(0), r.x(1));
  return 0;
}
''', "an equality with a small negative coefficient", "coefficients of equalities between -1e-6 and 0 are dropped from the problem given to the LP back end")

bug("b07-phases", "C12", [("src/computeCOMTraj.cpp", """  if (Ts.size() != (int)pData.contacts_.size())
    throw std::runtime_error(
        "Time phase vector has different size than the number of contact "
        "phases");
  double T = Ts.sum();
  T_time timeArray;""", """  if (Ts.size() > (int)pData.contacts_.size())
    throw std::runtime_error(
        "Time phase vector has different size than the number of contact "
        "phases");
  double T = Ts.sum();
  T_time timeArray;""")], r'''#include "d.hh"
int main() {
  ProblemData pd;
  pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
  pd.contacts_.push_back(ContactData(flat(0.3, 0, 0.5, 0.5)));
  pd.c0_ << 0, 0, 0.8;
  pd.c1_ << 0.1, 0, 0.8;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS;
  VectorX Ts(1);
  Ts << 1.;
  bool thrown = false;
  try {
    computeCOMTraj(pd, Ts, 0.1);
  } catch (const std::exception&) {
    thrown = true;
  }
  REQ(thrown, "fewer durations than phases are accepted");
  return 0;
}
''', "fewer durations than contact phases", "a problem whose last phases have no duration is planned without them")

bug("b08-momentum", "C09", [("src/solve_0_step.cpp", """  w.first.block<3, 3>(3, 0) = -1.5 * alpha * Matrix3::Identity();
  // w.second.head(3) = 0;
  // w.second.tail(3) = 0.;""", """  w.first.block<3, 3>(3, 0) = -1. * alpha * Matrix3::Identity();
  // w.second.head(3) = 0;
  // w.second.tail(3) = 0.;""")], r'''#define CAPTURE
#include "d.hh"
int main() {
  ProblemData pd;
  Eq* e = flat(0, 0, 0.5, 0.5);
  pd.contacts_.push_back(ContactData(e));
  pd.c0_ << 0, 0, 0.8;
  pd.useAngularMomentum_ = true;
  pd.l0_ << 0.3, -0.2, 0.1;
  std::vector<double> Ts(1, 0.7);
  cap.succeed = false;
  solve0step(pd, Ts, -1.);
  REQ(cap.n == 1, "solver called %d times", cap.n);
  centroidal_dynamics::MatrixXX H;
  VectorX h;
  e->getPolytopeInequalities(H, h);
  MatrixXX U = -H;
  U.rowwise().normalize();
  // derivative of the momentum, l0 -> x in 0.7 s: 3/T [(x - l0), -x, 0] elevated to degree 4
  int n = (int)U.rows();
  REQ(cap.A.rows() == 5 * n, "%d rows", (int)cap.A.rows());
  double k[5] = {3, 0, -1.5, -1.5, 0};
  for (int i = 0; i < 5; ++i)
    REQ((cap.A.block(i * n, 3, n, 3) - k[i] / 0.7 * U.rightCols(3)).norm() < 1e-6, "control point %d", i);
  return 0;
}
''', "angular momentum enabled", "the fourth control point of the derivative of the momentum is wrong, so the stability constraints are those of another motion")

bug("b09-static", "C15", [("src/computeCOMTraj.cpp", """  MatrixXX H = MatrixXX::Identity(dim, dim) * 1e-6;
  VectorX g = VectorX::Zero(dim);""", """  static MatrixXX H = MatrixXX::Identity(dim, dim) * 1e-6;
  if (H.rows() < dim) H = MatrixXX::Identity(dim, dim) * 1e-6;
  VectorX g = VectorX::Zero(H.rows());""")], r'''#define CAPTURE
#include "d.hh"
int main() {
  ProblemData pd;
  pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
  pd.c0_ << 0, 0, 0.8;
  pd.c1_ << 0.1, 0, 0.8;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS;
  VectorX Ts(1);
  Ts << 1.;
  cap.succeed = false;
  computeCOMTraj(pd, Ts, 0.1);
  long n0 = cap.H.rows();
  ProblemData pf(pd);
  pf.representation_ = FORCE;
  computeCOMTraj(pf, Ts, -1.);
  computeCOMTraj(pd, Ts, 0.1);
  REQ(cap.n == 3, "solver called %d times", cap.n);
  REQ(n0 == 3 && cap.H.rows() == 3, "the same problem has %d then %d variables", (int)n0, (int)cap.H.rows());
  return 0;
}
''', "a call with the force representation before a call without", "the cost matrix is kept between calls: a call depends on the calls made before it")

bug("b10-normalise", "C20", [("src/common_solve_methods.cpp", "      b.row(i).swap(b.row(last));\n", "      b(i) = b(last);\n"), ("src/common_solve_methods.cpp", "    if (empty(i)) {\n      assert(A.row(i).norm() == 0);", "    if (empty(i) && i < last) {\n      assert(A.row(i).norm() == 0);")], r'''#include "d.hh"
namespace bezier_com_traj {
int Normalize(Ref_matrixXX A, Ref_vectorX b);
}
int main() {
  MatrixXX A(4, 3);
  VectorX b(4);
  A << 3, 4, 0, 0, 2, 0, 0, 0, 5, 0, 0, 0;
  b << 10, 4, 15, 1;
  int n = Normalize(A, b);
  REQ(n == 3, "%d rows are counted", n);
  A << 3, 4, 0, 0, 2, 0, 0, 0, 5, 0, 0, 0;
  b << 10, 4, 15, -1;
  n = Normalize(A, b);
  REQ(n == -1, "a contradictory empty row gives %d", n);
  return 0;
}
''', "an empty row in last position", "an empty last row is counted as a constraint, and a contradictory one is not reported")

bug("b11-kin-rows", "C14", [("src/computeCOMTraj.cpp", """    num_stab_ineq += Hrow.rows() * numStepForPhase;
    num_kin_ineq += pData.contacts_[i].kin_.rows() * numStepForPhase;""", """    num_stab_ineq += Hrow.rows() * numStepForPhase;
    num_kin_ineq += pData.contacts_[i].Kin_.rows() * numStepForPhase;""")], r'''#define CAPTURE
#include "d.hh"
int main() {
  int rows[2];
  for (int k = 0; k < 2; ++k) {
    ProblemData pd;
    pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
    // no kinematic constraints: their matrix has no meaning then
    pd.contacts_[0].Kin_ = MatrixX3::Zero(3 * k, 3);
    pd.c0_ << 0, 0, 0.8;
    pd.c1_ << 0.1, 0, 0.8;
    pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS;
    VectorX Ts(1);
    Ts << 2.;
    cap.succeed = false;
    computeCOMTraj(pd, Ts, 0.25);
    rows[k] = (int)cap.A.rows();
  }
  REQ(rows[0] == rows[1], "%d rows, %d of them never written", rows[1], rows[1] - rows[0]);
  return 0;
}
''', "a contact without kinematic constraints, as constructed by default, discretised formulation", "rows that are never written, with right-hand sides read from uninitialised memory, are handed to the solver")

bug("b12-copy", "C16", [("include/hpp/bezier-com-traj/data.hh", """        Kin_(other.Kin_),
        kin_(other.kin_),
        Ang_(other.Ang_),
        ang_(other.ang_) {}""", """        Kin_(other.Kin_),
        kin_(other.kin_),
        Ang_(other.ang_.size() > 3 ? other.Ang_ : MatrixX3(Eigen::Matrix3d::Zero())),
        ang_(other.ang_) {}""")], r'''#include "d.hh"
int main() {
  ContactData c(flat(0, 0, 0.5, 0.5));
  c.Ang_ = MatrixX3::Zero(2, 3);
  c.Ang_(0, 0) = 1;
  c.Ang_(1, 2) = -1;
  c.ang_ = VectorX::Ones(2);
  ContactData d(c);
  REQ(d.Ang_.rows() == 2 && (d.Ang_ - c.Ang_).norm() == 0, "angular momentum constraints of the copy differ");
  return 0;
}
''', "angular momentum constraints with few rows", "copies of contact data lose the matrix of the angular momentum constraints")

bug("b13-ee-path", "C13", [("include/hpp/bezier-com-traj/solve_end_effector.hh", """  for (size_t i = 0; i < numPoints; ++i)
    pts_path.push_back(path(((double)i * step)));""", """  for (size_t i = 0; i < numPoints; ++i)
    pts_path.push_back(path(i + 2 < numPoints ? ((double)i * step) : 1.));""")], r'''#define CAPTURE
#include "d.hh"
struct Path {
  mutable double last;
  Path() : last(-1) {}
  Vector3 operator()(double t) const { return Vector3(0.3 * t * t, 0.2 * std::sin(3 * t), 0.1 * t); }
};
int main() {
  ProblemData pd;
  pd.c0_ << 0, 0, 0;
  pd.c1_ << 0.3, 0.1, 0.1;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_JERK | END_ACC | END_VEL | END_POS | FIVE_FREE_VAR;
  Path path;
  cap.succeed = false;
  solveEndEffector(pd, path, 1.4, 1.0, false);
  REQ(cap.n == 1, "solver called %d times", cap.n);
  // independent sum of squared distances to the path at 50 instants
  double T = 1.4;
  std::vector<point_t> pi = computeConstantWaypoints(pd, T);
  MatrixXX H = MatrixXX::Zero(15, 15);
  VectorX g = VectorX::Zero(15);
  for (int k = 0; k < 50; ++k) {
    double u = k / 49.;
    std::vector<Vector3> p(pi.begin(), pi.end());
    for (int j = 4; j < 9; ++j) p[j].setZero();
    Vector3 s = bezierAt(p, u) - path(u);
    MatrixXX M = MatrixXX::Zero(3, 15);
    for (int j = 0; j < 5; ++j) M.block(0, 3 * j, 3, 3) = binom(12, 4 + j) * std::pow(u, 4 + j) * std::pow(1 - u, 8 - j) * MatrixXX::Identity(3, 3);
    H += M.transpose() * M;
    g += M.transpose() * s;
  }
  double n = H.norm();
  REQ((cap.g - g / n).norm() < 1e-7 * (1 + g.norm() / n), "linear cost differs by %g", (cap.g - g / n).norm());
  return 0;
}
''', "a path that still moves in its last fiftieth", "the last but one sample of the tracked path is taken at its end")

bug("b14-cone", "C19", [("src/solve_0_step.cpp", """  ResultDataCOMTraj res;
  if (fail) return res;""", """  ResultDataCOMTraj res;
  if (fail && Ab.first.rows() > 0) return res;
  if (fail)
    Ab = std::make_pair(MatrixXX(MatrixXX::Zero(0, pData.useAngularMomentum_ ? 6 : 3)),
                        VectorX(VectorX::Zero(0)));""")], r'''#include "d.hh"
int main() {
  ProblemData pd;
  // contact phase whose contacts were never set: its cone cannot be computed
  Eq* e = new Eq("e", 50., 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 10, false);
  pd.contacts_.push_back(ContactData(e));
  pd.c0_ << 0, 0, 0.8;
  std::vector<double> Ts(1, 1.);
  bool ok = false;
  try {
    ok = solve0step(pd, Ts, -1.).success_;
  } catch (const std::exception&) {
  }
  REQ(!ok, "a stop without known cone is reported as feasible");
  return 0;
}
''', "a contact phase whose cone cannot be computed", "the zero step planner solves the problem without stability constraints and reports success")

bug("b15-x3-jerk", "C03", [(W + "waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh", "       t6 * (1.0 * (-5040.0 * pi[0] + 45360.0 * pi[1] - 181440.0 * pi[2] +\n                    423360.0 * pi[3] + 181440.0 * pi[7] - 45360.0 * pi[8] +", "       t6 * (1.0 * (-5040.0 * pi[0] + 45360.0 * pi[1] - 181440.0 * pi[2] +\n                    423360.0 * pi[3] + 181440.0 * pi[7] - 43560.0 * pi[8] +")], r'''#include "d.hh"
int main() {
  ProblemData pd;
  pd.c0_ << 0.1, 0.2, 0.3;
  pd.dc0_ << 0.3, -0.2, 0.1;
  pd.j1_ << 0.3, -0.2, 0.1;
  pd.ddc1_ << -0.3, 0.4, 0.2;
  pd.c1_ << 0.5, -0.1, 0.4;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_JERK | END_ACC | END_VEL | END_POS | THREE_FREE_VAR;
  double T = 1.3;
  std::vector<point_t> pi = computeConstantWaypoints(pd, T);
  std::vector<Vector3> p(pi.begin(), pi.end());
  VectorX x(9);
  x << 0.1, 0.2, 0.3, -0.1, 0.4, 0.2, 0.6, -0.3, 0.1;
  for (int i = 0; i < 3; ++i) p[4 + i] = x.segment<3>(3 * i);
  std::vector<Vector3> j = bezierDer(bezierDer(bezierDer(p, T), T), T);
  for (int k = 0; k <= 10; ++k) {
    waypoint_t w = evaluateJerkCurveWaypointAtTime(pd, T, pi, k / 10.);
    Vector3 e = w.first * x + w.second - bezierAt(j, k / 10.);
    REQ(e.norm() < 1e-2, "jerk at %f differs by %g", k / 10., e.norm());
  }
  return 0;
}
''', "the family with three free points, late in the curve", "the jerk of the curve as a function of the free points is wrong")

bug("b16-wrench", "C04", [(W + "waypoints_c0_dc0_ddc0_dc1_c1.hh", "       0.571428571428571 * Cpi[0] * pi[5] + 8.57142857142857 * Cpi[1] * pi[4]) *", "       0.571428571428571 * Cpi[0] * pi[5] + 8.57142857142857 * Cpi[1] * pi[5]) *")], r'''#include "d.hh"
int main() {
  ProblemData pd;
  Eq* e = flat(0, 0, 0.5, 0.5);
  pd.contacts_.push_back(ContactData(e));
  pd.c0_ << 0.1, 0.2, 0.8;
  pd.dc0_ << 0.3, -0.2, 0.1;
  pd.c1_ << 0.5, -0.1, 0.9;
  pd.dc1_ << 0.4, 0.2, -0.3;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL;
  double T = 1.7;
  std::vector<point_t> pi = computeConstantWaypoints(pd, T);
  std::vector<Vector3> p(pi.begin(), pi.end());
  Vector3 x(0.2, -0.3, 0.7), g = e->m_gravity;
  p[3] = x;
  std::vector<Vector3> dd = bezierDer(bezierDer(p, T), T);
  bezier_wp_t::t_point_t w = computeWwaypoints(pd, T);
  bezier_wp_t c(w.begin(), w.end(), 0., T);
  for (int k = 0; k <= 10; ++k) {
    waypoint_t v = c(T * k / 10.);
    VectorX r = v.first * x + v.second;
    Vector3 pos = bezierAt(p, k / 10.), acc = bezierAt(dd, k / 10.);
    REQ((r.head<3>() - acc).norm() < 1e-6, "force at %d", k);
    REQ((r.tail<3>() - (pos.cross(acc) - pos.cross(g))).norm() < 1e-6, "moment at %d", k);
  }
  return 0;
}
''', "a terminal velocity that is not zero in the family with initial acceleration and terminal velocity", "the moment of the wrench curve is not that of the trajectory")

bug("b17-final", "C01", [(W + "waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh", "              (2 * pData.dc1_ * T / n) + pData.c1_);", "              (2 * pData.dc1_ * T / (n - 1)) + pData.c1_);")], r"""#define CAPTURE
#include "d.hh"
int main() {
  ProblemData pd;
  pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
  pd.c0_ << 0.1, 0.2, 0.8;
  pd.c1_ << 0.3, -0.1, 0.9;
  pd.dc1_ << 0.2, 0.1, -0.1;
  pd.ddc1_ << 0.4, 0.2, -0.3;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL | END_ACC;
  VectorX Ts(1);
  Ts << 1.6;
  cap.succeed = true;
  ResultDataCOMTraj r = computeCOMTraj(pd, Ts, 0.2);
  REQ(r.success_, "not successful");
  REQ((r.c_of_t_(1.6) - pd.c1_).norm() < 1e-7, "final position");
  REQ((r.c_of_t_.derivate(1.6, 1) - pd.dc1_).norm() < 1e-7, "final velocity");
  REQ((r.c_of_t_.derivate(1.6, 2) - pd.ddc1_).norm() < 1e-7, "final acceleration");
  return 0;
}
""", "the family that constrains the terminal acceleration, with a terminal velocity that is not zero", "the trajectory does not end with the requested acceleration")

bug("b18-bind-l0", "C18", [("python/bezier_com_traj.cpp", """    const double timeDuration, const double timeStep, const MatrixXX& Kin,
    const MatrixXX& kin) {
  bezier_com_traj::ContactData data;
  data.Kin_ = Kin;
  data.kin_ = kin;
  data.contactPhase_ = eq;
  bezier_com_traj::ProblemData pData;
  pData.c0_ = com;
  pData.dc0_ = dCom;
  pData.l0_ = l0;""", """    const double timeDuration, const double timeStep, const MatrixXX& Kin,
    const MatrixXX& kin) {
  bezier_com_traj::ContactData data;
  data.Kin_ = Kin;
  data.kin_ = kin;
  data.contactPhase_ = eq;
  bezier_com_traj::ProblemData pData;
  pData.c0_ = com;
  pData.dc0_ = dCom;
  if (useAngMomentum && timeStep > 0) pData.l0_ = l0;""")], r'''// the functions of the Python module, called as Python calls them
#include "python/bezier_com_traj.cpp"
#include <cstdio>
static bezier_com_traj::ProblemData seen;
namespace bezier_com_traj {
ResultDataCOMTraj solve0step(const ProblemData& p, const std::vector<double>&, const double) {
  seen = p;
  return ResultDataCOMTraj();
}
}
int main() {
  using namespace bezier_com_traj;
  centroidal_dynamics::Equilibrium* e = new centroidal_dynamics::Equilibrium("e", 50., 4, centroidal_dynamics::SOLVER_LP_QPOASES, true, 10, false);
  MatrixXX Kin = MatrixXX::Identity(3, 3), kin = MatrixXX::Ones(3, 1);
  for (int ang = 0; ang < 2; ++ang)
    for (double step : {-1., 0.1}) {
      seen = ProblemData();
      seen.l0_.setZero();
      delete zeroStepCapturabilityWithKinConstraints(e, Vector3(1, 2, 3), Vector3(4, 5, 6), Vector3(7, 8, 9), ang, 1.5, step, Kin, kin);
      if (seen.useAngularMomentum_ != (ang == 1) || seen.c0_ != Vector3(1, 2, 3) || seen.dc0_ != Vector3(4, 5, 6) || (ang && seen.l0_ != Vector3(7, 8, 9))) {
        std::printf("FAILED: the planner gets l0 = %g %g %g\n", seen.l0_[0], seen.l0_[1], seen.l0_[2]);
        return 3;
      }
    }
  return 0;
}
''', "zero step planning from Python with kinematic constraints, angular momentum and without time step", "the initial angular momentum given from Python is ignored",
    '-I"$R" $(for f in /usr/include/python3.* "$M"/../numpy/core/include; do echo -I$f; done) -L"$M/lib" $(cd "$M/lib"; for f in libboost_python3*.so libeigenpy.so; do f=${f#lib}; echo -l${f%.so}; done) $(cd /usr/lib/x86_64-linux-gnu; for f in libpython3.*.so; do f=${f#lib}; echo -l${f%.so}; done)')

bug("b19-fail-force", "C11", [("src/computeCOMTraj.cpp", """  if (resQp.success_) {
    res.success_ = true;
    res.x = resQp.x.head<3>();""", """  if (resQp.success_ || resQp.x.size() > dimVarX) {
    res.success_ = resQp.success_;
    res.x = resQp.x.head<3>();""")], r'''#include "d.hh"
int main() {
  ProblemData pd;
  pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
  box(pd.contacts_.back(), Vector3(-1, -1, 0.5), Vector3(1, 1, 0.2));
  pd.c0_ << 0, 0, 0.3;
  pd.c1_ << 0.1, 0.1, 0.3;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS | END_VEL;
  pd.representation_ = FORCE;
  VectorX Ts(1);
  Ts << 1.;
  ResultDataCOMTraj r = computeCOMTraj(pd, Ts);
  REQ(!r.success_, "an infeasible problem is solved");
  Vector3 d = r.c_of_t_(r.c_of_t_.max());
  REQ(d.norm() == 0, "a failed result carries a trajectory ending in %g %g %g", d[0], d[1], d[2]);
  return 0;
}
''', "an infeasible problem in the force representation", "a failed result carries a trajectory")

bug("b20-qp-drop", "C17", [("src/eiquadprog-fast.cpp", """  /* a partial step has been taken => drop constraint l */
  iai(l) = l;
  delete_constraint(R, m_J, A, u, nEqCon, iq, l);
  s(ip) = CI.row(ip).dot(x) + ci0(ip);

#ifdef TRACE_SOLVER
  std::cout << "Partial step has taken " << t << std::endl;
  print_vector("x", x, nVars);
  print_matrix("R", R, nVars);
  print_vector("A", A, iq);
  print_vector("s", s, nIneqCon);
#endif
  STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);

  goto l2a;
}

} /* namespace solvers */""", """  /* a partial step has been taken => drop constraint l */
  delete_constraint(R, m_J, A, u, nEqCon, iq, l);
  s(ip) = CI.row(ip).dot(x) + ci0(ip);

#ifdef TRACE_SOLVER
  std::cout << "Partial step has taken " << t << std::endl;
  print_vector("x", x, nVars);
  print_matrix("R", R, nVars);
  print_vector("A", A, iq);
  print_vector("s", s, nIneqCon);
#endif
  STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);

  goto l2a;
}

} /* namespace solvers */""")], r'''#include "d.hh"
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
using tsid::solvers::EiquadprogFast;
int main() {
  std::srand(7);
  for (int k = 0; k < 4000; ++k) {
    const int n = 2 + k % 4, m = 3 + k % 7;
    Eigen::MatrixXd L = Eigen::MatrixXd::Random(n, n), H = L * L.transpose() + Eigen::MatrixXd::Identity(n, n), C = Eigen::MatrixXd::Random(m, n);
    Eigen::VectorXd g = 3 * Eigen::VectorXd::Random(n), y = Eigen::VectorXd::Random(n), c = -C * y + 0.1 * (Eigen::VectorXd::Random(m) + Eigen::VectorXd::Ones(m)), x(n);
    EiquadprogFast qp;
    int s = qp.solve_quadprog_sparse(H.sparseView(), g, Eigen::MatrixXd(0, n), Eigen::VectorXd(0), C, c, x);
    REQ(s == 0, "problem %d: status %d although a point meets the constraints", k, s);
    REQ((C * x + c).minCoeff() > -1e-7, "problem %d: the returned point violates a constraint by %g", k, (C * x + c).minCoeff());
  }
  return 0;
}
''', "sparse variant: a problem in which a constraint leaves the active set and has to come back later", "a dropped constraint is never considered again: the returned point violates it")

bug("b21-qp-iterations", "C17", [("src/eiquadprog-fast.cpp", """  u_old.resize(nIneqCon + nEqCon);
  A_old.resize(nIneqCon + nEqCon);
""", """  u_old.resize(nIneqCon + nEqCon);
  A_old.resize(nIneqCon + nEqCon);
  iter = 0;
"""), ("src/eiquadprog-fast.cpp", """  /* t is the step length, which is the minimum of the partial step length t1
   * and the full step length t2 */

  iter = 0;  // active-set iteration number

  /*
   * Preprocessing phase
   */
  /* compute the trace of the original matrix Hess */
  c1 = Hess.trace();""", """  /* t is the step length, which is the minimum of the partial step length t1
   * and the full step length t2 */

  /*
   * Preprocessing phase
   */
  /* compute the trace of the original matrix Hess */
  c1 = Hess.trace();""")], r'''#include "d.hh"
#include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
using tsid::solvers::EiquadprogFast;
int main() {
  EiquadprogFast qp;
  Eigen::MatrixXd H = Eigen::MatrixXd::Identity(3, 3), C = Eigen::MatrixXd::Identity(3, 3);
  for (int k = 0; k < 600; ++k) {
    Eigen::VectorXd g = Eigen::VectorXd::Constant(3, 0.01 * k), c = Eigen::VectorXd::Constant(3, -1), x(3);
    int s = qp.solve_quadprog(H, g, Eigen::MatrixXd(0, 3), Eigen::VectorXd(0), C, c, x);
    REQ(s == 0 && (x - Eigen::VectorXd::Ones(3)).norm() < 1e-8, "solve %d with one solver: status %d", k, s);
  }
  return 0;
}
''', "hundreds of problems of one size solved with the same solver object", "iterations add up over the solves until the limit is reported")

bug("b22-overload", "C23", [("src/common_solve_methods.cpp", "  return solve(Ab.first, Ab.second, Hg.first, Hg.second, init, solver);", "  return solve(Ab.first, Ab.second, Hg.first, Hg.second, init,\n               solvers::SOLVER_QUADPROG);")], r'''#include "d.hh"
#include <hpp/bezier-com-traj/common_solve_methods.hh>
using namespace bezier_com_traj;
int main() {
  std::pair<MatrixXX, VectorX> Ab(MatrixXX::Identity(2, 2), VectorX::Constant(2, 10.)), Hg(MatrixXX::Identity(2, 2), VectorX::Constant(2, -1.));
  VectorX x = VectorX::Zero(2);
  ResultData q = solve(Ab, Hg, x, solvers::SOLVER_QUADPROG), l = solve(Ab, Hg, x, solvers::SOLVER_GLPK);
  REQ(q.success_ && (q.x - VectorX::Ones(2)).norm() < 1e-8, "quadratic minimum (%g, %g)", q.x[0], q.x[1]);
  REQ(l.success_ && (l.x - VectorX::Constant(2, 10.)).norm() < 1e-8, "minimum of the linear cost (%g, %g)", l.x[0], l.x[1]);
  return 0;
}
''', "the linear solver chosen through the overload without equalities", "the chosen solver is ignored: the quadratic problem is solved instead")

bug("b23-ee-weight", "C24", [("include/hpp/bezier-com-traj/solve_end_effector.hh", "  H = weightSmooth * (Hg_smooth.first) + weightDistance * Hg_rrt.first;\n  g = weightSmooth * (Hg_smooth.second) + weightDistance * Hg_rrt.second;", "  // only the ratio of the weights matters\n  const double ratio = weightSmooth / weightDistance;\n  H = weightDistance * (Hg_rrt.first + ratio * Hg_smooth.first);\n  g = weightDistance * (Hg_rrt.second + ratio * Hg_smooth.second);")], r'''#define CAPTURE
#include "d.hh"
struct Path {
  Vector3 operator()(double t) const { return Vector3(0.3 * t * t, 0.2 * std::sin(3 * t), 0.1 * t); }
};
int main() {
  for (int k = 2; k >= 0; --k) {
    ProblemData pd;
    pd.c0_ << 0, 0, 0;
    pd.c1_ << 0.3, 0.1, 0.1;
    pd.constraints_.flag_ = INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_JERK | END_ACC | END_VEL | END_POS | FIVE_FREE_VAR;
    Path path;
    cap.succeed = false;
    int n = cap.n;
    solveEndEffector(pd, path, 1.4, 0.5 * k, false);
    REQ(cap.n == n + 1, "solver called %d times", cap.n - n);
    REQ(cap.H.allFinite() && cap.g.allFinite(), "the cost is not finite when the distance has the weight %g", 0.5 * k);
    REQ(cap.H.norm() > 1e-12, "no cost");
  }
  return 0;
}
''', "a distance to the path that does not matter (weight 0)", "the cost of the problem becomes not-a-number")

bug("b24-cost-scale", "C24", [("src/costfunction_definition.cpp", "  H.block<3, 3>(0, 0) = Matrix3::Identity();\n  g.head<3>() = -midPoint;", "  // scaled by the length of the motion, to be comparable with the other costs\n  const double length = (pData.c1_ - pData.c0_).norm();\n  H.block<3, 3>(0, 0) = Matrix3::Identity() / length;\n  g.head<3>() = -midPoint / length;")], r'''#define CAPTURE
#include "d.hh"
int main() {
  for (int k = 0; k < 2; ++k) {
    ProblemData pd;
    pd.contacts_.push_back(ContactData(flat(0, 0, 0.5, 0.5)));
    pd.c0_ << 0, 0.1, 0.8;
    pd.dc0_ << 0.5, -0.3, 0.1;
    pd.c1_ = pd.c0_;
    if (k == 0) pd.c1_(0) += 0.2;
    pd.costFunction_ = DISTANCE_TRAVELED;
    pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS | END_VEL;
    VectorX Ts(1);
    Ts << 1.;
    cap.succeed = false;
    int n = cap.n;
    computeCOMTraj(pd, Ts, 0.25);
    REQ(cap.n == n + 1, "solver called %d times", cap.n - n);
    REQ(cap.H.allFinite() && cap.g.allFinite(), "the cost is not finite for a motion that comes back to its start");
  }
  return 0;
}
''', "a motion that comes back to the point where it started", "the objective becomes not-a-number")

bug("b25-debug-field", "C25", [("include/hpp/bezier-com-traj/data.hh", "  ConstraintFlag flag_;\n", "#ifndef NDEBUG\n  // number of times the set was changed, to help debugging\n  unsigned long changes_ = 0;\n#endif\n  ConstraintFlag flag_;\n")], r'''#include "d.hh"
#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
#ifdef NDEBUG
#error "this program keeps its assertions, the library was built without"
#endif
int main() {
  ProblemData pd;
  pd.c0_ << 1, 2, 3;
  pd.c1_ << 4, 5, 6;
  pd.constraints_.flag_ = INIT_POS | INIT_VEL | END_POS | END_VEL;
  std::vector<point_t> p;
  try {
    p = computeConstantWaypoints(pd, 2.);
  } catch (const std::exception& e) {
    REQ(false, "a supported problem is rejected: %s", e.what());
  }
  REQ(p.size() == 5, "%d points", (int)p.size());
  REQ((p[0] - pd.c0_).norm() < 1e-9 && (p[4] - pd.c1_).norm() < 1e-9, "wrong end points");
  return 0;
}
''', "a program compiled with assertions that uses the library built without them", "the library reads other fields of the problem than those the program wrote")

bug("b26-not-inline", "C25", [("include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_c1.hh", "inline coefs_t computeFinalVelocityPoint(", "coefs_t computeFinalVelocityPoint(")], r'''#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_c1.hh>
#include "d.hh"
bezier_com_traj::coefs_t other(const ProblemData& pd);
int main() {
  ProblemData pd;
  bezier_com_traj::coefs_t a = bezier_com_traj::c0_dc0_ddc0_c1::computeFinalVelocityPoint(pd, 2.), b = other(pd);
  REQ(a.first == b.first && a.second == b.second, "two files of the program disagree");
  return 0;
}
''', "a program two source files of which include the header", "the program does not link", extra='"$W/other.cpp"', files={"other.cpp": r'''#include <hpp/bezier-com-traj/data.hh>
#include <hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_c1.hh>
bezier_com_traj::coefs_t other(const bezier_com_traj::ProblemData& pd) { return bezier_com_traj::c0_dc0_ddc0_c1::computeFinalVelocityPoint(pd, 2.); }
'''})

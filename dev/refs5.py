"""behaviour-preserving rewrites, fifth set: less usual idioms"""
import re
from refs import R
from refs4 import must
from refs2 import seq, sub
G = "src/computeCOMTraj.cpp"
C = "src/common_solve_methods.cpp"
K = "src/costfunction_definition.cpp"
U = "src/utils.cpp"
Z = "src/solve_0_step.cpp"
S = "src/solver-abstract.cpp"
L = "src/glpk-wrapper.cpp"


def rep(*ps):
    def f(s):
        for a, b in ps:
            s = must(s, a, b)
        return s
    return f


R["r15a"] = [(G, rep(
    ("""  double t, b;
  for (CIT_time cit = timeArray.begin(); cit != timeArray.end(); ++cit) {
    waypoint_t w = initwp(6, DIM_VAR);
    t = std::min(cit->first / T, 1.);
    for (std::size_t j = 0; j < wps.size(); ++j) {
      b = berns[j](t);
      w.first += b * (wps[j].first);
      w.second += b * (wps[j].second);
    }
    res.push_back(w);
  }
  return res;""", """  std::transform(
      timeArray.begin(), timeArray.end(), std::back_inserter(res),
      [&](const T_time::value_type& sample) {
        const double u = sample.first / T < 1. ? sample.first / T : 1.;
        return std::inner_product(
            berns.begin(), berns.end(), wps.begin(), initwp(6, DIM_VAR),
            [](const waypoint_t& x, const waypoint_t& y) { return x + y; },
            [u](const ndcurves::Bern<double>& bern, const waypoint_t& p) {
              return bern(u) * p;
            });
      });
  return res;"""),
    ("#include <limits>\n", "#include <iterator>\n#include <limits>\n#include <numeric>\n"),
    ("""  VectorX g_ = VectorX::Zero(6);
  g_.head<3>() = g;
  A.block(0, 0, dimH, 3) = mH * w.first;
  b = h + mH * (g_ - w.second);""", """  Eigen::Matrix<double, 6, 1> g_;
  g_ << g, Vector3::Zero();
  A.noalias() = mH * w.first;
  b = h;
  b.noalias() += mH * (g_ - w.second);"""),
    ("""  std::vector<int> res;
  int i = 0;
  CIT_time cit = timeArray.begin();
  for (CIT_time cit2 = timeArray.begin() + 1; cit2 != timeArray.end();
       ++cit, ++cit2, ++i) {
    if (cit2->second != cit->second) {
      res.push_back(i);
    }
  }
  res.push_back(i);
  return res;""", """  std::vector<int> res;
  auto it = timeArray.begin();
  while (true) {
    it = std::adjacent_find(it, timeArray.end(),
                            [](const auto& x, const auto& y) {
                              return x.second != y.second;
                            });
    if (it == timeArray.end()) break;
    res.push_back(static_cast<int>(std::distance(timeArray.begin(), it)));
    ++it;
  }
  res.push_back(static_cast<int>(timeArray.size()) - 1);
  return res;"""),
    ("""  mH = -Hrow * phase.contactPhase_->m_mass;
  mH.rowwise().normalize();
  h = hrow;
  dimH = (int)(mH.rows());
  if (pData.constraints_.reduce_h_ > 0)
    h -= VectorX::Ones(h.rows()) * pData.constraints_.reduce_h_;""", """  mH = (-phase.contactPhase_->m_mass) * Hrow;
  for (Eigen::Index r = 0; r < mH.rows(); ++r) mH.row(r).normalize();
  h = hrow;
  dimH = static_cast<int>(h.size());
  const double margin = std::max(0., double(pData.constraints_.reduce_h_));
  h.array() -= margin;"""),
    ("""      A.block(id_rows, 0, 3, 3) =
          Matrix3::Identity() * wps_ddc[id_step].first;  // upper
      b.segment(id_rows, 3) = acc_bounds - wps_ddc[id_step].second;
      A.block(id_rows + 3, 0, 3, 3) =
          -Matrix3::Identity() * wps_ddc[id_step].first;  // lower
      b.segment(id_rows + 3, 3) = acc_bounds + wps_ddc[id_step].second;
      id_rows += 6;
""", """      const coefs_t& acc = wps_ddc[id_step];
      for (int side = 1; side >= -1; side -= 2) {  // upper then lower
        A.middleRows<3>(id_rows).leftCols<3>().setZero();
        A.middleRows<3>(id_rows).leftCols<3>().diagonal().setConstant(
            side * acc.first);
        b.segment<3>(id_rows) = acc_bounds - side * acc.second;
        id_rows += 3;
      }
"""),
))]

R["r15b"] = [(G, rep(
    ("""    // check if we are going to switch phases :
    for (std::vector<int>::const_iterator it_switch = stepIdForPhase.begin();
         it_switch != (stepIdForPhase.end() - 1); ++it_switch) {
      if ((int)id_step == (*it_switch)) {
        id_phase++;
        switchContactPhase(pData, A, b, mH, h, wps_w[id_step],
                           pData.contacts_[id_phase], id_rows, dimH);
      }
    }
""", """    // check if we are going to switch phases :
    if (id_phase + 1 < stepIdForPhase.size() &&
        stepIdForPhase[id_phase] == static_cast<int>(id_step))
      switchContactPhase(pData, A, b, mH, h, wps_w[id_step],
                         pData.contacts_[++id_phase], id_rows, dimH);
"""),
    ("""    current_size = (int)pData.contacts_[id_phase].kin_.rows();
    if (current_size > 0) {
      A.block(id_rows, 0, current_size, 3) =
          (pData.contacts_[id_phase].Kin_ * wps_c[id_step].first);
      b.segment(id_rows, current_size) =
          pData.contacts_[id_phase].kin_ -
          (pData.contacts_[id_phase].Kin_ * wps_c[id_step].second);
      id_rows += current_size;
    }
""", """    appendKinematic(pData.contacts_[id_phase], wps_c[id_step], A, b, id_rows);
"""),
    ("""        // TODO : filter for redunbdant constraints ...
        current_size = pData.contacts_[id_phase].kin_.rows();
        if (current_size > 0) {
          A.block(id_rows, 0, current_size, 3) =
              (pData.contacts_[id_phase].Kin_ * wps_c[id_step].first);
          b.segment(id_rows, current_size) =
              pData.contacts_[id_phase].kin_ -
              (pData.contacts_[id_phase].Kin_ * wps_c[id_step].second);
          id_rows += current_size;
        }
""", """        // TODO : filter for redunbdant constraints ...
        appendKinematic(pData.contacts_[id_phase], wps_c[id_step], A, b,
                        id_rows);
"""),
    ("  long int current_size;\n  id_phase = 0;\n", ""),
    ("void assignKinematicConstraints(", """namespace {
// rows of K (f x + s) <= k
template <typename Index>
void appendKinematic(const ContactData& contact, const coefs_t& wp,
                     MatrixXX& A, VectorX& b, Index& row) {
  const auto& K = contact.Kin_;
  const auto& k = contact.kin_;
  if (k.size() == 0) return;
  A.middleRows(row, k.size()).leftCols(3) = wp.first * K;
  b.segment(row, k.size()) = k;
  b.segment(row, k.size()).noalias() -= K * wp.second;
  row += k.size();
}
}  // namespace

void assignKinematicConstraints("""),
    ("""  long int num_stab_ineq = 0;
  long int num_kin_ineq = 0;
  int numStepForPhase;
  int numStepsCumulated = 0;
  centroidal_dynamics::MatrixXX Hrow;
  VectorX h;
  for (int i = 0; i < Ts.size(); ++i) {
    pData.contacts_[i].contactPhase_->getPolytopeInequalities(Hrow, h);
    numStepForPhase =
        phaseSwitch[i] + 1 - numStepsCumulated;  // pointsPerPhase;
    numStepsCumulated = phaseSwitch[i] + 1;
    if (i > 0)
      ++numStepForPhase;  // because at the switch point between phases we add
                          // the constraints of both phases.
    num_stab_ineq += Hrow.rows() * numStepForPhase;
    num_kin_ineq += pData.contacts_[i].kin_.rows() * numStepForPhase;
  }
  long int res = num_stab_ineq + num_kin_ineq;
""", """  long int res = 0;
  centroidal_dynamics::MatrixXX Hrow;
  VectorX h;
  for (int i = Ts.size() - 1; i >= 0; --i) {
    const ContactData& contact = pData.contacts_.at(i);
    contact.contactPhase_->getPolytopeInequalities(Hrow, h);
    // the switch point belongs to both phases
    const long int first = i == 0 ? 0 : phaseSwitch[i - 1];
    res += (Hrow.rows() + contact.kin_.rows()) * (phaseSwitch[i] - first + 1);
  }
"""),
    ("""  ResultDataCOMTraj res;
  if (resQp.success_) {
    res.success_ = true;
    res.x = resQp.x.head<3>();
    res.cost_ = resQp.cost_;
    std::vector<Vector3> pis = computeConstantWaypoints(pData, T);
    res.c_of_t_ = computeBezierCurve<bezier_t, point_t>(
        pData.constraints_.flag_, T, pis, res.x);
    computeFinalVelocity(res);
    computeFinalAcceleration(res);
    res.dL_of_t_ = bezier_t::zero(3, T);
  }
  return res;""", """  if (!resQp.success_) return ResultDataCOMTraj();
  ResultDataCOMTraj res;
  std::swap(res.success_, resQp.success_);
  std::swap(res.cost_, resQp.cost_);
  res.x = resQp.x.topRows(3);
  res.c_of_t_ = computeBezierCurve<bezier_t, point_t>(
      pData.constraints_.flag_, T, computeConstantWaypoints(pData, T), res.x);
  computeFinalVelocity(res);
  computeFinalAcceleration(res);
  res.dL_of_t_ = bezier_t::zero(3, T);
  return res;"""),
))]

R["r15c"] = [(G, rep(
    ("""  long int num_ineq = 0;
  centroidal_dynamics::MatrixXX Hrow;
  VectorX h;
  for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
       it != pData.contacts_.end(); ++it) {
    // kinematics :
    num_ineq += it->kin_.rows() * (degree + 1);
    // stability :
    if (useDD) {
      it->contactPhase_->getPolytopeInequalities(Hrow, h);
      num_ineq += Hrow.rows() * (w_degree + 1);
    }
  }
  // acceleration constraints : 6 per points
  if (pData.constraints_.constraintAcceleration_)
    num_ineq += (degree - 1) * 6 * Ts.size();
  return num_ineq;""", """  const long int acceleration =
      pData.constraints_.constraintAcceleration_ ? (degree - 1) * 6 * Ts.size()
                                                 : 0;
  return std::accumulate(
      pData.contacts_.cbegin(), pData.contacts_.cend(), acceleration,
      [&](long int total, const ContactData& contact) {
        long int stability = 0;
        if (useDD) {
          centroidal_dynamics::MatrixXX Hrow;
          VectorX h;
          contact.contactPhase_->getPolytopeInequalities(Hrow, h);
          stability = Hrow.rows() * (w_degree + 1);
        }
        return total + contact.kin_.size() * (degree + 1) + stability;
      });"""),
    ("#include <limits>\n", "#include <limits>\n#include <numeric>\n"),
    ("""    long int cSize = 0;
    int currentDegree;  // remove redundant equalities depending on more
                        // constraining problem
    std::vector<ContactData>::const_iterator it2 = pData.contacts_.begin();
    ++it2;
    for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
         it != pData.contacts_.end(); ++it, ++it2) {
      currentDegree = w_degree + 1;
      if (cSize != 0 && it->contactPhase_->m_G_centr.cols() > cSize)
        currentDegree -= 1;
      cSize = it->contactPhase_->m_G_centr.cols();
      if (it2 != pData.contacts_.end() &&
          it2->contactPhase_->m_G_centr.cols() <= cSize)
        currentDegree -= 1;
      forceVarDim += cSize * (currentDegree);
      numEq += (numRowsForce) * (currentDegree);
    }
""", """    // remove redundant equalities depending on more constraining problem
    std::vector<long int> sizes;
    for (const ContactData& contact : pData.contacts_)
      sizes.push_back(contact.contactPhase_->m_G_centr.cols());
    for (std::size_t i = 0; i < sizes.size(); ++i) {
      int points = w_degree + 1;
      const bool leave = i > 0 && sizes[i - 1] > 0 && sizes[i] > sizes[i - 1];
      const bool next = i + 1 < sizes.size() && sizes[i + 1] <= sizes[i];
      points -= int(leave) + int(next);
      forceVarDim += sizes[i] * points;
      numEq += numRowsForce * points;
    }
"""),
    ("""    for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
         size_kin > 0 && wpit != cs.waypoints().end(); ++wpit) {
      A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
      b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
      id_rows += size_kin;
    }
""", """    if (size_kin > 0) {
      for (const waypoint_t& wp : cs.waypoints()) {
        auto rows = A.middleRows(id_rows, size_kin);
        rows.leftCols(3) = phase.Kin_ * wp.first;
        b.segment(id_rows, size_kin) = phase.kin_ - phase.Kin_ * wp.second;
        id_rows += size_kin;
      }
    }
"""),
    ("""      bezier_wp_t::cit_point_t start = ws.waypoints().begin();
      bezier_wp_t::cit_point_t stop = ws.waypoints().end();
      if (id_phase + 1 < (size_t)Ts.size() &&
          pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() <=
              phase.contactPhase_->m_G_centr.cols())
        --stop;
      if (cSize > 0 && cSize < phase.contactPhase_->m_G_centr.cols()) ++start;
      cSize = phase.contactPhase_->m_G_centr.cols();
      for (bezier_wp_t::cit_point_t wpit = start; wpit != stop;
           ++wpit, rowIdx += 6)
        assignStabilityConstraintsForTimeStepForce(
            *wpit, rowIdx, id_cols, phase.contactPhase_->m_G_centr, D, d,
            phase.contactPhase_->m_mass, phase.contactPhase_->m_gravity);
""", """      const auto& equilibrium = *phase.contactPhase_;
      const long int generators = equilibrium.m_G_centr.cols();
      std::size_t begin = 0, end = ws.waypoints().size();
      const bool isLast = id_phase + 1 >= (size_t)Ts.size();
      if (!isLast &&
          !(pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() >
            generators))
        end -= 1;
      if (0 < cSize && cSize < generators) begin = 1;
      cSize = generators;
      while (begin < end) {
        assignStabilityConstraintsForTimeStepForce(
            ws.waypointAtIndex(begin++), rowIdx, id_cols,
            equilibrium.m_G_centr, D, d, equilibrium.m_mass,
            equilibrium.m_gravity);
        rowIdx += numRowsForce;
      }
"""),
    ("""    minBounds.head<3>() = VectorX::Ones(3) * (solvers::UNBOUNDED_DOWN);
    minBounds.tail(forceVarDim) = VectorX::Zero(forceVarDim);
""", """    std::fill_n(minBounds.data(), 3, solvers::UNBOUNDED_DOWN);
"""),
    ("""    Dd = std::make_pair(MatrixXX::Zero(0, Ab.first.cols()), VectorX::Zero(0));
    minBounds = VectorX::Zero(0);
    maxBounds = VectorX::Zero(0);
""", """    Dd.first.resize(0, Ab.first.cols());
    Dd.second.resize(0);
    for (VectorX* bounds : {&minBounds, &maxBounds}) bounds->resize(0);
"""),
))]

R["r15d"] = [(C, rep(
    ("""  double dt = 1. / double(numSteps);
  std::vector<waypoint6_t> res;
  for (int i = 0; i < numSteps + 1; ++i) {
    waypoint6_t w = initwp<waypoint6_t>();
    for (int j = 0; j < 5; ++j) {
      double b = berns[j](i * dt);
      w.first += b * (wps[j].first);
      w.second += b * (wps[j].second);
    }
    res.push_back(w);
  }
  return res;""", """  std::vector<waypoint6_t> res(numSteps + 1, initwp<waypoint6_t>());
  for (int j = 0; j < 5; ++j) {
    const ndcurves::Bern<double>& bern = berns[j];
    int i = 0;
    for (waypoint6_t& w : res) {
      const double weight = bern(double(i++) / numSteps);
      w.first.noalias() += weight * wps[j].first;
      w.second.noalias() += weight * wps[j].second;
    }
  }
  return res;"""),
    ("""  int dimKin = (int)(kin.rows());
  if (dimKin == 0) return;
  A.block(A.rows() - dimKin - otherConstraintIndex, 0, dimKin, 3) = Kin;
  b.segment(A.rows() - dimKin - otherConstraintIndex, dimKin) = kin;""", """  const Eigen::Index dimKin = kin.rows();
  if (dimKin == 0) return;
  A.bottomRows(dimKin + otherConstraintIndex).topLeftCorner(dimKin, 3) = Kin;
  b.tail(dimKin + otherConstraintIndex).head(dimKin) = kin;"""),
    ("""    A.block(A.rows() - dimAng, 3, dimAng, 3) = Ang;
""", """    A.bottomRightCorner(dimAng, 3) = Ang;
"""),
    ("""    Eigen::VectorXd norm = A.block(0, 0, zeroindex, A.cols()).rowwise().norm();
    A.block(0, 0, zeroindex, A.cols()).rowwise().normalize();
    b.head(zeroindex) = b.head(zeroindex).cwiseQuotient(norm);""", """    for (int r = 0; r < zeroindex; ++r) {
      const double length = A.row(r).norm();
      A.row(r) /= length;
      b[r] /= length;
    }"""),
    ("""  int i = 0;
  std::vector<waypoint6_t>::const_iterator wpLcit = wpL.begin();
  for (std::vector<waypoint6_t>::const_iterator wpcit = wps.begin();
       wpcit != wps.end(); ++wpcit) {
    A.block(i * dimH, 0, dimH, 3) = mH * wpcit->first;
    b.segment(i * dimH, dimH) = mH * (bc - wpcit->second);
    if (useAngMomentum) {
      A.block(i * dimH, 3, dimH, 3) = H * wpLcit->first;
      b.segment(i * dimH, dimH) += H * (-wpLcit->second);
      ++wpLcit;
    }
    ++i;
  }""", """  for (std::size_t i = 0; i != wps.size(); ++i) {
    Eigen::Block<MatrixXX> Ai = A.block(i * dimH, 0, dimH, A.cols());
    Eigen::VectorBlock<VectorX> bi = b.segment(i * dimH, dimH);
    Ai.leftCols<3>() = mH * wps[i].first;
    bi = mH * (bc - wps[i].second);
    if (!useAngMomentum) continue;
    Ai.rightCols<3>() = H * wpL.at(i).first;
    bi -= H * wpL.at(i).second;
  }"""),
    ("""  MatrixXX D = MatrixXX::Zero(0, A.cols());
  VectorX d = VectorX::Zero(0);
  return solvers::solve(A, b, D, d, H, g, initGuess, d, d, solver);""", """  const VectorX none(0);
  return solvers::solve(A, b, MatrixXX(0, A.cols()), none, H, g, initGuess,
                        none, none, solver);"""),
)), (K, rep(
    ("""  Vector3 midPoint = (pData.c0_ + pData.c1_) /
                     2.;  // todo : replace it with point found by planning ??
  H.block<3, 3>(0, 0) = Matrix3::Identity();
  g.head<3>() = -midPoint;""", """  H.topLeftCorner<3, 3>().setIdentity();
  g.head<3>() = -0.5 * pData.c0_;
  g.head<3>() -= 0.5 * pData.c1_;"""),
    ("""  H.block<3, 3>(0, 0) = Matrix3::Identity() * v.first * v.first;
  g.head<3>() = v.first * (v.second - pData.dc1_);""", """  const double f = v.first;
  const Vector3 gap = v.second - pData.dc1_;
  H.topLeftCorner<3, 3>() = Vector3::Constant(f * f).asDiagonal();
  for (int k = 0; k < 3; ++k) g[k] = f * gap[k];"""),
    ("""  for (int i = 0; i < Ts.size(); ++i) t_total += Ts[i];
""", """  t_total = std::accumulate(Ts.data(), Ts.data() + Ts.size(), t_total);
"""),
    ("""  H.block<3, 3>(0, 0) = Matrix3::Zero();
  g.head<3>() = Vector3::Zero();
  for (size_t i = 0; i < wps_ddc.size(); ++i) {
    H.block<3, 3>(0, 0) +=
        Matrix3::Identity() * wps_ddc[i].first * wps_ddc[i].first;
    g.head<3>() += wps_ddc[i].first * wps_ddc[i].second;
  }""", """  double weight = 0.;
  Vector3 gradient(0., 0., 0.);
  for (const auto& [f, s] : wps_ddc) {
    weight += f * f;
    gradient += f * s;
  }
  H.topLeftCorner(3, 3) = weight * Matrix3::Identity();
  g.head(3) = gradient;"""),
    ("namespace bezier_com_traj {\nnamespace cost {", "#include <numeric>\n\nnamespace bezier_com_traj {\nnamespace cost {"),
    ("""  T_costCompute::const_iterator cit = costs.find(pData.costFunction_);
  if (cit != costs.end())
    return cit->second(pData, Ts, T, timeArray, H, g);
  else {
    std::cout << "Unknown cost function" << std::endl;
    throw std::runtime_error("Unknown cost function");
  }""", """  try {
    const costCompute compute = costs.at(pData.costFunction_);
    compute(pData, Ts, T, timeArray, H, g);
  } catch (const std::out_of_range&) {
    std::cout << "Unknown cost function" << std::endl;
    throw std::runtime_error("Unknown cost function");
  }"""),
))]

R["r15e"] = [(Z, rep(
    ("""  std::vector<waypoint6_t> wps;
  wps.push_back(w0(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w1(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w2(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w3(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w4(p0, p1, g, p0X, p1X, gX, alpha));
""", """  typedef waypoint6_t (*Fn)(point_t_tC, point_t_tC, point_t_tC, const Matrix3&,
                            const Matrix3&, const Matrix3&, const double);
  static const Fn control[] = {w0, w1, w2, w3, w4};
  std::vector<waypoint6_t> wps;
  for (Fn f : control) wps.push_back(f(p0, p1, g, p0X, p1X, gX, alpha));
"""),
    ("""  wps.push_back(u0(l0, alpha));
  wps.push_back(u1(l0, alpha));
  wps.push_back(u2(l0, alpha));
  wps.push_back(u3(l0, alpha));
  wps.push_back(u4(l0, alpha));
""", """  wps = {u0(l0, alpha), u1(l0, alpha), u2(l0, alpha), u3(l0, alpha),
         u4(l0, alpha)};
"""),
    ("""  w.first.block<3, 3>(0, 0) = 6 * alpha * Matrix3::Identity();
  w.first.block<3, 3>(3, 0) = 6 * alpha * p0X;
  w.second.head(3) = 6 * alpha * (p0 - 2 * p1);
  w.second.tail(3) = (-p0).cross(12 * alpha * p1 + g);
""", """  const double k = 6 * alpha;
  w.first << k * Matrix3::Identity(), k * p0X;
  w.second << k * p0 - 2 * k * p1, -p0X * (2 * k * p1 + g);
"""),
    ("""  int dimPb = useAngMomentum ? 6 : 3;
  std::pair<MatrixXX, VectorX> res;
  res.first = MatrixXX::Zero(dimPb, dimPb);
  res.second = VectorX::Zero(dimPb);
  Ref_matrixXX H = res.first;
  Ref_vectorX g = res.second;

  // minimize distance to initial point
  double weightDist = useAngMomentum ? 0.0001 : 1.;
  H.block<3, 3>(0, 0) = Matrix3::Identity() * weightDist;
  g.head(3) = -p0 * weightDist;

  // now angular momentum integral minimization
  if (useAngMomentum) {
    H.block<3, 3>(3, 3) = Matrix3::Identity() * 6. / 5.;
    g.tail(3) = 0.5 * (-(9. * l0) / 5.);
  }
  return res;""", """  // minimize distance to initial point
  if (!useAngMomentum)
    return std::pair<MatrixXX, VectorX>(MatrixXX::Identity(3, 3), -p0);
  // and angular momentum integral minimization
  const double weightDist = 1e-4;
  VectorX diagonal(6), g(6);
  diagonal << weightDist, weightDist, weightDist, 1.2, 1.2, 1.2;
  g << -weightDist * p0, -0.9 * l0;
  return {diagonal.asDiagonal(), g};"""),
    ("""    Vector3 xL = resData.x.tail(3);
    resData.cost_ = (1. / 5.) * (9. * pData.l0_.dot(pData.l0_) -
                                 9. * pData.l0_.dot(xL) + 6. * xL.dot(xL));
""", """    const Vector3 xL = resData.x.bottomRows<3>();
    resData.cost_ = 1.8 * pData.l0_.dot(pData.l0_ - xL) + 1.2 * xL.squaredNorm();
"""),
    ("""    std::vector<Vector3> wps;
    wps.push_back(3 * (res.x.tail(3) - pData.l0_));
    wps.push_back(3 * (-res.x.tail(3)));
    wps.push_back(Vector3::Zero());
""", """    std::array<Vector3, 3> wps;
    wps[2].setZero();
    wps[1] = -3 * res.x.segment<3>(3);
    wps[0] = -3 * pData.l0_ - wps[1];
"""),
    ("""  std::vector<Vector3> wps;
  wps.push_back(pData.c0_);
  wps.push_back(pData.dc0_ * Ts[0] / 3 + pData.c0_);
  wps.push_back(res.x.head(3));
  wps.push_back(res.x.head(3));
""", """  const Vector3 end = res.x.head(3);
  const std::vector<Vector3> wps{pData.c0_, pData.c0_ + pData.dc0_ * Ts[0] / 3,
                                 end, end};
"""),
    ("""  int dimPb = pData.useAngularMomentum_ ? 6 : 3;
  VectorX init = VectorX(dimPb);
  init.head(3) = pData.c0_;
  if (dimPb > 3) init.tail(3) = pData.l0_;
""", """  VectorX init = pData.c0_;
  if (pData.useAngularMomentum_) {
    init.conservativeResize(6);
    init.tail<3>() = pData.l0_;
  }
"""),
    ("#include <hpp/bezier-com-traj/common_solve_methods.hh>", "#include <array>\n#include <hpp/bezier-com-traj/common_solve_methods.hh>"),
)), (U, rep(
    ("""  Matrix3 res = Matrix3::Zero();
  res(0, 1) = -x(2);
  res(0, 2) = x(1);
  res(1, 0) = x(2);
  res(1, 2) = -x(0);
  res(2, 0) = -x(1);
  res(2, 1) = x(0);
  return res;""", """  Matrix3 res;
  res << 0, -x[2], x[1], x[2], 0, -x[0], -x[1], x[0], 0;
  return res;"""),
    ("""    while (t < currentTiming) {
      timeArray.push_back(std::make_pair(t, i));
      t += timeStep;
    }
""", """    for (; currentTiming > t; t += timeStep) timeArray.emplace_back(t, i);
"""),
    ("""  double t = 0;
  double t_total = phaseTimings.sum();
  timeArray.push_back(std::make_pair(0., 0));
  for (int i = 0; i < phaseTimings.size(); ++i) {
    double step = (double)phaseTimings[i] / pointsPerPhase;
    for (size_t j = 0; j < pointsPerPhase; ++j) {
      t += step;
      timeArray.push_back(std::make_pair(t, i));
    }
  }
  timeArray.pop_back();
  timeArray.push_back(std::make_pair(
      t_total, phaseTimings.size() - 1));  // avoid numerical errors
  return timeArray;""", """  timeArray.emplace_back(0., 0);
  for (int i = 0; i < phaseTimings.size(); ++i) {
    const double step = phaseTimings[i] / pointsPerPhase;
    for (size_t j = 0; j < pointsPerPhase; ++j)
      timeArray.emplace_back(timeArray.back().first + step, i);
  }
  timeArray.back().first = phaseTimings.sum();  // avoid numerical errors
  return timeArray;"""),
    ("""waypoint_t operator-(const waypoint_t& w1, const waypoint_t& w2) {
  if (w1.second.rows() != w2.second.rows() ||
      w1.first.rows() != w2.first.rows() || w1.first.cols() != w2.first.cols())
    throw std::runtime_error("You cannot add waypoint_t of different size.");
  return waypoint_t(w1.first - w2.first, w1.second - w2.second);
}""", """waypoint_t operator-(const waypoint_t& w1, const waypoint_t& w2) {
  return w1 + (-1. * w2);
}"""),
    ("""  waypoint6_t w;
  w.first = matrix6_t::Zero();
  w.second = point6_t::Zero();
  return w;""", """  return waypoint6_t(matrix6_t::Zero(), point6_t::Zero());"""),
    ("""  std::vector<ndcurves::Bern<double> > res;
  for (unsigned int i = 0; i <= (unsigned int)degree; ++i)
    res.push_back(ndcurves::Bern<double>(degree, i));
  return res;""", """  std::vector<ndcurves::Bern<double> > res;
  res.reserve(degree + 1);
  unsigned int i = 0;
  do {
    res.emplace_back(degree, i);
  } while (++i <= degree);
  return res;"""),
))]

R["r15f"] = [(S, rep(
    ("""  if (minBounds.size() == 0) return;
  MatrixXd& res = data.first;
  VectorXd& resv = data.second;
  MatrixXd D(res.rows() + res.cols(), res.cols());
  VectorXd d(resv.rows() + res.cols());
  D.block(0, 0, res.rows(), res.cols()) = res;
  D.block(res.rows(), 0, res.cols(), res.cols()) =
      (-1.) * MatrixXd::Identity(res.cols(), res.cols());
  d.head(resv.size()) = resv;
  d.tail(res.cols()) = -minBounds;
  data.first = D;
  data.second = d;
""", """  appendBounds(minBounds, -1., data);
"""),
    ("""  if (maxBounds.size() == 0) return;
  MatrixXd& res = data.first;
  VectorXd& resv = data.second;
  MatrixXd D(res.rows() + res.cols(), res.cols());
  VectorXd d(resv.rows() + res.cols());
  D.block(0, 0, res.rows(), res.cols()) = res;
  D.block(res.rows(), 0, res.cols(), res.cols()) =
      MatrixXd::Identity(res.cols(), res.cols());
  d.head(resv.size()) = resv;
  d.tail(res.cols()) = maxBounds;
  data.first = D;
  data.second = d;
""", """  appendBounds(maxBounds, 1., data);
"""),
    ("void addConstraintMinBoundQuadProg(", """// rows sign * x <= sign * bounds
void appendBounds(solvers::Cref_vectorX bounds, const double sign,
                  std::pair<MatrixXd, VectorXd>& data) {
  if (bounds.size() == 0) return;
  const Eigen::Index m = data.first.rows(), n = data.first.cols();
  data.first.conservativeResize(m + n, Eigen::NoChange);
  data.first.bottomRows(n).setZero();
  data.first.bottomRows(n).diagonal().setConstant(sign);
  data.second.conservativeResize(m + n);
  data.second.tail(n) = sign * bounds;
}

void addConstraintMinBoundQuadProg("""),
)), (L, rep(
    ("""  const double& mibV = mib(i);
  const double& mabV = mab(i);
  int type = GLP_FR;
  if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
    type = mibV == mabV ? GLP_FX : GLP_DB;
  else if (mibV > UNBOUNDED_DOWN)
    type = GLP_LO;
  else if (mabV < UNBOUNDED_UP)
    type = GLP_UP;
  return type;""", """  const bool lower = mib[i] > UNBOUNDED_DOWN, upper = mab[i] < UNBOUNDED_UP;
  static const int types[2][2] = {{GLP_FR, GLP_UP}, {GLP_LO, GLP_DB}};
  if (lower && upper && mib[i] == mab[i]) return GLP_FX;
  return types[lower][upper];"""),
    ("""  for (int i = 0; i < numIneqConstraints; ++i, ++idrow) {
    glp_set_row_bnds(lp, idrow, GLP_UP, 0.0, ci0(i));
    for (int j = 0; j < xsize; ++j, ++idcol) {
      if (CI(i, j) != 0.) {
        ia[idConsMat] = idrow, ja[idConsMat] = idcol,
        ar[idConsMat] = CI(i, j); /* a[1,1] = 1 */
        ++idConsMat;
      }
    }
    idcol = 1;
  }
  for (int i = 0; i < numEqConstraints; ++i, ++idrow) {
    glp_set_row_bnds(lp, idrow, GLP_FX, ce0(i), ce0(i));
    for (int j = 0; j < xsize; ++j, ++idcol) {
      if (CE(i, j) != 0.) {
        ia[idConsMat] = idrow, ja[idConsMat] = idcol,
        ar[idConsMat] = CE(i, j); /* a[1,1] = 1 */
        ++idConsMat;
      }
    }
    idcol = 1;
  }
""", """  const auto fill = [&](const MatrixXd& M, const int row) {
    for (int j = 0; j < xsize; ++j) {
      const double value = M(row, j);
      if (value == 0.) continue;
      ia[idConsMat] = idrow;
      ja[idConsMat] = j + 1;
      ar[idConsMat] = value;
      idConsMat++;
    }
    idrow++;
  };
  for (int i = 0; i < numIneqConstraints; ++i) {
    glp_set_row_bnds(lp, idrow, GLP_UP, 0.0, ci0(i));
    fill(CI, i);
  }
  for (int i = 0; i < numEqConstraints; ++i) {
    glp_set_row_bnds(lp, idrow, GLP_FX, ce0(i), ce0(i));
    fill(CE, i);
  }
"""),
    ("""  VectorXd miB =
      minBounds.size() > 0 ? minBounds : VectorXd::Ones(xsize) * UNBOUNDED_DOWN;
  VectorXd maB =
      maxBounds.size() > 0 ? maxBounds : VectorXd::Ones(xsize) * UNBOUNDED_UP;
""", """  VectorXd miB = VectorXd::Constant(xsize, UNBOUNDED_DOWN);
  VectorXd maB = VectorXd::Constant(xsize, UNBOUNDED_UP);
  if (minBounds.size()) miB = minBounds;
  if (maxBounds.size()) maB = maxBounds;
"""),
    ("""  if (res == GLP_OPT) {
    cost = glp_get_obj_val(
        lp);  // obtains a computed value of the objective function
    idrow = 1;
    for (int i = 0; i < xsize; ++i, ++idrow) x(i) = glp_get_col_prim(lp, idrow);
  }
""", """  switch (res) {
    case GLP_OPT:
      cost = glp_get_obj_val(lp);
      x = VectorXd::NullaryExpr(
          xsize, [lp](Eigen::Index i) { return glp_get_col_prim(lp, i + 1); });
      break;
    default:
      break;
  }
"""),
))]

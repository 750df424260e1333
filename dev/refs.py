"""behaviour-preserving rewrites"""
R = {}
C = "src/computeCOMTraj.cpp"
M = "src/common_solve_methods.cpp"
U = "src/utils.cpp"
Z = "src/solve_0_step.cpp"
K = "src/costfunction_definition.cpp"
A = "src/solver-abstract.cpp"
G = "src/glpk-wrapper.cpp"
W = "src/waypoints_definition.cpp"
INL = "include/hpp/bezier-com-traj/common_solve_methods.inl"
EE = "include/hpp/bezier-com-traj/solve_end_effector.hh"
DATA = "include/hpp/bezier-com-traj/data.hh"
FAM = "include/hpp/bezier-com-traj/waypoints/waypoints_"

# helpers extracted, range for, auto, lambdas
R["r1"] = [
(C, """  const int DIM_VAR = (int)dimVar(pData);
  std::vector<ndcurves::Bern<double> > berns =
      ComputeBersteinPolynoms((int)wps.size() - 1);
  double t, b;
  for (CIT_time cit = timeArray.begin(); cit != timeArray.end(); ++cit) {
    waypoint_t w = initwp(6, DIM_VAR);
    t = std::min(cit->first / T, 1.);
    for (std::size_t j = 0; j < wps.size(); ++j) {
      b = berns[j](t);
      w.first += b * (wps[j].first);
      w.second += b * (wps[j].second);
    }
    res.push_back(w);
  }
  return res;""", """  const auto berns = ComputeBersteinPolynoms((int)wps.size() - 1);
  res.reserve(timeArray.size());
  for (const auto& sample : timeArray)
    res.push_back(sampleWrench(wps, berns, (int)dimVar(pData),
                               std::min(sample.first / T, 1.)));
  return res;"""),
(C, """bezier_wp_t::t_point_t computeDiscretizedWwaypoints(const ProblemData& pData,""", """namespace {
waypoint_t sampleWrench(const bezier_wp_t::t_point_t& wps,
                        const std::vector<ndcurves::Bern<double> >& berns,
                        const int dim, const double u) {
  waypoint_t w = initwp(6, dim);
  auto bern = berns.begin();
  for (const waypoint_t& p : wps) {
    const double b = (*bern++)(u);
    w.first += b * p.first;
    w.second += b * p.second;
  }
  return w;
}
}  // namespace

bezier_wp_t::t_point_t computeDiscretizedWwaypoints(const ProblemData& pData,"""),
(C, """  int i = 0;
  CIT_time cit = timeArray.begin();
  for (CIT_time cit2 = timeArray.begin() + 1; cit2 != timeArray.end();
       ++cit, ++cit2, ++i) {
    if (cit2->second != cit->second) {
      res.push_back(i);
    }
  }
  res.push_back(i);
  return res;""", """  const int last = static_cast<int>(timeArray.size()) - 1;
  for (int i = 0; i < last; ++i)
    if (timeArray[i + 1].second != timeArray[i].second) res.push_back(i);
  res.push_back(last);
  return res;"""),
(C, """    pData.contacts_[i].contactPhase_->getPolytopeInequalities(Hrow, h);
    numStepForPhase =
        phaseSwitch[i] + 1 - numStepsCumulated;  // pointsPerPhase;
    numStepsCumulated = phaseSwitch[i] + 1;
    if (i > 0)
      ++numStepForPhase;  // because at the switch point between phases we add
                          // the constraints of both phases.
    num_stab_ineq += Hrow.rows() * numStepForPhase;
    num_kin_ineq += pData.contacts_[i].kin_.rows() * numStepForPhase;
  }
  long int res = num_stab_ineq + num_kin_ineq;
  if (pData.constraints_.constraintAcceleration_)
    res +=
        2 * 3 * (numPoints);  // upper and lower bound on acceleration for each
                              // discretized waypoint (exept the first one)
  return res;""", """    const ContactData& contact = pData.contacts_[i];
    contact.contactPhase_->getPolytopeInequalities(Hrow, h);
    numStepForPhase = phaseSwitch[i] + 1 - numStepsCumulated + (i > 0 ? 1 : 0);
    numStepsCumulated = phaseSwitch[i] + 1;
    num_kin_ineq += contact.kin_.size() * numStepForPhase;
    num_stab_ineq += Hrow.rows() * numStepForPhase;
  }
  const long int num_acc_ineq =
      pData.constraints_.constraintAcceleration_ ? 6 * (long int)numPoints : 0;
  return num_stab_ineq + num_kin_ineq + num_acc_ineq;"""),
(C, """    // check if we are going to switch phases :
    for (std::vector<int>::const_iterator it_switch = stepIdForPhase.begin();
         it_switch != (stepIdForPhase.end() - 1); ++it_switch) {
      if ((int)id_step == (*it_switch)) {
        id_phase++;
        switchContactPhase(pData, A, b, mH, h, wps_w[id_step],
                           pData.contacts_[id_phase], id_rows, dimH);
      }
    }""", """    const bool switches =
        std::find(stepIdForPhase.begin(), stepIdForPhase.end() - 1,
                  (int)id_step) != stepIdForPhase.end() - 1;
    if (switches)
      switchContactPhase(pData, A, b, mH, h, wps_w[id_step],
                         pData.contacts_[++id_phase], id_rows, dimH);"""),
(C, """    current_size = (int)pData.contacts_[id_phase].kin_.rows();
    if (current_size > 0) {
      A.block(id_rows, 0, current_size, 3) =
          (pData.contacts_[id_phase].Kin_ * wps_c[id_step].first);
      b.segment(id_rows, current_size) =
          pData.contacts_[id_phase].kin_ -
          (pData.contacts_[id_phase].Kin_ * wps_c[id_step].second);
      id_rows += current_size;
    }
""", """    addRows(pData.contacts_[id_phase], wps_c[id_step]);
"""),
(C, """        current_size = pData.contacts_[id_phase].kin_.rows();
        if (current_size > 0) {
          A.block(id_rows, 0, current_size, 3) =
              (pData.contacts_[id_phase].Kin_ * wps_c[id_step].first);
          b.segment(id_rows, current_size) =
              pData.contacts_[id_phase].kin_ -
              (pData.contacts_[id_phase].Kin_ * wps_c[id_step].second);
          id_rows += current_size;
        }
""", """        addRows(pData.contacts_[id_phase], wps_c[id_step]);
"""),
(C, """  long int current_size;
  id_phase = 0;
""", """  auto addRows = [&](const ContactData& contact, const coefs_t& wp) {
    const long int n = contact.kin_.rows();
    if (n == 0) return;
    A.block(id_rows, 0, n, 3) = contact.Kin_ * wp.first;
    b.segment(id_rows, n) = contact.kin_ - contact.Kin_ * wp.second;
    id_rows += n;
  };
"""),
(C, """  if (pData.constraints_
          .constraintAcceleration_) {  // assign the acceleration constraints
                                       // for each discretized waypoints :
    std::vector<coefs_t> wps_ddc =
        computeDiscretizedAccelerationWaypoints<point_t>(pData, t_total,
                                                         timeArray);
    Vector3 acc_bounds = Vector3::Ones() * pData.constraints_.maxAcceleration_;
    for (std::size_t id_step = 0; id_step < timeArray.size(); ++id_step) {
      A.block(id_rows, 0, 3, 3) =
          Matrix3::Identity() * wps_ddc[id_step].first;  // upper
      b.segment(id_rows, 3) = acc_bounds - wps_ddc[id_step].second;
      A.block(id_rows + 3, 0, 3, 3) =
          -Matrix3::Identity() * wps_ddc[id_step].first;  // lower
      b.segment(id_rows + 3, 3) = acc_bounds + wps_ddc[id_step].second;
      id_rows += 6;
    }
  }""", """  if (!pData.constraints_.constraintAcceleration_) return;
  const Vector3 acc_bounds =
      Vector3::Constant(pData.constraints_.maxAcceleration_);
  for (const coefs_t& ddc : computeDiscretizedAccelerationWaypoints<point_t>(
           pData, t_total, timeArray)) {
    const Matrix3 coef = ddc.first * Matrix3::Identity();
    A.middleRows(id_rows, 3) = coef;
    A.middleRows(id_rows + 3, 3) = -coef;
    b.segment<3>(id_rows) = acc_bounds - ddc.second;
    b.segment<3>(id_rows + 3) = acc_bounds + ddc.second;
    id_rows += 6;
  }"""),
(C, """  if (resQp.success_) {
    res.success_ = true;
    res.x = resQp.x.head<3>();
    res.cost_ = resQp.cost_;
    std::vector<Vector3> pis = computeConstantWaypoints(pData, T);
    res.c_of_t_ = computeBezierCurve<bezier_t, point_t>(
        pData.constraints_.flag_, T, pis, res.x);
    computeFinalVelocity(res);
    computeFinalAcceleration(res);
    res.dL_of_t_ = bezier_t::zero(3, T);
  }
  return res;""", """  if (!resQp.success_) return res;
  const std::vector<Vector3> pis = computeConstantWaypoints(pData, T);
  res.success_ = resQp.success_;
  res.cost_ = resQp.cost_;
  res.x = resQp.x.segment(0, 3);
  res.dL_of_t_ = bezier_t::zero(3, T);
  res.c_of_t_ = computeBezierCurve<bezier_t, point_t>(
      pData.constraints_.flag_, T, pis, res.x);
  computeFinalAcceleration(res);
  computeFinalVelocity(res);
  return res;"""),
(C, """  for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
       it != pData.contacts_.end(); ++it) {
    // kinematics :
    num_ineq += it->kin_.rows() * (degree + 1);
    // stability :
    if (useDD) {
      it->contactPhase_->getPolytopeInequalities(Hrow, h);
      num_ineq += Hrow.rows() * (w_degree + 1);
    }
  }""", """  for (const ContactData& contact : pData.contacts_) {
    num_ineq += contact.kin_.rows() * (degree + 1);
    if (!useDD) continue;
    contact.contactPhase_->getPolytopeInequalities(Hrow, h);
    num_ineq += Hrow.rows() * (w_degree + 1);
  }"""),
(C, """    int currentDegree;  // remove redundant equalities depending on more
                        // constraining problem
    std::vector<ContactData>::const_iterator it2 = pData.contacts_.begin();
    ++it2;
    for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
         it != pData.contacts_.end(); ++it, ++it2) {
      currentDegree = w_degree + 1;
      if (cSize != 0 && it->contactPhase_->m_G_centr.cols() > cSize)
        currentDegree -= 1;
      cSize = it->contactPhase_->m_G_centr.cols();
      if (it2 != pData.contacts_.end() &&
          it2->contactPhase_->m_G_centr.cols() <= cSize)
        currentDegree -= 1;
      forceVarDim += cSize * (currentDegree);
      numEq += (numRowsForce) * (currentDegree);
    }
  }""", """    const auto cols = [&pData](std::size_t i) -> long int {
      return pData.contacts_.at(i).contactPhase_->m_G_centr.cols();
    };
    const std::size_t n = pData.contacts_.size();
    for (std::size_t i = 0; i < n; ++i) {
      int currentDegree = w_degree + 1;
      if (cSize != 0 && cols(i) > cSize) --currentDegree;
      cSize = cols(i);
      if (i + 1 < n && cols(i + 1) <= cSize) --currentDegree;
      forceVarDim += cSize * currentDegree;
      numEq += numRowsForce * currentDegree;
    }
  }"""),
(C, """    for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
         size_kin > 0 && wpit != cs.waypoints().end(); ++wpit) {
      A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
      b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
      id_rows += size_kin;
    }""", """    if (size_kin > 0) {
      for (const waypoint_t& wp : cs.waypoints()) {
        A.block(id_rows, 0, size_kin, 3) = phase.Kin_ * wp.first;
        b.segment(id_rows, size_kin) = phase.kin_ - phase.Kin_ * wp.second;
        id_rows += size_kin;
      }
    }"""),
(C, """      for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
           wpit != ddcs.waypoints().end(); ++wpit) {
        // the waypoints of a derivative do not include its time scaling
        const waypoint_t acc = (*wpit) * ddcs.mult_T_;
""", """      const bezier_wp_t::t_point_t& pts = ddcs.waypoints();
      std::size_t k = 0;
      while (k < pts.size()) {
        const waypoint_t acc = ddcs.mult_T_ * pts[k++];
"""),
(C, """      bezier_wp_t::cit_point_t start = ws.waypoints().begin();
      bezier_wp_t::cit_point_t stop = ws.waypoints().end();
      if (id_phase + 1 < (size_t)Ts.size() &&
          pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() <=
              phase.contactPhase_->m_G_centr.cols())
        --stop;
      if (cSize > 0 && cSize < phase.contactPhase_->m_G_centr.cols()) ++start;
      cSize = phase.contactPhase_->m_G_centr.cols();
      for (bezier_wp_t::cit_point_t wpit = start; wpit != stop;
           ++wpit, rowIdx += 6)
        assignStabilityConstraintsForTimeStepForce(
            *wpit, rowIdx, id_cols, phase.contactPhase_->m_G_centr, D, d,
            phase.contactPhase_->m_mass, phase.contactPhase_->m_gravity);""", """      const centroidal_dynamics::Equilibrium& eq = *phase.contactPhase_;
      const long int cols = eq.m_G_centr.cols();
      const bezier_wp_t::t_point_t& pts = ws.waypoints();
      const bool lastShared =
          id_phase + 1 < (size_t)Ts.size() &&
          pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() <= cols;
      const bool firstShared = cSize > 0 && cSize < cols;
      for (std::size_t k = firstShared ? 1 : 0;
           k < pts.size() - (lastShared ? 1 : 0); ++k) {
        assignStabilityConstraintsForTimeStepForce(pts[k], rowIdx, id_cols,
                                                   eq.m_G_centr, D, d,
                                                   eq.m_mass, eq.m_gravity);
        rowIdx += numRowsForce;
      }
      cSize = cols;"""),
(U, """  Matrix3 res = Matrix3::Zero();
  res(0, 1) = -x(2);
  res(0, 2) = x(1);
  res(1, 0) = x(2);
  res(1, 2) = -x(0);
  res(2, 0) = -x(1);
  res(2, 1) = x(0);
  return res;""", """  Matrix3 res;
  res << 0., -x[2], x[1], x[2], 0., -x[0], -x[1], x[0], 0.;
  return res;"""),
(U, """  for (unsigned int i = 0; i <= (unsigned int)degree; ++i)
    res.push_back(ndcurves::Bern<double>(degree, i));
  return res;""", """  res.reserve(degree + 1);
  for (unsigned int i = 0; i < degree + 1; i++) res.emplace_back(degree, i);
  return res;"""),
(U, """  double t = 0;
  double t_total = phaseTimings.sum();
  timeArray.push_back(std::make_pair(0., 0));
  for (int i = 0; i < phaseTimings.size(); ++i) {
    double step = (double)phaseTimings[i] / pointsPerPhase;
    for (size_t j = 0; j < pointsPerPhase; ++j) {
      t += step;
      timeArray.push_back(std::make_pair(t, i));
    }
  }
  timeArray.pop_back();
  timeArray.push_back(std::make_pair(
      t_total, phaseTimings.size() - 1));  // avoid numerical errors
  return timeArray;""", """  double t = 0;
  timeArray.emplace_back(0., 0);
  for (int i = 0; i < phaseTimings.size(); ++i) {
    const double step = phaseTimings(i) / (double)pointsPerPhase;
    unsigned int j = pointsPerPhase;
    while (j-- > 0) timeArray.emplace_back(t += step, i);
  }
  timeArray.back().first = phaseTimings.sum();
  timeArray.back().second = (int)phaseTimings.size() - 1;
  return timeArray;"""),
(U, """  double t = 0;
  double currentTiming = 0.;
  for (int i = 0; i < phaseTimings.size(); ++i) {""", """  double currentTiming = 0.;
  for (int i = 0; i < phaseTimings.rows(); i++) {"""),
(U, """    t = currentTiming;
    currentTiming += phaseTimings[i];
    while (t < currentTiming) {
      timeArray.push_back(std::make_pair(t, i));
      t += timeStep;
    }
    timeArray.push_back(std::make_pair(currentTiming, i));""", """    const double end = currentTiming + phaseTimings[i];
    for (double t = currentTiming; t < end; t += timeStep)
      timeArray.push_back({t, i});
    timeArray.push_back({end, i});
    currentTiming = end;"""),
(U, """  if (w1.second.rows() != w2.second.rows() ||
      w1.first.rows() != w2.first.rows() || w1.first.cols() != w2.first.cols())
    throw std::runtime_error("You cannot add waypoint_t of different size.");
  return waypoint_t(w1.first + w2.first, w1.second + w2.second);""", """  if (!sameSize(w1, w2))
    throw std::runtime_error("You cannot add waypoint_t of different size.");
  waypoint_t res(w1);
  res.first += w2.first;
  res.second += w2.second;
  return res;"""),
(U, """waypoint_t operator+(const waypoint_t& w1""", """static bool sameSize(const waypoint_t& a, const waypoint_t& b) {
  return a.second.size() == b.second.size() && a.first.rows() == b.first.rows() &&
         a.first.cols() == b.first.cols();
}

waypoint_t operator+(const waypoint_t& w1"""),
(M, """  for (size_t i = 0; i < last + 1;) {
    if (empty(i)) {
      assert(A.row(i).norm() == 0);
      if (b(i) < 0) {
        // std::cout << "empty row for A while correponding b is negative.
        // Problem is infeasible" << b(i) << std::endl;
        return -1;
      }
      A.row(i).swap(A.row(last));
      b.row(i).swap(b.row(last));
      empty.segment<1>(i).swap(empty.segment<1>(last));
      --last;
    } else
      ++i;
  }""", """  size_t i = 0;
  while (i < last + 1) {
    if (!empty(i)) {
      ++i;
      continue;
    }
    if (b(i) < 0) return -1;
    A.row(i).swap(A.row(last));
    std::swap(b(i), b(last));
    std::swap(empty(i), empty(last));
    --last;
  }"""),
(M, """  int i = 0;
  std::vector<waypoint6_t>::const_iterator wpLcit = wpL.begin();
  for (std::vector<waypoint6_t>::const_iterator wpcit = wps.begin();
       wpcit != wps.end(); ++wpcit) {
    A.block(i * dimH, 0, dimH, 3) = mH * wpcit->first;
    b.segment(i * dimH, dimH) = mH * (bc - wpcit->second);
    if (useAngMomentum) {
      A.block(i * dimH, 3, dimH, 3) = H * wpLcit->first;
      b.segment(i * dimH, dimH) += H * (-wpLcit->second);
      ++wpLcit;
    }
    ++i;
  }""", """  for (std::size_t i = 0; i < wps.size(); ++i) {
    const long int row = (long int)i * dimH;
    A.block(row, 0, dimH, 3) = mH * wps[i].first;
    VectorX rhs = mH * (bc - wps[i].second);
    if (useAngMomentum) {
      A.block(row, 3, dimH, 3) = H * wpL[i].first;
      rhs -= H * wpL[i].second;
    }
    b.segment(row, dimH) = rhs;
  }"""),
(M, """    Eigen::VectorXd norm = A.block(0, 0, zeroindex, A.cols()).rowwise().norm();
    A.block(0, 0, zeroindex, A.cols()).rowwise().normalize();
    b.head(zeroindex) = b.head(zeroindex).cwiseQuotient(norm);""", """    for (int i = 0; i < zeroindex; ++i) {
      const double norm = A.row(i).norm();
      A.row(i) /= norm;
      b(i) /= norm;
    }"""),
(Z, """  std::vector<waypoint6_t> wps;
  wps.push_back(w0(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w1(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w2(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w3(p0, p1, g, p0X, p1X, gX, alpha));
  wps.push_back(w4(p0, p1, g, p0X, p1X, gX, alpha));
  if (numSteps > 0) {
    std::vector<ndcurves::Bern<double> > berns = ComputeBersteinPolynoms(4);
    wps = ComputeDiscretizedWaypoints(wps, berns, numSteps);
  }
  return wps;""", """  std::vector<waypoint6_t> wps = {w0(p0, p1, g, p0X, p1X, gX, alpha),
                                  w1(p0, p1, g, p0X, p1X, gX, alpha),
                                  w2(p0, p1, g, p0X, p1X, gX, alpha),
                                  w3(p0, p1, g, p0X, p1X, gX, alpha),
                                  w4(p0, p1, g, p0X, p1X, gX, alpha)};
  return sampled(wps, numSteps);"""),
(Z, """std::vector<waypoint6_t> ComputeAllWaypoints(point_t_tC p0""", """static std::vector<waypoint6_t> sampled(const std::vector<waypoint6_t>& wps,
                                        const int numSteps) {
  return numSteps > 0 ? ComputeDiscretizedWaypoints(
                            wps, ComputeBersteinPolynoms(4), numSteps)
                      : wps;
}

std::vector<waypoint6_t> ComputeAllWaypoints(point_t_tC p0"""),
(Z, """  if (resQp.success_) {
    res.success_ = true;
    res.x = resQp.x;
    computeRealCost(pData, res);
    computeC_of_T(pData, Ts, res);
    computedL_of_T(pData, Ts, res);
  }
  return res;""", """  if (!resQp.success_) return res;
  res.x = resQp.x;
  computedL_of_T(pData, Ts, res);
  computeC_of_T(pData, Ts, res);
  computeRealCost(pData, res);
  res.success_ = true;
  return res;"""),
(K, """  double t_total = 0.;
  for (int i = 0; i < Ts.size(); ++i) t_total += Ts[i];
""", """  const double t_total = std::accumulate(Ts.data(), Ts.data() + Ts.size(), 0.);
"""),
(K, "#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>\n", "#include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>\n#include <numeric>\n"),
(K, """  for (size_t i = 0; i < wps_ddc.size(); ++i) {
    H.block<3, 3>(0, 0) +=
        Matrix3::Identity() * wps_ddc[i].first * wps_ddc[i].first;
    g.head<3>() += wps_ddc[i].first * wps_ddc[i].second;
  }""", """  for (const coefs_t& ddc : wps_ddc) {
    const double k = ddc.first;
    H.topLeftCorner<3, 3>().diagonal().array() += k * k;
    g.head<3>() += k * ddc.second;
  }"""),
(K, """  T_costCompute::const_iterator cit = costs.find(pData.costFunction_);
  if (cit != costs.end())
    return cit->second(pData, Ts, T, timeArray, H, g);
  else {
    std::cout << "Unknown cost function" << std::endl;
    throw std::runtime_error("Unknown cost function");
  }""", """  const auto cit = costs.find(pData.costFunction_);
  if (cit == costs.end()) {
    std::cerr << "Unknown cost function" << std::endl;
    throw std::runtime_error("Unknown cost function");
  }
  const costCompute compute = cit->second;
  compute(pData, Ts, T, timeArray, H, g);"""),
(INL, """  for (CIT_time cit = timeArray.begin(); cit != timeArray.end(); ++cit) {
    double t = std::min(cit->first / T, 1.);
    wps.push_back(evaluateCurveAtTime(pData, pi, t));
  }""", """  std::transform(timeArray.begin(), timeArray.end(), std::back_inserter(wps),
                 [&](const std::pair<double, int>& s) {
                   return evaluateCurveAtTime(pData, pi,
                                              std::min(s.first / T, 1.));
                 });"""),
(INL, """  for (CIT_time cit = timeArray.begin(); cit != timeArray.end(); ++cit) {
    double t = std::min(cit->first / T, 1.);
    wps.push_back(evaluateAccelerationCurveAtTime(pData, pi, T, t));
  }""", """  for (const auto& [instant, phase] : timeArray) {
    (void)phase;
    const double u = instant / T;
    wps.push_back(evaluateAccelerationCurveAtTime(pData, pi, T, u < 1. ? u : 1.));
  }"""),
]

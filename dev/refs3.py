"""behaviour-preserving rewrites, third set: the Python module, the solver files"""
import re
from refs import R
from refs2 import sub, seq, rep, C, M, W, EE
PY = "python/bezier_com_traj.cpp"

ZERO = (r"ResultDataCOMTraj\* zeroStepCapturability\(.*?(?=struct res_data_exception)", """namespace {
ResultDataCOMTraj* runZeroStep(const ContactData& contact, const Vector3& com,
                               const Vector3& dCom, const Vector3& l0,
                               const bool useAngMomentum,
                               const double timeDuration,
                               const double timeStep) {
  ProblemData pData;
  pData.useAngularMomentum_ = useAngMomentum;
  pData.contacts_.assign(1, contact);
  pData.l0_ = l0;
  pData.dc0_ = dCom;
  pData.c0_ = com;
  return new ResultDataCOMTraj(
      solve0step(pData, std::vector<double>(1, timeDuration), timeStep));
}
}  // namespace

ResultDataCOMTraj* zeroStepCapturability(centroidal_dynamics::Equilibrium* eq,
                                         const Vector3& com,
                                         const Vector3& dCom, const Vector3& l0,
                                         const bool useAngMomentum,
                                         const double timeDuration,
                                         const double timeStep) {
  ContactData data;
  data.contactPhase_ = eq;
  return runZeroStep(data, com, dCom, l0, useAngMomentum, timeDuration,
                     timeStep);
}

ResultDataCOMTraj* zeroStepCapturabilityWithKinConstraints(
    centroidal_dynamics::Equilibrium* eq, const Vector3& com,
    const Vector3& dCom, const Vector3& l0, const bool useAngMomentum,
    const double timeDuration, const double timeStep, const MatrixXX& Kin,
    const MatrixXX& kin) {
  ContactData data(eq);
  data.kin_ = kin;
  data.Kin_ = Kin;
  return runZeroStep(data, com, dCom, l0, useAngMomentum, timeDuration,
                     timeStep);
}

""", 1)

GETX = [(r"VectorX get_xD\(.*?\n}\n", "", 1), (r"double get_costD\(", """template <class Result>
VectorX definedX(const Result& res) {
  if (res.x.size() == 0) {
    std::cout << "x is not defined" << std::endl;
    throw res_data_exception();
  }
  return res.x;
}

VectorX get_xD(const ResultData& res) { return definedX(res); }

double get_costD(""", 1), (r"VectorX get_x\(const ResultDataCOMTraj& res\) \{.*?\n}\n", "VectorX get_x(const ResultDataCOMTraj& res) { return definedX(res); }\n", 1)]

PAIRS = [(r"boost::python::tuple get_Ang\(.*?(?=/\*\* END CONTACT)", """namespace {
void checkSizes(const MatrixX3& A, const VectorX& b, const char* name) {
  if (A.rows() == b.rows()) return;
  std::cout << " " << name << " inequality matrix sizes do not match  "
            << std::endl;
  throw contact_data_exception();
}
boost::python::tuple inequalities(const MatrixX3& A, const VectorX& b,
                                  const char* name) {
  if (b.rows() > 0) return boost::python::make_tuple(A, b);
  std::cout << " no " << name << " constraints assigned  " << std::endl;
  throw contact_data_exception();
}
}  // namespace

boost::python::tuple get_Ang(const ContactData& res) {
  return inequalities(res.Ang_, res.ang_, "angular momentum");
}
boost::python::tuple get_Kin(const ContactData& res) {
  return inequalities(res.Kin_, res.kin_, "kinematic");
}
void set_Kin(ContactData& res, const MatrixX3& val, const VectorX& val2) {
  checkSizes(val, val2, "Kinematic");
  res.kin_ = val2;
  res.Kin_ = val;
}
void set_Ang(ContactData& res, const MatrixX3& val, const VectorX& val2) {
  checkSizes(val, val2, "Angular");
  res.ang_ = val2;
  res.Ang_ = val;
}

""", 1)]

EEF = [(r"MatrixVector\* computeEndEffectorConstraintsPython\(.*?(?=Eigen::Matrix<real, Eigen::Dynamic, Eigen::Dynamic>\ncompute)", """namespace {
MatrixVector* wrap(const linear_points_t& Ab) {
  std::unique_ptr<MatrixVector> res(new MatrixVector());
  res->res = Ab;
  return res.release();
}
}  // namespace

MatrixVector* computeEndEffectorConstraintsPython(const ProblemData& pData,
                                                  const double time) {
  return wrap(computeEndEffectorConstraints(
      pData, time, computeConstantWaypoints(pData, time)));
}

MatrixVector* computeEndEffectorVelocityCostPython(const ProblemData& pData,
                                                   const double time) {
  return wrap(computeVelocityCost(pData, time,
                                  computeConstantWaypoints(pData, time)));
}

MatrixVector* computeEndEffectorDistanceCostPython(const ProblemData& pData,
                                                   const double time,
                                                   const int numPoints,
                                                   point_list_t pts_l) {
  std::vector<point3_t> path;
  path.reserve(pts_l.cols());
  for (Eigen::Index c = 0; c != pts_l.cols(); c++) path.emplace_back(pts_l.col(c));
  return wrap(computeDistanceCostFunction(numPoints, pData, time, path));
}

""", 1), (r"  Eigen::Matrix<real, Eigen::Dynamic, Eigen::Dynamic> res\(3, pi\.size\(\)\);.*?return res;", """  point_list_t pts(3, pi.size());
  for (std::size_t i = 0; i < pi.size(); i++) pts.col(i) = pi[i];
  return pts;""", 1), (r"  ResultDataCOMTraj res =\n      solveEndEffector<DummyPath>\(pData, DummyPath\(\), time, 0\);\n  return new ResultDataCOMTraj\(res\);", """  const DummyPath path;
  return new ResultDataCOMTraj(solveEndEffector(pData, path, time, 0));""", 1),
       (r"  ResultDataCOMTraj res = computeCOMTraj\(pData, Ts, timeStep\);\n  return new ResultDataCOMTraj\(res\);", "  auto res = std::make_unique<ResultDataCOMTraj>(\n      computeCOMTraj(pData, Ts, timeStep));\n  return res.release();", 1)]


def many(l):
    return seq(*[sub(p, r, n) for p, r, n in l])


def inc(*hs):
    return lambda s: s.replace("#include", "".join("#include <%s>\n" % h for h in hs) + "#include", 1)


R["r13a"] = [(PY, seq(many([ZERO]), many(GETX), many(PAIRS), many(EEF), inc("memory", "vector")))]

# accessors as lambdas
LAM = []


def lam(s):
    def one(m):
        n = m.group(1)
        cls = m.group(2)
        return ".add_property(\"%s\",\n                    +[](const %s& p) { return p.%s; },\n                    +[](%s& p, const point_t& v) { p.%s = v; })" % (n, cls, n, cls, n)
    for n in ("c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_"):
        s = re.sub(r'\.add_property\("(%s)", &get_\w+, &set_\w+\)' % n, lambda m: ".add_property(\"%s\", +[](const ProblemData& p) -> point_t { return p.%s; },\n                    +[](ProblemData& p, const point_t& v) { p.%s = v; })" % (n, n, n), s)
        s = re.sub(r"point_t get_%s\([^}]*\}\n+" % n, "", s)
        s = re.sub(r"void set_%s\([^}]*\}\n+" % n, "", s)
    s = s.replace('.add_property("success", &get_succ)', '.add_property("success", +[](const ResultDataCOMTraj& r) { return r.success_; })')
    s = s.replace('.add_property("x", &get_xD)', '.add_property("x", +[](const ResultData& r) { if (!(r.x.size() > 0)) throw res_data_exception(); return r.x; })')
    s = re.sub(r"VectorX get_xD\(.*?\n}\n", "", s, flags=re.S)
    s = s.replace("bool get_succ(const ResultDataCOMTraj& res) { return res.success_; }\n", "")
    s = s.replace('.def("clearContacts", clearContacts)', '.def("clearContacts", +[](ProblemData& p) { p.contacts_.clear(); })')
    s = s.replace("void clearContacts(ProblemData& res) { res.contacts_.clear(); }\n", "")
    return s


R["r13b"] = [(PY, lam)]


# direct member pointers, template accessors, registration in helpers
def tmpl(s):
    s = s.replace("/** BEGIN ProblemData**/", """template <class C, class T, T C::*field>
T getField(const C& object) {
  return object.*field;
}
template <class C, class T, T C::*field>
void setField(C& object, const T& value) {
  object.*field = value;
}
/** BEGIN ProblemData**/""", 1)
    for n in ("c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_"):
        s = re.sub(r'\.add_property\("(%s)", &get_\w+, &set_\w+\)' % n, lambda m: ".add_property(\"%s\", &getField<ProblemData, point_t, &ProblemData::%s>,\n                    &setField<ProblemData, point_t, &ProblemData::%s>)" % (n, n, n), s)
        s = re.sub(r"point_t get_%s\([^}]*\}\n+" % n, "", s)
        s = re.sub(r"void set_%s\([^}]*\}\n+" % n, "", s)
    s = re.sub(r'\.add_property\("constrainAcceleration_", &get_ConstrainAcc,\s*&set_ConstrainAcc\)', '.def_readwrite("constrainAcceleration_", &Constraints::constraintAcceleration_)', s)
    s = re.sub(r'\.add_property\("maxAcceleration_", &get_MaxAcc, &set_MaxAcc\)', '.add_property("maxAcceleration_", make_getter(&Constraints::maxAcceleration_), make_setter(&Constraints::maxAcceleration_))', s)
    s = re.sub(r'\.add_property\("cost", &get_cost\)', '.def_readonly("cost", &ResultDataCOMTraj::cost_)', s)
    for n in ("get_ConstrainAcc", "set_ConstrainAcc", "get_MaxAcc", "set_MaxAcc", "get_cost"):
        s = re.sub(r"(bool|void|double) %s\([^}]*\}\n+" % n, "", s)
    # registration helpers
    a, b = s.index("  class_<ResultDataCOMTraj>(\"ResultDataCOMTraj\""), s.index("  def(\"zeroStepCapturability\", &zeroStepCapturability,")
    body = s[a:b]
    s = s[:a] + "  exposeClasses();\n\n" + s[b:]
    k = s.index("BOOST_PYTHON_MODULE(")
    body = re.sub(r'enum_<CostFunction>\("CostFunction"\)\s*', 'enum_<CostFunction> costs("CostFunction");\n  costs', body)
    body = re.sub(r'class_<Constraints>\("Constraints", init<>\(\)\)\s*', 'class_<Constraints> constraints("Constraints", init<>());\n  constraints', body)
    s = s[:k] + "namespace {\nvoid exposeClasses() {\n" + body + "}\n}  // namespace\n\n" + s[k:]
    return s


R["r13c"] = [(PY, tmpl)]

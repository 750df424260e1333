"""behaviour-preserving rewrites, second set: edits are (file, function on the text)"""
import re
from refs import R, W, FAM, EE, A, G, DATA, U, C, M, Z, K
INC = "include/hpp/bezier-com-traj/"
FAMS = ["c0_dc0_c1", "c0_dc0_dc1", "c0_dc0_dc1_c1", "c0_dc0_ddc0", "c0_dc0_ddc0_c1", "c0_dc0_ddc0_dc1_c1", "c0_dc0_ddc0_ddc1_dc1_c1",
        "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1", "c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1", "c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1"]


def sub(pat, rep, n=None, flags=re.S):
    def f(s):
        r, k = re.subn(pat, rep, s, flags=flags)
        assert k >= 1 and (n is None or k == n), (pat, k)
        return r
    return f


def seq(*fs):
    def f(s):
        for g in fs:
            s = g(s)
        return s
    return f


FIND = (r"  CIT_\w+ cit =\s+(\w+)\.find\(pData\.constraints_\.flag_\);\s*if \(cit != \w+\.end\(\)\)\s*return cit->second\(([^;]*)\);\s*"
        r"else \{\s*std::cout << \"Current[^;]*;\s*throw std::runtime_error\(\s*\"[^\"]*\"\);\s*\}")


def inits(s):
    def one(m):
        body = m.group(1)
        ents = re.findall(r"\(\s*([\w:]+::flag),\s*([\w:\s]+?)\)", body, re.S)
        return "= {" + ",\n    ".join("{%s, %s}" % (a, re.sub(r"\s", "", b)) for a, b in ents) + "};"
    r, k = re.subn(r"=\s*boost::assign::map_list_of(\(.*?\));", one, s, flags=re.S)
    assert k > 10
    return r


# lookup helper template, initialiser lists instead of boost::assign
R["r2"] = [(W, seq(
    sub(FIND, r"  return select(\1, pData)(\2);"),
    inits,
    sub(r"typedef std::pair<double, point3_t> coefs_t;\n", """typedef std::pair<double, point3_t> coefs_t;

namespace {
template <typename Table>
const typename Table::mapped_type& select(const Table& table,
                                          const ProblemData& pData) {
  const auto entry = table.find(pData.constraints_.flag_);
  if (entry == table.end()) {
    static const char* message = "Current constraints set are not implemented";
    std::cout << message << std::endl;
    throw std::runtime_error(message);
  }
  return entry->second;
}
}  // namespace
""", 1),
    sub(r"  if \(pData\.constraints_\.flag_ & FIVE_FREE_VAR\).*?    return 3;\n", """  static const std::pair<ConstraintFlag, int> kinds[] = {
      {FIVE_FREE_VAR, 5}, {FOUR_FREE_VAR, 4}, {THREE_FREE_VAR, 3},
      {TWO_FREE_VAR, 2}};
  int numFree = 1;
  for (const auto& kind : kinds) {
    if (pData.constraints_.flag_ & kind.first) {
      numFree = kind.second;
      break;
    }
  }
  return 3 * numFree;
""", 1)))]


def switches(s):
    """every table becomes a switch in the function that used it"""
    tabs = {}
    for m in re.finditer(r"static const T_\w+ (\w+) =\s*boost::assign::map_list_of(\(.*?\));\n", s, re.S):
        tabs[m.group(1)] = [(a, re.sub(r"\s", "", b)) for a, b in re.findall(r"\(\s*([\w:]+::flag),\s*([\w:\s]+?)\)", m.group(2), re.S)]
    s = re.sub(r"static const T_\w+ (\w+) =\s*boost::assign::map_list_of(\(.*?\));\n", "", s, flags=re.S)

    def f(m):
        return "  switch (pData.constraints_.flag_) {\n" + "".join("    case int(%s):\n      return %s(%s);\n" % (a, b, m.group(2)) for a, b in tabs[m.group(1)]) + \
            "    default:\n      break;\n  }\n  std::cout << \"Current constraints set are not implemented\" << std::endl;\n" \
            "  throw std::runtime_error(\"Current constraints set are not implemented\");"
    s = re.sub(FIND, f, s, flags=re.S)
    # case labels need constant expressions: if chain on a copy
    s = re.sub(r"  switch \(pData\.constraints_\.flag_\) \{\n", "  const ConstraintFlag flag = pData.constraints_.flag_;\n", s)
    s = re.sub(r"    case int\(([\w:]+)\):\n      return", r"  if (flag == \1)\n    return", s)
    s = s.replace("    default:\n      break;\n  }\n  std::cout", "  std::cout")
    return s


R["r3"] = [(W, seq(switches, sub(r"  if \(pData\.constraints_\.flag_ & FIVE_FREE_VAR\).*?    return 3;\n", """  const int f = static_cast<int>(pData.constraints_.flag_);
  return 3 * ((f & FIVE_FREE_VAR)    ? 5
              : (f & FOUR_FREE_VAR)  ? 4
              : (f & THREE_FREE_VAR) ? 3
              : (f & TWO_FREE_VAR)   ? 2
                                     : 1);
""", 1)))]

# array of entries searched with find_if
R["r4"] = [(W, seq(
    sub(FIND, r"  return pick(\1, pData)(\2);"),
    lambda s: re.sub(r"static const T_(\w+) (\w+) =\s*boost::assign::map_list_of(\(.*?\));", lambda m:
                     "static const Entry<%s> %s[] = {" % (m.group(1), m.group(2)) +
                     ",\n    ".join("{%s, &%s}" % (a, re.sub(r"\s", "", b)) for a, b in re.findall(r"\(\s*([\w:]+::flag),\s*([\w:\s]+?)\)", m.group(3), re.S)) + "};", s, flags=re.S),
    sub(r"typedef std::pair<double, point3_t> coefs_t;\n", """typedef std::pair<double, point3_t> coefs_t;
template <typename Fn>
struct Entry {
  ConstraintFlag flag;
  Fn fn;
};
template <typename Fn, std::size_t N>
Fn pick(const Entry<Fn> (&entries)[N], const ProblemData& pData) {
  const ConstraintFlag wanted = pData.constraints_.flag_;
  const Entry<Fn>* it =
      std::find_if(entries, entries + N,
                   [wanted](const Entry<Fn>& e) { return e.flag == wanted; });
  if (it == entries + N) {
    std::cout << "Current constraints set are not implemented" << std::endl;
    throw std::runtime_error("Current constraints set are not implemented");
  }
  return it->fn;
}
""", 1), lambda s: s.replace('#include "boost/assign.hpp"', "#include <algorithm>")))]


# families: helper for constants, references, hoisted expressions
def fam_a(s):
    s = s.replace("  coefs_t wp;\n", "  auto wp = coefs_t();\n")
    s = re.sub(r"const double t2 = t \* t;|double t2 = t \* t;", "const double t2 = std::pow(t, 2);", s)
    s = re.sub(r"(?:const )?double t3 = t2 \* t;", "const double t3 = t * t * t;", s)
    s = s.replace("const double alpha = 1 / (T2);", "const double alpha = 1.0 / T / T;")
    s = s.replace("  std::vector<point_t> pi = computeConstantWaypoints(pData, T);\n", "  const auto pi = computeConstantWaypoints(pData, T);\n")
    s = s.replace("""  std::vector<Matrix3> Cpi;
  for (std::size_t i = 0; i < pi.size(); ++i) {
    Cpi.push_back(skew(pi[i]));
  }
""", """  std::vector<Matrix3> Cpi(pi.size());
  std::transform(pi.begin(), pi.end(), Cpi.begin(),
                 [](const point_t& p) { return skew(p); });
""")
    s = re.sub(r"  waypoint_t (w\d) = initwp\(DIM_POINT, DIM_VAR\);", r"  wps.push_back(initwp(DIM_POINT, DIM_VAR));\n  waypoint_t& \1 = wps.back();", s)
    s = re.sub(r"  wps\.push_back\(w\d\);\n", "", s)
    s = s.replace("first.block<3, 3>(0, 0)", "first.topRows<3>()").replace("first.block<3, 3>(3, 0)", "first.bottomRows<3>()")
    s = s.replace("second.head<3>()", "second.segment<3>(0)").replace("second.tail<3>()", "second.segment(3, 3)")
    s = s.replace("  pi.push_back(pData.c0_);", "  pi.reserve(8);\n  pi.emplace_back(pData.c0_);", 1)
    s = s.replace("pi.push_back(point_t::Zero())", "pi.emplace_back(0., 0., 0.)")
    s = s.replace("namespace bezier_com_traj {\nnamespace", "#include <algorithm>\n\nnamespace bezier_com_traj {\nnamespace", 1)
    return s


# families: lambdas and array building
def fam_b(s):
    s = s.replace("  bezier_wp_t::t_point_t wps;\n", """  bezier_wp_t::t_point_t wps;
  auto gravityOf = [&pData]() -> Vector3 {
    return pData.contacts_[0].contactPhase_->m_gravity;
  };
""")
    s = s.replace("const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;", "const Vector3 g(gravityOf());")
    s = re.sub(r"(w\d)\.first\.block<3, 3>\((\d), 0\) =\s*([^;]*) \* alpha \* Matrix3::Identity\(\);", r"\1.first.block<3, 3>(\2, 0).diagonal().setConstant(\3 * alpha);", s)
    s = re.sub(r"1\.0 \* \(", "(", s)
    s = s.replace("wp.first = (", "wp.first = 1. * (")
    s = re.sub(r"\(pData\.dc0_ \* T / n\) \+ pData\.c0_", "pData.c0_ + T / n * pData.dc0_", s)
    s = re.sub(r"\(-pData\.dc1_ \* T / n\) \+ pData\.c1_", "pData.c1_ - pData.dc1_ * (T / n)", s)
    s = s.replace("(pData.ddc0_ * T * T / (n * (n - 1)))", "(T * T) * pData.ddc0_ / (n * (n - 1))")
    s = s.replace("  std::vector<point_t> pi;\n", "  std::vector<point_t> pi;\n  assert(T > 0.);\n")
    s = re.sub(r"  v\.first = ([^;]*);\n  v\.second = ([^;]*);\n  return v;", r"  v = std::make_pair(double(\1), point3_t(\2));\n  return v;", s)
    return s


# families: evaluation in Bernstein form computed in loops
def fam_c(s):
    def ev(m):
        return """inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
  coefs_t wp;
  const int n = (int)pi.size() - 1;
  wp.first = 0.;
  wp.second = point3_t::Zero();
  for (int i = 0; i <= n; ++i) {
    double b = 1.;
    for (int k = 1; k <= i; ++k) b = b * (n - k + 1) / k;
    for (int k = 0; k < i; ++k) b *= t;
    for (int k = i; k < n; ++k) b *= (1. - t);
    if (%s)
      wp.first += b;
    else
      wp.second += b * pi[i];
  }
  return wp;
}
"""
    free = {3: "i == 2", }
    return s, ev, free


R["r5"] = [(FAM + f + ".hh", fam_a) for f in FAMS[:7]]
R["r6"] = [(FAM + f + ".hh", fam_b) for f in FAMS]

FREE = {"c0_dc0_c1": "i == 2", "c0_dc0_dc1": "i >= 2", "c0_dc0_dc1_c1": "i == 2", "c0_dc0_ddc0": "i == 3", "c0_dc0_ddc0_c1": "i == 3", "c0_dc0_ddc0_dc1_c1": "i == 3",
        "c0_dc0_ddc0_ddc1_dc1_c1": "i == 3", "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1": "i == 4"}


def bern(f):
    def g(s):
        new = """inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
  coefs_t wp(0., point3_t::Zero());
  const int n = (int)pi.size() - 1;
  for (int i = 0; i <= n; ++i) {
    double b = 1.;
    for (int k = 1; k <= i; ++k) b = b * (n - k + 1) / k;
    int k = 0;
    while (k < n) b *= (k++ < i) ? t : (1. - t);
    if (%s)
      wp.first += b;
    else
      wp.second += b * pi[i];
  }
  return wp;
}
""" % FREE[f]
        s, k = re.subn(r"inline coefs_t evaluateCurveAtTime\(.*?\n}\n", lambda m: new, s, flags=re.S)
        assert k == 1
        new2 = """inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
                                               double T, double t) {
  const int n = (int)pi.size() - 1;
  std::vector<double> x(pi.size());
  std::vector<point_t> p(pi);
  for (int i = 0; i <= n; ++i) x[i] = (%s) ? 1. : 0.;
  for (int i = 0; i <= n; ++i)
    if (x[i] != 0.) p[i].setZero();
  for (int d = 0; d < 2; ++d) {
    for (std::size_t i = 0; i + 1 < x.size(); ++i) {
      x[i] = (n - d) * (x[i + 1] - x[i]);
      p[i] = (n - d) * (p[i + 1] - p[i]);
    }
    x.pop_back();
    p.pop_back();
  }
  // de Casteljau
  do {
    for (std::size_t i = 0; i + 1 < x.size(); ++i) {
      x[i] += t * (x[i + 1] - x[i]);
      p[i] += t * (p[i + 1] - p[i]);
    }
    x.pop_back();
    p.pop_back();
  } while (x.size() > 1);
  return coefs_t(x[0] / (T * T), p[0] / (T * T));
}
""" % FREE[f]
        s, k = re.subn(r"inline coefs_t evaluateAccelerationCurveAtTime\(.*?\n}\n", lambda m: new2, s, flags=re.S)
        assert k == 1
        return s
    return g


R["r7"] = [(FAM + f + ".hh", bern(f)) for f in FREE]


# constant waypoints / derivative waypoints in loops
def jloop(name, order, n, free):
    fact = 1
    for k in range(order):
        fact *= n - k
    nf = len(free)
    body = """std::vector<waypoint_t> %s(
    const ProblemData& pData, const double T,
    std::vector<bezier_t::point_t> pi = std::vector<bezier_t::point_t>()) {
  if (pi.empty()) pi = computeConstantWaypoints(pData, T);
  assert(pi.size() == %d);
  std::vector<waypoint_t> wps;
  for (std::size_t i = 0; i < pi.size(); ++i) {
    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
    if (i >= %d && i < %d)
      w.first.block<3, 3>(0, 3 * (i - %d)) = Matrix3::Identity();
    else
      w.second = pi[i];
    wps.push_back(w);
  }
  double scale = 1.;
  for (int d = 0; d < %d; ++d) {
    for (std::size_t i = 0; i + 1 < wps.size(); ++i)
      wps[i] = wps[i + 1] - wps[i];
    wps.pop_back();
    scale *= (%d - d) / T;
  }
  for (waypoint_t& w : wps) w = scale * w;
  return wps;
}
""" % (name, n + 1, free[0], free[0] + nf, free[0], order, n)

    def f(s):
        s, k = re.subn(r"std::vector<waypoint_t> %s\(.*?\n}\n" % name, lambda m: body, s, flags=re.S)
        assert k == 1, name
        return s
    return f


R["r8"] = [(FAM + FAMS[i] + ".hh", seq(*[jloop(nm, o, n, fr) for nm, o in (("computeVelocityWaypoints", 1), ("computeAccelerationWaypoints", 2), ("computeJerkWaypoints", 3))]))
           for i, n, fr in ((7, 8, [4]), (8, 10, [4, 5, 6]), (9, 12, [4, 5, 6, 7, 8]))]


# ---- end effector
def rep(*prs):
    def f(s):
        for a, b in prs:
            assert s.count(a) >= 1, a
            s = s.replace(a, b)
        return s
    return f


ROWS = r"  // upper acc bounds\n.*?(?=  // test : constraint x\[z\])"
R["r9"] = [(EE, seq(
    sub(r"  int empty_acc = 0;.*?  A = MatrixXX::Zero\(.*?\);[^\n]*\n[^\n]*// one[^\n]*\n", """  const double eps = std::numeric_limits<double>::epsilon();
  auto isConstant = [eps](const waypoint_t& w) { return w.first.isZero(eps); };
  auto numFree = [&](const std::vector<waypoint_t>& wps) {
    return (int)wps.size() -
           (int)std::count_if(wps.begin(), wps.end(), isConstant);
  };
  const int rows =
      2 * DIM_POINT * (numFree(wps_acc) + numFree(wps_vel) + numFree(wps_jerk)) +
      DIM_VAR;
  A.setZero(rows, DIM_VAR);
""", 1) if False else (lambda s: s),
    sub(ROWS, """  auto stack = [&](const std::vector<waypoint_t>& wps, const VectorX& bounds) {
    for (const double sign : {1., -1.}) {
      for (const waypoint_t& wp : wps) {
        if (wp.first.isZero(std::numeric_limits<double>::epsilon())) continue;
        A.middleRows(i * DIM_POINT, DIM_POINT) = sign * wp.first;
        b.segment(i * DIM_POINT, DIM_POINT) = bounds - sign * wp.second;
        i++;
      }
    }
  };
  stack(wps_acc, acc_bounds);
  stack(wps_vel, vel_bounds);
  stack(wps_jerk, jerk_bounds);

""", 1),
    rep(("""  MatrixXX mxz = MatrixXX::Zero(DIM_VAR, DIM_VAR);
  int j = DIM_POINT - 1;
  VectorX nxz = VectorX::Zero(DIM_VAR);
  while (j < (DIM_VAR)) {
    mxz(j, j) = -1;
    nxz[j] = -std::min(pData.c0_[2], pData.c1_[2]);
    j += DIM_POINT;
  }
  A.block(i * DIM_POINT, 0, DIM_VAR, DIM_VAR) = mxz;
  b.segment(i * DIM_POINT, DIM_VAR) = nxz;
""", """  const double lowest =
      pData.c0_.z() < pData.c1_.z() ? pData.c0_.z() : pData.c1_.z();
  for (int j = 2; j < DIM_VAR; j += 3) {
    const int row = i * DIM_POINT + j;
    A(row, j) = -1.;
    b(row) = -lowest;
  }
"""), ("""    H += (c_wp.first.transpose() * c_wp.first);
    g += ((c_wp.second - pk).transpose() * c_wp.first).transpose();
""", """    const MatrixXX& J = c_wp.first;
    const VectorX residual = c_wp.second - pk;
    H.noalias() += J.transpose() * J;
    g.noalias() += J.transpose() * residual;
"""), ("""  double norm = H.norm();
  H /= norm;
  g /= norm;
  return std::make_pair(H, g);
""", """  const double scale = 1. / H.norm();
  return {scale * H, scale * g};
"""), ("""  std::vector<point3_t> pts_path;
  for (size_t i = 0; i < numPoints; ++i)
    pts_path.push_back(path(((double)i * step)));
""", """  std::vector<point3_t> pts_path;
  std::size_t i = 0;
  std::generate_n(std::back_inserter(pts_path), numPoints,
                  [&]() -> point3_t { return path(double(i++) * step); });
"""), ("""  if (dimVar(pData) == 3)
    wps[4] = res.x;  // FIXME : compute id from constraints
  else if (dimVar(pData) == 9) {
    wps[4] = res.x.segment<3>(0);
    wps[5] = res.x.segment<3>(3);
    wps[6] = res.x.segment<3>(6);
  } else if (dimVar(pData) == 15) {
    wps[4] = res.x.segment<3>(0);
    wps[5] = res.x.segment<3>(3);
    wps[6] = res.x.segment<3>(6);
    wps[7] = res.x.segment<3>(9);
    wps[8] = res.x.segment<3>(12);
  }
""", """  const int numFree = dimVar(pData) / DIM_POINT;
  if (numFree % 2 == 1)
    for (int k = 0; k < numFree; ++k)
      wps.at(4 + k) = res.x.segment(DIM_POINT * k, DIM_POINT);
"""), ("""  if (weightDistance > 0)
    Hg_rrt = computeDistanceCostFunction<Path>(50, pData, T, path);
  else {
    Hg_rrt.first = MatrixXX::Zero(DIM_VAR, DIM_VAR);
    Hg_rrt.second = VectorX::Zero(DIM_VAR);
  }
""", """  Hg_rrt = weightDistance > 0.
               ? computeDistanceCostFunction<Path>(50, pData, T, path)
               : std::make_pair(MatrixXX(MatrixXX::Zero(DIM_VAR, DIM_VAR)),
                                VectorX(VectorX::Zero(DIM_VAR)));
"""), ("""  H = MatrixXX::Zero(DIM_VAR, DIM_VAR);
  g = VectorX::Zero(DIM_VAR);
  H = weightSmooth * (Hg_smooth.first) + weightDistance * Hg_rrt.first;
  g = weightSmooth * (Hg_smooth.second) + weightDistance * Hg_rrt.second;
""", """  H = weightDistance * Hg_rrt.first;
  H += (1. - weightDistance) * Hg_smooth.first;
  g = weightDistance * Hg_rrt.second;
  g += weightSmooth * Hg_smooth.second;
"""), ("#include <limits>", "#include <algorithm>\n#include <iterator>\n#include <limits>"))))]

R["r10"] = [
    (A, seq(
        sub(r"void addConstraintMinBoundQuadProg\(.*?(?=std::pair<MatrixXd, VectorXd> addBoundary)", """void appendBounds(const double sign, solvers::Cref_vectorX bounds,
                  MatrixXd& C, VectorXd& c) {
  const Eigen::Index extra = bounds.size();
  if (!extra) return;
  const Eigen::Index rows = C.rows();
  C.conservativeResize(rows + extra, Eigen::NoChange);
  c.conservativeResize(rows + extra);
  C.bottomRows(extra) = sign * MatrixXd::Identity(extra, C.cols());
  c.tail(extra) = sign * bounds;
}

""", 1),
        rep(("""  addConstraintMinBoundQuadProg(minBounds, data);
  addConstraintMaxBoundQuadProg(maxBounds, data);
""", """  appendBounds(-1., minBounds, data.first, data.second);
  appendBounds(1., maxBounds, data.first, data.second);
"""), ("""  switch (solver) {
""", """  res.success_ = false;
  switch (solver) {
"""), ("""        status = QPsolver.solve_quadprog(Hess, g, D, ce0, -CIp.first,
                                         CIp.second, res.x);
""", """        const MatrixXd CI = -CIp.first;
        const VectorXd& ci0 = CIp.second;
        status = QPsolver.solve_quadprog(Hess, g, D, ce0, CI, ci0, res.x);
"""), ("""        res.success_ = (status == tsid::solvers::EIQUADPROG_FAST_OPTIMAL);
        if (res.success_) res.cost_ = QPsolver.getObjValue();
        return res;
""", """        if (status != tsid::solvers::EIQUADPROG_FAST_OPTIMAL) return res;
        res.cost_ = QPsolver.getObjValue();
        res.success_ = true;
        break;
"""), ("""      res.success_ = (solvers::solveglpk(g, D, d, A, b, minBounds, maxBounds,
                                         res.x, res.cost_) == GLP_OPT);
      return res;
""", """      const int outcome = solvers::solveglpk(g, D, d, A, b, minBounds,
                                             maxBounds, res.x, res.cost_);
      res.success_ = outcome == GLP_OPT;
      break;
"""), ("""in solver-asbtract");
  }
}
""", """in solver-asbtract");
  }
  return res;
}
""")))),
    (G, rep(("""  int type = GLP_FR;
  if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
    type = mibV == mabV ? GLP_FX : GLP_DB;
  else if (mibV > UNBOUNDED_DOWN)
    type = GLP_LO;
  else if (mabV < UNBOUNDED_UP)
    type = GLP_UP;
  return type;
""", """  const bool lower = mibV > UNBOUNDED_DOWN;
  const bool upper = mabV < UNBOUNDED_UP;
  if (!lower) return upper ? GLP_UP : GLP_FR;
  if (!upper) return GLP_LO;
  return mibV == mabV ? GLP_FX : GLP_DB;
"""), ("""  for (int i = 0; i < numIneqConstraints; ++i, ++idrow) {
    glp_set_row_bnds(lp, idrow, GLP_UP, 0.0, ci0(i));
    for (int j = 0; j < xsize; ++j, ++idcol) {
      if (CI(i, j) != 0.) {
        ia[idConsMat] = idrow, ja[idConsMat] = idcol,
        ar[idConsMat] = CI(i, j); /* a[1,1] = 1 */
        ++idConsMat;
      }
    }
    idcol = 1;
  }
  for (int i = 0; i < numEqConstraints; ++i, ++idrow) {
    glp_set_row_bnds(lp, idrow, GLP_FX, ce0(i), ce0(i));
    for (int j = 0; j < xsize; ++j, ++idcol) {
      if (CE(i, j) != 0.) {
        ia[idConsMat] = idrow, ja[idConsMat] = idcol,
        ar[idConsMat] = CE(i, j); /* a[1,1] = 1 */
        ++idConsMat;
      }
    }
    idcol = 1;
  }
""", """  auto addRow = [&](const MatrixXd& C, const int i) {
    for (int j = 0; j < xsize; ++j) {
      if (C(i, j) == 0.) continue;
      ia[idConsMat] = idrow;
      ja[idConsMat] = j + 1;
      ar[idConsMat++] = C(i, j);
    }
    idrow++;
  };
  for (int i = 0; i < numEqConstraints; ++i) {
    const double v = ce0[i];
    glp_set_row_bnds(lp, idrow, GLP_FX, v, v);
    addRow(CE, i);
  }
  for (int i = 0; i < numIneqConstraints; ++i) {
    glp_set_row_bnds(lp, idrow, GLP_UP, 0.0, ci0[i]);
    addRow(CI, i);
  }
"""), ("""  VectorXd miB =
      minBounds.size() > 0 ? minBounds : VectorXd::Ones(xsize) * UNBOUNDED_DOWN;
  VectorXd maB =
      maxBounds.size() > 0 ? maxBounds : VectorXd::Ones(xsize) * UNBOUNDED_UP;
  for (int i = 0; i < xsize; ++i, ++idcol) {
    glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
    glp_set_obj_coef(lp, idcol, g0(i));
  }
""", """  VectorXd miB = VectorXd::Constant(xsize, UNBOUNDED_DOWN);
  VectorXd maB = VectorXd::Constant(xsize, UNBOUNDED_UP);
  if (minBounds.size() > 0) miB = minBounds;
  if (maxBounds.size() > 0) maB = maxBounds;
  for (int col = 0; col < xsize; ++col)
    glp_set_col_bnds(lp, idcol + col, getType(miB, maB, col), miB(col),
                     maB(col));
  for (int col = 1; col <= xsize; ++col) glp_set_obj_coef(lp, col, g0(col - 1));
"""), ("""  int res = glp_simplex(lp, &opts);
  res = glp_get_status(lp);
  if (res == GLP_OPT) {
    cost = glp_get_obj_val(
        lp);  // obtains a computed value of the objective function
    idrow = 1;
    for (int i = 0; i < xsize; ++i, ++idrow) x(i) = glp_get_col_prim(lp, idrow);
  }
""", """  glp_simplex(lp, &opts);
  const int res = glp_get_status(lp);
  const bool optimal = (res == GLP_OPT);
  if (optimal) {
    for (int i = xsize; i > 0; --i) x[i - 1] = glp_get_col_prim(lp, i);
    cost = glp_get_obj_val(lp);
  }
"""), ("""  std::vector<int> ia(1 + maxNonZeros);     // Row indices of each element
  std::vector<int> ja(1 + maxNonZeros);     // column indices of each element
""", """  std::vector<int> ia(1 + maxNonZeros), ja(ia.size(), 0);
"""), ("  glp_prob* lp;\n", ""), ("  lp = glp_create_prob();", "  glp_prob* const lp = glp_create_prob();"))),
]
R["r10b"] = [(G, rep(("""  glp_prob* lp;
""", """  struct Guard {
    glp_prob* lp;
    explicit Guard(glp_prob* p) : lp(p) {}
    ~Guard() {
      glp_delete_prob(lp);
      glp_free_env();
    }
  };
"""), ("  lp = glp_create_prob();  // creates a problem object\n", "  const Guard guard(glp_create_prob());\n  glp_prob* lp = guard.lp;\n"),
    ("""  glp_delete_prob(
      lp);  // calls the routine glp_delete_prob, which frees all the memory
  glp_free_env();
""", "")))]

R["r11"] = [
    (DATA, rep(("""  ContactData()
      : contactPhase_(0),
        Kin_(Eigen::Matrix3d::Zero()),
        kin_(VectorX::Zero(0)),
        Ang_(Eigen::Matrix3d::Zero()),
        ang_(VectorX::Zero(0)) {}
""", """  ContactData() : ContactData(nullptr) {}
"""), ("""      : contactPhase_(other.contactPhase_
                          ? new centroidal_dynamics::Equilibrium(
                                *(other.contactPhase_))
                          : 0),
        Kin_(other.Kin_),
        kin_(other.kin_),
        Ang_(other.Ang_),
        ang_(other.ang_) {}
""", """      : contactPhase_(nullptr),
        Kin_(other.Kin_),
        kin_(other.kin_),
        Ang_(other.Ang_),
        ang_(other.ang_) {
    if (other.contactPhase_ != nullptr)
      contactPhase_ =
          new centroidal_dynamics::Equilibrium(*other.contactPhase_);
  }
"""), ("""      : flag_(INIT_POS | INIT_VEL | END_VEL | END_POS),
        constraintAcceleration_(false),
        maxAcceleration_(10.),
        reduce_h_(1e-3) {}
""", """      : Constraints(INIT_POS | INIT_VEL | END_VEL | END_POS) {}
"""), ("""  Constraints(ConstraintFlag flag)
      : flag_(flag),
        constraintAcceleration_(false),
        maxAcceleration_(10.),
        reduce_h_(1e-3) {}
""", """  Constraints(ConstraintFlag flag) : flag_(flag) {}
"""), ("  ~Constraints() {}\n", "  ~Constraints() = default;\n"),
        ("""  bool constraintAcceleration_;
  double maxAcceleration_;
  double reduce_h_;
""", """  bool constraintAcceleration_ = false;
  double maxAcceleration_ = 10.;
  double reduce_h_ = 1e-3;
"""), ("""        useAngularMomentum_(false),
        costFunction_(ACCELERATION),
        representation_(DOUBLE_DESCRIPTION) {}
""", """        representation_(DOUBLE_DESCRIPTION) {}
"""), ("  bool useAngularMomentum_;\n  Constraints constraints_;\n  CostFunction costFunction_;", "  bool useAngularMomentum_{false};\n  Constraints constraints_{};\n  CostFunction costFunction_ = ACCELERATION;"),
        ("  ~ResultDataCOMTraj() {}", "  ~ResultDataCOMTraj() = default;"))),
    (INC + "flags.hh", seq(sub(r"inline ConstraintFlag operator\|\(ConstraintFlag a, ConstraintFlag b\) \{.*?\n\}", """inline constexpr ConstraintFlag operator|(ConstraintFlag a, ConstraintFlag b) {
  return ConstraintFlag(int(a) | int(b));
}"""), sub(r"inline ConstraintFlag& operator\|=\(ConstraintFlag& a, ConstraintFlag b\) \{.*?\n\}", """inline ConstraintFlag& operator|=(ConstraintFlag& a, ConstraintFlag b) {
  return a = a | b;
}"""), sub(r"return \(ConstraintFlag&\)\(\(int&\)\(a\) &= static_cast<const int>\(b\)\);", "a = static_cast<ConstraintFlag>(static_cast<int>(a) & static_cast<int>(b));\n  return a;"))),
    (INC + "utils.hh", seq(sub(r"  std::vector<Point> wps;\n  size_t i = 0;\n.*?  return Bezier\(wps\.begin\(\), wps\.end\(\), 0\., T\);", """  std::vector<Point> wps;
  wps.reserve(pi.size());
  auto source = pi.begin();
  auto fixedPoint = [&]() { wps.push_back(*source++); };
  const ConstraintFlag initial[] = {INIT_POS, INIT_VEL, INIT_ACC, INIT_JERK};
  for (ConstraintFlag wanted : initial) {
    if (!(flag & wanted)) break;
    fixedPoint();
  }
  wps.push_back(x);
  ++source;
  const bool stopAnywhere = (flag & END_VEL) && !(flag & END_POS);
  if (stopAnywhere) {
    wps.push_back(x);
  } else {
    for (ConstraintFlag wanted : {END_JERK, END_ACC, END_VEL, END_POS})
      if (flag & wanted) fixedPoint();
  }
  return Bezier(wps.begin(), wps.end(), 0., T);""", 1), rep(("  waypoint_t() : first(MatrixXX()), second(VectorX()) {}\n", "  waypoint_t() = default;\n"),
        ("  waypoint_t(MatrixXX A, VectorX b) : first(A), second(b) {}", "  waypoint_t(const MatrixXX& A, const VectorX& b) : first(A), second(b) {}"),
        ("    return first.isApprox(other.first, prec) &&\n           second.isApprox(other.second, prec);", "    if (!first.isApprox(other.first, prec)) return false;\n    return second.isApprox(other.second, prec);")))),
]

R["r12"] = [(C, seq(
    sub(r"long int computeNumIneq\(.*?\n}\n\nvoid updateH", "void updateH", 1),
    sub(r"void assignStabilityConstraintsForTimeStep\(.*?(?=// mG is -G)", "", 1),
    sub(r"void switchContactPhase\(.*?\n}\n\n", "", 1),
    sub(r"long int assignStabilityConstraints\(.*?(?=void computeFinalAcceleration)", """namespace {
// stacks blocks of inequalities A x <= b
class InequalityStack {
 public:
  explicit InequalityStack(const int numVars) : numVars_(numVars) {}
  void add(const MatrixXX& M, const VectorX& v) {
    if (v.size() == 0) return;
    rows_ += v.size();
    blocks_.emplace_back(M, v);
  }
  std::pair<MatrixXX, VectorX> stacked() const {
    std::pair<MatrixXX, VectorX> res;
    res.first.setZero(rows_, numVars_);
    res.second.resize(rows_);
    Eigen::Index row = 0;
    for (const auto& block : blocks_) {
      const auto n = block.second.rows();
      res.first.block(row, 0, n, block.first.cols()) = block.first;
      res.second.segment(row, n) = block.second;
      row += n;
    }
    return res;
  }

 private:
  int numVars_;
  Eigen::Index rows_ = 0;
  std::vector<std::pair<MatrixXX, VectorX> > blocks_;
};

struct StabilityCone {
  MatrixXX mH;
  VectorX h;
  int dim;
  StabilityCone(const ProblemData& pData, const ContactData& phase) {
    updateH(pData, phase, mH, h, dim);
  }
};

void addAcceleration(InequalityStack& stack, const MatrixXX& M,
                     const VectorX& v, const double bound) {
  const Vector3 bounds = Vector3::Constant(bound);
  stack.add(M, bounds - v);
  stack.add(-M, bounds + v);
}
}  // namespace

std::pair<MatrixXX, VectorX> computeConstraintsOneStep(
    const ProblemData& pData, const VectorX& /*Ts*/, const double t_total,
    const T_time& timeArray) {
  const std::vector<int> lastSteps = stepIdPerPhase(timeArray);
  InequalityStack stack(dimVarX);
  const auto wrenches =
      computeDiscretizedWwaypoints(pData, t_total, timeArray);
  const auto points =
      computeDiscretizedWaypoints<point_t>(pData, t_total, timeArray);
  const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
  int first = 0;
  for (std::size_t phaseId = 0; phaseId < lastSteps.size(); ++phaseId) {
    const ContactData& phase = pData.contacts_[phaseId];
    const StabilityCone cone(pData, phase);
    for (int step = first; step <= lastSteps[phaseId]; step++) {
      const bool shared = phaseId > 0 && step == first;
      const auto Ab = dynamicStabilityConstraints(
          cone.mH, cone.h, shared ? phase.contactPhase_->m_gravity : g,
          wrenches[step]);
      stack.add(Ab.first, Ab.second);
      if (phase.kin_.rows() > 0)
        stack.add(phase.Kin_ * points[step].first,
                  phase.kin_ - phase.Kin_ * points[step].second);
    }
    first = lastSteps[phaseId];
  }
  if (pData.constraints_.constraintAcceleration_) {
    for (const coefs_t& acc : computeDiscretizedAccelerationWaypoints<point_t>(
             pData, t_total, timeArray))
      addAcceleration(stack, acc.first * Matrix3::Identity(), acc.second,
                      pData.constraints_.maxAcceleration_);
  }
  return stack.stacked();
}

""", 1),
    sub(r"long int computeNumIneqContinuous\(.*?\n}\n", "", 1),
    sub(r"  // for each splitted curves : add the constraints for each waypoints\n  const long int num_ineq = .*?useDD\);\n", "", 1),
    rep(("  MatrixXX A = MatrixXX::Zero(num_ineq, totalVarDim);\n  VectorX b = VectorX::Zero(num_ineq);\n", "  InequalityStack stack((int)totalVarDim);\n"),
        ("""      A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
      b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
      id_rows += size_kin;
""", """      stack.add(phase.Kin_ * wpit->first,
                phase.kin_ - phase.Kin_ * wpit->second);
"""), ("""      updateH(pData, phase, mH, h, dimH);
      for (bezier_wp_t::cit_point_t wpit = ws.waypoints().begin();
           wpit != ws.waypoints().end(); ++wpit)
        assignStabilityConstraintsForTimeStep(mH, h, *wpit, dimH, id_rows, A, b,
                                              phase.contactPhase_->m_gravity);
""", """      const StabilityCone cone(pData, phase);
      std::for_each(ws.waypoints().begin(), ws.waypoints().end(),
                    [&](const waypoint_t& wp) {
                      MatrixXX M;
                      VectorX v;
                      std::tie(M, v) = dynamicStabilityConstraints(
                          cone.mH, cone.h, phase.contactPhase_->m_gravity, wp);
                      stack.add(M, v);
                    });
"""), ("""        A.block(id_rows, 0, 3, 3) = acc.first;  // upper
        b.segment(id_rows, 3) = acc_bounds - acc.second;
        A.block(id_rows + 3, 0, 3, 3) = -acc.first;  // lower
        b.segment(id_rows + 3, 3) = acc_bounds + acc.second;
        id_rows += 6;
""", """        addAcceleration(stack, acc.first, acc.second,
                        pData.constraints_.maxAcceleration_);
"""), ("  MatrixXX mH;\n  VectorX h;\n  int dimH;\n  Vector3 acc_bounds = Vector3::Ones() * pData.constraints_.maxAcceleration_;\n\n", ""),
        ("  long int id_rows = 0;\n  long int id_cols = dimVarX;", "  long int id_cols = dimVarX;"),
        ("        A.cols());  // * (-std::", "        totalVarDim);  // * (-std::"),
        ("""  assert(id_rows == (A.rows()) &&
         "The inequality constraints matrices were not fully filled.");
  assert(id_rows == (b.rows()) &&
         "The inequality constraints matrices were not fully filled.");
""", ""), ("  // int out = Normalize(D,d);\n  return std::make_pair(A, b);", "  return stack.stacked();")),
    sub(r"(ResultDataCOMTraj computeCOMTraj\(.*?)  double T = Ts\.sum\(\);\n  T_time timeArray;.*?(?=  std::pair<MatrixXX, VectorX> Hg =)", r"""\1  const double T = std::accumulate(Ts.data(), Ts.data() + Ts.size(), 0.);
  const bool continuous = !(timeStep > 0);
  std::pair<MatrixXX, VectorX> Dd;
  VectorX minBounds(0), maxBounds(0);
  const T_time timeArray = continuous ? computeDiscretizedTimeFixed(Ts, 7)
                                      : computeDiscretizedTime(Ts, timeStep);
  const auto Ab = continuous ? computeConstraintsContinuous(pData, Ts, Dd,
                                                            minBounds, maxBounds)
                             : computeConstraintsOneStep(pData, Ts, T, timeArray);
  if (!continuous) {
    Dd.first.resize(0, Ab.first.cols());
    Dd.second.resize(0);
  }
""", 1),
    lambda s: s.replace("#include", "#include <algorithm>\n#include <numeric>\n#include <tuple>\n#include", 1)))]

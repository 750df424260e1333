"""behaviour-preserving rewrites of the QP solver"""
import re
from refs import R
QP = "src/eiquadprog-fast.cpp"
QH = "include/hpp/bezier-com-traj/solver/eiquadprog-fast.hpp"


def must(s, a, b, n=None):
    assert a in s, a
    return s.replace(a, b) if n is None else s.replace(a, b, n)


# hypot, std::swap style sign changes, helpers, Eigen instead of loops
def a(s):
    i = s.index("/// Compute sqrt(a^2 + b^2)")
    j = s.index("EiquadprogFast::EiquadprogFast()")
    s = s[:i] + """/// Compute sqrt(a^2 + b^2)
static double distance(double a, double b) { return std::hypot(a, b); }

namespace {
bool isNull(const Eigen::VectorXd& v) {
  return !(std::abs(v.squaredNorm()) > std::numeric_limits<double>::epsilon());
}
}  // namespace

""" + s[j:]
    s = s.replace("#include <iostream>", "#include <cmath>\n#include <iostream>\n#include <limits>", 1)
    s = must(s, """    if (std::abs(z.dot(z)) >
        std::numeric_limits<double>::epsilon())  // i.e. z != 0
      t2 = (-np.dot(x) - ce0(i)) / z.dot(np);""", """    if (!isNull(z)) t2 = -(np.dot(x) + ce0(i)) / np.dot(z);""")
    s = must(s, """  if (std::abs(z.dot(z)) >
      std::numeric_limits<double>::epsilon())  // i.e. z != 0
    t2 = -s(ip) / z.dot(np);
  else
    t2 = inf; /* +inf */""", """  t2 = isNull(z) ? inf : -s(ip) / np.dot(z);""")
    s = must(s, """    for (k = 0; k < nVars; k++) {
      t1 = J(k, j - 1);
      t2 = J(k, j);
      J(k, j - 1) = t1 * cc + t2 * ss;
      J(k, j) = xny * (t1 + J(k, j - 1)) - t2;
    }""", """    const VectorXd left = J.col(j - 1), right = J.col(j);
    J.col(j - 1) = cc * left + ss * right;
    J.col(j) = xny * (left + J.col(j - 1)) - right;""")
    s = must(s, "  for (j = 0; j < iq; j++) R(j, iq - 1) = 0.0;", "  R.col(iq - 1).head(iq).setZero();")
    return s


R["r14a"] = [(QP, a)]


# structured loops instead of the gotos
def b(s):
    i = s.index("EiquadprogFast_status EiquadprogFast::solve_quadprog(")
    j = s.index("double trace_sparse(")
    f = s[i:j]
    f = re.sub(r"#ifdef TRACE_SOLVER.*?#endif\n", "", f, flags=re.S)
    f = re.sub(r"\s*(START|STOP)_PROFILER_EIQUADPROG_FAST\(\w+\);", "", f)
    f = re.sub(r"#ifdef USE_WARM_START.*?#else\n\n#endif\n", "", f, flags=re.S)
    k = f.index("l1:\n")
    head, body = f[:k], f[k:]
    a1 = body.index("l2: /*")
    a2 = body.index("l2a: /*")
    s1, s2, s3 = body[len("l1:\n"):a1], body[a1:a2], body[a2:]
    s2 = s2[s2.index("*/") + 2:]
    s3 = s3[s3.index("*/") + 2:]
    # step 2a loop: continue on drops, break with a flag otherwise
    s3 = must(s3, "    goto l2a;\n  }\n\n  /* case (iii)", "    continue;\n  }\n\n  /* case (iii)")
    s3 = must(s3, "      goto l2; /* go to step 2 */\n    } else\n      iai(ip) = -1;", "      added = false;\n    } else {\n      iai(ip) = -1;\n      added = true;\n    }")
    s3 = must(s3, "    goto l1;\n", "    break;\n")
    s3 = re.sub(r"\n  goto l2a;\n}\s*$", "\n", s3)
    body = "  while (true) {\n" + s1 + "    bool added = false;\n    while (!added) {\n" + s2 + "      for (;;) {\n" + s3 + "      }\n    }\n  }\n}\n\n"
    return s[:i] + head + body + s[j:]


R["r14b"] = [(QP, b)]


# selection of the violated constraint and of the dropped one by algorithms; saved state in a struct; early returns in a lambda
def c(s):
    i = s.index("EiquadprogFast_status EiquadprogFast::solve_quadprog(")
    j = s.index("double trace_sparse(")
    f = s[i:j]
    f = must(f, """  for (i = 0; i < nIneqCon; i++) {
    if (s(i) < ss && iai(i) != -1 && iaexcl(i)) {
      ss = s(i);
      ip = i;
    }
  }
""", """  {
    std::vector<int> candidates;
    for (i = 0; i < nIneqCon; i++)
      if (iai(i) != -1 && iaexcl(i) != 0) candidates.push_back(i);
    const std::vector<int>::const_iterator worst = std::min_element(
        candidates.begin(), candidates.end(),
        [this](int a, int b) { return s(a) < s(b); });
    if (worst != candidates.end() && s(*worst) < ss) {
      ip = *worst;
      ss = s(ip);
    }
  }
""")
    f = must(f, """    for (i = 0; i < nIneqCon; i++)
      if (!iaexcl(i) && s(i) < 0.0) return EIQUADPROG_FAST_UNBOUNDED;
""", """    bool violated = false;
    for (i = 0; i < nIneqCon && !violated; i++)
      violated = iaexcl(i) == 0 && s(i) < 0.0;
    if (violated) return EIQUADPROG_FAST_UNBOUNDED;
""")
    f = must(f, """  for (k = nEqCon; k < iq; k++) {
    double tmp;
    if (r(k) > 0.0 && ((tmp = u(k) / r(k)) < t1)) {
      t1 = tmp;
      l = A(k);
    }
  }""", """  for (k = nEqCon; k < iq; k++) {
    if (r(k) <= 0.0) continue;
    const double ratio = u(k) / r(k);
    if (!(ratio < t1)) continue;
    t1 = ratio;
    l = A[k];
  }""")
    f = must(f, "  const int nVars = (int)g0.size();", "  const int nVars = static_cast<int>(g0.rows());")
    f = must(f, "  psi = (s.cwiseMin(VectorXd::Zero(nIneqCon))).sum();", "  psi = s.array().min(0.0).sum();")
    f = must(f, """  u_old.head(iq) = u.head(iq);
  A_old.head(iq) = A.head(iq);
  x_old = x;
""", """  u_old = u;
  A_old = A;
  x_old = x;
""")
    f = must(f, """      for (i = 0; i < iq; i++) {
        A(i) = A_old(i);
        if (A(i) >= 0) iai(A(i)) = -1;  // negative ids are equalities
        u(i) = u_old(i);
      }""", """      A.head(iq) = A_old.head(iq);
      u.head(iq) = u_old.head(iq);
      for (i = nEqCon; i < iq; i++) iai(A(i)) = -1;""")
    f = must(f, "  x += t * z;\n  /* update", "  x.noalias() += t * z;\n  /* update")
    f = must(f, "  c1 = Hess.trace();", "  c1 = Hess.diagonal().sum();")
    s = s[:i] + f + s[j:]
    s = s.replace("#include <iostream>", "#include <algorithm>\n#include <iostream>\n#include <vector>", 1)
    return s


R["r14c"] = [(QP, c)]


# header helpers out of the macros, free function for the Givens rotation
def h(s):
    s = re.sub(r"#ifdef OPTIMIZE_COMPUTE_D\n(.*?)#else\n.*?#endif\n", r"\1", s, flags=re.S)
    s = re.sub(r"#ifdef OPTIMIZE_UPDATE_Z\n(.*?)#else\n(.*?)#endif\n", r"\2", s, flags=re.S)
    s = must(s, "    z = J.rightCols(J.cols() - iq) * d.tail(J.cols() - iq);", "    const long free = J.cols() - iq;\n    z.setZero();\n    for (long k = iq; k < iq + free; ++k) z += d(k) * J.col(k);")
    s = must(s, """    R.topLeftCorner(iq, iq).triangularView<Eigen::Upper>().solveInPlace(
        r.head(iq));""", """    for (int i = iq - 1; i >= 0; --i) {
      for (int j = i + 1; j < iq; ++j) r(i) -= R(i, j) * r(j);
      r(i) /= R(i, i);
    }""")
    return s


def d(s):
    s = s.replace("#define OPT", "// #define OPT")
    i = s.index("bool EiquadprogFast::add_constraint(")
    s = s[:i] + """namespace {
/// rotation which makes (cc, ss) = (h, 0), false when there is nothing to do
bool rotation(double& cc, double& ss, double& xny, double& pivot) {
  const double h = distance(cc, ss);
  if (h == 0.0) return false;
  cc /= h;
  ss /= h;
  pivot = cc < 0.0 ? -h : h;
  if (cc < 0.0) {
    cc = -cc;
    ss = -ss;
  }
  xny = ss / (1.0 + cc);
  return true;
}
}  // namespace

""" + s[i:]
    s = must(s, """    h = distance(cc, ss);
    if (h == 0.0) continue;
    d(j) = 0.0;
    ss = ss / h;
    cc = cc / h;
    if (cc < 0.0) {
      cc = -cc;
      ss = -ss;
      d(j - 1) = -h;
    } else
      d(j - 1) = h;
    xny = ss / (1.0 + cc);
""", """    if (!rotation(cc, ss, xny, h)) continue;
    d(j) = 0.0;
    d(j - 1) = h;
""")
    s = must(s, """    h = distance(cc, ss);
    if (h == 0.0) continue;
    cc = cc / h;
    ss = ss / h;
    R(j + 1, j) = 0.0;
    if (cc < 0.0) {
      R(j, j) = -h;
      cc = -cc;
      ss = -ss;
    } else
      R(j, j) = h;

    xny = ss / (1.0 + cc);
""", """    if (!rotation(cc, ss, xny, h)) continue;
    R(j, j) = h;
    R(j + 1, j) = 0.0;
""")
    return s


R["r14d"] = [(QH, h), (QP, d)]

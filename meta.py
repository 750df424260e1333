#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

D = os.path.dirname(os.path.abspath(__file__))
S = "src/"
H = "include/hpp/bezier-com-traj/"
W = H + "waypoints/"
FAM = [W + f for f in ("waypoints_c0_dc0_c1.hh", "waypoints_c0_dc0_dc1.hh", "waypoints_c0_dc0_dc1_c1.hh", "waypoints_c0_dc0_ddc0.hh", "waypoints_c0_dc0_ddc0_c1.hh", "waypoints_c0_dc0_ddc0_dc1_c1.hh",
                       "waypoints_c0_dc0_ddc0_ddc1_dc1_c1.hh", "waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh")]
VF = ("value-flow analysis of the typed AST: conditional constant propagation over finite configurations, gated merging of branches and polynomial value numbering, "
      "one forward pass per configuration; the polynomials reaching the observation point are compared with an independent specification")
LN = ("Sound for the analysed configurations (finite, enumerated in the evidence) and for every value of the numerical data in exact arithmetic; "
      "loop counts that depend on sizes are fixed by the configuration. Constructs without a transfer function make the check give no answer instead of passing.")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique=VF, note=LN, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe or [], technique=technique, note=note, thorough=thorough))


TESTS = "The tests solve a handful of hard-coded robot configurations numerically and compare with stored numbers or check the result at samples; "

prop("C01", "The returned centroidal trajectory meets every selected boundary condition",
     "Whenever the centroidal planner reports success, the trajectory it returns lasts exactly the sum of the phase durations and is the polynomial curve whose initial and final position, velocity, acceleration and jerk are those of the problem for every selected boundary condition, its free control point being the solver's solution. The reported final velocity and acceleration are those of that curve at its end.",
     ["inputs", "configurations"], "every supported set of boundary conditions, every value of the boundary data and durations, every solution of the solver, every sampling mode and cone representation",
     TESTS + "no test checks the boundary values of the result for all families, and the data are fixed numbers.",
     FAM + [S + "computeCOMTraj.cpp", H + "common_solve_methods.inl", S + "waypoints_definition.cpp"],
     [("constant waypoints of each family", W + "*: computeConstantWaypoints"), ("curve through the waypoints", H + "common_solve_methods.inl: computeBezierCurve"), ("final derivatives", S + "computeCOMTraj.cpp: computeFinalVelocity, computeFinalAcceleration")],
     ["the result object of computeCOMTraj and computeCOMTrajFixedSize"])
prop("C02", "All symbolic descriptions of a centroidal curve describe one curve",
     "For every supported set of boundary conditions, the control points, the position and the acceleration at any instant, and the final velocity that the library gives as functions of the free point are those of one and the same curve, the one the boundary conditions define. Replacing the free point by any value commutes with evaluating.",
     ["inputs", "configurations"], "all families, boundary data, durations, instants and values of the free point",
     TESTS + "waypoints are tested on a few numbers, per function, never against each other for all times and durations.",
     FAM + [S + "waypoints_definition.cpp"],
     [("evaluators per family", W + "*: evaluateCurveAtTime, evaluateAccelerationCurveAtTime"), ("dispatch tables", S + "waypoints_definition.cpp"), ("symbolic waypoints", S + "waypoints_definition.cpp: computeConstantWaypointsSymbolic")],
     ["return values of the functions of waypoints_definition.hh"])
prop("C03", "Derivative descriptions of the end-effector curves are its true derivatives",
     "For the families of curves with one, three and five free points, the velocity, acceleration and jerk control points and evaluators, as functions of the free points, are the exact successive time derivatives of the one curve defined by the boundary conditions. The predefined curves of degree four meet position, velocity, acceleration and a zero jerk at one end and the position at the other. The quadratic velocity cost is the integral of its squared velocity, and the sampled velocity, acceleration and jerk costs are the sums of the squared derivative over the samples.",
     ["inputs", "configurations"], "all boundary data, durations, instants and free points, with control points given or computed by the library",
     TESTS + "only the family with one free point is compared, for one duration, with finite numerical data.",
     [FAM[7], W + "waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh", W + "waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh", S + "waypoints_definition.cpp", H + "solve_end_effector.hh"],
     [("derivative waypoints", W + "waypoints_c0_dc0_ddc0_j0_*: computeVelocityWaypoints, computeAccelerationWaypoints, computeJerkWaypoints"), ("evaluators", W + "waypoints_c0_dc0_ddc0_j0_*: evaluate*CurveWaypointAtTime")],
     ["return values of the functions of waypoints_definition.hh"])
prop("C04", "The wrench description is the gravito-inertial wrench of the curve",
     "For every supported set of boundary conditions, the six-dimensional curve the library derives from the problem is, at every instant and for every free point, the mass-normalised gravito-inertial wrench of the position curve: its acceleration minus gravity is the linear part and the position crossed with that difference is the angular part (with the sign convention that adds gravity as given).",
     ["inputs", "configurations"], "all families, boundary data, durations, gravity vectors, instants and free points",
     TESTS + "wrench waypoints are compared numerically for a few families at one duration only.",
     FAM + [S + "waypoints_definition.cpp", S + "utils.cpp"],
     [("wrench waypoints", W + "*: computeWwaypoints"), ("dispatch", S + "waypoints_definition.cpp: computeWwaypoints")], ["return value of computeWwaypoints"])
prop("C05", "Discretised problem: every sample carries exactly its constraints",
     "In the discretised formulation, the inequalities handed to the solver are exactly those stating that, at every sampled instant, the curve satisfies the contact stability and kinematic constraints of the phase(s) that instant belongs to, plus the acceleration bound when it is enabled. An instant shared by two phases carries the constraints of both, and no other constraint is imposed.",
     ["inputs", "configurations"], "all families, numbers of phases, sampling densities, constraint sizes and values, durations, boundary data",
     TESTS + "they only look at feasible or infeasible outcomes of a few scenes; a missing, duplicated or misattributed row usually leaves the outcome unchanged.",
     [S + "computeCOMTraj.cpp"] + FAM + [S + "common_solve_methods.cpp"],
     [("row assembly", S + "computeCOMTraj.cpp: computeConstraintsOneStep, assignStabilityConstraintsForTimeStep, switchContactPhase"), ("row counts", S + "computeCOMTraj.cpp: numStateInequalities")],
     ["matrices and vectors reaching solve()"])
prop("C06", "Continuous problem: every control point carries exactly its constraints",
     "In the formulation without time step, the constraints handed to the solver are exactly: the kinematic constraints of each phase at every control point of the curve restricted to that phase, the stability of every control point of the restricted wrench curve (as cone inequalities or as equality with a combination of contact forces with non-negative coefficients), and the acceleration bounds on the control points of the restricted acceleration when enabled.",
     ["inputs", "configurations"], "all families, numbers of phases, both cone representations, constraint sizes and values, durations, boundary data",
     TESTS + "continuous cases are checked only by outcome on a few scenes.",
     [S + "computeCOMTraj.cpp", H + "utils.hh", S + "utils.cpp", S + "waypoints_definition.cpp"],
     [("row assembly", S + "computeCOMTraj.cpp: computeConstraintsContinuous, computeCOMTraj"), ("curve restriction", H + "utils.hh, " + S + "utils.cpp: ComputeBezierWeights, extract")], ["matrices, vectors and bounds reaching solve()"])
prop("C07", "The solver minimises the selected objective",
     "The quadratic objective handed to the solver has, up to one positive factor, the same minimisers as the selected objective of the curve (accelerations at the samples, distance to the path between endpoints, terminal velocity target). Contact-force variables, when present, never enter the objective except with non-negative quadratic weight, and an unsupported objective is rejected.",
     ["inputs", "configurations"], "all families, objectives, sampling modes, boundary data and durations",
     TESTS + "no test looks at the cost value or at optimality.",
     [S + "costfunction_definition.cpp", H + "cost/costfunction_definition.hh", S + "computeCOMTraj.cpp"],
     [("objectives", S + "costfunction_definition.cpp: computeCostMinAcceleration, computeCostMidPoint, computeCostEndVelocity"), ("dispatch", S + "costfunction_definition.cpp: costs, genCostFunction")], ["cost matrix and vector reaching solve()"])
prop("C08", "Sample instants cover every phase in order, including every phase end",
     "The time discretisation yields the initial instant, then increasing instants inside each phase at the requested step or number of equal subdivisions, each attached to the phase that contains it, and the last instant of each phase is exactly that phase's end. The very last instant is the total duration.",
     ["inputs", "configurations"], "all positive durations, numbers of phases, subdivisions and steps",
     TESTS + "the discretisation is tested for a couple of duration vectors.",
     [S + "waypoints_definition.cpp", S + "common_solve_methods.cpp", S + "utils.cpp"],
     [("discretisation", S + "*: computeDiscretizedTime, computeDiscretizedTimeFixed")], ["returned list of instants"])
prop("C09", "The zero-step problem is the stop of the current motion inside the cone",
     "The zero-step planner hands to the solver exactly the stability, kinematic and (when requested) angular momentum constraints of the cubic motion that starts in the given state and ends at rest at a free point, minimising distance to the given position plus, when requested, the angular momentum integral. Its result is that motion for the solver's solution, with the angular momentum curve from the initial value to zero.",
     ["inputs", "configurations"], "all initial states, gravity, durations or steps, with and without angular momentum, all constraint sizes and values",
     TESTS + "a few quasi-static scenes are tested for success only.",
     [S + "solve_0_step.cpp", S + "common_solve_methods.cpp", H + "solve.hh"],
     [("wrench waypoints with angular momentum", S + "solve_0_step.cpp: w0..w4, u0..u4"), ("assembly", S + "solve_0_step.cpp: compute6dControlPointInequalities, addKinematic, addAngularMomentum, solve0step")], ["matrices reaching solve() and the result object"])
prop("C10", "Solver adapters pass on exactly the given problem and report its status",
     "Whatever back end is selected, the problem it receives has exactly the given inequalities, equalities, variable bounds and objective, whatever their sizes and sparsity. The adapter reports success exactly when the back end reports an optimum, with the back end's solution and value, and rejects back ends that were not built in.",
     ["inputs", "configurations", "fault_sequences"], "all sizes, sparsity patterns, bound patterns and coefficients of the problem; every status a back end can report",
     TESTS + "only small dense problems reach the back ends, with finite statuses observed on feasible scenes.",
     [S + "solver-abstract.cpp", S + "glpk-wrapper.cpp", H + "solver/glpk-wrapper.hpp", H + "solver/solver-abstract.hpp"],
     [("adapter", S + "solver-abstract.cpp: solve"), ("LP adapter", S + "glpk-wrapper.cpp: solveglpk"), ("bounds as rows", S + "solver-abstract.cpp: addConstraintMinBoundQuadProg, addConstraintMaxBoundQuadProg")], ["arguments of the back-end calls; the returned result"])
prop("C11", "Failure is reported as failure, and success only with a complete result",
     "When the solver fails, every planner returns a result marked unsuccessful that carries no trajectory. When it succeeds, every planner returns a result marked successful that carries the trajectory of the solution.",
     ["fault_sequences", "configurations"], "every planner, family, sampling mode and representation; solver success or failure",
     TESTS + "failures are only tested through a few infeasible scenes of one planner.",
     [S + "computeCOMTraj.cpp", S + "solve_0_step.cpp", H + "solve_end_effector.hh", H + "data.hh"],
     [("result construction", S + "computeCOMTraj.cpp: genTraj"), ("zero step", S + "solve_0_step.cpp: solve0step"), ("end effector", H + "solve_end_effector.hh: genTraj")], ["the result object"])
prop("C12", "Unsupported configurations are rejected with an exception",
     "A problem whose set of boundary conditions, number of phase durations or terminal velocity is not one the documentation lists as supported raises an exception, and the solver is never called. A supported problem is never rejected.",
     ["inputs", "configurations"], "every subset of the boundary conditions with every free-variable marker, every planner and dispatched function, numbers of durations different from the number of phases",
     TESTS + "one or two unsupported sets are tried; there are 256 subsets and five markers.",
     [S + "waypoints_definition.cpp", S + "computeCOMTraj.cpp", S + "costfunction_definition.cpp", H + "flags.hh"],
     [("dispatch tables", S + "waypoints_definition.cpp: constantWaypoints, evaluateCurveAtTimes, ..."), ("duration check", S + "computeCOMTraj.cpp: computeCOMTraj")], ["exceptions leaving the public functions; calls of solve()"])
prop("C13", "The end-effector problem bounds every derivative and tracks the given path",
     "The end-effector planner hands to the solver exactly the documented bounds on velocity, acceleration and jerk of every control point that depends on the free points and the floor constraint on the free points, and an objective that is the weighted sum of distance to the given path and squared velocity. Its result is the curve of the solution, with matching duration, cost and terminal derivatives.",
     ["inputs", "configurations"], "the families with one, three and five free points, all boundary data, durations, paths and weights",
     TESTS + "one scene is solved for one path type.",
     [H + "solve_end_effector.hh", S + "waypoints_definition.cpp"],
     [("constraints", H + "solve_end_effector.hh: computeConstraintsMatrix"), ("cost", H + "solve_end_effector.hh: computeDistanceCostFunction, computeVelocityCost, solveEndEffector")], ["matrices reaching solve() and the result object"])

NA = []


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA.append((id, reason))


def extra():
    import meta_more
    meta_more.add(prop, na, dict(S=S, H=H, W=W, FAM=FAM, VF=VF, LN=LN, TESTS=TESTS))


if __name__ == "__main__":
    extra()
    with open(os.path.join(D, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    skip = {i for i, _ in NA}
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                          technique=p["technique"], level="other", level_note=p["note"]) for p in P if p["id"] not in skip],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes="Static analysis only: a clang-based exporter (tool/astx.cpp) dumps the type-checked AST of /repo's current sources; the Python analyser (lib/) works on it. Nothing of /repo is executed. VERIF_REPO overrides the analysed tree.")
    json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes known_findings.json (run by hand): the defects found and repaired in /repo."""
import json, os, subprocess
M = {
 "did not compile after waypoints_definition": ("C25", "header/order", "the headers of the families did not compile in a file that includes waypoints_definition.hh before them"),
 "headers defining non-inline functions": ("C25", "header", "two source files of a program could not both include the headers of the end effector and of the jerk constrained curves"),
 "two declared overloads of solve": ("C25", "undefined/solve", "two documented overloads of solve were declared but not defined"),
 "the evaluators of velocity and jerk were declared": ("C25", "undefined/evaluators", "the evaluators of the velocity and of the jerk were declared but not defined"),
 "the template initwp": ("C25", "undefined/initwp", "the template initwp was declared but not defined"),
 "the initial guess of the end effector problem was read": ("C14", "end effector/uninitialised", "the initial guess given to the solver (and tested for NaN by its adapter) was never written"),
 "upper bounds of the quadprog adapter": ("C10", "adapter/upper bounds", "upper bounds of the variables were written past the end of a constraint matrix 3 rows too small"),
 "the glpk adapter overflowed": ("C10", "lp/buffers", "problems with more non zero coefficients than a fixed size overflowed the buffers of the LP adapter"),
 "angular momentum rows": ("C09", "angular rows", "the angular momentum constraints of the zero step problem were built from the kinematic constraints"),
 "the target end velocity cost": ("C07", "dispatch", "the target end velocity objective was rejected for every set of constraints"),
 "constant waypoints equal to zero": ("C02", "symbolic waypoints", "constant control points equal to zero were taken for the free point"),
 "the curve built from the waypoints ignored": ("C01", "families with jerk", "the curve built from the control points placed the free point wrongly when jerk constraints are selected"),
 "evaluators of the jerk constrained curve": ("C02", "family 8", "evaluators used the final point in place of the initial one"),
 "wrong control point in the acceleration waypoints of the jerk": ("C03", "family 8 acceleration", "one acceleration control point was wrong"),
 "wrench waypoints of the jerk constrained curve": ("C04", "family 8 wrench", "the wrench control points were those of a curve of another degree"),
 "terms of the velocity and acceleration of the curve with 3": ("C03", "x3 evaluators", "terms attached to the wrong powers of time"),
 "acceleration waypoints of the curve with 5 free waypoints": ("C03", "x5 acceleration", "control points wrong and one too many"),
 "derivatives of the curve with 5 free": ("C03", "x5 evaluators", "derivatives were those of another curve"),
 "the upper jerk bound": ("C13", "jerk bound", "the upper bound of the jerk used the velocity bound"),
 "copying contact data without": ("C16", "copy of contact data", "copying contact data without a contact phase dereferenced a null pointer"),
 "the initial angular momentum of a problem": ("C16", "problem constructor", "the initial angular momentum was left uninitialised"),
 "a failed computation of the contact cone": ("C19", "cone failure", "a failed computation of the contact cone silently dropped the stability constraints"),
 "acceleration bounds of the continuous": ("C06", "acceleration rows", "acceleration rows ignored the duration and the option that enables them"),
 "rounding of the phase durations": ("C06", "restriction", "rounding of the sum of the durations made the continuous formulation throw"),
 "the quadprog solver looped forever": ("C17", "degenerate constraint", "after a degenerate constraint the solver looped forever and wrote out of bounds"),
 "one acceleration waypoint of the curve with 3": ("C03", "x3 acceleration", "one control point was returned twice"),
 "wrong weight in an acceleration waypoint of the curve with 3": ("C03", "x3 acceleration", "wrong weight in one control point"),
 "the terminal acceleration of the zero step": ("C09", "result", "the terminal acceleration of the result was left at zero"),
 "the cost and the terminal velocity and acceleration of the end effector": ("C13", "result", "cost and terminal derivatives of the result were left unset"),
 "equal bounds of a variable": ("C10", "lp/equal bounds", "equal lower and upper bounds of a variable made the LP back end fail"),
 "the continuous formulation mixed sizes": ("C14", "cont/kinematic rows", "matrices of different sizes were combined when a contact phase has no kinematic constraint"),
 "the glpk adapter aborted": ("C10", "lp/no row", "a problem without constraint aborted the process"),
 "more equalities than variables": ("C17", "memory", "more equalities than variables made the solver write out of bounds"),
 "dropping a degenerate constraint read": ("C17", "memory", "dropping a degenerate constraint with a full active set read past its end"),
 "the sampled velocity cost ignored": ("C03", "sampled velocity cost", "the sampled velocity cost of the curves with 3 and 5 free waypoints lacked the products of distinct points"),
 "the final velocity given by the families with imposed jerk": ("C03", "final velocity", "the final velocity given by the headers of the families with imposed jerk was not that of their curve"),
 "the unconstrained minimum had the wrong sign": ("C17", "inverse", "the unconstrained minimum had the wrong sign when the inverse factor is provided"),
 "the sparse quadprog variant did not use": ("C17", "sparse", "the sparse variant discarded the inverse factor of the cost and returned wrong points"),
 "the sparse quadprog variant ignored the ordering": ("C17", "sparse", "the sparse variant mixed a factor of the reordered cost with unordered variables"),
}
D = os.path.dirname(os.path.abspath(__file__))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    k = [k for k in M if k in s]
    assert len(k) == 1, (s, k)
    p, key, what = M[k[0]]
    out.append(dict(property=p, key=key, status="fixed", commit=h, what=what, line="fixed: property=%s %s %s" % (p, h, what)))
out += [dict(property="C25", key="undefined/bezier_com_traj::compute6dControlPointEqualities/5", status="known",
             what="compute6dControlPointEqualities is declared and documented in common_solve_methods.hh but defined nowhere: a program that calls it does not link")]
json.dump({"findings": out}, open(os.path.join(D, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")

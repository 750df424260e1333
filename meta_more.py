"""further properties, added to the table of meta.py"""


def add(prop, na, k):
    S, H, W, FAM, VF, LN, TESTS = (k[x] for x in ("S", "H", "W", "FAM", "VF", "LN", "TESTS"))
    prop("C14", "Memory safety: every access stays inside its object and reads a written value",
         "During any call of the planners, of the functions that give waypoints, curves and sample instants, and of the carriers of data, with sizes that agree as documented, every index stays inside its container, every matrix operation has operands of matching sizes, no null or dead object is used, and every number handed to the solver or returned to the caller comes from the inputs and not from memory that was never written.",
         ["inputs", "configurations", "fault_sequences"], "all planners, supported sets of boundary conditions, numbers of phases, samplings, representations, sizes of the constraints of each phase including none; success and failure of the solver",
         TESTS + "assertions of the linear algebra library are compiled out in the tested build, and a read out of bounds usually goes unnoticed.",
         FAM + [S + "computeCOMTraj.cpp", S + "solve_0_step.cpp", H + "solve_end_effector.hh", S + "solver-abstract.cpp", S + "common_solve_methods.cpp", S + "utils.cpp"],
         [("row assembly", S + "computeCOMTraj.cpp"), ("zero step", S + "solve_0_step.cpp"), ("end effector", H + "solve_end_effector.hh")], ["every access on the analysed paths; arguments of solve(); result objects"])
    prop("C15", "Same arguments, same answer: the library keeps no state between calls",
         "The result of every planner and helper is a function of its arguments: no variable with static storage can be written or remembers a value of an earlier call, nothing reachable from the entry points reads a clock, a random source, the environment or a file, or ends the process, and a call leaves the problem, paths and durations it was given unchanged. Calls on separate arguments can therefore run in any order and concurrently.",
         ["schedules", "histories", "inputs"], "all sequences and interleavings of calls on separate arguments",
         "The tests make few calls per process and never compare repeated or concurrent calls.",
         [S + "computeCOMTraj.cpp", S + "waypoints_definition.cpp", S + "costfunction_definition.cpp", S + "solve_0_step.cpp", S + "solver-abstract.cpp", S + "eiquadprog-fast.cpp", H + "solve_end_effector.hh"],
         [("dispatch tables", S + "waypoints_definition.cpp, " + S + "costfunction_definition.cpp: static const maps"), ("entry points", S + "computeCOMTraj.cpp, " + S + "solve_0_step.cpp")],
         ["variables of static storage; call graph; the arguments after a call"],
         technique="whole-program rules over the typed AST (static storage, effects over the call graph) and value-flow analysis of inputs and hidden state")
    prop("C16", "Data carriers copy and default as documented, and constraint sets act as sets",
         "A copy or an assignment of a contact, constraint set, problem or solver or planner result has every field equal to the original's, and the contact phase reached through copied contact data equals the original one. Default construction gives the documented values. The operators on sets of constraints are union, intersection, symmetric difference and complement of the documented sets, each boundary condition being a distinct element.",
         ["inputs", "histories"], "all field values; all pairs of sets of constraints",
         "Tests build carriers once and never compare copies field by field.",
         [H + "data.hh", H + "flags.hh", H + "definitions.hh", H + "local_config.hh", H + "solver/solver-abstract.hpp"],
         [("contact data", H + "data.hh: ContactData"), ("problem and results", H + "data.hh: ProblemData, ResultData, ResultDataCOMTraj"), ("sets", H + "flags.hh: operators")], ["fields of the copies; values of the operators"])
    prop("C19", "A contact whose stability cone cannot be computed never yields success",
         "When the stability cone of any contact phase of a problem cannot be computed, whatever status the computation reports, a planner that needs that cone throws or reports failure: it never drops the stability constraints of that phase and returns a trajectory as if it were stable.",
         ["fault_sequences", "configurations"], "every status of the computation, every phase failing, every family and sampling mode, both planners that use contacts",
         "The tests use contacts whose cone is always computed.",
         [S + "computeCOMTraj.cpp", S + "solve_0_step.cpp", S + "common_solve_methods.cpp"],
         [("rows of a phase", S + "computeCOMTraj.cpp: switchContactPhase, computeConstraintsOneStep, computeConstraintsContinuous"), ("zero step", S + "solve_0_step.cpp")], ["exceptions and results of computeCOMTraj and solve0step"])
    prop("C20", "Affine waypoint algebra, Bernstein bases and row normalisation are exact",
         "Sum, difference and scaling of affine waypoints act on both parts and reject operands of different sizes, and equality compares both parts; the neutral waypoint is zero with the requested sizes; the cross product matrix is that of the cross product; the Bernstein basis of degree n has the n+1 polynomials in order; sampled wrench control points lie on the curve; normalising rows keeps every half space, gives unit rows first, and reports contradictory empty rows.",
         ["inputs"], "all operands; sizes enumerated in the evidence", "Few of the helpers are tested, on fixed numbers.",
         [H + "definitions.hh", H + "utils.hh", S + "utils.cpp", S + "common_solve_methods.cpp", H + "common_solve_methods.hh"],
         [("waypoint algebra", H + "utils.hh: operator+, operator-, operator*, initwp"), ("normalisation", S + "utils.cpp: Normalize"), ("sampling", S + "common_solve_methods.cpp: ComputeDiscretizedWaypoints")], ["return values"])

    prop("C17", "The active-set QP solver returns the constrained minimum or says that it cannot",
         "For a positive definite cost, in exact arithmetic, the dense and sparse QP solvers report an optimum, with its point, cost, active set and multipliers, exactly when the constraints can be met and the equalities are independent; only the iteration limit or a numerically degenerate constraint may make them report a failure instead. They stop within the iteration limit in force (a negative one is refused), stay inside their arrays whatever the numbers of variables and constraints, and problems solved before with the same object do not influence the answer.",
         ["inputs", "histories"], "all positive definite costs, minimisers and scales, for constraints of enumerated positions relative to the cost; sequences of solves with one object",
         "The tests call the solver on small well conditioned trajectory problems, none of which drops a constraint, repeats an equality or meets a degenerate one on purpose.",
         [S + "eiquadprog-fast.cpp", H + "solver/eiquadprog-fast.hpp"],
         [("active set iterations", S + "eiquadprog-fast.cpp: solve_quadprog, solve_quadprog_sparse"), ("factorisation updates", S + "eiquadprog-fast.cpp: add_constraint, delete_constraint"), ("working arrays", S + "eiquadprog-fast.cpp: reset; " + H + "solver/eiquadprog-fast.hpp: update_r, update_z")],
         ["status, point, cost, multipliers, active set and iterations after a solve; accesses on the way"],
         technique="value-flow analysis over the typed AST on problems with symbolic cost, minimiser and scale; returned polynomials compared with the minimum found by enumeration of active sets; memory and termination rules on the same paths")

    prop("C18", "The Python module gives the same objects and calls as the C++ library",
         "Every attribute of a Python object reads and writes the field of its name and nothing else, every enumeration value has the number of its C++ name, and every exported function passes its arguments in order to the C++ function it stands for and returns that function's result. Values that were never defined are refused with an error instead of being read, and constraints whose sizes do not match are refused instead of stored. Objects handed over to Python are released exactly once.",
         ["inputs", "configurations"], "all values of the attributes and arguments, matching and mismatched sizes, every exported name",
         "The Python module is not built or loaded by the tests.",
         ["python/bezier_com_traj.cpp"],
         [("module", "python/bezier_com_traj.cpp: BOOST_PYTHON_MODULE"), ("planner wrappers", "python/bezier_com_traj.cpp: zeroStepCapturability, computeCOMTrajPointer"), ("contact data", "python/bezier_com_traj.cpp: set_Kin, set_Ang, get_Kin, get_Ang")],
         ["attributes after assignment; arguments that reach the C++ functions; return values; call policies"],
         technique="registrations collected from the typed syntax tree, each accessor and exported function decided by value-flow analysis")

    prop("C23", "Every overload of solve, and every omitted argument, means what is documented",
         "Each overload of solve gives the solver exactly the inequalities, equalities, cost, initial guess and bounds it was called with, nothing for the parts it does not take, and returns the solver's answer. Every planner gives its problem to the solver the caller chose. Leaving out an argument selects the quadratic solver, the continuous formulation, three points per phase or the velocity cost of the end effector.",
         ["inputs", "configurations"], "all values; sizes, overloads and solvers enumerated",
         "The tests call one or two forms of each function.",
         [H + "solve.hh", H + "common_solve_methods.hh", S + "common_solve_methods.cpp", H + "solve_end_effector.hh"],
         [("overloads", S + "common_solve_methods.cpp: solve"), ("default arguments", H + "solve.hh: computeCOMTraj, computeCOMTrajFixedSize, solve0step; " + H + "solve_end_effector.hh: solveEndEffector")],
         ["arguments that reach the solver or the planner"])

    prop("C24", "Finite data give a finite problem and a finite answer",
         "For positive durations and finite data, however degenerate (coinciding points, zero velocities, zero rows in a cone or in kinematic constraints, no gravity, zero weights), no planner divides by zero or takes the root of a negative number. Every number handed to the solver, and every number of a result built from a finite solution, is finite.",
         ["inputs", "configurations"], "all finite data with positive durations; families, formulations, sizes and degenerate data enumerated",
         "The tests use a few well separated points; a division that degenerates only for coinciding points or zero rows is never met.",
         [S + "computeCOMTraj.cpp", S + "solve_0_step.cpp", S + "common_solve_methods.cpp", S + "utils.cpp", S + "waypoints_definition.cpp", S + "costfunction_definition.cpp", H + "solve_end_effector.hh", H + "waypoints/"],
         [("row normalisation", S + "common_solve_methods.cpp: Normalize"), ("cost of the end effector", H + "solve_end_effector.hh: computeEndEffectorCost"), ("instants", S + "utils.cpp: computeDiscretizedTime")],
         ["divisors and radicands on every path; numbers reaching the solver and in the result"])

    prop("C25", "Public headers stand alone and agree with the built library",
         "Every public header compiles on its own, and can be included repeatedly, after any other one, and in several source files of one program, so that the program compiles and links. Everything a header declares is defined, in a header or in the library, under that very signature. Settings that a program may choose differently from the build of the library (assertions, support for the optional solver) change no class layout, value, signature, default argument or inline function, and the library itself compiles and links under each of them.",
         ["configurations"], "all headers, declarations and source files, under each setting",
         "Every test is a program of one source file, compiled with the settings of the library, which calls part of the interface.",
         [H + "common_solve_methods.hh", H + "data.hh", H + "solve_end_effector.hh", H + "utils.hh", H + "waypoints/", H + "solver/solver-abstract.hpp", S + "common_solve_methods.cpp", S + "waypoints_definition.cpp"],
         [("declarations without definition", H + "common_solve_methods.hh, " + H + "waypoints/waypoints_definition.hh"), ("definitions in headers", H + "solve_end_effector.hh, " + H + "waypoints/*"), ("settings", H + "solver/solver-abstract.hpp: SolverType")],
         ["compilation and linking of a program that uses the headers", "size and fields of the classes of data.hh"],
         technique="declarations, definitions, references and record layouts collected from the type-checked program of every header and source file under each setting, and compared")

    na("C21", "Accepted trajectories meet their constraints up to rounding error",
       "Whenever a planner reports success, the returned point, evaluated in floating point, violates no constraint of the problem by more than a small tolerance relative to the data, whatever their conditioning.",
       ["inputs"], "all numerical data, including badly scaled and nearly degenerate ones",
       TESTS + "their data are well scaled.",
       [S + "eiquadprog-fast.cpp", S + "solver-abstract.cpp", S + "computeCOMTraj.cpp"], [("active set iterations", S + "eiquadprog-fast.cpp: solve_quadprog")],
       "the error depends on the conditioning of runtime data and on the number of active set changes; no static bound in reach is finite without assumptions on the data, so only exact arithmetic is claimed (C05, C06, C17)")
    na("C22", "The contact cone and the external LP solver compute what they document",
       "The stability inequalities obtained from the contact library describe exactly the wrenches realisable by the contacts, and the external LP solver returns an optimum of the problem it was given.",
       ["inputs"], "all contacts and linear programs",
       "The tests use a few contacts.",
       [S + "common_solve_methods.cpp", S + "solver-abstract.cpp"], [("cone of a phase", S + "common_solve_methods.cpp: computeContactCone"), ("LP adapter", S + "solver-abstract.cpp: solveglpk")],
       "the code that decides it is in external libraries (centroidal dynamics, cdd, GLPK) whose sources are not in the repository; what this repository passes to them and reads back is claimed in C10 and C19")

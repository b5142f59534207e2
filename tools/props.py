#!/usr/bin/env python3
"""The list of properties, kept in one place: writes properties.jsonl and MANIFEST.json.
A property whose id is in check.TABLE is claimed; the others are listed as not applicable with
the reason given here."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "lib"))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, state=None):
    P.append({"id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why,
              "files": files, "mech": mech, "observe": observe, "note": note, "state": state or []})


FS = ["src/humanoid_feet_supervisor.cpp", "mpc-walkgen/humanoid_feet_supervisor.h"]
FM = ["src/model/humanoid_foot_model.cpp", "src/interpolator.cpp", "src/tools.cpp"]
CONTRACT = ("Precondition: phase durations are multiples of the sampling period, a step lasts at least two and a double "
            "support at least one, the horizon is at least one step long, and the feedback period divides the sampling period "
            "and the time left. ")
HIST_WHY = ("The existing tests run one or two fixed walks with one sampling/feedback period; the property quantifies over every "
            "sequence of start/stop orders, retimings and feedback periods.")
FEET_NOTE = ("TLC explores the bounded schedule model exhaustively and every transition is replayed on the real class (double "
             "and float), plus TLC-generated random histories; TLC validates each recorded event. Assumes the documented call "
             "discipline and compares lengths in fixed point.")

QP_NOTE = ("TLC explores the adapter contract up to a bounded number of solves; each sequence runs on the real adapter over a "
           "scripted stand-in for qpOASES (not installed here). Normalisation: generated programs, judged entry by entry by TLC.")

prop("C01", "Walking phases follow each other in the legal order",
     "Starting from double support, the humanoid's executed phases are double support, then - once a walk is ordered - single "
     "supports strictly alternating left, right, left, ... beginning with the left foot as support, and double support again after "
     "the first single support that ends while no walk is ordered. A phase only changes when its time is used up, and the phase "
     "entered is the one that was previewed. The reported double-support flag, support foot, stance polygons of the samples and "
     "reach polygons of the previewed steps all agree with that sequence, whatever start/stop orders and period changes were given.",
     ["histories"], "every sequence of public calls (walk orders, period changes, preview updates, feet updates) that respects the "
     "call discipline; every horizon length and feedback period; double and float", HIST_WHY, FS,
     [{"name": "phase list update and next-phase choice", "where": "HumanoidFeetSupervisor::updateTimeline"}],
     ["isInDoubleSupport", "getSupportFootStateX/Y", "getCopConvexPolygon", "getKinematicConvexPolygon"], FEET_NOTE)
prop("C02", "Phases last exactly as commanded and samples stay on the phase clock",
     "Each double support and each single support lasts exactly the commanded period, counted in elapsed feedback periods; a change "
     "of the step period (double-support period) stretches or shrinks the single support (double support) in progress by the "
     "difference. The number of feedback periods reported before the next sample, the samples attributed to the current support, and "
     "the sample weights (time to the next sample divided by the sampling period for the first sample, 1.05 minus that for the last, "
     "1 for the others) all follow from the time left in the phase.",
     ["histories", "configurations"], "every call history respecting the discipline, every sampling period, feedback period dividing "
     "it, phase durations and horizon length", HIST_WHY + " Off-by-one errors only show for feedback periods smaller than the "
     "sampling period or after a retiming.", FS,
     [{"name": "time-to-next-phase bookkeeping", "where": "HumanoidFeetSupervisor::updateTimeline, updateFeetStates, setStepPeriod, "
       "setInitialDoubleSupportLength"}], ["isInDoubleSupport", "getNbOfCallsBeforeNextSample", "getSampleWeightMatrix", "getV0"],
     FEET_NOTE)
prop("C03", "Every previewed sample is assigned to exactly one support or step",
     "After each preview update, each of the N samples of the horizon is attached either to the current support or to exactly one "
     "of the M previewed steps; the attachment is that of the phase schedule (the step that has landed last at that sample), so it "
     "never decreases along the horizon and skips no step. M is the number of landings inside the horizon, and the selection "
     "matrices, their transposes and the matrices of the previewed feet position dynamic all encode exactly this attachment.",
     ["histories", "configurations"], "every call history respecting the discipline, every horizon length, period and feedback period",
     HIST_WHY, FS, [{"name": "selection matrices", "where": "HumanoidFeetSupervisor::computeConstantPart/updateTimeline"}],
     ["getNbPreviewedSteps", "getV", "getVT", "getV0", "getFeetPosDynamic"], FEET_NOTE)
prop("C04", "The step variables follow the preview and keep their meaning",
     "After each preview update the optimisation vector has exactly 2N+2M entries and its 2N CoP entries are untouched. The steps "
     "still previewed keep their position and order, the step that has just landed is removed (together with its ordinate) and steps "
     "beyond the horizon are dropped. Each newly previewed step is placed, relative to the previous step (or, for the first one, to "
     "the foot the robot stands on), at the centre of the bounding box of the reach polygon of the stance foot it is made from.",
     ["histories"], "every call history respecting the discipline, with any step positions chosen by the optimisation in between",
     HIST_WHY + " Stopping while steps are previewed is not tested at all.", FS,
     [{"name": "variable resizing and warm start of the steps", "where": "HumanoidFeetSupervisor::updateTimeline"}],
     ["the variable passed to updateTimeline"], FEET_NOTE)
prop("C05", "Samples and steps are given the polygon of the foot that supports them",
     "For every sample in single support the CoP polygon is the sole polygon of the supporting foot; for every sample in double "
     "support it is the convex hull of both soles placed where the feet are (or, once the step in flight has landed, where they will "
     "be), in the frame of the support foot. For every previewed step the reach polygon is that of its stance foot. The reported "
     "maximum numbers of constraints are never smaller than those of any of these polygons.",
     ["histories", "inputs"], "every call history, every sole and reach polygon, every foot placement",
     "Tests use one pair of rectangular soles and symmetric reach polygons, for which swapped feet or a wrong frame are invisible.",
     FS + ["src/convexpolygon.cpp"], [{"name": "polygon assignment and double-support hull", "where": "HumanoidFeetSupervisor::"
     "updateTimeline"}], ["getCopConvexPolygon", "getKinematicConvexPolygon", "getMaximumNbOf...Constraints"], FEET_NOTE)
prop("C06", "Only the flying foot moves, and it lands at rest on the commanded step",
     "During a phase, the supporting foot (both feet in double support, and both feet during the first sampling period of a single "
     "support) keeps its exact state, and a preview update moves nothing. The flying foot moves on the ground plane along the spline "
     "that goes from its current position, velocity and acceleration to the commanded step position at rest, in the time left; so at "
     "the end of the single support it is at the commanded position, with zero height, velocity and acceleration, even if the "
     "commanded step or the step period changed during the flight.",
     ["histories", "inputs"], "every call history, including a different commanded step at each feedback period",
     "Tests follow one fixed step with a single feedback period and check the end position only.", FS + FM,
     [{"name": "flying foot interpolation", "where": "HumanoidFeetSupervisor::updateFeetStates, HumanoidFootModel::interpolate..."}],
     ["getLeft/RightFootStateX/Y/Z"], FEET_NOTE)
prop("C07", "The flying foot's height stays between the ground and its maximum",
     "During a single support that is not retimed, the flying foot rises to the maximum height of that foot at mid-flight and is "
     "back on the ground at the end; its height is never below the ground nor above that maximum at any feedback instant. The "
     "vertical motion follows the two rest-to-rest splines (ground to apex, apex to ground), whichever way the feedback instants "
     "fall around the apex, and the vertical state of the other foot never changes.",
     ["histories", "configurations"], "every call history, maximum height, step period and feedback period, including those whose "
     "feedback instants miss the apex", "Tests use periods for which the apex is on a feedback instant.", FS + FM,
     [{"name": "height interpolation", "where": "HumanoidFootModel::interpolateFootTrajectory (Z part)"}],
     ["getLeft/RightFootStateZ"], FEET_NOTE)

HW = ["src/humanoid_walkgen.cpp", "mpc-walkgen/humanoid_walkgen.h", "mpc-walkgen/humanoid_walkgen_type.h"]
NUM_NOTE = ("TLC computes the expected values from the specification's own roll-out of the model (exact integer arithmetic) and "
            "compares every entry the real code produced for generated inputs; bounded by the generated inputs and the comparison "
            "tolerance.")
prop("C08", "The humanoid CoP rows mean: every previewed CoP inside its support polygon",
     "For any CoP variables satisfying the linear rows and the variable bounds that the CoP constraint reports, each previewed CoP, "
     "taken relative to its support as the variable is, lies in the support polygon of its sample, and conversely any CoP sequence "
     "inside the polygons satisfies them (the axis-aligned sides are carried by the bounds, the others by the rows). The value of "
     "the constraint at the current variable and its gradient are consistent with each other.",
     ["histories", "inputs"], "every walk history, sole polygon and CoP sequence", "Tests pin the matrices of one rectangle.",
     ["src/function/humanoid_cop_constraint.cpp", "mpc-walkgen/function/humanoid_cop_constraint.h"],
     [{"name": "rows and bounds from support polygons", "where": "HumanoidCopConstraint"}],
     ["getGradient", "getFunctionInf/getFunction", "getSupBounds/getInfBounds"], NUM_NOTE)
prop("C09", "The humanoid step rows mean: every step inside the reach polygon of its stance",
     "The linear rows of the foot constraint hold at a sequence of previewed steps exactly when each step satisfies the non-axis-"
     "aligned sides of the reach polygon of its stance foot, taken relative to the previous step (the current support foot for the "
     "first one). The axis-aligned sides are carried by the variable bounds, relative to the previous step of the current iterate "
     "(the current support foot for the first one).",
     ["histories", "inputs"], "every walk history, reach polygon and step sequence", "Tests pin the matrices of one polygon.",
     ["src/function/humanoid_foot_constraint.cpp", "mpc-walkgen/function/humanoid_foot_constraint.h"],
     [{"name": "rows and bounds from reach polygons", "where": "HumanoidFootConstraint"}],
     ["getGradient", "getFunction", "getSupBounds/getInfBounds"], NUM_NOTE)
prop("C10", "The humanoid objectives are the quadratic costs of the predicted walk",
     "The gradient and the Hessian reported by each humanoid objective (CoM velocity tracking, jerk minimisation, CoP centering) are "
     "the exact first and second derivatives, with respect to the CoP and step variables, of half the weighted sum of squares (of the "
     "velocity error, of the jerk, of the CoP relative to its support foot) obtained by "
     "rolling the inverted pendulum forward from the current CoM state under the jerk that realises these variables. This holds for "
     "every CoM state, reference, support schedule, sample weighting and horizon.",
     ["inputs", "histories"], "every CoM state, reference, schedule and horizon", "Tests pin one configuration.",
     ["src/function/humanoid_cop_centering_objective.cpp", "src/function/humanoid_lip_com_jerk_minimization_objective.cpp",
      "src/function/humanoid_lip_com_velocity_tracking_objective.cpp"],
     [{"name": "objectives", "where": "getGradient/getHessian of the three classes"}], ["getGradient", "getHessian"], NUM_NOTE)
prop("C11", "The humanoid controller does not depend on the order of its setters",
     "Whatever the order in which the polygons, periods, number of samples, weightings, gravity and heights of a humanoid controller "
     "are set, and whatever values they had before, the quadratic program it submits at each solve is a function of the current "
     "parameter values, references and state of the walk: the one of a controller configured afresh with them. The solver it uses always has exactly the dimensions of the program submitted, and "
     "solver and matrices exist for every number of steps and constraints that the walk can need.",
     ["histories", "configurations"], "every order and repetition of setter calls before and between solves",
     "Tests configure the controller once, in one order.", HW,
     [{"name": "recomputation on configuration changes", "where": "HumanoidWalkgen::computeConstantPart and setters"}],
     ["QP data passed to the solver", "commanded states"], NUM_NOTE)
prop("C12", "The humanoid solve returns the motion of the plan it computed",
     "After a successful solve, the CoM state is the previous one advanced by one feedback period under the jerk that realises the "
     "commanded first CoP of the plan (current variable plus solver increment), and the feet are those the supervisor obtains with "
     "the plan's steps. When the solver fails, solve reports failure.",
     ["histories"], "every walk history and every solver answer", "Tests only check that a walk goes roughly where expected.", HW,
     [{"name": "solve", "where": "HumanoidWalkgen::solve"}], ["getComStateX/Y", "return value"], NUM_NOTE)

ZW = ["src/zebulon_walkgen.cpp", "mpc-walkgen/zebulon_walkgen.h", "mpc-walkgen/zebulon_walkgen_type.h"]
prop("C13", "The wheeled controller does not depend on the order of its setters",
     "Whatever the order in which the parameters of the wheeled-base controller are set, and whatever values they had before, the "
     "quadratic program submitted at each solve is the one of a controller configured afresh with the final values (same matrices, "
     "bounds and gradient). This covers masses, heights, gravity, sampling period, number of samples, limits, polygons, weightings, "
     "states and references. (References given as a motion in the world frame are converted with the parameters in force when they "
     "are given, and references have to be given again after a change of the number of samples.)",
     ["histories", "configurations"], "every order and repetition of setter calls", "Tests configure the controller once, in one order.",
     ZW, [{"name": "recomputation on configuration changes", "where": "ZebulonWalkgen setters and computeConstantPart"}],
     ["QP data passed to the solver"], NUM_NOTE)
prop("C14", "The wheeled CoP and CoM constraints mean containment in their polygons",
     "The rows of the wheeled-base CoP constraint hold at a jerk sequence exactly when the ZMP predicted at every sample by "
     "integrating the base and CoM jerks lies inside the support polygon placed at the predicted base position, and those of the CoM "
     "constraint exactly when the predicted CoM relative to the base lies inside the CoM polygon. The constraint value at the current "
     "variable and its gradient are consistent with each other.",
     ["inputs"], "every base and CoM state, polygon, masses, heights and jerk sequence", "Tests pin matrices for one polygon.",
     ["src/function/zebulon_cop_constraint.cpp", "src/function/zebulon_com_constraint.cpp"],
     [{"name": "polygon rows", "where": "CopConstraint, ComConstraint"}], ["getGradient", "getFunction"], NUM_NOTE)
prop("C15", "The wheeled motion limits bound the predicted base motion",
     "The base motion rows hold at a base jerk sequence exactly when the velocity and acceleration it predicts at every sample stay "
     "within plus or minus the limits, and the jerk bounds hold exactly when the base jerks stay within plus or minus the jerk limit; "
     "the tilt motion rows hold exactly when the CoM and base velocities predicted at every sample have no component across the "
     "heading (yaw) of the base.",
     ["inputs"], "every base state, limit and jerk sequence", "Tests pin matrices for one state.",
     ["src/function/zebulon_base_motion_constraint.cpp", "src/function/zebulon_tilt_motion_constraint.cpp"],
     [{"name": "motion rows", "where": "BaseMotionConstraint, TiltMotionConstraint"}], ["getGradient", "getFunctionInf/Sup"], NUM_NOTE)
prop("C16", "The wheeled tracking and regularisation objectives are exact costs",
     "The gradient and Hessian of the wheeled base's velocity tracking, position tracking, jerk minimisation, CoP centering and CoM "
     "centering objectives are the exact derivatives of the sum of squared errors between the predicted quantity (obtained by "
     "integrating the jerk sequence from the current state) and its reference, for every state, reference, horizon and parameter.",
     ["inputs"], "every state, reference, horizon and parameter", "Tests pin one configuration.",
     ["src/function/zebulon_base_velocity_tracking_objective.cpp", "src/function/zebulon_base_position_tracking_objective.cpp",
      "src/function/zebulon_jerk_minimization_objective.cpp", "src/function/zebulon_cop_centering_objective.cpp",
      "src/function/zebulon_com_centering_objective.cpp"],
     [{"name": "objectives", "where": "getGradient/getHessian"}], ["getGradient", "getHessian"], NUM_NOTE)
prop("C17", "The tilt objectives are exact costs of the predicted tilt",
     "The gradient and Hessian of the tilt and tilt-velocity minimisation objectives are the exact derivatives of the sum of squared "
     "tilt angles (velocities) predicted from the current tilt, sample after sample, by the tilt equation documented in the source - the "
     "robot tipping about its contact point, tilt acceleration constant over an interval, equation satisfied at its end - under the "
     "base and CoM jerk sequence from the current state.",
     ["inputs"], "every state, mass, height, contact point and horizon", "Tests pin one configuration.",
     ["src/function/zebulon_tilt_minimization_objective.cpp", "src/function/zebulon_tilt_velocity_minimization_objective.cpp"],
     [{"name": "tilt dynamics and objectives", "where": "computeConstantPart, getGradient/getHessian"}],
     ["getGradient", "getHessian"], NUM_NOTE)
prop("C18", "Hot starts never reuse stale problem data",
     "Whenever a controller asks the solver for a hot start, the Hessian and constraint matrix of the program it submits are the "
     "ones the solver was initialised with, and the dimensions are those of the solver; any change of a parameter that alters them "
     "is followed by a cold start.",
     ["histories"], "every history of setters and solves of the three controllers", "Tests never change parameters between solves.",
     ZW + HW + ["src/trajectory_walkgen.cpp"], [{"name": "solver reset on reconfiguration", "where": "computeConstantPart, solve"}],
     ["calls made to the solver"], NUM_NOTE)
prop("C19", "The wheeled controller applies the first jerk of its plan and reports failures",
     "After each successful solve of the wheeled controller, the base and CoM states are the previous ones integrated over the "
     "feedback period with the first jerks of the plan (previous variable plus solver increment), and the returned status is the "
     "solver's. The optimisation vector keeps the plan as the starting point of the next solve.",
     ["histories"], "every history and solver answer", "Tests only check rough convergence.", ZW,
     [{"name": "solve", "where": "ZebulonWalkgen::solve"}], ["getBaseState..", "getComState..", "return value"], NUM_NOTE)
prop("C20", "The trajectory generator's program is the specified tracking problem",
     "The quadratic program submitted by the trajectory generator is, for every state, reference, limit, weighting and horizon, the "
     "weighted velocity, position and jerk cost of the integrated jerk sequence, subject to velocity and acceleration limits at every "
     "sample and jerk limits; it depends only on the final parameter values, not on the order in which they were set. Each "
     "successful solve advances the state by the feedback period under the first jerk of the plan and the solver's status is returned.",
     ["histories", "inputs"], "every state, parameter, order of setters and solver answer", "Tests check one run.",
     ["src/trajectory_walkgen.cpp", "mpc-walkgen/trajectory_walkgen.h", "src/function/trajectory_jerk_minimization_objective.cpp",
      "src/function/trajectory_motion_constraint.cpp", "src/function/trajectory_position_tracking_objective.cpp",
      "src/function/trajectory_velocity_tracking_objective.cpp", "src/model/no_dynamic_model.cpp"],
     [{"name": "QP assembly and solve", "where": "TrajectoryWalkgen"}], ["QP data passed to the solver", "getState"], NUM_NOTE)

prop("C21", "Prediction matrices are repeated integration of the model",
     "For every model (inverted pendulum, wheeled base, plain integrator), every predicted quantity (position, velocity, "
     "acceleration, jerk, CoP) satisfies Y = S x + U u for the state reached by integrating the piecewise-constant jerk sample after "
     "sample from the state x, for every horizon length, sampling period, feedback period and feedback index (whose first interval "
     "lasts only the time left to the next sample). U^T and the inverse U^-1, where provided, are the transpose and inverse of U (where "
     "U is invertible at working precision), for every order in which the parameters are set. Updating a model's state with a jerk "
     "and a duration applies the same integration.",
     ["inputs", "configurations"], "every horizon, period, feedback index and model parameter",
     "Tests compare a few entries for N=2.", ["src/model/lip_model.cpp", "src/model/zebulon_base_model.cpp",
     "src/model/no_dynamic_model.cpp", "src/tools.cpp", "src/lineardynamic.cpp"],
     [{"name": "prediction matrices", "where": "Tools::Constant...Dynamic, models' compute..Dynamic"}],
     ["get..LinearDynamic"], NUM_NOTE)
prop("C22", "A convex polygon's vertices are the hull of its points",
     "The vertices extracted from any finite set of points are the convex hull of that set, in counter-clockwise order, each once: "
     "no other point lies outside, no vertex lies inside or in the middle of a side, duplicates and collinear points are handled, and "
     "the result does not depend on the order in which the points are given.",
     ["inputs"], "every finite point set, including duplicates, collinear points and near-duplicates", "Tests use a few squares.",
     ["src/convexpolygon.cpp", "mpc-walkgen/convexpolygon.h"], [{"name": "extractVertices", "where": "ConvexPolygon"}],
     ["getVertices"], NUM_NOTE)
prop("C23", "A convex polygon's bounds and linear constraints mean membership",
     "For every polygon with at least three non-collinear vertices, a point satisfies the reported axis-aligned bounds and the "
     "reported linear constraints exactly when it lies inside the polygon; each axis-aligned side is represented by a bound and each "
     "other side by exactly one linear constraint.",
     ["inputs"], "every polygon and every point", "Tests pin the coefficients of two polygons.",
     ["src/convexpolygon.cpp", "mpc-walkgen/convexpolygon.h"],
     [{"name": "bounds and general constraints", "where": "ConvexPolygon::compute..."}],
     ["getXInfBound..", "getGeneralConstraintsMatrixCoefs.."], NUM_NOTE)
prop("C24", "Interpolated trajectories meet both end states and are smooth",
     "The interpolation between two states (position, velocity, acceleration) over any duration starts exactly at the first and ends "
     "exactly at the second, and is the C2 three-piece cubic in between: position, velocity and acceleration are continuous at the "
     "knots at one and two thirds, each reported derivative being the derivative of the reported position.",
     ["inputs"], "every pair of states, duration and instant", "Tests check one trajectory's end points.",
     ["src/interpolator.cpp", "mpc-walkgen/interpolator.h", "src/tools.cpp"],
     [{"name": "spline coefficients and evaluation", "where": "Interpolator"}], ["computePolynomial...", "interpolate..."], NUM_NOTE)
prop("C25", "Normalising a quadratic program does not change it",
     "Normalising a quadratic program multiplies the objective (Hessian and gradient together) by one positive factor and the "
     "constraints (matrix and both bounds together) by another, and leaves the bounds of the variables alone, so that the feasible "
     "points and the minimiser are unchanged. Each factor is the inverse of the smallest magnitude in the Hessian (constraint matrix) "
     "that exceeds the given threshold when that is below one, and one otherwise. The dimension test holds exactly when every matrix "
     "and vector has the size that the numbers of variables and constraints call for.",
     ["inputs"], "every quadratic program, threshold and pair of dimensions; double and float",
     "The adapter's own test solves one program; nothing tests normalisation or dimension tests.",
     ["qpsolver/mpc-walkgen/qpsolver.h"], [{"name": "normalizeMatrices, getNormalizationFactor, dimensionsAreConsistent",
                                            "where": "QPMatrices"}], ["QPMatrices"], QP_NOTE)
prop("C26", "The solver adapter reports success only for a solved program",
     "A solve through the qpOASES adapter returns success exactly when qpOASES reports the program solved, and then hands over its "
     "primal solution; a failure is reported whether or not a diagnostics stream is given. The adapter hands over exactly the "
     "caller's data and iteration limit. The first solve of a solver, and every solve after a failed initialisation, is a cold "
     "start; a hot start is used when, and only when, it is asked for after a successful start. The solver has the dimensions asked "
     "for.",
     ["fault_sequences"], "every sequence of solves (cold or hot, with or without diagnostics) and solver outcomes; double and float",
     "The adapter is not built by the test suite here; the property quantifies over sequences of solver failures.",
     ["qpsolver/src/qpsolver_qpoases.hxx", "qpsolver/src/qpsolver_qpoases_double.cpp", "qpsolver/src/qpsolver_qpoases_float.cpp",
      "src/qpsolverfactory.cpp"], [{"name": "solve", "where": "QPOasesSolver::solve"}],
     ["return value", "solution", "calls to qpOASES"], QP_NOTE, [{"name": "qpIsInitialized_"}])

prop("C27", "Controllers are independent of one another",
     "The program a controller submits, the status, the states and the outputs it reports are determined by its own calls alone: whatever other "
     "controllers of the same or of the other scalar type are created, configured, solved or destroyed in the same process, before or "
     "between its calls, and whatever the memory it is created in held before.",
     ["histories", "schedules"], "every pair of histories of two wheeled controllers, trajectory generators or humanoid walk generators and "
     "every interleaving of their calls, including the second one being destroyed and created anew",
     "Each test uses one controller at a time.",
     ["src/zebulon_walkgen.cpp", "src/trajectory_walkgen.cpp", "src/humanoid_walkgen.cpp", "src/humanoid_feet_supervisor.cpp", "src/tools.cpp",
      "src/model", "src/function"],
     [{"name": "parameters and matrices", "where": "data members of the controllers, models and functions"}],
     ["QPSolver::solve arguments", "state getters", "solve return value"], NUM_NOTE, [{"name": "static data, uninitialised members"}])

PENDING = "its check is not built yet"


def main():
    import check
    claimed = check.TABLE
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py setup",
         "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                     "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": "TLA+ specification checked with TLC, bound to the code by trace validation",
                     "level": "model_checking", "level_note": p["note"]} for p in P if p["id"] in claimed],
         "not_applicable": [{"property": p["id"], "reason": PENDING} for p in P if p["id"] not in claimed],
         "notes": "No hooks are needed in /repo: every observation is made through the public API."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

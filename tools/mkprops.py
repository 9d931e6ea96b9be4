#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API, before and after the call"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SYS = ["src/rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp"]

p("C01", "Any valid use of the library is memory-safe, UB-free and never aborts",
  "For every history of valid API calls (building, editing, stepping, sharing solvers between systems, resetting and destroying worlds of any size, including empty ones) no call reads or writes outside live memory, executes undefined behaviour, trips an internal assertion or fails to return.",
  ["inputs", "histories"], "all sequences of valid public API calls over any number of worlds, sizes and solver combinations",
  "The tests never build a rigid body system at all; they call single classes once on tiny inputs and run without sanitizers.",
  SYS + ["src/system_state.cpp", "src/matrix.cpp", "include/sparse_matrix.h", "src/spring.cpp", "src/rk4_ode_solver.cpp"],
  [("buffer resizing", "SystemState::resize, Matrix::resize, SparseMatrix::resize"), ("index guards", "index == -1 checks"), ("asserts", "matrix.h, sparse_matrix.h")],
  observe=["AddressSanitizer/UBSan reports", "process exit status", "library asserts"])
p("C02", "Destroying library objects releases every byte they allocated",
  "After any history of use, destroying a system, solver, integrator or constraint, or calling destroy() on a matrix or state buffer, completes normally and returns all heap memory the library allocated on its behalf, exactly once; the buffer can then be initialised and used again like a new one.",
  ["histories"], "all create/use/resize/destroy histories, including zero-sized and reused buffers",
  "Tests run without leak detection, always use non-zero sizes, and never destroy a system after stepping it or reuse a destroyed buffer.",
  ["src/system_state.cpp", "src/matrix.cpp", "include/sparse_matrix.h", "src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/gauss_seidel_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp", "src/gaussian_elimination_sle_solver.cpp"],
  [("explicit destroy()", "Matrix/SparseMatrix/SystemState::destroy"), ("destructors", "system and solver destructors")],
  observe=["allocation ledger in replaced operator new/delete"])
p("C03", "A simulation is a function of its inputs alone",
  "Two executions that perform the same calls with the same arguments produce bit-identical body states and reported constraint forces, whatever the prior contents of the heap or stack, the addresses obtained, other worlds alive in the process, or the elapsed real time; no result ever derives from uninitialised memory.",
  ["inputs", "histories", "configurations"], "all scenes and histories, for every initial content of unwritten memory",
  "Tests run each computation once in a fresh process where heap memory is typically zero, so a read of unwritten memory is invisible.",
  SYS + ["src/gauss_seidel_sle_solver.cpp", "src/rk4_ode_solver.cpp", "src/constraint.cpp", "include/sparse_matrix.h"],
  [("initialisation of buffers before use", "initialize() calls, populateSystemState, processForces")],
  observe=["bitwise trace hash of body states and constraint forces", "MemorySanitizer reports"])
p("C04", "The registry of a system always matches the add/remove history",
  "After any sequence of adding and removing bodies, constraints and force generators, and of resets, the counts and listing equal the set of currently registered objects, and each object's own index is its position. A step applies every registered generator and constraint exactly once per evaluation, never calls a removed one, moves every registered body and leaves all other bodies untouched.",
  ["histories"], "all add/remove/reset/step sequences, including removal of the first, last, only and already moved element",
  "No test adds or removes anything from a system.",
  ["src/rigid_body_system.cpp", "include/rigid_body_system.h"],
  [("swap-with-last removal", "RigidBodySystem::removeRigidBody/removeConstraint/removeForceGenerator")],
  state=[("index", "position of a body in its system, -1 if never registered", "RigidBody::index")])
p("C05", "Past edits leave no trace in how a world evolves",
  "A system that reached its current contents through any history of steps, additions, removals and resets evolves exactly as a freshly created system given the same bodies, constraints and generators in the same order. Solvers and integrators previously used on other systems of other sizes behave like new ones.",
  ["histories"], "all editing histories leading to the same current world; all earlier uses of solver and integrator objects",
  "Requires comparing two long histories; no test edits a world or reuses a solver.",
  SYS + ["src/system_state.cpp", "src/rk4_ode_solver.cpp", "src/matrix.cpp", "include/sparse_matrix.h"],
  [("per-step repopulation and resizing", "populateSystemState, SystemState::resize/copy")])
p("C06", "Unconnected bodies never influence each other, at any world size",
  "Adding to a world any number of bodies, constraints and generators not connected to a given group of bodies, in any registration order, does not change that group's motion or the constraint forces reported for it (up to rounding), and the group's constraints always act on precisely the bodies they name, in worlds of hundreds of bodies as in worlds of two.",
  ["inputs", "configurations"], "all scenes, bystander sets, interleavings of registration order and world sizes into the hundreds",
  "Tests contain at most two bodies and never combine independent groups.",
  SYS + ["include/sparse_matrix.h"],
  [("sparse block index per Jacobian entry", "SparseMatrix::setBlock"), ("row/body offset arithmetic", "processConstraints")])
p("C07", "Constraint Jacobians are the exact derivatives of constraint errors",
  "For every built-in position constraint, at every configuration and velocity and for all parameter values, the Jacobian it reports equals the partial derivatives of the error it reports with respect to the pose of each body, and the reported Jacobian rate equals the time derivative of that Jacobian along the bodies' current velocities. Velocity constraints report the constant row of the relation they enforce, with zero error and zero rate.",
  ["inputs"], "all constraint kinds, poses, velocities, parameters",
  "Only the rolling constraint is tested, at ten poses with one parameter set and unit radius.",
  ["src/fixed_position_constraint.cpp", "src/fixed_rotation_constraint.cpp", "src/line_constraint.cpp", "src/link_constraint.cpp", "src/rolling_constraint.cpp", "src/clutch_constraint.cpp", "src/rotation_friction_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/simple_gear_constraint.cpp"],
  [("analytic derivatives", "each Constraint::calculate")])
p("C08", "Constraint errors measure the geometry they are named for",
  "The error a position constraint reports is the signed offset of the body's attachment point from the fixed world point (per axis), from the line (times the direction's length), or from the linked attachment point, the angle from the fixed rotation, or for a rolling body its height off the surface less the radius plus the slip between wheel and base. Evaluating a constraint writes error, Jacobian, rate, bias, gains and limits for all its rows from its own parameters and the named bodies' states only, and changes no state.",
  ["inputs"], "all poses and parameters, any previous content of the output record",
  "No test checks what the error of any constraint means.",
  ["src/fixed_position_constraint.cpp", "src/fixed_rotation_constraint.cpp", "src/line_constraint.cpp", "src/link_constraint.cpp", "src/rolling_constraint.cpp", "include/constraint.h"],
  [("closed-form error expressions", "each Constraint::calculate")])
p("C09", "Each velocity-level step lands exactly on the constraint velocities",
  "After a step of the velocity-level (optimized) system with a solved, unsaturated linear system, the new velocities satisfy every constraint row, built-in or user-defined: row Jacobian times new velocity plus the row's velocity bias plus (bias factor / step length) times the row's error, all taken at the start of the step, is zero to solver accuracy.",
  ["inputs", "configurations"], "all scenes with independent constraint rows, solvers, step lengths, bias factors",
  "No test ever steps a system with a constraint in it.",
  ["src/optimized_nsv_rigid_body_system.cpp", "include/sparse_matrix.h", "src/matrix.cpp"],
  [("right hand side assembly and multiplier solve", "OptimizedNsvRigidBodySystem::processConstraints")])
p("C10", "Each force-level evaluation satisfies the constraint acceleration law",
  "Whenever the generic system evaluates accelerations, for any integrator and stage, every constraint row satisfies: Jacobian times acceleration plus Jacobian rate times velocity plus stiffness times error plus damping times error velocity equals zero to solver accuracy, at the state of that evaluation.",
  ["inputs", "configurations"], "all scenes with independent rows, integrators, solvers, gains, every stage of every step",
  "No test ever evaluates a system with a constraint in it.",
  ["src/generic_rigid_body_system.cpp", "include/sparse_matrix.h"],
  [("right hand side assembly and multiplier solve", "GenericRigidBodySystem::processConstraints")])
p("C11", "Reported constraint forces plus applied forces account for all motion",
  "Over every step, for both systems and every integrator, each body's mass times its velocity change equals the step length times the applied external force plus the sum of the constraint forces reported for that body (likewise for torque, and for multi-stage integrators the stage-weighted average), and each reported row force is a multiple of that row's Jacobian. Reported forces are those of the last (sub)step and depend on nothing older.",
  ["inputs", "histories"], "all scenes, systems, integrators, step counts",
  "Reported forces are never read by any test.",
  SYS + ["src/rk4_ode_solver.cpp"],
  [("reaction storage and propagation", "m_state.r_x/r_y/r_t, Constraint::F_x/F_y/F_t")],
  state=[("F_x, F_y, F_t", "force and torque of row j on body k", "include/constraint.h")])
p("C12", "Internal interactions conserve momentum",
  "In a world whose bodies interact only through springs, motors, links, clutches and similar internal connections, total linear momentum never changes, and with external forces it changes only by their impulse. Angular momentum changes only by external torque impulse for velocity-level steps whose links are closed, and springs, motors and clutches always act with equal and opposite effect on their two bodies.",
  ["inputs", "histories"], "all isolated and externally forced scenes over many steps",
  "No test has two interacting bodies.",
  ["src/spring.cpp", "src/constant_speed_motor.cpp", "src/link_constraint.cpp", "src/clutch_constraint.cpp"] + SYS,
  [("paired forces", "Spring::apply, ConstantSpeedMotor::apply, J rows with opposite signs")])
p("C13", "A linear solve that reports success has solved the system",
  "For each solver (Gaussian elimination, conjugate gradient, Gauss-Seidel) and any row count from zero up, success implies a finite result satisfying (J W J^T) x = b within the solver's own stated tolerance, whatever starting guess is passed (none, wrong-sized or arbitrary) and whatever the solver object solved before; inputs are unchanged. Well-conditioned positive definite systems are always solved, and running out of iterations short of the tolerance is reported as failure, as is a solve with limits by a solver that does not support them.",
  ["inputs", "histories"], "all sparse Jacobians, weights, right hand sides, warm starts, tolerance settings, solver reuse",
  "One or two fixed right hand sides per direct/CG solver; Gauss-Seidel has no live test.",
  ["src/gaussian_elimination_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp", "src/gauss_seidel_sle_solver.cpp"],
  [("elimination with row pivoting", "GaussianEliminationSleSolver::solve"), ("residual test", "ConjugateGradientSleSolver::sufficientlySmall"), ("sweep change test", "GaussSeidelSleSolver::solveIteration")])
p("C14", "Force limits are respected and bind only when needed",
  "With the limit-supporting solver every multiplier lies within its limits; a multiplier strictly inside its limits satisfies its equation, one at a limit leaves an equation error only in the direction the limit blocks (within the solver's tolerance). In a simulation the reported torque or force of every limited constraint therefore stays within its configured minimum and maximum for every step length and substep count, and a gear in neutral transmits nothing.",
  ["inputs", "histories", "configurations"], "all limits (one-sided, equal, zero, infinite), right hand sides, step lengths, limit changes over time",
  "Limits are never exercised by any test.",
  ["src/gauss_seidel_sle_solver.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/clutch_constraint.cpp", "src/link_constraint.cpp", "src/simple_gear_constraint.cpp"],
  [("clamping per multiplier", "GaussSeidelSleSolver::solveIteration"), ("impulse limits = force limits * dt", "processConstraints")])
p("C15", "Dense matrix operations equal textbook linear algebra in any history",
  "For every sequence of matrix operations on any shapes (including empty, non-square, and targets of any previous shape or row order), each result has the mathematically correct shape and entries, source operands are unchanged, and element access always agrees with the row-major data last stored.",
  ["inputs", "histories"], "all operation sequences over pools of reused matrices",
  "Tests check a few 2x2 products on fresh targets.",
  ["src/matrix.cpp", "include/matrix.h"],
  [("row pointer table over a flat buffer", "Matrix::resize, fastRowSwap")])
p("C16", "Sparse block matrices behave exactly like their dense expansion",
  "For every block pattern (rows with no, one or all blocks, any block position including very wide matrices) and every history of reuse at other shapes, expanding, transposing, multiplying by matrices, vectors or another sparse matrix's transpose, and row or column scaling give the same result as the same operation on the dense matrix with those entries.",
  ["inputs", "histories"], "all patterns, strides, widths into the hundreds of blocks, reuse histories",
  "Tests use fixed 3-row patterns on fresh matrices.",
  ["include/sparse_matrix.h"],
  [("block index array with an empty marker", "m_blockData")])
p("C17", "Integrators advance states with the order of accuracy they are named for",
  "For any acceleration law and any number of bodies, one Euler step moves positions by the old velocity and velocities by the acceleration, one NSV step moves velocities first and positions by the new velocity, and the RK4 integrator is exact for constant acceleration and fourth-order accurate for smooth state-dependent forces, both alone and inside a constrained world. Each step evaluates from and advances the full state (both translations and rotation) of every body.",
  ["inputs", "configurations"], "all smooth force laws, states, step lengths, body counts",
  "Tests integrate constant acceleration only, for which far weaker schemes look identical.",
  ["src/rk4_ode_solver.cpp", "src/euler_ode_solver.cpp", "src/nsv_ode_solver.cpp", "src/generic_rigid_body_system.cpp"],
  [("stage states and weights", "Rk4OdeSolver::step/solve")])
p("C18", "Substeps are exactly repeated smaller steps",
  "Processing a frame of length dt in k substeps leaves bodies and reported forces exactly as processing k frames of length dt/k, for both systems and every solver and integrator (worlds without motors, whose damping looks at the previous evaluation), and the elapsed time reported is the sum of the frame lengths processed.",
  ["inputs", "configurations"], "all scenes, dt, substep counts",
  "No test calls process().",
  ["src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp"],
  [("substep loop", "process(dt, steps)")])
p("C19", "Local and world frames, point velocities and applied forces agree",
  "Mapping a point to world coordinates and back returns it; the mapping is rigid and the body and state versions agree. The velocity reported at a point is the time derivative of its world position, and applying a force at a point adds that force and a torque whose power equals force times point velocity, for that body only and on top of what was there.",
  ["inputs"], "all poses, points, velocities, forces, bodies",
  "No test calls any of these functions.",
  ["src/rigid_body.cpp", "src/system_state.cpp"],
  [("rotation matrices", "localToWorld, worldToLocal, velocityAtPoint, applyForce")])
p("C20", "Force generators apply exactly their documented force law",
  "Gravity adds mass times g downwards to every body in the world; a static force acts at its local point on its body; a spring pulls its attachment points together by stiffness times extension along their line plus damping times their relative velocity (no elastic force when the points practically coincide, none at all if an end is unset); a motor applies its proportional-minus-damping torque clamped to its maximum to one body and the opposite to the other. Contributions add to those of other generators and touch no other body; setters, end points and reported spring energy follow the same parameters.",
  ["inputs"], "all states, parameters, combinations of generators",
  "No test touches any force generator.",
  ["src/gravity_force_generator.cpp", "src/static_force_generator.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp"],
  [("apply()", "each ForceGenerator")])
p("C21", "Physics does not depend on where the world is placed or how it is turned",
  "Translating or rotating an entire scene (poses, velocities, world anchors, lines, fixed angles and external force directions) rotates and translates its whole simulated motion and reported forces the same way, and adding a common constant velocity to a scene without world attachments only adds that drift.",
  ["inputs"], "all scenes, translations, rotations, boosts",
  "A metamorphic relation over pairs of runs; tests never run a scene.",
  SYS + ["src/link_constraint.cpp", "src/line_constraint.cpp", "src/fixed_position_constraint.cpp", "src/rolling_constraint.cpp", "src/spring.cpp"],
  [("frame-covariant formulas", "constraints and generators")])
p("C22", "Separate worlds can be simulated concurrently",
  "Simulating worlds that share no objects from different threads at the same time involves no data race and gives each world exactly the result it has when simulated alone.",
  ["schedules"], "all interleavings of threads each driving its own world, solver and integrator",
  "Tests are single threaded.",
  SYS + ["src/gauss_seidel_sle_solver.cpp", "src/rk4_ode_solver.cpp"],
  [("no global mutable state", "whole library")],
  observe=["ThreadSanitizer reports", "bitwise trace hash against the serial run"])
p("C23", "Joints stay together over long simulations",
  "Over arbitrarily many velocity-level steps with position correction, each step shrinks the existing joint error by the bias factor and adds at most the second-order rotation term of that step, so joints never drift apart; in the force-level system with its default gains a smoothly started mechanism keeps its joint errors small and within fourth-order accuracy under RK4.",
  ["histories"], "all joint topologies of links, anchors, lines and welds, thousands of steps, several step lengths",
  "No test simulates a joint for even one step.",
  ["src/optimized_nsv_rigid_body_system.cpp", "src/generic_rigid_body_system.cpp", "src/link_constraint.cpp", "src/fixed_position_constraint.cpp"],
  [("bias term", "m_biasFactor, C"), ("stiffness and damping terms", "ks, kd")])
p("C24", "Profiling figures are the averages of the most recent frames",
  "Each profiling getter returns zero before the first frame and afterwards the mean over the last frames (at most the sample capacity) of the time actually spent in that phase, summed over substeps; never negative, never more than the wall time of those frames, and time spent in generators, linear solver and integrator is attributed to the matching getter only.",
  ["histories"], "all numbers of frames, also beyond the sample capacity, all substep counts",
  "No test reads the profiling getters.",
  SYS, [("ring of samples", "m_frameIndex, ProfilingSamples")])
p("C25", "An unregistered body is a valid immovable anchor",
  "Clutches, gears, user-defined constraints, springs and a motor's reference may name a body that was never registered with a system: it acts as an object at rest that no force can move, its fields are unchanged, the registered partner moves as if attached to immovable ground, and no other body or memory is affected.",
  ["inputs", "configurations"], "all such connections, either end, both systems, all solvers",
  "No test uses an unregistered body.",
  ["src/spring.cpp", "src/constant_speed_motor.cpp", "src/generic_rigid_body_system.cpp", "src/optimized_nsv_rigid_body_system.cpp"],
  [("index == -1 convention", "Spring::apply, ConstantSpeedMotor::apply, processConstraints")])
p("C26", "Clutches, gears, friction and drives follow the drivetrain laws",
  "In the velocity-level system with the limit-supporting solver, friction decelerates a body at no more than its limit and then holds it at rest unless the load exceeds the limit; a clutch brings two bodies to the same speed at no more than its limit; a gear keeps the first speed at ratio times the second; a constant rotation drive takes the body to the configured speed (with the library's sign: rate plus setting equals zero) at no more than its torque limits. Changing limits, ratio or neutral between steps takes effect from the next step.",
  ["inputs", "histories"], "all inertias, speeds, loads, limits, ratios, and changes over time",
  "No test exercises any drivetrain constraint.",
  ["src/clutch_constraint.cpp", "src/rotation_friction_constraint.cpp", "src/simple_gear_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/optimized_nsv_rigid_body_system.cpp", "src/gauss_seidel_sle_solver.cpp"],
  [("velocity rows with limits", "Constraint::Output limits and v_bias")])
p("C27", "State buffers copy and resize without loss or mix-up",
  "Copying a state makes every per-body and per-constraint quantity of the copy equal to the source's, independent of it afterwards, whatever size the copy had before; resizing makes the buffer exactly the requested size with every array usable, and resizing to the current size preserves its contents.",
  ["inputs", "histories"], "all sequences of resize, fill, copy and destroy over several buffers",
  "Tests resize once to one body and never copy directly.",
  ["src/system_state.cpp", "include/system_state.h"],
  [("array-by-array copy", "SystemState::copy"), ("reallocation", "SystemState::resize")])
p("C28", "Passive mechanisms never create energy; conservative ones keep it",
  "With no external force, no bias and no drive, a velocity-level step never increases the total reported kinetic energy, with or without force limits. Under RK4 the sum of reported kinetic, spring and gravitational energy of an undamped mechanism stays constant to the integrator's accuracy, damping only lowers it, and reported kinetic energy is half mass times speed squared plus half inertia times spin squared.",
  ["inputs", "histories"], "all passive scenes and states; all conservative scenes over many steps",
  "No test looks at energy.",
  ["src/rigid_body.cpp", "src/spring.cpp"] + SYS,
  [("velocity projection", "optimized system"), ("energy()", "RigidBody, Spring")])
p("C29", "Motion does not depend on the units of measurement",
  "Expressing a whole scene in other units of mass, length and time (every mass, inertia, length, velocity, force, spring and damping coefficient, limit, gain, speed setting and time step rescaled accordingly) gives the same simulated motion and the same reported forces in those units; for units of mass and time that differ by powers of two a direct solver gives exactly the same digits. No built-in magnitude decides what counts as light, slow, weak or singular, except the documented dimensional constants (softening of the attractor, cut-out length of a spring, absolute floors of the iterative solvers).",
  ["inputs"], "all scenes, all scales of mass, length and time, both systems, all solvers",
  "A metamorphic relation over pairs of runs and extreme magnitudes; tests use numbers of order one and never run a scene.",
  SYS + ["src/gaussian_elimination_sle_solver.cpp", "src/gauss_seidel_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp"],
  [("dimensionally homogeneous formulas", "constraints, generators, solvers")])
p("C30", "New objects are complete and neutral; setters change only what they name",
  "Every newly constructed body, constraint, force generator, solver, system, matrix and state buffer has all its public fields set to the same fixed neutral values (unregistered, empty, at rest, no forces, no limits, default gains) whatever its memory held before, so that an unconfigured constraint or generator has a definite, documented effect. Each setter changes the quantities it names and nothing else; resetting a body restores a new body's pose, velocity and mass and leaves its registration alone. Registering an object changes only its index, evaluating it or asking for energies and positions changes nothing, and a step changes only the motion of the system's bodies and the forces its constraints report.",
  ["inputs", "histories"], "all classes, all previous contents of their memory, all setter arguments",
  "Tests construct objects in fresh memory, always configure what they use, and never compare the fields a call should not touch.",
  ["src/rigid_body.cpp", "src/constraint.cpp", "src/force_generator.cpp", "src/spring.cpp", "src/constant_speed_motor.cpp", "src/link_constraint.cpp", "src/clutch_constraint.cpp", "src/rotation_friction_constraint.cpp", "src/constant_rotation_constraint.cpp", "src/simple_gear_constraint.cpp", "src/gauss_seidel_sle_solver.cpp", "src/conjugate_gradient_sle_solver.cpp", "src/system_state.cpp"],
  [("field initialisation", "constructors"), ("setters", "set* member functions, RigidBody::reset")],
  observe=["public fields after construction and around setter calls"])
p("C31", "Every callback is shown the true, complete, current state",
  "Whenever a system applies a force generator, evaluates a constraint or calls the integrator, the state it passes is the system's own, holds exactly the registered bodies (each at its index, with its mass) and rows, and shows the positions and velocities of that evaluation - the bodies' own at the start of a step, what the integrator set afterwards - the same to everyone in an evaluation, with the dt its integrator assigns to the evaluation (the substep; under RK4 the stage's offset 0, 1/2, 1/2, 1 of it); force totals start at zero and contain exactly what the generators applied before; accelerations are zero at first and then those of the last evaluation. After the step state() equals the bodies and holds, at each constraint's rows, the forces the constraint reports.",
  ["inputs", "histories"], "all histories of edits and steps, all evaluations within a step, all integrators and systems",
  "No test registers anything with a system or observes a callback.",
  SYS + ["include/system_state.h"],
  [("repopulation per step", "populateSystemState"), ("zeroing of forces", "processForces"), ("write-back", "propagateResults, GenericRigidBodySystem::process"), ("row map", "SystemState::indexMap")],
  observe=["SystemState as passed to ForceGenerator::apply, Constraint::calculate and OdeSolver calls", "RigidBodySystem::state()"])
p("C32", "User-defined parts are driven by a fixed protocol and fully obeyed",
  "For any user-defined parts a step consists of exactly the requested substeps, each start(dt/steps), then stages of integrator step, all generators once, all constraints once, the linear solver once and integrator solve until the integrator says it is done, then end. The solver is handed the constraints' own rows in the columns of the bodies they name, inverse masses, the documented right hand side, and limits times the substep exactly if it supports them and the system is velocity-level. Whatever it answers becomes the row forces J^T lambda (over dt at velocity level) and, with the applied forces, the accelerations; whatever the integrator leaves becomes the bodies' motion and the reported forces.",
  ["inputs", "histories"], "all behaviours of user-defined parts, numbers of stages, constraint outputs, solver answers, world sizes",
  "Tests use no user-defined part and no system; the protocol is only visible from inside the callbacks.",
  SYS + ["include/ode_solver.h", "include/sle_solver.h", "include/constraint.h", "include/force_generator.h"],
  [("stage loop", "process()"), ("assembly of J, W, right hand side and limits", "processConstraints"), ("force recovery", "leftScale by lambda, accumulation into accelerations")],
  observe=["calls and arguments at the OdeSolver, SleSolver, Constraint and ForceGenerator interfaces", "bodies and reported forces"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print("valid", len(P))
except ImportError: print(len(P))

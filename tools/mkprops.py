#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=mech)))

p("C01", "Variables obey the group laws and never leave their group",
  "For every supported variable type (2D/3D rotations, 2D/3D rigid motions, vectors of dimension 1 to 6, IMU bias) composition is associative, has the identity, is undone by the inverse, and corresponds to multiplication of the variables' matrices; the `*`, `-` operators and `minus` (other^-1 * self) agree with it. Results stay valid group elements (unit quaternion, unit circle) over long chains of operations, up to accumulated rounding.",
  ["inputs", "histories"], "all elements, including zero/tiny/near-pi angles and either quaternion sign, all triples of them, and composition chains of any length",
  "The tests compose one fixed pair per type; the SE2 test module actually instantiates SO2.",
  ["src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/vector.rs", "src/variables/imu_bias.rs", "src/variables/traits.rs"],
  "compose/inverse/identity/minus and the Mul/Sub operators of each variable")
p("C02", "exp is the Lie exponential map and log its principal inverse",
  "For every variable type, exp of a tangent vector is the matrix exponential of its Lie algebra element (rotation components first), for any length of vector; log returns the principal tangent vector (rotation part of length at most pi) whose exponential is the element, whichever of the two quaternions represents it. Small-angle handling loses no more than the documented-size approximation error (about 1e-8 relative) and never flips signs, flushes tiny vectors to zero or produces NaN.",
  ["inputs"], "all tangent vectors (zero, denormal, around every small-angle threshold, near and beyond pi and 2 pi) and all group elements",
  "The tests check one mid-range vector per type; branches at small angle, near pi, negative angle and negative quaternion scalar are not entered.",
  ["src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/vector.rs", "src/variables/imu_bias.rs"],
  "exp/log with their small-angle branches")
p("C03", "oplus/ominus follow the documented convention and undo each other",
  "By default x oplus xi = x*exp(xi) and x ominus y = log(y^-1 x); the explicit right/left forms do what their names say (left: exp(xi)*x and log(x y^-1)); (x oplus xi) ominus x = xi within the principal range and y oplus (x ominus y) = x. Applying a set of linear updates to a container moves exactly the addressed variables, each by oplus with its own block, whatever the mix of types, the layout of the update and the subset it covers.",
  ["inputs", "configurations"], "all pairs of elements and tangent vectors of every type; all mixed containers and partial update layouts",
  "Tests apply oplus/ominus to one vector per type and never check a mixed container or a partial update.",
  ["src/variables/traits.rs", "src/containers/values.rs", "src/linear/values.rs"],
  "oplus/ominus and their left/right forms, in-place update through the boxed variable, container-wide update")
p("C04", "Matrix Lie group operations agree with the matrix representation",
  "For SO2, SE2, SO3 and SE3: hat gives the Lie algebra matrix and vee inverts it, hat(xi) p = hat_swap(p) xi, the adjoint satisfies X hat(xi) X^-1 = hat(Ad_X xi), apply(p) is the matrix action on the point, and to_matrix/from_matrix are mutually inverse for every rotation. Raw constructors, conversions and accessors round trip (vectors and IMU biases included), and the derivative of the SO3 exponential (dexp) is its right Jacobian.",
  ["inputs"], "all elements, tangents and points; all rotation matrices including the branch boundaries of matrix-to-quaternion conversion",
  "Tests exercise one element per group; only one of four from_matrix branches is entered and SE2's operators are never called.",
  ["src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/traits.rs"],
  "MatrixLieGroup implementations")
p("C05", "Forward-mode differentiation is exact for every function and mix of inputs",
  "For any differentiable function of 1 to 6 variables of any types, the forward-mode Jacobian and gradient equal the true derivative with respect to each variable's tangent perturbation, columns stacked in argument order, and the returned value equals the function's plain value. This includes functions built from the library's own operations (compose, inverse, exp, log, ominus, apply), user-defined variable types, and the scalar derivative helper.",
  ["inputs", "programs"], "all functions and evaluation points, all arities 1..6 and all type mixes",
  "Tests use one fixed function per arity 1-3 at one point; mixed types, column offsets past the first variables and the scalar helper are not covered.",
  ["src/linalg/forward_prop.rs", "src/linalg/mod.rs", "src/linalg/dual.rs", "src/variables/traits.rs", "src/variables/so2.rs", "src/variables/so3.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/variables/vector.rs", "src/variables/imu_bias.rs"],
  "dual-number seeding of each variable and extraction of the epsilon parts")
p("C06", "Numerical differentiation converges to the true derivative",
  "For any smooth function of 1 to 6 variables of any types, the central-difference Jacobian, gradient and manifold-valued Jacobian equal the true derivative up to the step-size error of the chosen power, with every variable's columns in argument order, and return the unperturbed value. The scalar helper is the central difference at the requested step.",
  ["inputs", "programs", "configurations"], "all functions, points, arities 1..6, type mixes and step powers",
  "Existing tests use numerical differentiation only as a reference with one variable at one point.",
  ["src/linalg/numerical_diff.rs", "src/linalg/mod.rs"],
  "perturb one tangent coordinate at a time and write the matching column")
p("C07", "Prior and between residuals and their Jacobians are correct",
  "A prior residual equals z ominus v and is zero exactly at v = z; a between residual equals (v1*z) ominus v2 and is zero exactly when v2 = v1*z, with the operands read from the keys in the given order. Their Jacobians equal the true derivatives with respect to the tangent perturbations of each variable, for every variable type, including user-defined residuals and variables used through the same traits.",
  ["inputs"], "all variable types, all measurements and linearisation points away from the pi cut locus",
  "Tests check the prior Jacobian at the identity for three types and the between residual only through one optimisation.",
  ["src/residuals/prior.rs", "src/residuals/between.rs", "src/residuals/traits.rs", "factrs-proc/src/residual.rs"],
  "residual evaluation through keys, ominus, forward-mode Jacobian")
p("C08", "Noise whitening is consistent with the covariance it was built from",
  "For every Gaussian noise constructor (scalar/vector/argument-list sigmas or covariances, information vectors, covariance and information matrices) and every dimension, the squared norm of the whitened vector equals the Mahalanobis distance r' Sigma^-1 r, and whitening a matrix equals whitening each of its columns. Unit noise leaves vectors and matrices unchanged; invalid (non positive definite) covariance or information matrices are rejected loudly.",
  ["inputs"], "all dimensions 1..6 (and larger), all positive definite covariances, well or badly scaled, all vectors and matrices",
  "No test compares whitening with a covariance; factor tests use one diagonal model.",
  ["src/noise/gaussian.rs", "src/noise/unit.rs", "src/noise/mod.rs"],
  "sqrt information computed at construction, multiplied at whitening")
p("C09", "Robust kernels match their definitions and weights match their losses",
  "Every kernel's loss is its textbook formula of the documented table (zero at zero, never negative, non-decreasing, continuous across its threshold), and its weight is loss'(d)/d and, except for L1 (whose weight 1/d is capped near zero), lies in [0,1] and never increases with the error. This holds for every parameter value given to the constructor and for the documented defaults.",
  ["inputs"], "all squared errors from 0 to very large, including exactly at and around each kernel's threshold, and all positive parameters",
  "Tests sample two errors per kernel with the default parameter; thresholds and other parameters are never evaluated.",
  ["src/robust/mod.rs"],
  "loss/weight of each kernel")
p("C10", "A factor's error and linearisation represent its weighted residual",
  "A factor's error is loss(|whitened residual|^2) with the noise and kernel it was given (unit noise and L2 when omitted), whether built by the builder or the fac! macro in any of its accepted forms. Its linearisation has the factor's keys, one block per key of that variable's width, A = sqrt(weight) * whitened Jacobian and b = -sqrt(weight) * whitened residual, so that -A'b is the gradient of the factor's error.",
  ["inputs", "programs"], "all residuals of 1 to 6 keys, noises, kernels, orders of builder calls and values",
  "Tests check one gradient at one point and one two-key block layout.",
  ["src/containers/factor.rs", "factrs-proc/src/fac.rs", "src/linear/factor.rs", "src/linalg/mod.rs"],
  "residual, whitening, robust weight, block indices, builder defaults, macro expansion")
p("C11", "Graph assembly is exact for any graph shape and variable ordering",
  "The graph's error is the sum of its factors' errors, and the sparse Jacobian and right-hand side assembled from it equal the dense ones obtained by placing every factor's blocks at its variables' columns, in factor order, for any graph (repeated factors, several factors on one pair, unused variables, mixed widths) and any column ordering. The linear graph's error at any update equals half the squared norm of A x - b.",
  ["inputs", "configurations"], "all graphs, values and orderings",
  "One hand-made two-factor linear graph with one ordering is tested.",
  ["src/containers/graph.rs", "src/linear/graph.rs", "src/linear/factor.rs", "src/containers/order.rs", "src/linalg/mod.rs"],
  "sparsity pattern from keys/orders and value list pushed in the same order")
p("C12", "Linear solvers return the least-squares / symmetric solution",
  "Cholesky, QR and LU each return the minimiser of |Ax - b| for every full-column-rank sparse system and the solution of every symmetric positive definite system, for any sparsity pattern and any number of right-hand sides, and they agree with each other up to conditioning. A solver used repeatedly with new numerical values of the same pattern keeps giving the new system's answer.",
  ["inputs", "histories"], "all well-conditioned sparse systems, shapes and patterns, and repeated solves with the same pattern",
  "One 3x2 system per solver is tested, solved once.",
  ["src/linear/solvers.rs"],
  "cached symbolic factorisation plus numeric factorisation per call")
p("C13", "A Gauss-Newton step solves the linearised least-squares problem",
  "Every step of Gauss-Newton moves all variables by oplus with the minimiser of the graph's linearisation at the current values, each variable receiving its own part of the solution, for any mix of variable types, factors, kernels and linear solver. The reported error of any values is the graph's error, and a linear problem is solved in one step.",
  ["inputs", "histories"], "all graphs, starting points, and every iteration of every run",
  "Tests only check the end point of two tiny problems for three types with one solver.",
  ["src/optimizers/gauss_newton.rs", "src/optimizers/traits.rs", "src/linear/solvers.rs", "src/containers/values.rs"],
  "linearise, assemble, solve, oplus in one ordering")
p("C14", "Levenberg-Marquardt takes damped steps with the documented schedule",
  "Every step solves (J'J + lambda*D) dx = J'r with D the diagonal of J'J (or the identity when diagonal damping is off), starting from lambda 1e-5; a trial that does not reduce the linearised error multiplies lambda by the factor and is retried, and exceeding the maximum returns a failed-step error; an accepted step divides lambda by the factor, never below the minimum (by default: factor 10, maximum 1e5, minimum 0, diagonal damping). Accepted steps never increase the linearised cost.",
  ["inputs", "histories", "configurations"], "all graphs, starting points, damping parameters, and every iteration of every run",
  "Tests only check the end point of two tiny problems with default parameters.",
  ["src/optimizers/levenberg_marquardt.rs"],
  "damping loop and lambda bookkeeping in step")
p("C15", "The optimisation loop honours its stopping rules and observers",
  "optimize returns immediately, unchanged and without a step when the initial error is at or below the error tolerance; otherwise it steps until the first of: error at/below tolerance, absolute decrease at/below its tolerance, relative decrease at/below its tolerance (success), or the iteration limit (an error carrying the values reached), by default 0, 1e-6, 1e-6 and 100 steps; errors from a step are propagated. An error that is not a number satisfies none of the rules. Every registered observer sees every completed step exactly once, in order, numbered from 1, with the values after that step, and the returned values are those of the last step.",
  ["inputs", "histories", "configurations"], "all error sequences, tolerances, limits and observer sets",
  "No test registers an observer, hits the iteration limit or varies a tolerance.",
  ["src/optimizers/traits.rs", "src/optimizers/gauss_newton.rs", "src/optimizers/levenberg_marquardt.rs"],
  "the default optimize loop and observer notification")
p("C16", "Optimisations are independent: results never depend on earlier runs",
  "Calling optimize on an optimizer that already ran (successfully, to the iteration limit, or into an error), with the same or different initial values, a different insertion history or a different set of extra variables, gives the same outcome and observer trace as a fresh optimizer built from the same graph. The graph handed over is neither consumed nor modified by optimisation.",
  ["histories", "inputs"], "all sequences of optimize calls on one optimizer",
  "Every test builds a new optimizer and calls it once.",
  ["src/optimizers/gauss_newton.rs", "src/optimizers/levenberg_marquardt.rs", "src/linear/solvers.rs"],
  "state cached across calls: column ordering, symbolic factorisation, lambda")
p("C17", "Optimisation finds the minimum regardless of order, naming and solver",
  "On well-posed problems (pose graphs in 2D and 3D, rotations, vectors, with any noise and kernels, started near the solution) both optimizers reach a stationary point of the total error, recover the ground truth when measurements are exact, and never return a state with a worse error than a convex problem's start. The result does not depend on the order of insertion of factors and variables, the key names, the linear solver or the optimizer.",
  ["inputs", "histories", "configurations"], "all well-posed problems near their solution; all permutations and relabelings",
  "Two problems of at most two variables are optimised, always in the same order with the same solver.",
  ["src/optimizers/gauss_newton.rs", "src/optimizers/levenberg_marquardt.rs", "src/containers/graph.rs", "src/linear/graph.rs", "src/linear/solvers.rs", "src/containers/order.rs"],
  "the full pipeline")
p("C18", "Values behaves as a typed map over every sequence of operations",
  "Through any history of insert, overwrite, entry, get, get_mut, remove, filter, iteration, clone and update, the container holds exactly the last value stored per key: typed reads return it only as the type it was stored with (none otherwise), overwriting returns the previous value, removing returns the value and only that key disappears, filter yields exactly the variables of the asked type, and clones are independent. Length, iteration and printing list every entry exactly once.",
  ["histories", "inputs"], "all operation sequences over all key patterns and variable types",
  "Tests insert a couple of variables and read them back.",
  ["src/containers/values.rs", "src/variables/traits.rs"],
  "hash map of boxed variables with downcasts")
p("C19", "Symbols map to keys injectively and print back as themselves",
  "Distinct (letter, index) symbols with 32-bit indices always give distinct keys, the same symbol always the same key, and converting a key back prints the original letter and index, for every Unicode letter; symbols created by the symbol macro use the lower-cased first letter of their name and behave identically wherever a key is accepted. Keys used directly keep all 64 bits.",
  ["inputs"], "all characters and all indices below 2^32; all 64-bit raw keys",
  "No test converts a key back or uses a large index.",
  ["src/containers/symbol.rs", "src/lib.rs"],
  "bit packing of char and index into a u64")
p("C20", "IMU preintegration reproduces direct integration of the measurements",
  "For any sequence of gyro/accelerometer measurements, time steps, initial bias and gravity, the factor's residual at any two states equals the documented prediction compared with the second state: rotation log(R2^-1 R1 exp(theta)), velocity and position from the Euler-integrated local increments plus gravity and initial velocity terms, and bias difference, in that order (rotation, velocity, position, gyro bias, accel bias). Physically exact motions (constant rate rotation, constant acceleration, free fall) give zero residual.",
  ["inputs", "histories"], "all measurement sequences, time steps (also varying), biases, gravity vectors and states",
  "Tests integrate one constant measurement along one axis with zero bias.",
  ["src/residuals/imu_preint/delta.rs", "src/residuals/imu_preint/residual.rs", "src/residuals/imu_preint/newtypes.rs"],
  "recursive integration of theta, velocity, position; predict; residual")
p("C21", "IMU factor covariance follows the documented propagation",
  "The information the IMU factor uses to weight its residual is the inverse of the covariance obtained by the documented recursion Sigma <- A Sigma A' + B Q B', with each of the configured noise covariances (gyro, accelerometer, their biases, integration, initial bias) entering only through its own terms, for any measurement sequence and any symmetric positive definite parameters. The covariance is symmetric positive definite and grows with every configured noise; the scalar setters and defaults set exactly the named covariance.",
  ["inputs", "histories", "configurations"], "all measurement sequences, steps and covariance parameters",
  "The source itself carries a TODO: no test looks at the covariance at all.",
  ["src/residuals/imu_preint/residual.rs", "src/residuals/imu_preint/delta.rs", "src/noise/gaussian.rs"],
  "A and B Q B' matrices per step, covariance recursion, noise from covariance at build")
p("C22", "IMU bias correction is the first-order effect of a bias change",
  "Evaluating the IMU factor at a bias different from the one used for preintegration shifts the prediction to first order as re-integrating all measurements with the new bias would (the accelerometer bias effect on velocity and position is exact, the gyro effect correct up to the documented approximation), with zero effect at the preintegration bias. The factor's Jacobian equals the true derivative of its residual with respect to all six variables.",
  ["inputs", "histories"], "all measurement sequences, biases and bias changes, states",
  "One two-step integration is compared with autodiff, skipping the rotation rows.",
  ["src/residuals/imu_preint/delta.rs", "src/residuals/imu_preint/residual.rs"],
  "bias Jacobians propagated along integration, applied in predict")
p("C23", "Loading a g2o file reproduces exactly the pose graph it describes",
  "Every vertex line becomes one variable with that id, pose and type, every edge line one between factor over those two ids in order with that measurement and with the file's information matrix expressed in this library's rotation-first order, and the first vertex alone receives a prior anchoring it at its pose; 2D and 3D files are handled alike, unknown lines are skipped without effect. Malformed numbers or missing files are rejected loudly rather than loaded wrongly.",
  ["inputs"], "all well-formed 2D and 3D pose-graph files: ids, line orders, quaternion signs, full information matrices",
  "No test loads a file.",
  ["src/utils.rs"],
  "line parser, information reordering, prior on the first vertex")
p("C24", "Visualisation conversions preserve the geometry",
  "With the visualisation feature, converting a variable (by value or reference) or a collection of variables yields the same geometry in single precision: positions component by component, quaternions in x,y,z,w order, rigid motions with their translation and rotation, and as arrows the columns of the rotation matrix (x red, y green, z blue) placed at the variable's position, one point or one set of axes per variable, in order. The streaming observer logs, for every step it is given, one record under its topic at that step's time holding every variable of its type in the values and nothing else.",
  ["inputs"], "all variables of the convertible types and all collections",
  "No test exercises the feature.",
  ["src/rerun.rs"],
  "From/Into conversions behind the rerun feature")
p("C25", "No input makes the library corrupt memory, overflow or crash",
  "Whatever valid graphs, values, files and call sequences are used, including hostile magnitudes (tiny, huge, many variables) and long histories, execution is free of memory errors, arithmetic overflow, out-of-bounds access, leaks of undefined values and unexpected panics; non-finite inputs do not cause memory errors or hangs. Errors are reported by the documented result or panic only.",
  ["inputs", "histories"], "all API call sequences",
  "Tests run without any sanitizer and with benign inputs.",
  ["src/containers/graph.rs", "src/linear/graph.rs", "src/linear/solvers.rs", "src/linalg/mod.rs", "src/containers/values.rs", "src/optimizers/traits.rs"],
  "safe Rust over faer/nalgebra, which use unsafe code internally")
p("C26", "Every feature configuration keeps the same guarantees",
  "With the left-convention, approximate-exponential, parallel and single-precision features, alone or combined, the library builds and the group, exp/log, oplus/ominus, residual Jacobian, noise, kernel, assembly, solver and optimisation guarantees still hold, with the left feature switching oplus/ominus (and derivatives) to the left form, the approximate exponential replacing only the translation part of exp/log of rigid motions by the plain vector, and single precision only lowering accuracy.",
  ["configurations", "inputs"], "the feature sets left, fake_exp, rayon, f32 and their combinations, over the same input spaces",
  "The test suite runs only with one feature set.",
  ["Cargo.toml", "src/lib.rs", "src/variables/traits.rs", "src/variables/se2.rs", "src/variables/se3.rs", "src/linalg/forward_prop.rs", "src/optimizers/levenberg_marquardt.rs"],
  "cfg!(feature) switches")
p("C27", "Variable orderings partition the update vector exactly",
  "An ordering computed from values gives every variable exactly one contiguous slot of its own dimension, slots are disjoint and cover the whole vector, and its sizes match; linear values built from it return for each key exactly its slice of the vector and nothing for unknown keys, and iterate over every key once. Zero-initialised linear values are all zero, and vectors of the wrong length are refused.",
  ["inputs", "histories"], "all containers, insertion/removal histories and vectors",
  "Tests check dimensions for three vector variables, never offsets or disjointness.",
  ["src/containers/order.rs", "src/linear/values.rs"],
  "running offset over hash map iteration")
p("C28", "Misuse is rejected loudly, never silently mis-evaluated",
  "Evaluating or linearising a factor whose key is missing from the values or holds another variable type, assembling a graph with an ordering that lacks a key, building linear factors or values of inconsistent sizes, updating a variable with a wrong-sized block, reading a linear update at an unknown key, factorising a singular system with Cholesky, and constructing noise from an invalid matrix all panic (or return none/an error where documented) instead of returning a number. The corresponding valid uses do not.",
  ["inputs"], "all misuse sites of the public API, over all variable types and positions in the key list",
  "Only one size mismatch is tested.",
  ["src/residuals/traits.rs", "src/containers/graph.rs", "src/linear/graph.rs", "src/linear/factor.rs", "src/linear/values.rs", "src/containers/values.rs", "src/noise/gaussian.rs"],
  "expect/assert/panic guards")
p("C29", "Serialised graphs and values deserialise to equivalent ones",
  "With serialisation enabled, any graph, values container, residual, noise model, kernel or variable (including user-defined ones) written out and read back behaves identically: same variables under the same keys, same factors in the same order, same residuals, weights and optimisation results. Documents that are truncated or name unknown or missing parts are refused.",
  ["inputs", "configurations"], "all graphs and values",
  "The repository's serialisation tests cover a few fixed objects, never a between factor read back, and are not compiled in this environment.",
  ["src/lib.rs", "factrs-proc/src/residual.rs", "factrs-proc/src/variable.rs", "factrs-proc/src/noise.rs"],
  "typetag registration")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

T = "magpi/tr.py"
prop("C01", "Trust-region steps are all-or-nothing and the state matches the iterate",
 "After every update of the trust-region optimizer the reported value, gradient, gradient norm and auxiliary output are those of the objective at the parameters that are returned with them, also when the objective's arguments differ from update to update (mini-batches). A rejected step leaves parameters, value, gradient and auxiliary output exactly as they were; an accepted step moves the parameters by exactly the subproblem step and reports it as accepted. Along any history of updates with the same arguments the objective value never increases.",
 ["inputs", "histories", "configurations"], "every objective, starting point, option set and every update of the history (accepted and rejected, convex and non-convex regions)",
 "The tests look only at the final iterate of three benign runs; no test contains a rejected step or looks at an intermediate state.",
 [T], [("TR.update: both TrState branches and the params branch are selected by the same accept flag", T)],
 [("TrState", "value, grad, error, aux of the current iterate", T)], ["TR.update", "TR.init_state", "TR.run", "callback"])
prop("C02", "Acceptance and trust-region radius follow the actual/predicted reduction",
 "The reported ratio is the actual reduction divided by the reduction predicted by the quadratic model of the objective, and a step is accepted exactly if that ratio reaches the acceptance threshold. The radius is multiplied by the decrease factor if the ratio is below the decrease threshold, multiplied by the increase factor but capped at the maximum if the ratio is above the increase threshold and the step reached the region's boundary, otherwise unchanged, and it never falls below the minimum. Once the radius is at the minimum an update changes nothing until the solver is restarted from that result, which re-opens the region with the initial radius and keeps the iteration count; a configuration whose acceptance threshold exceeds its decrease threshold is refused.",
 ["inputs", "histories", "configurations"], "every objective, threshold/factor/radius configuration and every update of the history, including collapse of the radius and restarts",
 "The tests run the default thresholds on smooth problems and only ever look at the final radius; shrinking, capping, collapse and restart are never executed.",
 [T], [("update_tr_radius", T), ("TR.update: rho, accept, no_update", T), ("TR.init_state: restart from an OptStep", T), ("TR.__post_init__: threshold check", T)],
 [("tr_radius", "current trust-region radius", T), ("rho", "actual / predicted reduction", T)], ["TR.update", "TR.init_state"])
prop("C03", "Subproblem step is feasible, descends, and reports why it stopped",
 "For every gradient, curvature operator and radius, the truncated conjugate-gradient step stays inside the trust region and coincides with the conjugate-gradient path, cut at the region's boundary when the path leaves it or meets non-positive curvature. Unless the gradient is already within the tolerance it decreases the quadratic model at least as much as the best step along steepest descent inside the region. The reported step length, curvature, iteration count, boundary flag, convergence flag and (for steps that are not cut) residual norm describe that step, and the convergence flag is false only if the iteration limit stopped the search. In the optimizer the tolerance is min(1/2, |gradient|^forcing)*|gradient|, never larger than in the previous update of the same run and never below the gradient tolerance.",
 ["inputs"], "every gradient and symmetric operator (positive definite, indefinite, singular), radius, tolerance, iteration limit and parameter tree layout",
 "Tests call it on multiples of the identity only, where one iteration always suffices; indefinite curvature, several iterations, iteration limits and multi-leaf trees are never reached.",
 [T], [("steihaug: step / limit_step / condition", T)], [("CgSteihaugResult", "step and termination report", T)], ["steihaug"])
prop("C04", "Optimizer runs: same history however the problem is presented",
 "A complete run visits exactly the states that repeated single updates visit, performs at least one update and stops at the first updated state whose gradient norm is within tolerance or at the iteration limit, and invokes the callback once per performed update, in order, with that update's result. The history does not depend on whether the parameters are one array or a tree of arrays, whether gradients or auxiliary outputs are supplied by the user, whether extra arguments are positional or keyword, or whether the loop is compiled or unrolled. Finite-difference curvature gives the same steps as exact curvature up to the difference error, and damping adds the damping factor to the curvature used for the subproblem.",
 ["inputs", "configurations", "histories"], "every option combination (jit, unroll, value_and_grad, has_aux, approx_hvp, damping), tree layout, tolerance and iteration limit",
 "Each option is tested at most once, on a spherical objective, and only through the final point; callbacks, damping, finite differences and iteration limits are untested.",
 [T, "magpi/utils.py"], [("TR.update / TR.run (jaxopt loop)", T), ("make_funs_with_aux", "magpi/utils.py")], None, ["TR.run", "TR.update", "callback"])
O = "magpi/ode.py"
prop("C05", "ODE trajectories: each point is one step of the method from the previous",
 "The returned trajectory starts with the initial value, has one entry per time point, and each further entry is one step of the chosen one-step method from the previous entry, taken from the previous time point with the time difference as step size. The built-in methods are the classical fourth-order Runge-Kutta method and explicit Euler, so they are exact for right-hand sides in which their order is not exceeded. The result is the same for every unroll setting and tree layout, and integrating a prefix of the time points gives the prefix of the trajectory.",
 ["inputs", "histories", "configurations"], "every right-hand side (autonomous or not), initial tree, increasing/decreasing/non-uniform time grid, extra arguments, method and unroll setting",
 "There is no test of the ODE module at all.",
 [O], [("odeint scan step", O), ("rk4", O), ("explicit_euler", O)], [("(y, t)", "current value and time carried along the scan", O)], ["odeint", "rk4", "explicit_euler"])
prop("C06", "ODE trajectories are differentiable in both AD modes",
 "The derivative of an integrated trajectory with respect to the initial value, to parameters of the right-hand side and to the time points, taken in forward or in reverse mode, is the derivative of the discrete trajectory itself. Both modes agree with each other, with and without compilation, for every method and unroll setting.",
 ["inputs", "configurations"], "every smooth right-hand side, initial value, parameter, time grid, method, AD mode and unroll setting",
 "There is no test of the ODE module at all.",
 [O], [("jax.checkpoint around the scan step", O), ("odeint passes args through to the right-hand side", O)], None, ["jacfwd/jacrev of odeint"])
I = "magpi/integrate.py"
prop("C07", "One-dimensional quadrature is exact to its degree on every partition",
 "On every partition of an interval, uniform or not, the midpoint and trapezoidal rules integrate polynomials of degree one exactly, Simpson's rule those of degree three and an n-point Gauss rule those of degree 2n-1. Every rule returns weights that sum to the length of the interval and nodes inside it, and the rule over a partition is the sum of the rule over its pieces. Integration is linear in the integrand and passes extra arguments through.",
 ["inputs", "configurations"], "every partition (size, spacing, orientation), polynomial integrand up to the rule's degree, number of Gauss points and extra argument",
 "Tests use uniform partitions of two intervals with two of the rules and one integrand each.",
 [I], [("midpoint, trap, simpson, gauss", I), ("integrate", I)], None, ["integrate", "midpoint", "trap", "simpson", "gauss"])
prop("C08", "Integrals over boxes, disks and balls have the right measure",
 "Over a box given as one partition per axis the integral of a product polynomial is the product of the one-dimensional rules, with each axis of the integrand's argument belonging to the partition of the same position, for any number of axes, any rule and any array- or tree-valued integrand. Integrals over disks, annuli, sectors, balls, shells and ball sectors include the correct volume element, radius limits, angle limits, centre and per-axis resolution, so polynomials are integrated to their exact moments once the rule resolves them.",
 ["inputs", "configurations"], "every box, disk/ball geometry (radii, angles, centre), per-axis resolution, rule, polynomial integrand, output shape and extra arguments",
 "One test integrates over a symmetric square with equal axes, where swapping axes is invisible, and one doctest computes the area of the unit disk; balls, sectors, tree outputs and unequal axes are untested.",
 [I], [("integrate: tensor grid and weights", I), ("integrate_disk", I), ("integrate_sphere", I)], None, ["integrate", "integrate_disk", "integrate_sphere"])
S = "magpi/surface_integral.py"
prop("C09", "Surface integrals and their element-wise form agree and are exact",
 "The integral of a function over a parametrized surface is the quadrature sum of the function times the area element of the parametrization, so polynomial data on affine patches are integrated exactly and the area of a patch is found. The element-wise form returns, for each parameter cell, the integral over that cell with the cell's centre handed to the integrand, its sum is the integral over the whole surface, and element centres are the images of the cell midpoints.",
 ["inputs", "configurations"], "every parametrization (affine and curved), parameter partition in u and v, integrand (scalar, vector, tree), rule and extra arguments",
 "The surface module has no tests.",
 [S], [("integrate_surface, integrate_surface_elements, center, midpoints", S)], None, ["integrate_surface", "integrate_surface_elements", "midpoints"])
prop("C10", "Single-layer potentials match the integral of charge over distance",
 "Contracting the charge tensor with the source tensor gives the single-layer potential of the charge: for a charge that is a polynomial of degree at most the expansion order it equals the quadrature of charge over distance divided by four pi, and the derivative part gives its gradient and, for vector charges, its curl. The scalar and vector surface charges are the normal and tangential jumps formed with the outward unit normal, and their normalized and general forms agree on the boundary when the general form is given the distance function times the same free function.",
 ["inputs", "configurations"], "every target point off the surface, patch, partition, expansion order, polynomial charge (scalar or vector), magnetization and distance function",
 "The surface module has no tests.",
 [S], [("source_tensor, charge_tensor, single_layer_potential, curl_single_layer_potential", S), ("scalar_potential_charge, vector_potential_charge", S)], None, ["source_tensor", "charge_tensor", "single_layer_potential", "curl_single_layer_potential"])
C = "magpi/calc.py"
prop("C11", "Partial derivatives: by position, name, component, direction, or sequence",
 "The derivative operator returns the partial derivative of the function with respect to exactly the requested argument, chosen by position, by name (of any length), by component of a vector argument or as a direction, and a sequence of requests returns the corresponding higher mixed partial in which every entry is applied. The companion operator returns the function value together with that derivative. Keyword arguments are passed through, and network modules are accepted in place of functions.",
 ["inputs", "programs", "configurations"], "every smooth function, argument list, request (position, name, component, direction) and sequence of requests, compiled or not",
 "Seven tests with sin/cos of two scalars at one point; mixed requests, components of the second argument, keyword arguments, long names and modules are not covered.",
 [C], [("derivative", C), ("value_and_derivative", C), ("apply_to_module", C)], None, ["derivative", "value_and_derivative"])
prop("C12", "Laplacian, divergence and curl equal their definitions",
 "For every smooth function the Laplacian is the sum of the unmixed second partials of each output, the divergence is the trace of the Jacobian of each vector field of the output, and the curl has the right-handed component order and signs in two and three dimensions. This holds for scalar, vector, batched and tree-valued outputs, extra arguments and network modules, and the value returned next to the divergence is the function value.",
 ["inputs", "configurations"], "every smooth field, dimension, output structure, point and extra argument, compiled or vectorized",
 "Tests use low-degree fields at one or two points with symmetric coordinates, and comparisons of tree results in the test base class check shapes only.",
 [C], [("laplace, hessian_diag", C), ("divergence, value_and_divergence", C), ("curl, curl2d, curl3d", C)], None, ["laplace", "divergence", "value_and_divergence", "curl"])
prop("C13", "Gradients, Jacobians and Hessian-vector products agree with the function",
 "All Hessian-vector product variants (forward over forward, forward over reverse, reverse over reverse and the linearized one returned with value and gradient) give the Hessian of the function at the point times the given vector, are linear in the vector, and accept tree parameters, extra arguments, auxiliary outputs and user-supplied gradients. The value, gradient, Jacobian and auxiliary output returned with them are those of the function at the same point, in forward and reverse mode, for each differentiated argument.",
 ["inputs", "configurations"], "every smooth function, point, vector, tree layout, auxiliary output, extra argument and option combination",
 "Hessian-vector products have no direct test; value-and-Jacobian tests use one point and compare trees by shape only.",
 [C, "magpi/utils.py"], [("hvp, hvp_forward_over_reverse, hvp_reverse_over_reverse, value_grad_hvp", C), ("value_and_jacfwd, value_and_jacrev", C)], None, ["hvp*", "value_grad_hvp", "value_and_jacfwd", "value_and_jacrev"])
D = "magpi/domain.py"
prop("C14", "Domain maps send the unit cube uniformly onto the domain's interior",
 "Every map from the unit cube sends every point of it into its domain (box, parallelogram, triangle, disk, annulus, ball), and batches of any shape point by point. The map is uniform: its Jacobian determinant has the same magnitude everywhere, namely the measure of the domain times the number of times the map covers it (twice for the triangle), and the measure reported by the domain is its geometric one. The membership tests agree with the geometric definition of the domain. The linear map and the affine plane through given points take the reference points to those points.",
 ["inputs", "configurations"], "every domain geometry (dimension, bounds, corners, radii, centre), every point of the unit cube, every batch shape",
 "Tests check membership for one geometry per map, mostly centred at the origin; uniformity and the reported measure of disks, balls and annuli are never checked, and the one triangle used hides errors of the general formula.",
 [D], [("transform_* functions and the transform/support/includes methods of the domains", D)], None, ["Hypercube", "Parallelogram", "Sphere", "Disk", "Annulus", "transform_triangle"])
prop("C15", "Boundary maps send the parameter cube uniformly onto the boundary",
 "Every boundary map sends every parameter to a point on the boundary of its domain: on a face of the box (of any dimension), on an edge of the parallelogram or polyline, on the circle, on the sphere. Every part of the boundary is reached with a share of the parameter range proportional to its measure, so the map has constant speed or area density. Batches of any accepted shape are mapped point by point.",
 ["inputs", "configurations"], "every domain geometry and dimension, every parameter (including 0, 1 and face borders), every accepted batch shape",
 "Tests check face membership for symmetric boxes and the parallelogram only with a corner at the origin; the share of each face, unequal edges and general position are not checked.",
 [D], [("transform_hypercube_bnd, transform_polyline, transform_circle_bnd, transform_sphere_bnd", D), ("transform_bnd methods", D)], None, ["Hypercube.transform_bnd", "Parallelogram.transform_bnd", "Disk.transform_bnd", "Sphere.transform_bnd", "transform_polyline"])
prop("C16", "Domain normals are outward units, or absent; equal domains are equal",
 "For points on the boundary of a box, disk or ball the normal vector is the outward unit normal, for single points and batches alike, and at edges and corners of a box it is the normal of one of the adjacent faces. If any given point is not on the boundary no normals are returned. Domains built from equal parameters compare equal and have equal hashes, so they can be used as static arguments.",
 ["inputs", "configurations"], "every domain geometry, every point on, near or off the boundary including edges and corners, every batch",
 "Tests look at the length of box normals and one corner; disks and balls, mixed corners, batches with outside points and other domains' equality are not covered.",
 [D], [("Hypercube.normal_vec, _Spherical.normal_vec", D), ("frozen dataclasses", D)], None, ["normal_vec", "==", "hash"])
QF = "magpi/quaternions.py"
prop("C17", "Quaternion arithmetic obeys the algebra",
 "Addition, subtraction, negation, conjugation, product, scalar operations on either side, division, reciprocal, absolute value and equality agree with quaternion algebra on every input, where a plain number combines with all four components in sums and differences. In particular multiplication is associative and distributive with the Hamilton rules, conjugation reverses products, the norm is multiplicative and a non-zero quaternion times its reciprocal is one from either side. Any expression built from these operations evaluates to the algebraic result.",
 ["inputs", "programs"], "every quaternion, every scalar (left or right operand) and every expression built from the operations",
 "Tests evaluate one or two sparse quaternions per operator and never use a number as left operand of a difference or division of quaternions.",
 [QF], [("Quaternion operators", QF), ("quaternion_left_div / quaternion_right_div", QF)], None, ["Quaternion"])
prop("C18", "Rotations, reflections, exponential, logarithm and powers",
 "Rotating by a quaternion is a proper isometry that depends only on the quaternion's direction, composes in the order of the quaternion product and is undone by the conjugate; axis-angle and Euler-angle constructors return the unit quaternion of that rotation for any non-zero axis and any angles. Reflection fixes the plane, negates its normal and is an involution. Exponential and logarithm are mutually inverse away from the negative real axis, integer powers are repeated products and real powers add.",
 ["inputs"], "every vector, rotation quaternion (of any length), axis, angle, normal and exponent",
 "Tests rotate one coordinate vector by right angles about coordinate axes; composition, general axes, combined Euler angles, reflection and the logarithm are not checked.",
 [QF], [("quaternion_rotation, quaternion_reflection, from_axis_angle, from_euler_angles", QF), ("quanternion_exp, quanternion_log, __pow__, __rpow__", QF)], None, ["quaternion_rotation", "quaternion_reflection", "from_euler_angles", "from_axis_angle", "**"])
RF = "magpi/r_fun.py"
prop("C19", "R-function programs have the sign of the set expression they denote",
 "For every system of R-functions and every expression built from union, intersection, negation, difference, symmetric difference, implication and equivalence, the resulting function is positive inside, negative outside and zero on the boundary of the set the expression denotes, and finite everywhere (the blending system rounds corners, so there this holds outside its blending radius). Conjunction and disjunction are symmetric and dual to each other under negation, have the defining value of their system (minimum/maximum for the first system), and the blending system coincides with the basic one outside its blending radius.",
 ["inputs", "programs", "configurations"], "every R-function system and parameter, every set expression of any nesting, every point",
 "Tests try single operations of two systems at a few points of one-dimensional shapes; nesting, other parameters, and arguments that are nearly equal are not covered.",
 [RF], [("RFun operations", RF), ("RAlpha, RAlphaM, RP, RhoBlending", RF), ("compose", RF)], None, ["RAlpha", "RAlphaM", "RP", "RhoBlending", "r0/r1/rp2/rp4"])
prop("C20", "Transformed distance functions describe the transformed body",
 "Translating, scaling, rotating (about any centre, in two or three dimensions), reflecting, projecting and revolving a distance function gives the distance function whose value at a point is that of the original at the pre-image of the point, with uniform scaling also scaling the value. Rotations turn the body counter-clockwise by the given angle (right-hand rule about the axis in three dimensions), so planar rotation and rotation about the third axis agree. Any composition of these transformations acts as the composition of the maps, and invalid rotation arguments are refused.",
 ["inputs", "programs", "configurations"], "every distance function, transformation parameter (angle, axis, centre, normal, factor), composition and query point",
 "Tests transform an axis-aligned cube by quarter turns about its centre, which maps the cube to itself, so direction, centre and angle are invisible.",
 [RF, QF], [("translate, scale, scale_without_normalization, rotate2d, rotate3d, reflect, project, revolution", RF)], None, ["transformations"])
prop("C21", "Primitive shapes: sign, boundary and unit gradient on the boundary",
 "The distance functions of cuboid, cube, sphere, cylinder and ellipsoid, in every supported dimension, size, centring and R-function system, are positive inside, zero on and negative outside the shape, and finite with finite derivatives away from edges; a cuboid built with minimum and maximum is the distance to the nearest face. On regular boundary points normalized functions have a gradient that is the inward unit normal, uniform scaling and rigid motions keep that, and first-order normalization establishes it for any function with non-vanishing gradient while keeping sign and zero set.",
 ["inputs", "configurations"], "every shape parameter, dimension, R-function system and point, and every function passed to the normalization",
 "Tests check a few face centres of unit cubes and one circle; ellipsoids, cylinders, the normalization operator and other sizes are not covered.",
 [RF], [("cuboid, cube, sphere, cylinder, ellipsoid, normalize_1st_order", RF)], None, ["primitives", "normalize_1st_order"])
M = "magpi/model.py"
prop("C22", "Imposed initial and boundary conditions hold exactly for every model",
 "A model with an imposed initial condition equals the initial condition at the initial time and blends exponentially into the free model afterwards. A model with imposed Dirichlet data equals the data wherever the distance function vanishes and distance times model plus data elsewhere; a model with imposed Neumann data has the prescribed outward normal derivative on regular boundary points of a normalized distance function and keeps the free model's boundary values. This holds for every selection of argument positions, missing data (taken as zero), direct and decorator use, extra arguments and array-valued models.",
 ["inputs", "configurations", "programs"], "every free model, data function, distance function, argument-position selection, point and time",
 "Tests evaluate one-argument models at one boundary point with default positions; time position, decorator use, other centres and combined conditions are not covered.",
 [M], [("impose_ic, impose_dirichlet_bc, impose_neumann_bc", M)], None, ["impose_ic", "impose_dirichlet_bc", "impose_neumann_bc"])
prop("C23", "Networks compute the layered function their parameters denote",
 "A multi-layer perceptron built for given layer widths has one affine layer per width after the first, applies the activation (hyperbolic tangent by default) after every layer except the last, and returns a scalar per sample when the output width is one. Evaluation acts per sample for any batch shape, and initialization is a deterministic function of the key.",
 ["inputs", "configurations"], "every layer list, activation, parameter value, input and batch shape",
 "Only a doctest builds a network and does not look at its output.",
 [M], [("MLP.__call__", M), ("mlp", M)], None, ["mlp", "MLP.apply"])
SA = "magpi/sampling.py"
prop("C24", "Rejection sampling returns proposals distributed by the given density",
 "Rejection sampling returns exactly the requested number of samples, each of which was proposed by the proposal function and never lies where the density is zero. A proposal is kept with probability density divided by the bound, independently of everything else, so samples are distributed with density proportional to proposal density times the given density. The result is a function of the key, with different samples using independent randomness, for any sample structure.",
 ["inputs", "histories", "configurations"], "every density, proposal, bound, number of samples, key and sample tree",
 "Two tests check that samples lie in the support of a uniform density for one key; acceptance probabilities and independence are not examined.",
 [SA], [("rejection_sampling: while loop over proposals", SA)], [("(key, p, sample)", "current proposal and its uniform variate", SA)], ["rejection_sampling", "calls of the density and proposal functions"])
OP = "magpi/opt.py"
prop("C25", "Mini-batches: no repeats, rows stay aligned, epochs are fresh shuffles",
 "Batching without replacement returns as many full batches as fit, in which no sample occurs twice; batching with replacement returns the requested number and size of batches, without repeats inside a batch if so requested, and every batch row is a row of the data with all tree leaves taken from the same row. The batch iterator yields every batch of every epoch in order, draws a fresh selection for every epoch, and if random keys are requested never yields the same key twice, nor one it selected batches with, nor one that is split off another key it has used; several iterators do not disturb each other. Everything is a deterministic function of the key, every sample is equally likely to be selected, and leaves of different length are refused.",
 ["inputs", "histories", "configurations"], "every data tree, size, batch size, number of batches and epochs, key and option",
 "The batching module has no tests.",
 [OP], [("batches_without_replacement, batches_with_replacement, make_iterator, axis_size", OP)], [("key", "random key threaded through epochs and batches", OP)], ["batches_without_replacement", "batches_with_replacement", "make_iterator"])
SP = "magpi/spline.py"
prop("C26", "Spline bases satisfy the B-spline recursion on every knot vector",
 "For every non-decreasing knot vector, with repeated knots and per-feature grids included, and every degree the basis functions are the B-splines of that degree: non-negative, supported between their own knots, continuous from the right, summing to one between the interior knots, and finite with the right derivatives with respect to the point and the knots in forward and reverse mode. Input shapes broadcast so that each feature uses its own grid.",
 ["inputs", "configurations"], "every knot vector (spacing, multiplicities), degree, point (including knots and outside) and input/grid shape",
 "Tests use one uniform five-knot vector and degrees up to two; repeated knots, other degrees, derivatives and unequal grids per feature are not covered.",
 [SP], [("_base_fun, basis", SP)], None, ["basis"])
prop("C27", "Spline activations add the spline of their coefficients and grid",
 "A spline activation returns the base activation plus the spline given by its coefficients and grid, feature by feature and for any batch shape, so it equals the base activation for zero coefficients and outside the grid. The generated grid is increasing, runs from the start to the (larger) stop value, is symmetric about its centre and is spaced with the given power, and a parameterized grid is stored per feature and used in evaluation.",
 ["inputs", "configurations"], "every node count, range, degree, grid power, activation, coefficient and grid value, input and batch shape",
 "Two tests use constant coefficients and check only that the output is zero or positive.",
 [SP], [("SplineActivation.__call__", SP), ("make_grid", SP)], None, ["SplineActivation", "make_grid"])
RF = "magpi/r_fun.py"
prop("C28", "Set expressions of distance functions stay differentiable and normalized",
 "For every system of R-functions and every set expression, the composed function is differentiable in forward and reverse mode wherever the operands of each operation do not vanish together (and, with minimum and maximum, do not tie), and its derivative there is the one the defining formulas have by the chain rule. For the normalized systems the gradient of a composition of normalized distance functions at a boundary point that belongs to just one of them is that one's unit normal or its opposite, whatever the nesting and the other operands are.",
 ["inputs", "programs", "configurations"], "every R-function system and parameter, every set expression of any nesting, every body and point where the expression is regular",
 "No test differentiates a composition; boundary conditions are imposed with such gradients.",
 [RF], [("conjunction, disjunction of the systems and the set operations of RFun", RF)], None, ["union", "intersection", "difference", "xor", "implication", "equivalence", "negate"])
prop("C29", "An optimum can be differentiated by the objective's arguments",
 "The parameters returned by a compiled, converged run are differentiable in reverse mode with respect to the objective's positional arguments, and the derivative is that of the optimum: the curvature at the returned parameters times the derivative plus the derivative of the objective's gradient by the argument is zero, whatever the tree layout, damping, kind of curvature, supplied gradients or auxiliary outputs. The derivative with respect to the starting point, and with respect to arguments that do not enter the gradient, is zero; differentiating does not change the returned parameters.",
 ["inputs", "histories", "configurations"], "every objective with a well-conditioned minimum, every argument it depends on, every starting point or previous result and option set",
 "No test differentiates a run.",
 [T], [("TR.optimality_fun, implicit_diff", T)], None, ["TR.run", "TR.optimality_fun"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

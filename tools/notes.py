NOTES = {
 "C01": ("`MC_TR`: trust-region machine on 6 objectives x 4 starts x 4 configurations, all histories of updates/restarts up to length 4 / 6; invariants Monotone, AllOrNothing, RadiusBounds, FrozenStays, ...",
         "model histories and random objectives (1-4 variables; convex, indefinite, flat, concave; user gradients of another function so that every ratio occurs) by single `update` calls, 6 presentations",
         "`Trace_TR` scope *state*: exact polynomial value/gradient/aux at the returned parameters, rejected => parameters bit-identical, accepted => parameters + step, value non-increasing"),
 "C02": ("`MC_TR` and `MC_Radius` (radius machine, every sequence of 3 / 4 ratios on/around every threshold, boundary flag, restarts)",
         "the ladder of `MC_Radius` replayed without rounding (dyadic data, ratios hit thresholds exactly), histories of C01 incl. damping, direct radius updates, refused configurations",
         "`Trace_TR` scope *radius*: exact ratio from the undamped quadratic model, acceptance, next radius, frozen updates, restarts"),
 "C03": ("`MC_TR` (SubproblemOK: feasible, Cauchy decrease, cut exactly at the boundary, finite termination)",
         "`steihaug` on definite, indefinite, singular, zero, diagonal operators in 1-12 dimensions, iteration limits, 5 layouts, jit/unroll; subproblems inside optimizer histories",
         "`Trace_TR` scope *sub*: exact truncated conjugate gradients, as the set of outcomes that a margin around each comparison allows"),
 "C04": ("`MC_TR`", "complete runs with callbacks, limits, tolerances, collapse of the radius, restarts from results; jit/unroll, user gradients, aux, keyword/positional arguments, damping, finite differences",
         "`Trace_TR` all scopes: every callback is judged as an update, run result = last update, stops exactly at tolerance/limit"),
 "C11": ("`MC_Calc`: all request sequences up to length 3 / 4 on 6 argument layouts; invariants Schwarz, product rule, ...", "every single request, sampled sequences, by position/name/component/direction, scalars, vectors, trees, modules, keyword arguments, jit",
         "`Trace_Calc`: exact partial derivatives of polynomials"),
 "C12": ("`MC_Calc` (LapIsDivGrad, CurlGrad, DivCurl)", "laplace, hessian_diag, divergence, value_and_divergence, curl on polynomial fields, all output structures, batches, modules", "`Trace_Calc`: exact operators on polynomials"),
 "C13": ("`MC_Calc` (HessSymmetric)", "all Hessian-vector product variants, value_and_jacfwd/jacrev, trees, aux, user gradients", "`Trace_Calc`: exact Hessian times vector, gradients, Jacobians; the three functions of `make_funs_with_aux` against one another (`funs`)"),
 "C17": ("`MC_Quat`: stack programs over all operations up to length 4 / 5 (7 on a reduced set); ring laws, norm, inverses as invariants", "the programs, with random/sparse/integer operands and scalars on either side", "`Trace_Quat`: exact algebra, stack resynchronised with the observed value after each operation"),
 "C18": ("`MC_Quat` (Isometry, Reflection, Powers)", "rotations, composition, constructors, reflections, exp/log, powers", "`Trace_Quat`: rational and 140-bit transcendental values, also within ulps of the real axis (`log`, `logexp`, `logreal`)"),
 "C19": ("`MC_RFun`: set-expression programs up to length 5 / 6 over a 3-valued point; SignLaw, duality, min/max, blending", "the programs in 18 systems at points in general position, ties, near-ties, zeros, operands of extreme magnitude (R_p)", "`Trace_RFun`: exact values of the defining formulas and the sign of the set expression"),
 "C28": ("`MC_RGrad`: set expressions with the gradient by every leaf, at most one leaf on its boundary, 8 systems, programs up to length 5 / 6; KeepsNormals, Homogeneous, Differentiates (partial derivatives of the spec against difference quotients), Orientation",
         "the programs over coordinates and over half spaces, balls and boxes in two and three dimensions, at points on boundaries, `grad` and `jacfwd`, jit/vmap", "`Trace_RGrad`: chain rule from the observed operands, unit normal of the active body on the boundary"),
 "C29": ("`MC_Sens`: minimizers of quadratic objectives whose coefficients are perturbed again and again (2 / 3 perturbations); Stationary, Solves, FirstOrder (what the derivative leaves is exactly of second order), Linear, Reciprocal, Responds",
         "the histories of perturbations with restarts from the last optimum, random convex objectives with quartic terms in 1-3 parameters, derivative by every coefficient of the objective; tree layouts, aux, supplied gradients, damping, finite-difference curvature", "`Trace_TR` (scope sens): curvature times derivative plus gradient of the monomial vanishes at the returned parameters; no dependence on start and unused arguments"),
 "C20": ("`MC_Shapes`: chains of transformations up to length 3 / 4; RigidPreserves, Undo, CounterClockwise, ...", "the chains with random parameters on polynomial bodies", "`Trace_Shapes`: polynomial at the exact pre-image"),
 "C21": ("`MC_Shapes`", "cuboid/cube/sphere/cylinder/ellipsoid in 1-4 dimensions, systems, rigid chains; first-order normalization of polynomials", "`Trace_Shapes`: sign by exact depth, inward unit normal on regular boundary points"),
 "C05": ("`MC_Ode`: solver machine over grids of times (forward, backward, zero-length, repeated), 4 right-hand sides, rk4/euler/heun, up to 4 / 5 steps; Lengths, NoMoveNoChange, Exact, TaylorFour",
         "the grids and random ones with random polynomial right-hand sides, five state layouts, arguments as array/list/tree, a user's method, unrolling, jit/vmap; single steps",
         "`Trace_Ode`: the exact step from every *observed* state to the next; shapes and initial entry"),
 "C06": ("`MC_Ode` (TangentLinear, TimeTangent)", "forward and reverse sensitivities to initial state, times and arguments, in dense directions, methods, layouts, unrolling, jit", "`Trace_Ode`: exact tangent of the discrete trajectory by dual arithmetic"),
 "C07": ("`MC_Quad`: partitions into up to 4 / 5 cells, 7 rules; Additive, ExactToDegree, Sharp, WeightsSum, NodesInside", "the partitions and random ones (uniform, graded, reversed, repeated, folding back), all rules, Gauss up to 12 points; weights and nodes, and integrals of polynomials with positional/keyword arguments and tree values", "`Trace_Quad`: exact power sums of the returned rule, exact rule sum and exact moments"),
 "C08": ("`MC_Solid`: a ball and disk cut again and again into shells and sectors; the pieces keep the moments; MomentsKept, VolumesPositive, SectorArea", "boxes of 2-4 axes with unequal partitions; disks, annuli, sectors, balls, shells and ball sectors from the model and random, per-axis resolutions, scalar/vector/matrix/tree integrands, arguments", "`Trace_Quad`: exact tensor sums, exact moments of the solid when resolved"),
 "C09": ("`MC_Surface`: patches x rules x meshes up to 2 / 3 cells; ElementsSum, Areas, AffineExact, Monopole", "surface integrals, element integrals and element centres of affine, sheared and curved polynomial patches, every rule and a user's rule, unequal partitions, trees, arguments", "`Trace_Surface`: exact sums of integrand times area element, cell by cell"),
 "C10": ("`MC_Surface` (Monopole)", "charge tensor contracted with source tensor at targets off the patch, expansion orders, scalar and vector charges, gradients and curls; surface charges of polynomial magnetizations, normalized and general form", "`Trace_Surface`: the discretised potential in 140-bit arithmetic, the exact jumps"),
 "C14": ("`MC_Domain`: 7 domains on a lattice; Trichotomy, OutwardUnits, LeavesOutward, Moments, SharesSum", "samples and transforms of intervals, cuboids, discs, spheres, triangles, polygons ...", "`Trace_Domain`: membership exactly, pre-images, moments/frequencies within six standard deviations, determinism"),
 "C15": ("`MC_Domain`, `MC_Bnd`: boundary parametrisations in 60 / 400 steps; OnIt, Speed, Fair, Ends", "boundary samples and parametrisations, polylines with corners, repeated points and worst rounding of the lengths, parameters within ulps of the ends", "`Trace_Domain`: on the boundary, constant speed, shares by length"),
 "C16": ("`MC_Domain` (OutwardUnits, LeavesOutward)", "normal vectors at boundary points of every domain and part", "`Trace_Domain`: unit, orthogonal to the tangent, leaving the domain"),
 "C22": ("`MC_Impose`: stacks of up to 3 / 4 imposed conditions over polynomials; StackIsWrap, InitialValue, BoundaryValue, NeumannKeeps, NeumannFlux", "the stacks with random polynomials for field, data and distance", "`Trace_Impose`: exact value of the formula; value/flux on the boundary"),
 "C23": ("`MC_Net`: all nets up to 4 / 5 layers of width 1-3, 5 activations; LayerPerWidth, OutWidth, IsAffine, LastLinear", "networks of these shapes with random parameters, initialisers, inputs of any batch shape", "`Trace_Net`: the composed affine maps/activations in 140-bit arithmetic"),
 "C24": ("`MC_Reject`: lanes x rounds with the exact kept distribution; FirstKept, OpenLanesTried, NeverZeroDensity, MassConserved, Proportional", "12000-60000 samples per problem, trees, keys of both kinds; keys whose draw is exactly zero where the density vanishes", "`Trace_Reject`: counts of every cell and of neighbouring pairs within six standard deviations of the exact probability"),
 "C25": ("`MC_Batches`: every selection and interleaving of one iterator over two epochs / two iterators; keys as paths in the tree of splits; InOrder, NoRepeatInEpoch, LeavesOutFew, Total, Progress, CountUsed, PrefixFree", "three interleaved iterators per configuration (twin and other key), user batch functions, selections, joint frequencies, refusals", "`Trace_Batches`: the iterator machine follows draw/next/stop events; selections; counts within six standard deviations"),
 "C26": ("`MC_Spline`: every knot vector up to 6 / 8 knots with gaps 0-2 (cubic: 8 / 10), degrees 0-3, read at every half step; PartitionOfUnity, LinearPrecision, Continuous, Smooth, Duality, Affine", "the knot vectors at random scales and random ones, per-feature grids, input shapes, first to third derivatives, motions of point and knots", "`Trace_Spline`: exact Cox-de Boor values, derivatives and dual numbers"),
 "C27": ("`MC_Spline` (GridOK)", "generated grids; modules with every option: init, apply with given coefficients and grids, gradients", "`Trace_Spline`: exact grid nodes (rational powers), activation plus exact spline"),
}

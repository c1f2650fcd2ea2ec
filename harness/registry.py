"""Which model, driver and trace specification decide which property."""
TRACE = "SPECIFICATION Spec\n"


def judge_cfg(op):
    return f"SPECIFICATION Spec\nCONSTANT JudgeEvent <- {op}\n"


def consts(d):
    return "".join(f"  {k} = {v}\n" for k, v in d.items())


QUAT_INV = "INVARIANTS TypeOK NormMultiplicative ConjReverses Inverses Ring DivCancels Isometry Reflection Powers EmitOK\n"


def quat_cfg(n, ops2, ops1, opss, emit):
    s = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    return ("SPECIFICATION Spec\n" + QUAT_INV + "CONSTANTS\n" + consts(
        {"MaxLen": n, "Ops2": s(ops2), "Ops1": s(ops1), "OpsS": s(opss), "Emit": str(emit).upper()}))


ALL2 = ["add", "sub", "mul", "div", "ldiv", "rdiv"]
ALL1 = ["neg", "conj", "recip", "copy", "tree"]
ALLS = ["adds", "radds", "subs", "rsubs", "muls", "rmuls", "divs"]



def calc_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS Schwarz Lowers Product LapIsDivGrad CurlGrad DivCurl Curl2Grad HessSymmetric EmitOK\n"
            f"CONSTANTS\n  MaxLen = {n}\n  Layouts <- LayoutsDef\n")


def rgrad_cfg(n, k):
    return ("SPECIFICATION Spec\nINVARIANTS KeepsNormals OnlyItsLeaves Differentiates Homogeneous Orientation EmitOK\n"
            f"CONSTANTS\n  MaxLen = {n}\n  MaxLeaves = {k}\n  Emit = TRUE\n")


def rfun_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS SignLaw SymmetricDual MinMax BlendingOutside EmitOK\n"
            f"CONSTANTS\n  MaxLen = {n}\n  Emit = TRUE\n")


def shapes_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS RigidPreserves Undo PlanarIsThirdAxis CounterClockwise QuaternionAgrees ProjectionIdempotent EmitOK\n"
            f"CONSTANTS\n  MaxLen = {n}\n")


def tr_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS Monotone AllOrNothing RadiusBounds RadiusMoves FrozenStays Reopens SubproblemOK EmitOK\n"
            f"CONSTANTS\n  MaxLen = {n}\n  Objectives = {{1, 2, 3, 4, 5, 6}}\n  Starts = {{1, 2, 3, 4}}\n  Configs = {{1, 2, 3, 4}}\n")


def radius_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS Bounds GrowsOnlyAtBoundary ShrinksOnBadRatio BadRatioShrinks FrozenStays RefusalShrinks EmitOK\n"
            f"CONSTANTS\n  MaxLen = {n}\n  Configs = {{1, 2, 3}}\n")


def tr_judge(*scope):
    return "SPECIFICATION Spec\nCONSTANT Scope = {" + ", ".join(f'"{s}"' for s in scope) + "}\n"


TR_MODEL = dict(module="MC_TR", name="tr", cfg=lambda t: tr_cfg(4 if t == "quick" else 6))

def sens_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS Stationary Solves FirstOrder Linear Reciprocal Responds EmitOK\n"
            f"CONSTANTS\n  MaxLen = {n}\n  Emit = TRUE\n")


def ode_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS Lengths NoMoveNoChange Exact TaylorFour TangentLinear TimeTangent EmitOK\n"
            f'CONSTANTS\n  MaxLen = {n}\n  Rhss = {{1, 2, 3, 4}}\n  Methods = {{"rk4", "euler", "heun"}}\n')


ODE_MODEL = dict(module="MC_Ode", name="ode", cfg=lambda t: ode_cfg(4 if t == "quick" else 5))


def quad_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS Additive ExactToDegree Sharp WeightsSum NodesInside EmitOK\n"
            f'CONSTANTS\n  MaxLen = {n}\n  Rules = {{"midpoint", "trap", "simpson", "gauss1", "gauss2", "gauss3", "gauss5"}}\n')


def solid_cfg(n):
    return f"SPECIFICATION Spec\nINVARIANTS MomentsKept VolumesPositive SectorArea EmitOK\nCONSTANTS\n  MaxLen = {n}\n"



def surface_cfg(n, rules=("gauss2", "gauss3", "midpoint", "simpson", "skew")):
    return ("SPECIFICATION Spec\nINVARIANTS ElementsSum Areas AffineExact Monopole EmitOK\n"
            f"CONSTANTS\n  MaxCells = {n}\n  Patches = {{1, 2, 3}}\n  Rules = {{" + ", ".join(f'"{x}"' for x in rules) + "}\n")


SURF_MODEL = dict(module="MC_Surface", name="surfaces", cfg=lambda t: surface_cfg(2 if t == "quick" else 3))


def domain_cfg(n, doms="1, 2, 3, 4, 5, 6, 7"):
    return ("SPECIFICATION Spec\nINVARIANTS Trichotomy OutwardUnits LeavesOutward Moments SharesSum EmitOK\n"
            f"CONSTANTS\n  Domains = {{{doms}}}\n  Range = {n}\n")


def bnd_cfg(n):
    return f"SPECIFICATION Spec\nINVARIANTS OnIt Speed Fair Ends EmitOK\nCONSTANTS\n  Lines = {{1, 2, 3, 4}}\n  Steps = {n}\n"


DOM_MODEL = dict(module="MC_Domain", name="lattice", cfg=lambda t: domain_cfg(5 if t == "quick" else 9))


def impose_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS StackIsWrap InitialValue BoundaryValue NeumannKeeps NeumannFlux ValuesAgree EmitOK\n"
            f'CONSTANTS\n  MaxLen = {n}\n  Layers = {{"ic", "dir", "dir0", "neu", "neu0"}}\n')



def net_cfg(n):
    return ("SPECIFICATION Spec\nINVARIANTS LayerPerWidth OutWidth IsAffine LastLinear EmitOK\n"
            f'CONSTANTS\n  MaxLen = {n}\n  Widths = {{1, 2, 3}}\n  Acts = {{"tanh", "sin", "square", "id", "relu"}}\n')



def reject_cfg(lanes, rounds):
    return ("SPECIFICATION Spec\nINVARIANTS FirstKept OpenLanesTried NeverZeroDensity MassConserved Proportional BinsRefine KeepsSome EmitOK\n"
            f"CONSTANTS\n  Lanes = {{{lanes}}}\n  Rounds = {rounds}\n  Problems = {{1, 2, 3}}\n")


def batch_cfg(n, e, its="1, 2"):
    return ("SPECIFICATION Spec\nINVARIANTS Ok InOrder NoRepeatInEpoch LeavesOutFew Total Progress CountUsed PrefixFree NextNew EmitOK\n"
            f"CONSTANTS\n  MaxN = {n}\n  MaxEpochs = {e}\n  Iters = {{{its}}}\n")


def spline_cfg(n, gaps="0, 1, 2", degs="0, 1, 2, 3"):
    return ("SPECIFICATION Spec\nINVARIANTS NonNegative Support PartitionOfUnity LinearPrecision DerivativesCancel Continuous Smooth Duality Affine GridOK EmitOK\n"
            f"CONSTANTS\n  MaxKnots = {n}\n  Gaps = {{{gaps}}}\n  Degrees = {{{degs}}}\n")


PROPS = {
    "C26": dict(level="model_checking", models=[
            dict(module="MC_Spline", name="knots", cfg=lambda t: spline_cfg(6, degs="0, 1, 2") if t == "quick" else spline_cfg(8)),
            dict(module="MC_Spline", name="cubic", cfg=lambda t: spline_cfg(8 if t == "quick" else 10, "0, 1", "3"))],
        driver="d_spline:bases", trace="Trace_Spline", trace_cfg=judge_cfg("JSpline"), shards=6, modes={64: 5, 32: 2}),
    "C27": dict(level="model_checking", models=[dict(module="MC_Spline", name="knots", cfg=lambda t: spline_cfg(5 if t == "quick" else 7))],
        driver="d_spline:activations", trace="Trace_Spline", trace_cfg=judge_cfg("JSpline"), shards=6, modes={64: 4, 32: 2}),
    "C25": dict(level="model_checking", models=[
            dict(module="MC_Batches", name="iterators", cfg=lambda t: batch_cfg(3, 2, "1")),
            dict(module="MC_Batches", name="interleaved", cfg=lambda t: batch_cfg(3, 1) if t == "quick" else batch_cfg(2, 2))],
        driver="d_batch:batching", trace="Trace_Batches", trace_cfg=TRACE, shards=5, modes={64: 4, 32: 2}),
    "C24": dict(level="model_checking", models=[dict(module="MC_Reject", name="problems", cfg=lambda t: reject_cfg("1, 2", 3 if t == "quick" else 4))],
        driver="d_reject:sampling_runs", trace="Trace_Reject", trace_cfg=judge_cfg("JReject"), shards=3, modes={64: 4, 32: 2}),
    "C23": dict(level="model_checking", models=[dict(module="MC_Net", name="nets", cfg=lambda t: net_cfg(4 if t == "quick" else 5))],
        driver="d_net:networks", trace="Trace_Net", trace_cfg=judge_cfg("JNet"), shards=6, modes={64: 4, 32: 2}),
    "C22": dict(level="model_checking", models=[dict(module="MC_Impose", name="stacks", cfg=lambda t: impose_cfg(3 if t == "quick" else 4))],
        driver="d_impose:conditions", trace="Trace_Impose", trace_cfg=judge_cfg("JImpose"), shards=4, modes={64: 5, 32: 2}),
    "C14": dict(level="model_checking", models=[DOM_MODEL], driver="d_domain:interiors", trace="Trace_Domain", trace_cfg=judge_cfg("JDom"), shards=5, modes={64: 5, 32: 2}),
    "C15": dict(level="model_checking", models=[DOM_MODEL, dict(module="MC_Bnd", name="params", cfg=lambda t: bnd_cfg(60 if t == "quick" else 400))],
        driver="d_domain:boundaries", trace="Trace_Domain", trace_cfg=judge_cfg("JDom"), shards=5, modes={64: 5, 32: 2}),
    "C16": dict(level="model_checking", models=[DOM_MODEL], driver="d_domain:normals", trace="Trace_Domain", trace_cfg=judge_cfg("JDom"), shards=5, modes={64: 5, 32: 2}),
    "C09": dict(level="model_checking", models=[SURF_MODEL], driver="d_surface:surfaces", trace="Trace_Surface", trace_cfg=judge_cfg("JSurf"), shards=8, modes={64: 6, 32: 2}),
    "C10": dict(level="model_checking", models=[SURF_MODEL], driver="d_surface:potentials", trace="Trace_Surface", trace_cfg=judge_cfg("JSurf"), shards=8, modes={64: 6, 32: 2}),
    "C07": dict(level="model_checking", models=[dict(module="MC_Quad", name="partitions", cfg=lambda t: quad_cfg(4 if t == "quick" else 5))],
        driver="d_quad:one_dimensional", trace="Trace_Quad", trace_cfg=judge_cfg("JQuad"), shards=6, modes={64: 5, 32: 2}),
    "C08": dict(level="model_checking", models=[dict(module="MC_Solid", name="solids", cfg=lambda t: solid_cfg(3 if t == "quick" else 5))],
        driver="d_quad:solids", trace="Trace_Quad", trace_cfg=judge_cfg("JQuad"), shards=8, modes={64: 6, 32: 2}),
    "C05": dict(level="model_checking", models=[ODE_MODEL], driver="d_ode:trajectories", trace="Trace_Ode", trace_cfg=judge_cfg("JOde"), shards=5, modes={64: 4, 32: 2}),
    "C06": dict(level="model_checking", models=[ODE_MODEL], driver="d_ode:sensitivities", trace="Trace_Ode", trace_cfg=judge_cfg("JOde"), shards=6, modes={64: 5, 32: 2}),
    "C01": dict(level="model_checking", models=[TR_MODEL], driver="d_tr:steps", trace="Trace_TR", trace_cfg=tr_judge("state"), shards=8, modes={64: 5, 32: 2}),
    "C02": dict(level="model_checking", models=[TR_MODEL, dict(module="MC_Radius", name="radius", cfg=lambda t: radius_cfg(3 if t == "quick" else 4))],
        driver="d_tr:ladder", trace="Trace_TR", trace_cfg=tr_judge("radius"), shards=8, modes={64: 5, 32: 2}),
    "C03": dict(level="model_checking", models=[TR_MODEL], driver="d_tr:subproblems", trace="Trace_TR", trace_cfg=tr_judge("sub"), shards=8, modes={64: 5, 32: 2}),
    "C29": dict(level="model_checking", models=[dict(module="MC_Sens", name="sens", cfg=lambda t: sens_cfg(2 if t == "quick" else 3))],
        driver="d_tr:sensitivities", trace="Trace_TR", trace_cfg=tr_judge("sens"), shards=6, modes={64: 5, 32: 2}),
    "C04": dict(level="model_checking", models=[TR_MODEL], driver="d_tr:runs", trace="Trace_TR", trace_cfg=tr_judge("run", "state", "radius", "sub"), shards=8, modes={64: 6, 32: 2}),

    "C17": dict(
        level="model_checking",
        models=[
            dict(module="MC_Quat", name="programs", cfg=lambda t: quat_cfg(4 if t == "quick" else 5, ALL2, ALL1, ALLS, True)),
            dict(module="MC_Quat", name="deep", cfg=lambda t: quat_cfg(5 if t == "quick" else 7, ["sub", "mul", "ldiv"], ["conj", "recip"], ["rsubs"], True)),
        ],
        driver="d_quat:algebra", trace="Trace_Quat", trace_cfg=TRACE, shards=4, modes={64: 3, 32: 1}),
    "C18": dict(
        level="model_checking",
        models=[dict(module="MC_Quat", name="rotations", cfg=lambda t: quat_cfg(3 if t == "quick" else 5, ["add", "mul"], ["conj"], ["rmuls"], True))],
        driver="d_quat:rotations", trace="Trace_Quat", trace_cfg=TRACE, shards=6, modes={64: 2, 32: 1}),

    "C11": dict(level="model_checking", models=[dict(module="MC_Calc", name="requests", cfg=lambda t: calc_cfg(3 if t == "quick" else 4))],
        driver="d_calc:partials", trace="Trace_Calc", trace_cfg=judge_cfg("JCalc"), shards=5, modes={64: 4, 32: 2}),
    "C12": dict(level="model_checking", models=[dict(module="MC_Calc", name="requests", cfg=lambda t: calc_cfg(2 if t == "quick" else 3))],
        driver="d_calc:operators", trace="Trace_Calc", trace_cfg=judge_cfg("JCalc"), shards=5, modes={64: 4, 32: 2}),
    "C13": dict(level="model_checking", models=[dict(module="MC_Calc", name="requests", cfg=lambda t: calc_cfg(2 if t == "quick" else 3))],
        driver="d_calc:curvature", trace="Trace_Calc", trace_cfg=judge_cfg("JCalc"), shards=5, modes={64: 4, 32: 2}),

    "C19": dict(level="model_checking", models=[dict(module="MC_RFun", name="expressions", cfg=lambda t: rfun_cfg(5 if t == "quick" else 6))],
        driver="d_rfun:expressions", trace="Trace_RFun", trace_cfg=TRACE, shards=5, modes={64: 4, 32: 2}),

    "C28": dict(level="model_checking", models=[dict(module="MC_RGrad", name="expressions", cfg=lambda t: rgrad_cfg(5, 3) if t == "quick" else rgrad_cfg(6, 4))],
        driver="d_rfun:gradients", trace="Trace_RGrad", trace_cfg=TRACE, shards=5, modes={64: 4, 32: 2}),

    "C20": dict(level="model_checking", models=[dict(module="MC_Shapes", name="transforms", cfg=lambda t: shapes_cfg(3 if t == "quick" else 4))],
        driver="d_shapes:transforms", trace="Trace_Shapes", trace_cfg=judge_cfg("JShapes"), shards=6, modes={64: 4, 32: 2}),
    "C21": dict(level="model_checking", models=[dict(module="MC_Shapes", name="transforms", cfg=lambda t: shapes_cfg(2 if t == "quick" else 3))],
        driver="d_shapes:primitives", trace="Trace_Shapes", trace_cfg=judge_cfg("JShapes"), shards=6, modes={64: 4, 32: 2}),
}

"""Trust-region optimizer: histories of updates, restarts, runs; subproblems."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jaxopt.base import OptStep

from magpi import tr as T
from magpi.tr import TR

from . import enc, gen

MONOS = {1: [(k,) for k in range(5)],
         2: [e for e in itertools.product(range(5), repeat=2) if sum(e) <= 4],
         3: [e for e in itertools.product(range(4), repeat=3) if sum(e) <= 3],
         4: [e for e in itertools.product(range(3), repeat=4) if sum(e) <= 2]}


def poly(n, c, x):
    """sum c_k x^e_k, differentiable also at zero coordinates."""
    out = 0.0
    pw = [[None] + [x[i]] for i in range(n)]
    for i in range(n):
        for _ in range(4):
            pw[i].append(pw[i][-1] * x[i])
    for k, e in enumerate(MONOS[n]):
        t = c[k]
        for i in range(n):
            if e[i]:
                t = t * pw[i][e[i]]
        out = out + t
    return out


def coefs(ctx, n, terms):
    c = np.zeros(len(MONOS[n]))
    for v, e in terms:
        c[MONOS[n].index(tuple(e))] += v
    return gen.f(ctx, c)


def pe(n, c):
    return [[enc.num(v), list(e)] for v, e in zip(c, MONOS[n]) if v != 0]


# ------------------------------------------------------------ presentations
def pack(layout, x):
    x = jnp.asarray(x)
    n = x.shape[0]
    if layout == "vec":
        return x
    if layout == "mat":
        return x.reshape(1, n)
    if layout == "scalars":
        return tuple(x[i] for i in range(n))
    if layout == "dict":
        return {"b": x[: (n + 1) // 2], "a": (x[(n + 1) // 2:].reshape(-1, 1),)}
    return [[x[:1]], {"k": x[1:]}]


def unpack(layout, p, n):
    if layout == "vec":
        return [p[i] for i in range(n)]
    if layout == "mat":
        return [p[0, i] for i in range(n)]
    if layout == "scalars":
        return list(p)
    if layout == "dict":
        v, w = p["b"], p["a"][0]
        return [v[i] for i in range((n + 1) // 2)] + [w[i, 0] for i in range(n - (n + 1) // 2)]
    return [p[0][0][0]] + [p[1]["k"][i] for i in range(n - 1)]


def flat(layout, p, n):
    return np.array([float(np.asarray(z).reshape(())) for z in unpack(layout, jax.tree_util.tree_map(np.asarray, p), n)])


class Machine:
    """One configuration and presentation of the optimizer."""

    def __init__(self, n, cfg, layout="vec", args="pos", vg=False, aux=False, callback=None, **opts):
        self.n, self.cfg, self.layout, self.argform, self.aux = n, cfg, layout, args, aux

        def value(p, cP, cQ, cA):
            x = unpack(layout, p, n)
            v = poly(n, cP, x)
            if aux:
                return v, {"k": poly(n, cA[0], x), "m": (poly(n, cA[1], x),)}
            return v

        def f(p, cP, cQ=None, cA=None):
            return value(p, cP, cQ, cA)

        def fg(p, cP, cQ=None, cA=None):
            g = jax.grad(lambda z: poly(n, cQ, unpack(layout, z, n)))(p)
            return value(p, cP, cQ, cA), g
        kw = dict(init_tr_radius=cfg["init"], max_tr_radius=cfg["max"], min_tr_radius=cfg["min"], rho_increase=cfg["inc"],
                  increase_factor=cfg["incf"], rho_decrease=cfg["dec"], decrease_factor=cfg["decf"], rho_accept=cfg["acc"],
                  forcing_parameter=cfg["half"] / 2, tol=cfg["tol"], maxiter_steihaug=cfg["cg"])
        kw.update(opts)
        self.solver = TR(fg if vg else f, value_and_grad=vg, has_aux=aux, callback=callback, **kw)
        self.upd = jax.jit(self.solver.update)
        self.ini = jax.jit(self.solver.init_state)

    def call(self, fn, args, data):
        if self.argform == "pos":
            return fn(*args, *data)
        if self.argform == "mixed":
            return fn(*args, data[0], cQ=data[1], cA=data[2])
        return fn(*args, cP=data[0], cQ=data[1], cA=data[2])


def ebegin(ctx, m, damp=None):
    c = m.cfg
    ctx.new()
    ctx.log("begin", n=m.n, cfg={k: enc.num(gen.f(ctx, c[k])) for k in ("min", "max", "init", "dec", "decf", "inc", "incf", "acc")},
            half=c["half"], tol=enc.num(gen.f(ctx, c["tol"])), cg=c["cg"] if c["cg"] is not None else 10 * m.n,
            damp=damp is not None, mu=enc.num(gen.f(ctx, damp or 0.0)))


def est(m, st):
    s = st.subproblem_result
    aux = [] if not m.aux else [enc.num(st.aux["k"]), enc.num(st.aux["m"][0])]
    return {"value": enc.num(st.value), "grad": enc.vec(flat(m.layout, st.grad, m.n)), "err": enc.num(st.error), "rho": enc.num(st.rho),
            "rad": enc.num(st.tr_radius), "iter": int(st.iter_num), "acc": bool(st.accepted), "aux": aux, "sub": esub(m, s)}


def esub(m, s):
    return {"it": int(s.iter_num), "conv": bool(s.converged), "lim": bool(s.limit_step), "len": enc.num(s.step_length),
            "curv": enc.num(s.curvature), "p": enc.vec(flat(m.layout, s.p, m.n)), "eps": enc.num(s.eps), "nr": enc.num(s.norm_r)}


def efun(m, data):
    cP, cQ, cA = data
    q = cP if cQ is None else cQ
    return {"P": pe(m.n, cP), "Q": pe(m.n, q), "A": [pe(m.n, c) for c in cA] if m.aux else []}


def guard(ctx, m, k, fn, **fields):
    try:
        return fn()
    except Exception as ex:  # noqa: BLE001
        ctx.log(k, exc=type(ex).__name__ + ": " + str(ex)[:160].replace("\n", " "), **fields)
        return None


def history(ctx, m, x, acts, data, damp=None, loose=0, exact=False, stop=True, eager=False, cases=None, swap=None):
    """Updates and restarts by single calls.  cases: fresh objective data per update; swap: data of update j (as in mini-batches)."""
    ebegin(ctx, m, damp)
    dj = lambda d: [None if c is None else jnp.asarray(c) for c in d]
    p = pack(m.layout, gen.f(ctx, x))
    fm = {"loose": loose, "exact": exact, "cb": False}
    st = guard(ctx, m, "init", lambda: m.call(m.solver.init_state if eager else m.ini, (p,), dj(data)))
    if st is None:
        return
    ctx.log("init", x=enc.vec(flat(m.layout, p, m.n)), st=est(m, st), re=False, **efun(m, data), **fm)
    for j, a in enumerate(acts):
        if cases is not None and a == "u":
            data = cases[j](float(st.tr_radius))
            p = pack(m.layout, np.zeros(m.n))
        if swap is not None and a == "u":
            data = swap(j, data)
        if a == "r":
            st = guard(ctx, m, "init", lambda: m.call(m.ini, (OptStep(p, st),), dj(data)))
            if st is None:
                return
            ctx.log("init", x=enc.vec(flat(m.layout, p, m.n)), st=est(m, st), re=True, **efun(m, data), **fm)
            continue
        r = guard(ctx, m, "update", lambda: m.call(m.solver.update if eager else m.upd, (p, st) if j % 3 else (OptStep(p, st), st), dj(data)))
        if r is None:
            return
        q, st = r
        ctx.log("update", x=enc.vec(flat(m.layout, p, m.n)), y=enc.vec(flat(m.layout, q, m.n)), st=est(m, st), **efun(m, data), **fm)
        p = q
        if stop and float(st.error) < (1e-5 if ctx.mode == 64 else 3e-2):
            return
        if not np.all(np.isfinite(flat(m.layout, p, m.n))) or np.abs(flat(m.layout, p, m.n)).max() > 50:
            return


DEF = {"min": 1e-4, "max": 2.0, "init": 1.0, "dec": 0.25, "decf": 0.25, "inc": 0.75, "incf": 2.0, "acc": 0.25, "half": 1, "tol": 1e-2, "cg": None}


def conf(c, **kw):
    d = dict(DEF)
    d.update({k: (v[0] / v[1] if isinstance(v, list) else v) for k, v in c.items()})
    d.update(kw)
    return d


PRES = [dict(layout="vec"), dict(layout="dict", args="kw"), dict(layout="scalars", aux=True), dict(layout="nest", vg=True, args="kw"),
        dict(layout="mat", vg=True, aux=True, args="mixed"), dict(layout="vec", args="kw", aux=True)]


def rand_terms(r, n, kind):
    """Random objectives with curvature of every sign."""
    M = MONOS[n]
    t = []
    A = r.normal(size=(n, n))
    Qm, _ = np.linalg.qr(A)
    if kind == "convex":
        ev = r.uniform(0.3, 4, size=n)
    elif kind == "indef":
        ev = r.uniform(-3, 3, size=n)
    elif kind == "flat":
        ev = np.concatenate([[0.0], r.uniform(0.5, 3, size=n - 1)])
    else:
        ev = -r.uniform(0.3, 2, size=n)
    H = Qm @ np.diag(ev) @ Qm.T
    e = lambda *ix: tuple(sum(1 for i in ix if i == k) for k in range(n))
    for i in range(n):
        t.append((float(r.normal()), e(i)))
        t.append((H[i, i] / 2, e(i, i)))
        for j in range(i):
            t.append((H[i, j], e(i, j)))
    if kind != "convex" or r.integers(0, 2):
        deg = max(sum(m) for m in M)
        if deg >= 3:
            for i in range(n):
                t.append((float(r.normal()) * 0.3, e(i, i, i)))
                if n > 1:
                    t.append((float(r.normal()) * 0.2, e(i, i, (i + 1) % n)))
        if deg >= 4:
            for i in range(n):
                t.append((abs(float(r.normal())) * 0.3, e(i, i, i, i)))
    t.append((float(r.normal()), (0,) * n))
    return t


def data_for(ctx, r, n, c, vg, aux, mixed=False):
    cQ = None
    if vg:
        cQ = c
        if mixed:                     # supplied gradients of another function: every ratio occurs
            c = gen.f(ctx, c * float(r.uniform(-0.5, 2)))
    cA = np.stack([gen.f(ctx, r.normal(size=len(c)) * (r.uniform(size=len(c)) < 0.4)) for _ in range(2)])
    return (c, cQ, cA)


def groups(ctx, scen, per):
    """Scenarios grouped by configuration and presentation (compiled once per group)."""
    g = {}
    for i, s in enumerate(scen):
        k = (str(s["cf"]), i % per)
        g.setdefault(k, []).append(s)
    return [v for _, v in sorted(g.items(), key=lambda t: str(t[0]))]


def steps(ctx):
    """C01/C02: model histories and random ones."""
    scen = ctx.scen["tr"]
    byc = {}
    for s in scen:
        byc.setdefault(str(s["cf"]), []).append(s)
    pl = []
    for ci, k in enumerate(sorted(byc)):
        ss = ctx.sample("tr" + k, byc[k], ctx.n(40, 400))
        for j in range(2 if not ctx.thorough else 6):
            pres = PRES[(ci * 2 + j + ctx.seed) % len(PRES)]
            pl.append((ss[j::2 if not ctx.thorough else 6], pres))
    for (ss, pres), r in ctx.cases("hist", pl):
        if not ss:
            continue
        m = Machine(2, conf(ss[0]["cf"]), **pres)
        for s in ss:
            c = coefs(ctx, 2, [(a / b, e) for a, b, e in s["obj"]])
            x = [a / b for a, b in s["x"]]
            acts = s["acts"] + ["u"] * 2
            history(ctx, m, x, acts, data_for(ctx, r, 2, c, m.solver.value_and_grad, m.aux), loose=0)
    ks = ["convex", "indef", "flat", "concave"]
    for i, r in ctx.cases("rand", ctx.n(16, 120)):
        n = 1 + (i + ctx.seed) % 4
        dec = float(r.choice([0.25, 0.5, 0.1, 0.9]))
        cfg = conf({}, dec=dec, acc=float(r.choice([dec, dec / 2, 0.0, dec / 4])), inc=float(r.choice([0.75, 0.9, dec])), decf=float(r.choice([0.25, 0.5, 0.1])),
                   incf=float(r.choice([2.0, 3.0, 1.5])), init=float(r.choice([1.0, 0.25, 2.0, 5.0])), max=float(r.choice([2.0, 5.0, 8.0])),
                   min=float(r.choice([1e-4, 0.05, 0.2])), half=int(r.choice([1, 1, 2, 0])), tol=float(r.choice([1e-2, 1e-3])), cg=[None, 1, 2][int(r.integers(0, 3))])
        cfg["init"] = min(cfg["init"], cfg["max"])
        pres = PRES[int(r.integers(0, len(PRES)))]
        if n == 1 and pres["layout"] == "nest":
            pres = PRES[0]
        if n == 1 and pres["layout"] == "dict":
            pres = PRES[2]
        damp = float(r.choice([0.25, 1.0, 3.0, 0.02, 0.004])) if i % 3 == 1 else None
        m = Machine(n, cfg, **pres, **({} if damp is None else {"damping_factor": damp}))
        for j in range(4):
            c = coefs(ctx, n, rand_terms(r, n, ks[(i + j) % 4]))
            x = r.normal(size=n) * 1.5
            acts = ["u"] * int(r.integers(3, 9))
            if r.integers(0, 2):
                acts[int(r.integers(1, len(acts)))] = "r"
            data = data_for(ctx, r, n, c, m.solver.value_and_grad, m.aux, mixed=j % 2 == 1)
            batch = [data] + [data_for(ctx, r, n, gen.f(ctx, c * (1 + 0.3 * r.normal(size=len(c)))), m.solver.value_and_grad, m.aux, mixed=j % 2 == 1) for _ in range(2)]
            history(ctx, m, x, acts, data, damp=damp, swap=(lambda k, d: batch[k % 3] if k % 4 else d) if j == 3 else None)
    if ctx.part == 0 and ctx.mode == 64:
        m = Machine(2, conf({}), layout="dict", aux=True)
        r = ctx.rng_for("eager")
        c = coefs(ctx, 2, rand_terms(r, 2, "indef"))
        history(ctx, m, [1.0, -0.5], ["u", "u"], data_for(ctx, r, 2, c, False, True), eager=True)


def ladder(ctx):
    """C02: the radius machine, thresholds hit exactly (dyadic data, no rounding)."""
    if ctx.mode == 64:
        byc = {}
        for s in ctx.scen["radius"]:
            byc.setdefault(str(s["cf"]), []).append(s)
        items = [(byc[k], j) for k in sorted(byc) for j in range(2)]
        for (ss, j), r in ctx.cases("ladder", items):
            m = Machine(1, conf(ss[0]["cf"], tol=0.0, cg=None), layout=["vec", "scalars"][j], vg=True)
            for s in ctx.sample("lad%d" % j, ss, ctx.n(40, 500)):
                cases, acts = [], []
                for a in s["acts"]:
                    acts.append(a[0])
                    if a[0] == "r":
                        cases.append(None)
                        continue
                    rho, atb = a[1][0] / a[1][1], a[2]

                    def mk(delta, rho=rho, atb=atb):
                        # Q = x^2/2 - G x has its minimum at G: beyond the boundary, or inside
                        G = delta * (2 if atb else 0.5)
                        cQ = coefs(ctx, 1, [(0.5, (2,)), (-G, (1,))])
                        return (cQ * rho, cQ, np.zeros((2, 5)))
                    cases.append(mk)
                d0 = (np.zeros(5), coefs(ctx, 1, [(0.5, (2,)), (-1.0, (1,))]), np.zeros((2, 5)))
                history(ctx, m, [0.0], acts, d0, exact=True, stop=False, cases=cases)
    steps(ctx)
    if ctx.part == 0:
        for acc, dec, want in ((0.3, 0.25, True), (0.25, 0.25, False), (0.1, 0.25, False), (0.0, 0.0, False), (0.76, 0.75, True), (1e-3, 1e-4, True)):
            try:
                TR(lambda x: x, rho_accept=acc, rho_decrease=dec)
                ok = False
            except Exception:  # noqa: BLE001
                ok = True
            ctx.emit("refuse", what=f"accept {acc} decrease {dec}", refused=ok, want=want)
    direct_radius(ctx)


def direct_radius(ctx):
    fn = getattr(T, "update_tr_radius", None)
    if fn is None:
        return
    jf = jax.jit(fn)
    for i, r in ctx.cases("radius", ctx.n(60, 600)):
        c = {"min": float(r.choice([1e-4, 0.1])), "max": float(r.choice([2.0, 8.0])), "dec": float(r.choice([0.25, 0.5])), "decf": float(r.choice([0.25, 0.5])),
             "inc": float(r.choice([0.75, 0.5])), "incf": float(r.choice([2.0, 3.0]))}
        c = {k: float(gen.f(ctx, v)) for k, v in c.items()}
        delta = float(gen.f(ctx, r.choice([c["min"], c["max"], 1.0, 0.3, c["max"] / 3])))
        ln = delta if r.integers(0, 2) else float(gen.f(ctx, delta * 0.99))
        rho = float(gen.f(ctx, r.choice([c["dec"], c["inc"], c["dec"] - 0.01, c["inc"] + 0.01, -5.0, 0.0, 3.0, r.normal()])))
        try:
            res = jf(jnp.asarray(delta), c["max"], c["min"], jnp.asarray(rho), jnp.asarray(ln), c["inc"], c["dec"], c["incf"], c["decf"])
        except TypeError:
            return                      # a different signature: the optimizer's own use decides
        ctx.emit("radius", cfg={k: enc.num(v) for k, v in c.items()}, delta=enc.num(delta), rho=enc.num(rho), len=enc.num(ln), res=enc.num(res))


# ---------------------------------------------------------------- C03
class Lay:
    def __init__(self, n, layout):
        self.n, self.layout = n, layout


def sym(r, n, kind):
    Qm, _ = np.linalg.qr(r.normal(size=(n, n)))
    ev = {"pd": r.uniform(0.3, 4, size=n), "indef": r.uniform(-3, 3, size=n), "psd": np.where(np.arange(n) == 0, 0.0, r.uniform(0.5, 3, size=n)),
          "nd": -r.uniform(0.3, 3, size=n), "id": np.full(n, r.uniform(0.5, 2)), "zero": np.zeros(n), "diag": r.integers(-2, 4, size=n).astype(float),
          "two": r.choice([1.0, 3.0], size=n)}[kind]
    if kind in ("diag", "id", "zero"):
        return np.diag(ev)
    H = Qm @ np.diag(ev) @ Qm.T
    return (H + H.T) / 2


def subproblems(ctx):
    kinds = ["pd", "indef", "psd", "nd", "id", "zero", "diag", "two", "pd", "indef"]
    lays = ["vec", "dict", "scalars", "nest", "mat"]
    combos = [(n, lay, cg) for n in (1, 2, 3, 4, 6, 12) for lay in lays for cg in (None, 1, 2, 3) if not (n == 1 and lay in ("dict", "nest"))]
    combos = [c for i, c in enumerate(combos) if (i + ctx.seed) % 3 == 0 or ctx.thorough or c[2] is None and c[1] in ("vec", "dict")]
    for (n, lay, cg), r in ctx.cases("steih", combos):
        if n == 12 and (cg is not None or lay == "scalars" and not ctx.thorough):
            continue
        m = Lay(n, lay)
        form = int(r.integers(0, 5))
        unroll, usejit = [(False, True), (False, True), (False, True), (True, True), (True, False)][form]
        if cg is None and usejit and unroll:
            unroll = False

        def f(g, H, delta, eps):
            hv = lambda v: pack(lay, H @ jnp.stack(unpack(lay, v, n)))
            kw = {"maxiter": cg} if cg is not None else {}
            return T.steihaug(pack(lay, g), hv, delta, eps, unroll=unroll, jit=usejit, **kw)
        jf = jax.jit(f) if usejit else f
        reps = ctx.n(10, 60) if usejit else 2
        for j in range(reps):
            H = gen.f(ctx, sym(r, n, kinds[int(r.integers(0, len(kinds)))]))
            H = gen.f(ctx, (H + H.T) / 2)
            g = r.normal(size=n)
            kk = int(r.integers(0, 8))
            if kk == 0:
                g = np.round(g * 2) + (np.arange(n) == 0) * 0.5
            elif kk == 1:
                w, V = np.linalg.eigh(H)
                g = V[:, int(r.integers(0, n))]          # an eigenvector: one step suffices
            elif kk == 2:
                g = g * 20
            elif kk == 3:
                g = g * 0.01
            g = gen.f(ctx, g)
            if r.integers(0, 25) == 0:
                g = np.zeros(n)
            if n == 12:                                  # many steps
                H = gen.f(ctx, np.diag(np.linspace(0.5, 6.0, 12) * float(r.uniform(0.5, 1))))
                g = gen.f(ctx, r.choice([-1.0, 1.0], size=n) * r.uniform(0.5, 1.5, size=n))
            ng = max(np.linalg.norm(g), 1e-3)
            delta = float(gen.f(ctx, r.choice([0.1, 0.5, 1.0, 2.0, 10.0, 100.0]) * (1 if r.integers(0, 2) else ng)))
            lo = 1e-6 if ctx.mode == 64 else 2e-2
            eps = float(gen.f(ctx, ng * r.choice([lo, lo * 3, 0.03, 0.1, 0.5, 0.9, 2.0])))
            if kk == 1 and n < 3 and r.integers(0, 2) and np.allclose(H, np.diag(np.diag(H))):
                eps = float(gen.f(ctx, lo * ng))
            if n == 12:
                delta = 100.0
                eps = float(gen.f(ctx, ng * (3e-6 if ctx.mode == 64 else 0.02)))
            ctx.call("steih", lambda: {"sub": esub(m, jf(jnp.asarray(g), jnp.asarray(H), jnp.asarray(delta), jnp.asarray(eps)))},
                     g=enc.vec(g), H=enc.mat(H), delta=enc.num(delta), eps=enc.num(eps), cg=cg if cg is not None else 10 * n, loose=0)
    # badly conditioned: more iterations than dimensions
    for i, r in ctx.cases("steihend", ctx.n(6, 40)):
        n = int(r.choice([2, 3, 4, 6]))
        lay = ["vec", "dict", "scalars"][i % 3]
        m = Lay(n, lay)
        cg = [None, None, None, n + 2][i % 4]
        big = 10.0 if ctx.mode == 64 else 3.0

        def fe(g, H, delta, eps):
            kw = {"maxiter": cg} if cg is not None else {}
            return T.steihaug(pack(lay, g), lambda v: pack(lay, H @ jnp.stack(unpack(lay, v, n))), delta, eps, unroll=False, **kw)
        jf = jax.jit(fe)
        for j in range(6):
            Qm = np.linalg.qr(r.normal(size=(n, n)))[0]
            H = Qm @ np.diag(big ** -np.linspace(0, r.uniform(5, 9), n)) @ Qm.T
            H = gen.f(ctx, (H + H.T) / 2)
            g = gen.f(ctx, r.normal(size=n))
            delta = float(gen.f(ctx, r.choice([1e12, 1e3, 10.0]) * np.linalg.norm(g)))
            eps = float(gen.f(ctx, np.linalg.norm(g) * (1e-9 if ctx.mode == 64 else 1e-5)))
            ctx.call("steihend", lambda: {"sub": esub(m, jf(jnp.asarray(g), jnp.asarray(H), jnp.asarray(delta), jnp.asarray(eps)))},
                     g=enc.vec(g), H=enc.mat(H), delta=enc.num(delta), eps=enc.num(eps), cg=cg if cg is not None else 10 * n, loose=0)
    if ctx.part == 0:
        # zero tolerance: exactly solvable subproblems
        m = Lay(2, "vec")
        for g in ([0.0, 0.0], [1.0, 2.0], [4.0, 0.0]):
            ctx.call("steih", lambda: {"sub": esub(m, T.steihaug(jnp.asarray(g), lambda v: 2.0 * v, 10.0, 0.0))},
                     g=enc.vec(g), H=enc.mat(2 * np.eye(2)), delta=enc.num(10.0), eps=enc.num(0.0), cg=20, loose=0)
    scen = [s for s in ctx.scen["tr"] if any(x.split("-")[1:2] in (["boundary"], ["curvature"], ["limit"]) for x in s["sig"])]
    byc = {}
    for s in scen:
        byc.setdefault(str(s["cf"]), []).append(s)
    for (k, ss), r in ctx.cases("sub-hist", sorted(byc.items())):
        m = Machine(2, conf(ss[0]["cf"]), layout=["vec", "dict", "nest"][int(r.integers(0, 3))])
        for s in ctx.sample("sub" + k, ss, ctx.n(16, 100)):
            c = coefs(ctx, 2, [(a / b, e) for a, b, e in s["obj"]])
            history(ctx, m, [a / b for a, b in s["x"]], ["u"] * 4, data_for(ctx, r, 2, c, False, False))


# ---------------------------------------------------------------- C04
def runs(ctx):
    combos = []
    for i in range(ctx.n(30, 160)):
        combos.append(i)
    for i, r in ctx.cases("run", combos):
        pres = dict(PRES[i % len(PRES)])
        n = 2 + int(r.integers(0, 2))
        opts, loose, damp = {}, 0, None
        kind = ["plain", "damp", "fd", "unroll", "nojit", "fd3", "plain", "damp"][(i // 2) % 8]
        cfg = conf({}, tol=float(r.choice([1e-2, 1e-1, 1e-3])), init=float(r.choice([1.0, 0.3])), cg=[None, 2, 3][int(r.integers(0, 3))])
        maxiter = int(r.choice([1, 2, 3, 5, 12]))
        if i % 5 == 4:                 # the radius collapses on the way
            cfg.update(min=0.2, init=4.0, max=4.0, dec=0.9, acc=0.5, inc=0.95, decf=0.2)
            pres, maxiter = dict(PRES[3 + i // 5 % 2]), int(r.choice([3, 6, 9]))
        if ctx.mode == 32:
            cfg["tol"] = max(cfg["tol"], 0.1)
        if kind == "damp":
            damp = float(r.choice([0.5, 0.125, 2.0, 0.03]))
            opts["damping_factor"] = damp
        if kind in ("fd", "fd3"):
            opts.update(approx_hvp=True)
            if ctx.mode == 32 or r.integers(0, 2):
                opts.update(fd_h=0.25 if kind == "fd" else 1e-3)
            if kind == "fd3":
                loose = 1
                if ctx.mode == 32:
                    continue
        if kind == "unroll":
            opts.update(unroll=True)
            cfg["cg"], maxiter = 2, min(maxiter, 3)
            if ctx.part % 2:
                opts["unroll"] = False
        if kind == "nojit":
            opts.update(jit=False)
            cfg["cg"], maxiter = 2, 2
        opts["maxiter"] = maxiter
        seen = []
        m = Machine(n, cfg, callback=lambda s: seen.append(s), **pres, **opts)
        terms = rand_terms(r, n, ["convex", "indef", "flat"][i % 3])
        if kind == "fd":
            terms = [(v, e) for v, e in terms if sum(e) <= 2]
        for rep in range(3 if kind not in ("nojit", "unroll") else 1):
            c = coefs(ctx, n, [(v * (1 + 0.2 * rep), e) for v, e in terms])
            data = data_for(ctx, r, n, c, m.solver.value_and_grad, m.aux)
            if i % 5 == 4 and rep != 1:
                data = (gen.f(ctx, -0.25 * data[0]), data[1], data[2])
            dj = [None if z is None else jnp.asarray(z) for z in data]
            x = gen.f(ctx, r.normal(size=n))
            onerun(ctx, m, x, data, dj, seen, maxiter, damp, loose, rep)
    # presentation of single updates
    for i, r in ctx.cases("pres", ctx.n(10, 60)):
        pres = dict(PRES[i % len(PRES)])
        opts = [dict(), dict(damping_factor=0.5), dict(approx_hvp=True), dict(verbose=0)][i % 4]
        m = Machine(2, conf({}, tol=1e-3), **pres, **opts)
        t = rand_terms(r, 2, ["convex", "indef"][i % 2])
        if "approx_hvp" in opts:
            if ctx.mode == 32:
                continue
            t = [(v, e) for v, e in t if sum(e) <= 2]
        for j in range(3):
            c = coefs(ctx, 2, t)
            history(ctx, m, r.normal(size=2), ["u"] * 4, data_for(ctx, r, 2, c, m.solver.value_and_grad, m.aux), damp=opts.get("damping_factor"))


def onerun(ctx, m, x, data, dj, seen, maxiter, damp, loose, rep):
    ebegin(ctx, m, damp)
    fm = {"loose": loose, "exact": False, "cb": True}
    p = pack(m.layout, x)
    st = guard(ctx, m, "init", lambda: m.call(m.ini, (p,), dj))
    if st is None:
        return
    ctx.log("init", x=enc.vec(flat(m.layout, p, m.n)), st=est(m, st), re=False, **efun(m, data), **fm)
    seen.clear()
    start = p
    k0 = 0
    for cont in range(2 if rep == 1 else 1):
        r = guard(ctx, m, "run", lambda: m.call(m.solver.run, (start,), dj))
        if r is None:
            return
        jax.effects_barrier()
        if cont:
            st = guard(ctx, m, "init", lambda: m.call(m.ini, (start,), dj))
            ctx.log("init", x=enc.vec(flat(m.layout, start.params, m.n)), st=est(m, st), re=True, **efun(m, data), **fm)
        log = [OptStep(*s) for s in seen]
        seen.clear()
        cur = start.params if cont else p
        for s in log:
            ctx.log("update", x=enc.vec(flat(m.layout, cur, m.n)), y=enc.vec(flat(m.layout, s.params, m.n)), st=est(m, T.TrState(*s.state)), **efun(m, data), **fm)
            cur = s.params
        ctx.log("run", y=enc.vec(flat(m.layout, r.params, m.n)), st=est(m, r.state), maxiter=maxiter, counted=len(log), hascount=True)
        start = r


# ---------------------------------------------------------------- C29
def sensitivities(ctx):
    """C29: derivatives of a run's parameters; objectives perturbed along model histories, restarted from the last optimum."""
    scen = ctx.scen["sens"]
    presets = [dict(layout="vec"), dict(layout="dict"), dict(layout="scalars", aux=True), dict(layout="nest", vg=True),
               dict(layout="mat", vg=True, aux=True), dict(layout="vec", aux=True)]
    extra = [dict(), dict(damping_factor=0.5), dict(approx_hvp=True), dict(), dict(unroll=False), dict(verbose=0), dict(implicit_diff=True)]
    for i, r in ctx.cases("sens", ctx.n(12, 60)):
        pre, opt = presets[i % len(presets)], dict(extra[(i + ctx.seed) % len(extra)])
        if ctx.mode == 32:
            opt.pop("approx_hvp", None)
        tol = 1e-7 if ctx.mode == 64 else 1e-3
        n = 2 if i % 2 == 0 else int(r.choice([1, 3]))
        if n == 1 and pre["layout"] in ("nest", "dict"):
            n = 2
        m = Machine(n, conf({}, tol=tol, min=1e-6), **pre, maxiter=200, **opt)

        def res(c, q, A, p):
            return m.call(m.solver.run, (p,), (c, q, A)).params
        vec = lambda t: jnp.stack([jnp.reshape(z, ()) for z in unpack(m.layout, t, n)])
        ju = jax.jit(res)

        def both(c, q, A, p, m=m):
            f = lambda c, q, p: vec(res(c, q, A, p))
            return vec(res(c, q, A, p)), jax.jacrev(f, argnums=(0, 1, 2) if m.solver.value_and_grad else (0, 2))(*((c, q, p) if m.solver.value_and_grad else (c, q, p)))
        jb = jax.jit(both)
        for rep in range(ctx.n(3, 8)):
            if n == 2 and rep < 2:
                s = ctx.sample("sens", scen, 400)[int(r.integers(0, min(400, len(scen))))]
                terms, acts = [(a / b, tuple(e)) for (a, b), e in s["ob"]], [(tuple(e), a / b) for e, (a, b) in s["acts"]]
            else:
                terms = [t for t in rand_terms(r, n, "convex") if sum(t[1]) <= 2]
                terms += [(float(r.uniform(0.0, 0.2)), tuple(4 * (j == k) for j in range(n))) for k in range(n) if tuple(4 * (j == k) for j in range(n)) in MONOS[n]]
                acts = [(MONOS[n][int(r.integers(0, len(MONOS[n])))], float(r.normal() * 0.1)) for _ in range(3)]
            c = coefs(ctx, n, terms)
            p = pack(m.layout, gen.f(ctx, r.normal(size=n)))
            for e, d in [(None, 0.0)] + acts:
                if e is not None:
                    c = gen.f(ctx, c + coefs(ctx, n, [(d, e)]))
                cP, cQ, cA = data_for(ctx, r, n, c, m.solver.value_and_grad, m.aux)
                dj = [None if z is None else jnp.asarray(z) for z in (cP, cQ, cA)]
                try:
                    y = flat(m.layout, ju(*dj, p), n)
                    x, J = jb(*dj, p)
                except Exception as ex:  # noqa: BLE001
                    ctx.emit("sens", exc=type(ex).__name__ + ": " + str(ex)[:160].replace("\n", " "))
                    break
                x = np.asarray(x)
                if not np.all(np.isfinite(x)) or np.abs(x).max() > 20:
                    break
                H = np.asarray(jax.hessian(lambda z: poly(n, jnp.asarray(c), [z[k] for k in range(n)]))(jnp.asarray(x)))
                ev = np.linalg.eigvalsh(H)
                if ev[0] < 0.05 * ev[-1] or ev[0] < 0.05:
                    break                    # not a well-posed minimum
                Jc, Z = np.asarray(J[0]), [np.asarray(vec2).reshape(-1) for vec2 in jax.tree_util.tree_leaves(J[-1])]
                if m.solver.value_and_grad:
                    Z, Jc = Z + [Jc.reshape(-1)], np.asarray(J[1])
                ctx.emit("sens", x=enc.vec(x), y=enc.vec(y), tol=enc.num(tol), Q=pe(n, c), J=[[list(e), enc.vec(Jc[:, k])] for k, e in enumerate(MONOS[n]) if sum(e)],
                         Z=[enc.vec(z) for z in Z], loose=0)
                p = pack(m.layout, gen.f(ctx, x))

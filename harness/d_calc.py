import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np

from magpi import calc, utils

from . import enc, gen, polys

NAMES = [("x", "y", "z"), ("pos", "time", "q"), ("xs", "x", "s"), ("a", "ab", "abc"), ("z", "y", "x")]


def split(sizes, x):
    """Arguments of the layout from a flat point: scalars and vectors."""
    out, k = [], 0
    for s in sizes:
        out.append(jnp.asarray(x[k]) if s == 1 else jnp.asarray(x[k:k + s]))
        k += s
    return out


def flat(args):
    return [a if a.ndim == 0 else a[i] for a in map(jnp.asarray, args) for i in range(max(1, a.size if a.ndim else 1))]


def extras(r, x):
    """Trailing values as one vector argument or as several scalar ones."""
    if len(x) == 0:
        return []
    return [jnp.asarray(v) for v in x] if len(x) > 1 and r.integers(0, 2) else [jnp.asarray(x)]


def out_of(vals, form):
    """Output structures: scalar, vector, matrix, tree."""
    if form == "scalar":
        return vals[0]
    if form == "vec":
        return jnp.stack(vals)
    if form == "mat":
        return jnp.stack(vals).reshape(2, -1)
    return {"a": vals[0], "b": (jnp.stack(vals[1:]),)}


NOUT = {"scalar": 1, "vec": 3, "mat": 4, "tree": 3}


def leaves(t):
    ls = jax.tree_util.tree_leaves(t)
    return [v for l in ls for v in enc.vec(l)]


def same(t, u):
    a, b = jax.tree_util.tree_structure(t), jax.tree_util.tree_structure(u)
    return bool(a == b and [np.shape(z) for z in jax.tree_util.tree_leaves(t)] == [np.shape(z) for z in jax.tree_util.tree_leaves(u)])


def function(sizes, names, ps, form, kw=False):
    ns = names[:len(sizes)]
    env = {"body": lambda args, scale: out_of([p(flat(args)) * scale for p in ps], form)}
    tail = ", *, scale=1.0" if kw else ""
    sc = "scale" if kw else "1.0"
    exec(f"def f({', '.join(ns)}{tail}):\n    return body([{', '.join(ns)}], {sc})", env)
    return env["f"]


def partials(ctx):
    scen = ctx.scen["requests"]
    by = {}
    for s in scen:
        by.setdefault((tuple(s["sizes"]), len(s["reqs"])), []).append(s)
    items = []
    for key in sorted(by):
        items += ctx.sample("req%s" % (key,), by[key], ctx.n(9, 80))
    # single requests: all of them, in every form
    singles = [s for s in scen if len(s["reqs"]) == 1]
    for s, r in ctx.cases("single", singles * (3 if not ctx.thorough else 10)):
        one(ctx, s, r)
    for s, r in ctx.cases("multi", items):
        one(ctx, s, r)
    for i, r in ctx.cases("elem", ctx.n(20, 100)):
        elementwise(ctx, r, i)
    for i, r in ctx.cases("mod", ctx.n(18, 80)):
        module_derivative(ctx, r, i)


def one(ctx, s, r):
    sizes, reqs = s["sizes"], s["reqs"]
    n = sum(sizes)
    names = NAMES[int(r.integers(0, len(NAMES)))]
    form = ["scalar", "scalar", "vec", "tree"][int(r.integers(0, 4))]
    ps = [polys.rand(r, n) for _ in range(NOUT[form])]
    x = polys.point(ctx, r, n)
    args = split(sizes, x)
    kw = bool(r.integers(0, 3) == 0)
    scale = float(r.choice([2.0, -0.5, 4.0])) if kw else 1.0
    f = function(sizes, names, ps, form, kw)
    kwargs = {"scale": scale} if kw else {}
    wrt, argnums, dirs = [], [], []
    for q in reqs:
        if q[0] == "comp":
            wrt.append(q[2] - 1)
            argnums.append(q[1] - 1)
            dirs.append([])
        elif q[0] == "arg":
            wrt.append(names[q[1] - 1] if r.integers(0, 2) else q[1] - 1)
            argnums.append(None)
            dirs.append([])
        else:
            d = gen.f(ctx, np.round(r.uniform(-2, 2, size=n) * 8) / 8)
            dirs.append(enc.vec(d))
            wrt.append(split(sizes, d))
            argnums.append(None)
    fld = dict(f=[p.scale(scale).enc() for p in ps], x=enc.vec(x), sizes=sizes, reqs=reqs, dirs=dirs, form=form)
    forms = ["seq"]
    if len(reqs) == 1:
        forms += ["value"]
        if reqs[0][0] == "arg" and isinstance(wrt[0], int):
            forms += ["direct", "single"]
        elif reqs[0][0] == "arg":
            forms += ["single"]
        elif reqs[0][0] == "comp":
            forms += ["single", "intnums"]
        elif reqs[0][0] == "dir":
            forms += ["seq"]
    elif all(q[0] == "comp" for q in reqs) and len(set(argnums)) == 1:
        forms += ["samearg"] * 3
    style = forms[int(r.integers(0, len(forms)))]
    jit = bool(r.integers(0, 5) == 0)

    def run():
        if style == "direct":
            df = calc.derivative(f, wrt[0]) if wrt[0] or r.integers(0, 2) else calc.derivative(f)
        elif style == "single":
            df = calc.derivative(wrt[0], argnums=argnums[0])(f) if argnums[0] is not None else calc.derivative(wrt[0])(f)
        elif style == "intnums":
            df = calc.derivative([wrt[0]], argnums=argnums[0])(f)
        elif style == "samearg":
            df = calc.derivative(wrt, argnums=argnums[0])(f)
        elif style == "value":
            w = calc.value_and_derivative(f, wrt[0], argnum=argnums[0]) if argnums[0] is not None else calc.value_and_derivative(f, wrt[0])
            w = jax.jit(w) if jit else w
            v, d = w(*args, **kwargs)
            y = f(*args, **kwargs)
            return {"val": leaves(v), "res": leaves(d), "shape": same(y, d) and same(y, v)}
        else:
            if all(a is None for a in argnums) and r.integers(0, 2):
                df = calc.derivative(tuple(wrt) if r.integers(0, 2) else wrt)(f)
            else:
                df = calc.derivative(wrt, argnums=argnums)(f)
        df = jax.jit(df) if jit else df
        d = df(*args, **kwargs)
        return {"res": leaves(d), "shape": same(f(*args, **kwargs), d)}
    ctx.call("vderiv" if style == "value" else "deriv", run, style=style, jit=jit, wrt=str(wrt)[:80], **fld)


def elementwise(ctx, r, i):
    n = 1 + i % 3
    p = polys.rand(r, n)
    names = NAMES[i % len(NAMES)][:n]
    f = function([1] * n, names, [p], "scalar")
    env = {"body": lambda args: p(args)}
    exec(f"def f({', '.join(names)}):\n    return body([{', '.join(names)}])", env)
    f = env["f"]
    shp = [(4,), (2, 3), (3, 1)][i % 3]
    xs = [gen.f(ctx, r.uniform(-2, 2, size=shp)) for _ in range(n)]
    k = int(r.integers(1, 3))
    reqs = [["arg", int(r.integers(1, n + 1))] for _ in range(k)]
    wrt = [names[q[1] - 1] if r.integers(0, 2) else q[1] - 1 for q in reqs]
    pts = np.stack([x.ravel() for x in xs], -1)

    def run():
        d = calc.derivative(wrt)(f)(*map(jnp.asarray, xs))
        return {"res": enc.vec(d), "shape": bool(np.shape(d) == shp)}
    ctx.call("elem", run, f=[p.enc()], x=enc.vec(pts[0]), xs=[enc.vec(q) for q in pts], sizes=[1] * n, reqs=reqs, dirs=[[] for _ in reqs])


class PolyModule(nn.Module):
    """Polynomials whose coefficients are the parameters."""
    ps: tuple
    form: str = "scalar"

    @nn.compact
    def __call__(self, x, *extra, scale=1.0):
        xs = flat([x, *extra])
        vals = []
        for j, p in enumerate(self.ps):
            c = self.param(f"c{j}", lambda k: jnp.asarray([t[0] for t in p]))
            out = 0.0 * xs[0]
            for q, (_, e) in enumerate(p):
                t = c[q]
                for i, m in enumerate(e):
                    if m:
                        t = t * xs[i] ** m
                out = out + t
            vals.append(out * scale)
        return out_of(vals, self.form)


def module_of(ps, form):
    return PolyModule(tuple(tuple((c, tuple(e)) for c, e in p.terms) for p in ps), form)


def module_derivative(ctx, r, i):
    n = 1 + i % 2
    form = ["scalar", "vec"][i % 2]
    ps = [polys.rand(r, n) for _ in range(NOUT[form])]
    m = module_of(ps, form)
    x = polys.point(ctx, r, n)
    xa = jnp.asarray(x[0]) if n == 1 else jnp.asarray(x)
    params = m.init(jax.random.PRNGKey(0), xa)
    fld = dict(f=[p.enc() for p in ps], x=enc.vec(x), sizes=[n], dirs=[[]], form=form)

    def run():
        if i % 3 == 0:
            v, d = calc.value_and_derivative(m, 0)(xa, params)
        elif i % 3 == 1:
            v, d = m.apply(params, xa), calc.derivative(m)(xa, params)
        else:
            v, d = m.apply(params, xa), calc.derivative(m, 0)(xa, params)
        return {"res": leaves(d), "val": leaves(v), "shape": same(v, d)}
    ctx.call("vderiv", run, reqs=[["arg", 1]], **fld)


# ---------------------------------------------------------------- C12
def operators(ctx):
    for i, r in ctx.cases("lap", ctx.n(60, 400)):
        laplacian(ctx, r, i)
    for i, r in ctx.cases("div", ctx.n(50, 400)):
        diverg(ctx, r, i)
    for i, r in ctx.cases("curl", ctx.n(40, 400)):
        curl(ctx, r, i)


def wrap(i, f):
    """Eager or compiled."""
    return jax.jit(f) if i % 4 == 3 else f


def laplacian(ctx, r, i):
    n = [0, 1, 2, 3, 4][i % 5]
    nv = max(n, 1)
    extra = [0, 1, 2][int(r.integers(0, 3))]
    form = ["scalar", "vec", "mat", "tree"][int(r.integers(0, 4))]
    ps = [polys.rand(r, nv + extra) for _ in range(NOUT[form])]
    x = polys.point(ctx, r, nv + extra)
    kw = bool(r.integers(0, 3) == 0)
    scale = float(r.choice([2.0, -0.5])) if kw else 1.0
    fld = dict(f=[p.scale(scale).enc() for p in ps], x=enc.vec(x), lo=1, n=nv, form=form)
    xa = float(x[0]) if n == 0 else jnp.asarray(x[:n])
    ex = extras(r, x[nv:])
    kwargs = {"scale": scale} if kw else {}
    mod = i % 7 == 6
    batch = i % 11 == 10

    def f(z, *e, scale=1.0):
        return out_of([p(flat([z, *e])) * scale for p in ps], form)

    def run():
        y = f(jnp.asarray(xa), *ex, **kwargs)
        if mod:
            m = module_of(ps, form)
            params = m.init(jax.random.PRNGKey(0), jnp.asarray(xa), *ex)
            d = wrap(i, calc.laplace(m))(jnp.asarray(xa), params, *ex, **kwargs)
        elif batch and n:
            g = jax.vmap(lambda z: calc.laplace(f)(z, *ex, **kwargs))(jnp.stack([jnp.asarray(xa) + 1, jnp.asarray(xa)]))
            d = jax.tree_util.tree_map(lambda t: t[1], g)
        else:
            d = wrap(i, calc.laplace(f))(xa, *ex, **kwargs)
        return {"res": leaves(d), "shape": same(y, d)}
    ctx.call("lap", run, **fld)
    if i % 3 == 0:
        def rund():
            d = calc.hessian_diag(lambda z: f(z, *ex, **kwargs), xa)
            y = f(jnp.asarray(xa), *ex, **kwargs)
            per = [np.asarray(l).reshape(nv, -1) for l in jax.tree_util.tree_leaves(d)]
            ok = all(np.shape(l) == (nv, *np.shape(z)) for l, z in zip(jax.tree_util.tree_leaves(d), jax.tree_util.tree_leaves(y)))
            return {"res": enc.vec(np.concatenate(per, axis=1)), "shape": bool(ok)}
        ctx.call("hdiag", rund, **fld)


def field(vals, n, form):
    if form == "vec":
        return jnp.stack(vals)
    if form == "batch":
        return jnp.stack(vals).reshape(-1, n)
    if form == "deep":
        return jnp.stack(vals).reshape(2, 1, n)
    h = len(vals) // 2
    return (jnp.stack(vals[:h]), {"b": jnp.stack(vals[h:]).reshape(1, n)}) if form == "tree" else None


def diverg(ctx, r, i):
    n = [1, 2, 3, 4][i % 4]
    form = ["vec", "batch", "tree"][int(r.integers(0, 3))]
    nf = {"vec": 1, "batch": 3, "tree": 2}[form]
    # argument layout: before, differentiated, after
    argnums = int(r.integers(0, 2)) if i % 3 == 0 else 0
    pre = 2 if argnums == 1 else 0
    post = int(r.integers(0, 3))
    nv = pre + n + post
    ps = [polys.rand(r, nv) for _ in range(nf * n)]
    x = polys.point(ctx, r, nv)
    kw = bool(r.integers(0, 3) == 0)
    scale = float(r.choice([2.0, -0.5])) if kw else 1.0
    args = ([jnp.asarray(x[:pre])] if pre else []) + [jnp.asarray(x[pre:pre + n])] + extras(r, x[pre + n:])
    kwargs = {"scale": scale} if kw else {}

    def f(*a, scale=1.0):
        return field([p(flat(a)) * scale for p in ps], n, form)
    fld = dict(f=[p.scale(scale).enc() for p in ps], x=enc.vec(x), lo=pre + 1, n=n, form=form)
    mod = i % 6 == 5 and argnums == 0 and form == "vec"

    def run():
        y = f(*args, **kwargs)
        want = jax.tree_util.tree_map(lambda t: jnp.sum(t, -1), y)
        if mod:
            m = module_of(ps, "vec")
            params = m.init(jax.random.PRNGKey(0), *args)
            a = [args[0], params, *args[1:]]
            v, d = wrap(i, calc.value_and_divergence(m))(*a, **kwargs)
            d2 = calc.divergence(m)(*a, **kwargs)
        else:
            op = calc.value_and_divergence(f, argnums) if argnums else calc.value_and_divergence(f)
            v, d = wrap(i, op)(*args, **kwargs)
            d2 = (calc.divergence(f, argnums) if argnums else calc.divergence(f))(*args, **kwargs)
        return {"res": leaves(d), "val": leaves(v), "hasval": True, "shape": same(want, d) and same(y, v), "res2": leaves(d2)}
    out = ctx.call("div", run, **fld)
    if out:
        ctx.emit("div", **fld, res=out["res2"], hasval=False, shape=True)


def curl(ctx, r, i):
    n = 2 + i % 2
    form = ["vec", "batch", "tree", "deep"][int(r.integers(0, 4))]
    nf = {"vec": 1, "batch": 3, "tree": 2, "deep": 2}[form]
    post = int(r.integers(0, 3))
    nv = n + post
    ps = [polys.rand(r, nv) for _ in range(nf * n)]
    x = polys.point(ctx, r, nv)
    args = [jnp.asarray(x[:n])] + extras(r, x[n:])

    def f(*a):
        return field([p(flat(a)) for p in ps], n, form)
    mod = i % 5 == 4 and form == "vec"
    batch = i % 7 == 6

    def run():
        y = f(*args)
        want = y if n == 3 else jax.tree_util.tree_map(lambda t: jnp.sum(t, -1), y)
        if mod:
            m = module_of(ps, "vec")
            params = m.init(jax.random.PRNGKey(0), *args)
            d = calc.curl(m)(args[0], params, *args[1:])
        elif batch:
            g = jax.vmap(lambda z: calc.curl(f)(z, *args[1:]))(jnp.stack([args[0] + 1, args[0]]))
            d = jax.tree_util.tree_map(lambda t: t[1], g)
        else:
            d = wrap(i, calc.curl(f))(*args)
        return {"res": leaves(d), "shape": same(want, d)}
    ctx.call("curl", run, f=[p.enc() for p in ps], x=enc.vec(x), n=n, form=form)


# ---------------------------------------------------------------- C13
TREES = {
    "arr": lambda x: jnp.asarray(x),
    "tup": lambda x: (jnp.asarray(x[:1]), jnp.asarray(x[1:])),
    "dict": lambda x: {"b": jnp.asarray(x[1:]), "a": jnp.asarray(x[0])},
    "nest": lambda x: {"w": [jnp.asarray(x[:2]).reshape(2, 1), jnp.asarray(x[2:])]},
}


def tflat(t):
    return [v for l in jax.tree_util.tree_leaves(t) for v in (jnp.ravel(jnp.asarray(l))[k] for k in range(np.size(l)))]


def curvature(ctx):
    for i, r in ctx.cases("hvp", ctx.n(90, 700)):
        hvp(ctx, r, i)
    for i, r in ctx.cases("jac", ctx.n(50, 400)):
        jac(ctx, r, i)
    for i, r in ctx.cases("funs", ctx.n(16, 120)):
        funs(ctx, r, i)


def funs(ctx, r, i):
    """An objective with or without supplied gradients and auxiliary outputs, split into its three parts."""
    has_aux, vag = bool(i & 1), bool(i & 2)
    n = int(r.integers(2, 5))
    tree = list(TREES)[int(r.integers(0, 4))]
    if tree == "nest" and n < 3:
        tree = "dict"
    extra = int(r.integers(0, 3))
    p, aux_p = polys.rand(r, n + extra), polys.rand(r, n + extra, deg=2)
    x = polys.point(ctx, r, n + extra)
    e = extras(r, x[n:])
    scale = 2.0 if r.integers(0, 2) else 1.0
    kwargs = {"scale": scale} if scale != 1.0 else {}

    def f(z, *a, scale=1.0):
        xs = tflat(z) + tflat(list(a))
        y = p(xs) * scale
        return (y, {"aux": aux_p(xs)}) if has_aux else y

    fn = jax.value_and_grad(f, has_aux=has_aux) if vag else f
    xa = TREES[tree](x[:n])
    meta = dict(f=[p.scale(scale).enc()], x=enc.vec(x), n=n, given=vag)
    for part in range(3):
        def run():
            op = utils.make_funs_with_aux(fn, vag, has_aux)[part]
            o = (jax.jit(op) if i % 5 == 4 else op)(xa, *e, **kwargs)
            (val, aux), grad = [(o, None), ((None, o[1]), o[0]), o][part]
            out = {"hasaux": has_aux}
            if has_aux:
                out.update(aux=leaves(aux), auxf=[aux_p.enc()])
            ok = (has_aux or aux is None) and (part == 0 or same(grad, xa)) and (part == 1 or np.shape(val) == ())
            return dict(out, val=[] if part == 1 else leaves(val), grad=leaves(grad) if part else [], shape=bool(ok))
        ctx.call("funs", run, part=part, **meta)


def hvp(ctx, r, i):
    n = int(r.integers(2, 5))
    kind = ["hvp", "for", "ror", "lin", "hvp2", "hvpvec"][i % 6]
    tree = list(TREES)[int(r.integers(0, 4))]
    if tree == "nest" and n < 3:
        tree = "dict"
    mk = TREES[tree]
    extra = int(r.integers(0, 3))
    p = polys.rand(r, n + extra)
    aux_p = polys.rand(r, n + extra, deg=2)
    x = polys.point(ctx, r, n + extra)
    e = extras(r, x[n:]) if kind != "hvp2" else ([jnp.asarray(x[n:])] if extra else [])
    kw = bool(r.integers(0, 3) == 0) and kind in ("for", "ror", "lin")
    scale = 2.0 if kw else 1.0
    kwargs = {"scale": scale} if kw else {}
    v = gen.f(ctx, np.round(r.uniform(-3, 3, size=n) * 8) / 8)
    if r.integers(0, 6) == 0:
        v[1:] = 0
    has_aux = bool(r.integers(0, 2)) and kind in ("for", "ror", "lin")
    vag = bool(r.integers(0, 2)) and kind in ("for", "ror", "lin")
    alpha = float(r.choice([0.0, 0.5, 2.0, -1.0])) if (kind == "for" and r.integers(0, 2)) else None
    jit = i % 5 == 4

    def base(z, *a, scale=1.0):
        xs = tflat(z) + tflat(list(a))
        return p(xs) * scale, aux_p(xs)

    def f(z, *a, scale=1.0):
        y, aux = base(z, *a, scale=scale)
        return (y, {"aux": aux}) if has_aux else y

    fn = jax.value_and_grad(f, has_aux=has_aux) if vag else f
    xa, va = mk(x[:n]), mk(v)
    flags = dict(value_and_grad=vag, has_aux=has_aux) if kind in ("for", "ror", "lin") else {}
    if flags and not vag and not has_aux and r.integers(0, 2):
        flags = {}
    vv = v
    fs = [p.scale(scale).enc()]

    def run():
        out = {"hasval": False, "hasaux": False}
        if kind == "hvp":
            g = lambda z: f(z, *e)
            h = (lambda: calc.hvp(g, [xa], [va])) if not jit else jax.jit(lambda: calc.hvp(g, [xa], [va]))
            res = h()
        elif kind == "hvpvec":
            g = lambda z: jnp.stack([p(tflat(z) + tflat(e)), aux_p(tflat(z) + tflat(e))])
            res = calc.hvp(g, [jnp.asarray(x[:n])], [jnp.asarray(v)])
            return dict(out, res=leaves(res), shape=bool(np.shape(res) == (2, n)))
        elif kind == "hvp2":
            # second primal with its own tangent
            if not e:
                res = calc.hvp(lambda z: p(tflat(z)), (xa,), (va,))
            else:
                res = calc.hvp(lambda z, w: p(tflat(z) + tflat(w)), [xa, e[0]], [va, jnp.ones_like(e[0])])
        elif kind == "for":
            call = lambda a, t: calc.hvp_forward_over_reverse(fn, [a], [t], *e, **({} if alpha is None else {"alpha": alpha}), **flags, **kwargs)
            res = (jax.jit(call) if jit else call)(xa, va)
        elif kind == "ror":
            call = lambda a, t: calc.hvp_reverse_over_reverse(fn, [a], [t], *e, **flags, **kwargs)
            res = (jax.jit(call) if jit else call)(xa, va)
        else:
            def call(a, t):
                o = calc.value_grad_hvp(fn, a, *e, **flags, **kwargs)
                return (*o[:2], o[2](t), o[2](jax.tree_util.tree_map(lambda q: 2 * q, t)), *o[3:])
            o = (jax.jit(call) if jit else call)(xa, va)
            res = o[2]
            ok = same(o[1], xa) and len(o) == (5 if has_aux else 4)
            twice = np.allclose(np.concatenate([np.ravel(l) for l in jax.tree_util.tree_leaves(o[3])]),
                                2 * np.concatenate([np.ravel(l) for l in jax.tree_util.tree_leaves(o[2])]), rtol=1e-4)
            out.update(hasval=True, val=leaves(o[0]), grad=leaves(o[1]))
            if has_aux:
                out.update(hasaux=True, aux=leaves(o[4]), auxf=[aux_p.enc()])
            return dict(out, res=leaves(res), shape=bool(same(res, xa) and ok and twice))
        return dict(out, res=leaves(res), shape=same(res, xa))
    if kind == "hvpvec":
        fs = [p.enc(), aux_p.enc()]
    if kind == "hvp2" and not e:
        pass
    vfull = np.concatenate([vv, np.ones(extra) if kind == "hvp2" else np.zeros(extra)])
    ctx.call("hvp", run, f=fs, x=enc.vec(x), n=n, v=enc.vec(vfull), alpha=enc.num(alpha or 0.0), kind=kind, tree=tree)


def jac(ctx, r, i):
    mode = [calc.value_and_jacfwd, calc.value_and_jacrev][i % 2]
    sizes = [[2], [1, 2], [2, 1, 2], [3]][int(r.integers(0, 4))]
    n = sum(sizes)
    form = ["scalar", "vec", "mat", "tree"][int(r.integers(0, 4))]
    ps = [polys.rand(r, n) for _ in range(NOUT[form])]
    aux_p = polys.rand(r, n, deg=2)
    x = polys.point(ctx, r, n)
    args = split(sizes, x)
    has_aux = bool(r.integers(0, 2))
    kw = bool(r.integers(0, 3) == 0)
    scale = 2.0 if kw else 1.0
    kwargs = {"scale": scale} if kw else {}
    k = int(r.integers(0, 4))
    which = [0]
    if k == 1:
        which = [len(sizes) - 1]
    elif k >= 2 and len(sizes) > 1:
        which = [int(j) for j in r.permutation(len(sizes))[:2]]
    argnums = which[0] if len(which) == 1 else tuple(which)
    off = np.cumsum([0] + sizes)

    def f(*a, scale=1.0):
        y = out_of([p(flat(a)) * scale for p in ps], form)
        return (y, {"aux": aux_p(flat(a))}) if has_aux else y

    def run():
        op = mode(f, has_aux=has_aux) if argnums == 0 and i % 3 else mode(f, argnums, has_aux)
        op = jax.jit(op) if i % 5 == 4 else op
        y, J = op(*args, **kwargs)
        out = {"hasaux": has_aux}
        if has_aux:
            y, aux = y
            out.update(aux=leaves(aux), auxf=[aux_p.enc()])
        y0 = f(*args, **kwargs)
        y0 = y0[0] if has_aux else y0
        ok = same(y, y0)
        res = []
        for pos, a in enumerate(which):
            want = jax.tree_util.tree_map(lambda l: np.zeros((*np.shape(l), *np.shape(args[a]))), y0)
            Ja = jax.tree_util.tree_map(lambda _, j: j[pos] if len(which) > 1 else j, y0, J)
            ok = ok and same(want, Ja)
            res.append(leaves(Ja))
        return dict(out, val=leaves(y), res=res, shape=bool(ok))
    ctx.call("jac", run, f=[p.scale(scale).enc() for p in ps], x=enc.vec(x), n=n,
             vars=[[int(q) for q in range(off[a] + 1, off[a + 1] + 1)] for a in which], fwd=i % 2 == 0)

"""B-spline bases, generated grids and spline activations."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import spline

from . import enc, gen


def knots(ctx, r, gaps, scale=None):
    """A knot vector with these gaps, exactly representable."""
    t = np.concatenate([[0.0], np.cumsum(gaps)])
    if scale is None:
        scale = float(r.choice([1.0, 0.5, 0.25, 2.0]))
    return gen.f(ctx, t * scale + float(r.integers(-8, 9)) / 4)


def random_knots(ctx, r, n):
    kind = int(r.integers(0, 4))
    if kind == 0:
        g = r.uniform(0.1, 1.0, n - 1)
    elif kind == 1:
        g = r.integers(0, 3, n - 1) * 0.5
    elif kind == 2:
        g = 10.0 ** r.uniform(-5 if ctx.mode == 64 and r.integers(0, 2) else -2, 0.5, n - 1)
    else:
        g = r.uniform(0.1, 1.0, n - 1) * (r.uniform(size=n - 1) < 0.6)
    t = gen.f(ctx, np.concatenate([[0.0], np.cumsum(g)]) + r.normal())
    return np.maximum.accumulate(t)


def points(ctx, r, t, n):
    """Inside, on knots, outside."""
    lo, hi = t[0], t[-1]
    w = max(hi - lo, 0.5)
    x = r.uniform(lo - 0.2 * w, hi + 0.2 * w, n)
    on = r.uniform(size=n)
    x = np.where(on < 0.3, t[r.integers(0, len(t), n)], x)
    mid = r.integers(0, len(t) - 1, n)
    x = np.where(on > 0.9, (t[mid] + t[mid + 1]) / 2, x)
    return gen.f(ctx, x)


def values(ctx, r, ts, deg, xshape):
    """ts: (G,) or (F, G) grids; x broadcasts against the features."""
    per = ts.ndim == 2
    F = ts.shape[0] if per else None
    shape = tuple(xshape) + ((F,) if per else ())
    x = np.zeros(shape)
    gi = np.zeros(shape, dtype=int)
    for idx in np.ndindex(*shape):
        row = idx[-1] if per else 0
        gi[idx] = row + 1
        x[idx] = points(ctx, r, ts[row] if per else ts, 1)[0]
    n = ts.shape[-1] - deg - 1
    how = int(r.integers(0, 3))

    def go():
        xj, tj = jnp.asarray(x), jnp.asarray(ts)
        if how == 0:
            b = spline.basis(xj, tj, degree=deg)
        elif how == 1:
            b = jax.jit(lambda a, c: spline.basis(a, c, deg))(xj, tj)
        else:
            b = spline.basis(xj, tj, deg) if deg != 3 else spline.basis(xj, tj)
        b = np.asarray(b)
        ok = b.shape == shape + (n,)
        return {"shape": ok, "res": [enc.vec(v) for v in b.reshape(-1, n)] if ok and n else []}
    if n <= 0:
        return
    ctx.call("basis", go, x=enc.vec(x), gi=gi.ravel().tolist(), grids=[enc.vec(t) for t in ts.reshape(-1, ts.shape[-1])], deg=deg)


def derivatives(ctx, r, t, deg, npts=4):
    n = len(t) - deg - 1
    if n <= 0:
        return
    x = points(ctx, r, t, npts)
    f = lambda z, g: spline.basis(z, g, degree=deg)
    tj = jnp.asarray(t)
    for how, D in (("forward", jax.jacfwd), ("reverse", jax.jacrev)):
        d1 = D(f)
        order = int(r.integers(1, min(deg, 2) + 1)) if deg else 1
        if deg >= 3 and ctx.mode == 64 and r.integers(0, 4) == 0:
            order = 3
        d = d1 if order == 1 else (D(d1) if r.integers(0, 2) else jax.jacfwd(d1))
        if order == 3:
            d = jax.jacfwd(d)
        ctx.call("deriv", lambda: {"res": [enc.vec(v) for v in jax.vmap(lambda z: d(z, tj))(jnp.asarray(x))]},
                 x=enc.vec(x), t=enc.vec(t), deg=deg, r=order, how=how)


def motions(ctx, r, t, deg):
    n = len(t) - deg - 1
    if n <= 0:
        return
    x = points(ctx, r, t, 1)[0]
    dx, dt, ct = gen.f(ctx, r.normal()), gen.f(ctx, r.normal(size=len(t))), gen.f(ctx, r.normal(size=n))
    # where repeated knots move together
    for j in range(1, len(t)):
        if t[j] == t[j - 1]:
            dt[j] = dt[j - 1]

    def go():
        f = lambda z, g: spline.basis(z, g, degree=deg)
        jv = jax.jvp(f, (jnp.asarray(x), jnp.asarray(t)), (jnp.asarray(dx), jnp.asarray(dt)))[1]
        gx, gt = jax.vjp(f, jnp.asarray(x), jnp.asarray(t))[1](jnp.asarray(ct))
        return {"jvp": enc.vec(jv), "gx": enc.num(gx), "gt": enc.vec(gt)}
    ctx.call("motion", go, x=enc.num(x), t=enc.vec(t), dx=enc.num(dx), dt=enc.vec(dt), ct=enc.vec(ct), deg=deg)


def bases(ctx):
    scen = ctx.sample("scen", ctx.scen["knots"] + ctx.scen.get("cubic", []), ctx.n(150, 3000))
    for s, r in ctx.cases("scen", scen):
        t = knots(ctx, r, s["gaps"])
        deg = s["deg"]
        xs = [(3,), (2, 2), (), (1, 3)][int(r.integers(0, 4))]
        values(ctx, r, t, deg, xs)
        if r.integers(0, 3) == 0:
            derivatives(ctx, r, t, deg)
        if r.integers(0, 3) == 0:
            motions(ctx, r, t, deg)
    for i, r in ctx.cases("rand", ctx.n(70, 1500)):
        deg = int(r.integers(0, 5 if ctx.mode == 64 else 4))
        n = deg + 2 + int(r.integers(0, 7)) + (int(r.integers(6, 18)) if i % 6 == 5 else 0)
        F = int(r.integers(1, 4))
        ts = np.stack([random_knots(ctx, r, n) for _ in range(F)])
        per = bool(r.integers(0, 2))
        values(ctx, r, ts if per else ts[0], deg, [(), (2,), (3, 1), (2, 1, 2)][int(r.integers(0, 4))])
        if i % 3 == 0:
            derivatives(ctx, r, ts[0], deg)
        if i % 3 == 1:
            motions(ctx, r, ts[0], deg)


# -- activations ------------------------------------------------------------

ACTS = {"tanh": jnp.tanh, "sin": jnp.sin, "square": lambda x: x * x, "id": lambda x: x, "zero": lambda x: jnp.zeros_like(x)}


def grids(ctx, r):
    start = float(r.integers(-12, 8)) / 4
    stop = start + float(r.integers(1, 24)) / 4
    pn, pd = [(1, 1), (2, 1), (3, 1), (1, 2), (3, 2), (5, 2), (4, 1), (2, 3)][int(r.integers(0, 8))]
    num = int(r.integers(2, 16)) if r.integers(0, 6) else int(r.integers(16, 28))
    p = pn / pd
    if pd == 3:        # not representable: within rounding of the power
        p = 2 / 3
    return start, stop, pn, pd, num, p


def generated(ctx, r):
    start, stop, pn, pd, num, p = grids(ctx, r)
    f = spline.make_grid if r.integers(0, 2) else jax.jit(spline.make_grid, static_argnums=(3,))
    ctx.call("grid", lambda: {"res": enc.vec(f(start, stop, p, num))}, start=enc.num(start), stop=enc.num(stop), pn=pn, pd=pd, num=num)


def activation(ctx, r, i):
    deg = int(r.integers(0, 4))
    start, stop, pn, pd, num, p = grids(ctx, r)
    num = max(num, deg + 2 + int(r.integers(0, 6)))
    param = bool(i % 2)
    name = list(ACTS)[int(r.integers(0, len(ACTS)))]
    F = int(r.integers(1, 4))
    shape = [(), (F,), (3, F), (2, 2, F), (1, 1, F), (F, F)][int(r.integers(0, 6))]
    if shape == ():
        F = 1
    n = num - deg - 1
    base = dict(start=enc.num(start), stop=enc.num(stop), pn=pn, pd=pd, num=num, deg=deg)
    initv = float(r.choice([0.0, 0.5, -1.0]))
    init = (lambda key, shape, dtype=jnp.float32: jnp.full(shape, initv, dtype))
    kw = dict(nodes=num, node_min=start, node_max=stop, degree=deg, grid_power=p, parameterize_grid=param)
    if name != "tanh" or r.integers(0, 2):
        kw["activation"] = ACTS[name]
    if initv or r.integers(0, 2):
        kw["coef_init"] = init
    mod = spline.SplineActivation(**kw)
    w = stop - start
    x = gen.f(ctx, r.uniform(start - 0.3 * w, stop + 0.3 * w, shape))
    if deg == 0:     # keep piecewise constants off the (rounded) generated nodes
        x = gen.f(ctx, x + 1e-3)
    box = {}

    def setup():
        v = mod.init(jax.random.PRNGKey(int(r.integers(0, 1000))), jnp.asarray(x))
        box["v"] = v
        c = np.asarray(v["params"]["coefs"])
        return {"names": sorted(v.keys()), "coefshape": c.shape == (F, n), "coefinit": bool(np.all(c == np.float32(initv))),
                "grid": [enc.vec(g) for g in np.asarray(v["grids"]["grid"])] if param else []}
    ctx.call("init", setup, param=param, features=F, **base)
    if "v" not in box or np.asarray(box["v"]["params"]["coefs"]).shape != (F, n):
        return
    coefs = gen.f(ctx, r.normal(size=(F, n)))
    if r.integers(0, 8) == 0:
        coefs = np.zeros((F, n))
    elif r.integers(0, 4) == 0:
        one = np.zeros((F, n))
        one[int(r.integers(0, F)), int(r.integers(0, n))] = 1.0
        coefs = one
    if param:
        ts = np.stack([random_knots(ctx, r, num) for _ in range(F)]) if r.integers(0, 3) else np.asarray(box["v"]["grids"]["grid"], dtype=np.float64)
    else:
        ts = None
    X = x if shape != () else np.asarray(x).reshape(1)
    rows = X.reshape(-1, F)
    if param:    # points spread over each feature's own grid
        rows = rows.copy()
        for f in range(F):
            q = points(ctx, r, ts[f], rows.shape[0])
            m = r.uniform(size=rows.shape[0]) < 0.7
            rows[m, f] = q[m]
        xin = rows.reshape(shape)
        slope = 1.0
    else:
        xin = x
        t = np.asarray(spline.make_grid(start, stop, p, num), dtype=np.float64)
        gaps = [t[j + max(deg, 1)] - t[j] for j in range(len(t) - max(deg, 1))]
        near = min([g for g in gaps if g > 0] or [1.0])
        # rounded nodes, an infinite slope of the generator at the centre for powers below one apart: see Trace_Spline
        slope = 1.0 + 4 * max(deg, 1) * (abs(start) + abs(stop)) / near
        if slope * (1e-9 if ctx.mode == 64 else 1e-4) > 1e-2:
            return
    v = {"params": {"coefs": jnp.asarray(coefs)}}
    if param:
        v["grids"] = {"grid": jnp.asarray(ts)}

    how = int(r.integers(0, 3))

    def go():
        f = (lambda z: mod.apply(v, z)) if how != 1 else jax.jit(lambda z: mod.apply(v, z))
        if how == 2 and len(shape) >= 2:
            f = jax.vmap(f)
        y = np.asarray(f(jnp.asarray(xin)))
        ok = y.shape == (shape if shape != () else (1,)) or (shape == () and y.shape == ())
        return {"shape": ok, "res": enc.mat(y.reshape(-1, F)) if ok else []}
    ctx.call("act", go, x=enc.mat(rows), coefs=enc.mat(coefs), own=param, grid=enc.mat(ts) if param else [], act=name, slope=enc.num(slope), **base)
    if param:
        xv = rows[0]

        def grads():
            def s(z, c):
                return jnp.sum(mod.apply({"params": {"coefs": c}, "grids": {"grid": jnp.asarray(ts)}}, z))
            gx, gc = jax.grad(s, (0, 1))(jnp.asarray(xv), jnp.asarray(coefs))
            return {"gx": enc.vec(gx), "gc": enc.mat(gc)}
        ctx.call("agrad", grads, x=enc.vec(xv), coefs=enc.mat(coefs), grid=enc.mat(ts), act=name, deg=deg)


def activations(ctx):
    for i, r in ctx.cases("grid", ctx.n(60, 1500)):
        generated(ctx, r)
    for i, r in ctx.cases("act", ctx.n(90, 2000)):
        activation(ctx, r, i)

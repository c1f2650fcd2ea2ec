"""ODE integration: trajectories and their derivatives."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import ode

from . import enc, gen, polys

# the catalogue of spec/MC_Ode.tla, variables y1, y2, t, a
CAT = [
    [[(1, (0, 0, 0, 0)), (-2, (0, 0, 0, 1))], [(1 / 3, (0, 0, 0, 0))]],
    [[(1, (0, 0, 3, 0)), (-0.5, (0, 0, 1, 1))], [(2, (0, 0, 2, 0)), (1, (0, 0, 0, 0))]],
    [[(1, (0, 1, 0, 0))], [(-1, (1, 0, 0, 1)), (-0.25, (0, 1, 0, 0))]],
    [[(0.5, (1, 1, 0, 0)), (1, (0, 0, 1, 0))], [(-0.5, (2, 0, 0, 0)), (1, (0, 0, 0, 1))]],
]


def heun(df, y, t, dt, *args):
    tm = jax.tree_util.tree_map
    k1 = df(y, t, *args)
    k2 = df(tm(lambda a, b: a + dt * b, y, k1), t + dt, *args)
    return tm(lambda a, b, c: a + dt / 2 * (b + c), y, k1, k2)


METHODS = {"rk4": ode.rk4, "euler": ode.explicit_euler, "heun": heun}


def pack(lay, v):
    """Tree of the components in the list v."""
    n = len(v)
    if lay == "vec":
        return jnp.stack(v)
    if lay == "mat":
        return jnp.stack(v).reshape(n, 1)
    if lay == "tuple":
        return tuple(v)
    if lay == "dict":
        return {"q": v[0], "p": (jnp.stack(v[1:]),)} if n > 1 else {"q": v[0]}
    return [{"z": jnp.stack(v[:1])}, jnp.stack(v[1:]).reshape(1, -1)] if n > 1 else [{"z": jnp.stack(v)}]


def unpack(lay, y, n):
    if lay == "vec":
        return [y[i] for i in range(n)]
    if lay == "mat":
        return [y[i, 0] for i in range(n)]
    if lay == "tuple":
        return list(y)
    if lay == "dict":
        return [y["q"]] + ([y["p"][0][i] for i in range(n - 1)] if n > 1 else [])
    return [y[0]["z"][0]] + ([y[1][0, i] for i in range(n - 1)] if n > 1 else [])


def traj(lay, ys, n, T):
    """(T, n) array of a trajectory tree, and whether its leaves have the time axis in front."""
    like = pack(lay, [jnp.zeros(())] * n)
    ok = jax.tree_util.tree_structure(ys) == jax.tree_util.tree_structure(like)
    ok = ok and all(np.shape(a) == (T,) + np.shape(b) for a, b in zip(jax.tree_util.tree_leaves(ys), jax.tree_util.tree_leaves(like)))
    if not ok:
        return None
    ys = jax.tree_util.tree_map(np.asarray, ys)
    return np.stack([np.asarray(z).reshape(T) for z in unpack_t(lay, ys, n)], axis=1)


def unpack_t(lay, ys, n):
    tm = jax.tree_util.tree_map
    T = jax.tree_util.tree_leaves(ys)[0].shape[0]
    cols = [unpack(lay, tm(lambda z: z[k], ys), n) for k in range(T)]
    return [np.array([np.asarray(c[i]) for c in cols]) for i in range(n)]


def rhs(lay, ps, n, na, argform):
    """argform 'vec': one array argument; 'list': na scalar arguments; 'tree': a dict."""
    def f(y, t, *args):
        if argform == "vec":
            a = [args[0][i] for i in range(na)] if na else []
        elif argform == "tree":
            a = [args[0]["a"][i] for i in range(na)] if na else []
        else:
            a = list(args)
        v = unpack(lay, y, n) + [t] + a
        return pack(lay, [jnp.asarray(p(v)) for p in ps])
    return f


def mkargs(argform, a):
    if len(a) == 0:
        return ()
    if argform == "vec":
        return (jnp.asarray(a),)
    if argform == "tree":
        return ({"a": jnp.asarray(a)},)
    return tuple(jnp.asarray(z) for z in a)


LAYS = ["vec", "dict", "tuple", "mat", "nest"]
ARGF = ["vec", "list", "tree"]


def problem(ctx, r, i):
    n, na = 1 + int(r.integers(0, 3)), int(r.integers(0, 3))
    nv = n + 1 + na
    ps = [polys.rand(r, nv, deg=3, maxexp=2) for _ in range(n)]
    ps = [polys.Poly([(float(gen.f(ctx, 0.4 * c)), e) for c, e in p.terms]) for p in ps]
    T = int(r.choice([1, 2, 3, 4, 5, 7]))
    k = int(r.integers(0, 5))
    long = i % 16 == 9
    if long:                       # long trajectories in small steps
        T = int(r.choice([33, 70, 130, 260]))
    if k == 0:
        ts = np.linspace(r.uniform(-1, 1), r.uniform(1, 2), T)
    elif k == 1:
        ts = np.cumsum(r.uniform(0.02, 0.5, size=T)) + r.uniform(-1, 1)
    elif k == 2:
        ts = -np.cumsum(r.uniform(0.02, 0.4, size=T)) + r.uniform(0, 1)
    elif k == 3:
        ts = r.normal(size=T) * 0.5
    else:
        ts = np.round(np.cumsum(r.uniform(-0.3, 0.6, size=T)) * 4) / 4
    if long:
        ts = ts[0] + (ts - ts[0]) * min(1.0, 2.0 / np.abs(ts - ts[0]).max())
    ts, y0, a = gen.f(ctx, ts), gen.f(ctx, r.normal(size=n)), gen.f(ctx, r.normal(size=na))
    while not tame(ps, ts, y0, a):
        ps = [polys.Poly([(float(gen.f(ctx, 0.5 * c)), e) for c, e in p.terms]) for p in ps]
    return n, na, ps, ts, y0, a


def tame(ps, ts, y0, a):
    """Whether no method leaves the range in which rounding is harmless."""
    f = lambda y, t: np.array([p(list(y) + [t] + list(a)) for p in ps])
    grow = lambda z: not np.all(np.abs(z) < 8)
    for m in range(3):
        y = np.array(y0)
        for t, h in zip(ts[:-1], np.diff(ts)):
            k1 = f(y, t)
            if grow(h * k1):
                return False
            if m == 0:
                y = y + h * k1
            elif m == 1:
                k2 = f(y + h * k1, t + h)
                y = y + h / 2 * (k1 + k2)
            else:
                k2 = f(y + h / 2 * k1, t + h / 2)
                k3 = f(y + h / 2 * k2, t + h / 2)
                if grow(h * k2) or grow(h * k3):
                    return False
                k4 = f(y + h * k3, t + h)
                y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            if grow(y):
                return False
    return True


def trajectories(ctx):
    scen = ctx.scen["ode"]
    for j, (s, r) in enumerate(ctx.cases("scen", ctx.sample("scen", scen, ctx.n(70, 900)))):
        ps = [polys.Poly([(float(gen.f(ctx, c)), list(e)) for c, e in p]) for p in CAT[s["rhs"] - 1]]
        ts = gen.f(ctx, 0.25 + np.concatenate([[0.0], np.cumsum([a / b for a, b in s["hs"]])]))
        one(ctx, r, j, 2, 1, ps, ts, np.array([0.5, -1.0]), np.array([1.5]), s["meth"])
    for i, r in ctx.cases("rand", ctx.n(110, 1200)):
        n, na, ps, ts, y0, a = problem(ctx, r, i)
        one(ctx, r, i, n, na, ps, ts, y0, a, ["rk4", "euler", "rk4", "heun"][i % 4])
    for i, r in ctx.cases("step", ctx.n(50, 400)):
        n, na, ps, ts, y0, a = problem(ctx, r, i)
        lay, af = LAYS[int(r.integers(0, 5))], ARGF[int(r.integers(0, 3))]
        t, h = float(gen.f(ctx, r.normal())), float(gen.f(ctx, r.normal() * 0.5))
        while not tame(ps, np.array([t, t + h]), y0, a):
            h = float(gen.f(ctx, h / 2))
        meth = ["rk4", "euler"][i % 2]
        f = rhs(lay, ps, n, na, af)

        def run():
            res = METHODS[meth](f, pack(lay, list(jnp.asarray(y0))), jnp.asarray(t) if i % 3 else t, jnp.asarray(h) if i % 3 else h, *mkargs(af, a))
            return {"res": enc.vec([float(np.asarray(z).reshape(())) for z in unpack(lay, res, n)])}
        ctx.call("step", run, F=[p.enc() for p in ps], a=enc.vec(a), y=enc.vec(y0), t=enc.num(t), h=enc.num(h), meth=meth)


def one(ctx, r, i, n, na, ps, ts, y0, a, meth):
    lay, af = LAYS[int(r.integers(0, 5))], ARGF[int(r.integers(0, 3))]
    unroll = int(r.choice([1, 1, 2, 3, 10]))
    form = int(r.integers(0, 3))
    f = rhs(lay, ps, n, na, af)
    kw = {} if meth == "rk4" and r.integers(0, 2) else {"method": METHODS[meth]}
    if unroll != 1:
        kw["unroll"] = unroll

    def run():
        go = lambda y, t, *args: ode.odeint(f, y, t, *args, **kw)
        y = pack(lay, list(jnp.asarray(y0)))
        args = mkargs(af, a)
        if form == 0:
            ys = jax.jit(go)(y, jnp.asarray(ts), *args)
        elif form == 1 and len(args):
            st = jax.tree_util.tree_map(lambda z: jnp.stack([z, z + 1]), y)
            ys = jax.vmap(lambda q: go(q, jnp.asarray(ts), *args))(st)
            ys = jax.tree_util.tree_map(lambda z: z[0], ys)
        else:
            ys = go(y, jnp.asarray(ts), *args)
        tr = traj(lay, ys, n, len(ts))
        return {"shape": tr is not None, "ys": enc.mat(tr) if tr is not None else []}
    ctx.call("traj", run, F=[p.enc() for p in ps], a=enc.vec(a), ts=enc.vec(ts), y0=enc.vec(y0), meth=meth)


def sensitivities(ctx):
    scen = ctx.scen["ode"]
    items = [("s", s) for s in ctx.sample("sens", scen, ctx.n(24, 300))] + [("r", i) for i in range(ctx.n(40, 400))]
    for (kind, s), r in ctx.cases("sens", items):
        if kind == "s":
            n, na, meth = 2, 1, s["meth"]
            ps = [polys.Poly([(float(gen.f(ctx, c)), list(e)) for c, e in p]) for p in CAT[s["rhs"] - 1]]
            ts = gen.f(ctx, 0.25 + np.concatenate([[0.0], np.cumsum([a / b for a, b in s["hs"]])]))
            y0, a = np.array([0.5, -1.0]), np.array([1.5])
        else:
            n, na, ps, ts, y0, a = problem(ctx, r, s)
            meth = ["rk4", "euler", "heun", "rk4"][s % 4]
        lay, af = LAYS[int(r.integers(0, 5))], ARGF[int(r.integers(0, 3))]
        f = rhs(lay, ps, n, na, af)
        unroll = int(r.choice([1, 1, 2, 5]))
        usejit = int(r.integers(0, 2))

        def go(y, tv, av):
            ys = ode.odeint(f, pack(lay, [y[i] for i in range(n)]), tv, *mkargs2(af, av, na), method=METHODS[meth], unroll=unroll)
            return jnp.stack([jnp.stack(unpack(lay, jax.tree_util.tree_map(lambda z: z[k], ys), n)) for k in range(len(ts))])
        base = dict(F=[p.enc() for p in ps], a=enc.vec(a), ts=enc.vec(ts), meth=meth)
        x = (jnp.asarray(y0), jnp.asarray(ts), jnp.asarray(a))
        sizes = (n, len(ts), na)
        dirs = [r.choice([-2.0, -1.0, 1.0, 2.0, 3.0], size=sum(sizes)) for _ in range(2)]
        dirs[0][n:n + len(ts)] *= r.integers(0, 2)  # time points held fixed in half of the cases
        for mode in ("fwd", "rev"):
            jac = (jax.jacfwd if mode == "fwd" else jax.jacrev)(go, argnums=(0, 1, 2) if na else (0, 1))
            try:
                ys = np.asarray(go(*x))
                J = (jax.jit(jac) if usejit else jac)(*x)
                J = np.concatenate([np.asarray(z) for z in J], axis=-1)
            except Exception as ex:  # noqa: BLE001
                ctx.emit("sens", exc=type(ex).__name__ + ": " + str(ex)[:160].replace("\n", " "), mode=mode, **base)
                continue
            for d in dirs:
                d = d.astype(J.dtype)
                ctx.emit("sens", ys=enc.mat(ys), ds=enc.mat(J @ d), dy=enc.vec(d[:n]), dts=enc.vec(d[n:n + len(ts)]), da=enc.vec(d[n + len(ts):]), mode=mode, w=len(ts), **base)


def mkargs2(af, av, na):
    if na == 0:
        return ()
    if af == "vec":
        return (av,)
    if af == "tree":
        return ({"a": av},)
    return tuple(av[i] for i in range(na))

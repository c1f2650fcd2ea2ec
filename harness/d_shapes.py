import jax
import jax.numpy as jnp
import numpy as np

from magpi import r_fun as R

from . import enc, gen, polys
from .d_rfun import systems


def vec_form(v, form):
    v = [float(z) for z in v]
    if form == 1:
        return tuple(v)
    if form == 2 and all(z.is_integer() for z in v):
        return tuple(int(z) for z in v)
    return jnp.asarray(v)


def angle(ctx, r):
    k = int(r.integers(0, 4))
    if k == 0:
        return float(r.integers(-3, 4))
    if k == 1:
        return float(gen.f(ctx, r.choice([0.5, 1.0, -0.5, 2.0, 1.5]) * np.pi))
    return float(gen.f(ctx, r.uniform(-6, 6)))


def nz(ctx, r, d):
    v = r.normal(size=d)
    k = int(r.integers(0, 4))
    if k == 0:
        v = np.zeros(d)
        v[int(r.integers(0, d))] = float(r.choice([1.0, -1.0, 3.0]))
    if k == 1:
        v = np.round(v * 2) + (np.arange(d) == 0) * 0.5
    if k == 2:
        v = v * 4
    if np.linalg.norm(v) < 0.1:
        v[0] = 1.0
    return gen.f(ctx, v)


def centre(ctx, r, d):
    o = r.normal(size=d)
    return gen.f(ctx, np.round(o * 2) if r.integers(0, 3) == 0 else o)


def make(ctx, r, t, d):
    """A transformation of type t in dimension d: (applies to adf, spec record)."""
    fm = int(r.integers(0, 3))
    if t == "move":
        y = centre(ctx, r, d)
        return (lambda a: R.translate(a, vec_form(y, fm))), {"t": t, "y": enc.vec(y)}
    if t == "scale":
        s = float(gen.f(ctx, r.choice([2.0, 0.5, 3.0, r.uniform(0.3, 3)])))
        sv = s if fm else jnp.asarray(s)
        return (lambda a: R.scale(a, sv)), {"t": t, "s": enc.num(s)}
    if t == "scaleax":
        s = gen.f(ctx, r.uniform(0.4, 3, size=d if r.integers(0, 4) else 1))
        return (lambda a: R.scale_without_normalization(a, vec_form(s, fm))), {"t": t, "s": enc.vec(s)}
    if t == "rot2":
        a_, o = angle(ctx, r), centre(ctx, r, 2)
        if r.integers(0, 3) == 0:
            return (lambda a: R.rotate2d(a, a_)), {"t": t, "a": enc.num(a_), "o": enc.vec([0, 0])}
        return (lambda a: R.rotate2d(a, a_, vec_form(o, fm))), {"t": t, "a": enc.num(a_), "o": enc.vec(o)}
    if t == "rot3":
        a_, o, ax = angle(ctx, r), centre(ctx, r, 3), nz(ctx, r, 3)
        if r.integers(0, 3) == 0:
            return (lambda a: R.rotate3d(a, a_, vec_form(ax, fm))), {"t": t, "a": enc.num(a_), "ax": enc.vec(ax), "o": enc.vec([0, 0, 0])}
        return (lambda a: R.rotate3d(a, a_, vec_form(ax, fm), vec_form(o, fm))), {"t": t, "a": enc.num(a_), "ax": enc.vec(ax), "o": enc.vec(o)}
    if t == "euler":
        a_, o = np.array([angle(ctx, r) for _ in range(3)]), centre(ctx, r, 3)
        if r.integers(0, 3) == 0:
            return (lambda a: R.rotate3d(a, vec_form(a_, fm))), {"t": t, "a": enc.vec(a_), "o": enc.vec([0, 0, 0])}
        return (lambda a: R.rotate3d(a, vec_form(a_, fm), o=vec_form(o, fm))), {"t": t, "a": enc.vec(a_), "o": enc.vec(o)}
    if t in ("refl", "proj"):
        n, o = nz(ctx, r, d), centre(ctx, r, d)
        op = R.reflect if t == "refl" else R.project
        k = int(r.integers(0, 4))
        if k == 0:
            return (lambda a: op(a, vec_form(n, fm))), {"t": t, "n": enc.vec(n), "o": enc.vec(np.zeros(d))}
        if k == 1:
            c = float(o[0])
            return (lambda a: op(a, vec_form(n, fm), c)), {"t": t, "n": enc.vec(n), "o": enc.vec(np.full(d, c))}
        return (lambda a: op(a, vec_form(n, fm), vec_form(o, 0))), {"t": t, "n": enc.vec(n), "o": enc.vec(o)}
    axis = int(t[3])
    return (lambda a: R.revolution(a, axis) if axis or fm else R.revolution(a)), {"t": "rev", "axis": axis}


def transforms(ctx):
    seqs = ctx.scen["transforms"]
    short = [s for s in seqs if len(s["ts"]) == 1]
    long = ctx.sample("long", [s for s in seqs if len(s["ts"]) > 1], ctx.n(110, 1500))
    reps = short * (6 if not ctx.thorough else 40)
    if ctx.mode == 32:
        reps = reps[:2 * len(short)]
    for s, r in ctx.cases("tr", reps + long):
        ts = s["ts"]
        d = 2 if any(t.startswith("rev") for t in ts) else s["dim"]
        p = polys.rand(r, d, deg=3, maxexp=3)
        recs, fns, dim = [], [], d
        for t in ts:
            fn, rec = make(ctx, r, t, dim)
            if t.startswith("rev"):
                dim = 3
            fns.append(fn)
            recs.append(rec)
        for j in range(2):
            x = gen.f(ctx, r.uniform(-1.5, 1.5, size=dim))

            def run():
                adf = lambda y: p([y[i] for i in range(d)])
                for fn in fns:
                    adf = fn(adf)
                f = adf
                if j == 1:
                    k = int(r.integers(0, 3))
                    if k == 0:
                        f = jax.jit(adf)
                    elif k == 1:
                        f = lambda z: jax.vmap(adf)(jnp.stack([z, z + 1]))[0]
                y = f(jnp.asarray(x))
                return {"res": enc.num(jnp.asarray(y).reshape(()))}
            ctx.call("pull", run, f=p.enc(), x=enc.vec(x), ts=recs)
    if ctx.part == 0:
        refusals(ctx)


def refusals(ctx):
    s2 = R.sphere(1.0)
    v = jnp.asarray
    for what, fn in (
        ("angle without axis", lambda: R.rotate3d(s2, 0.5)),
        ("Euler angles with axis", lambda: R.rotate3d(s2, (0.1, 0.2, 0.3), (0.0, 0.0, 1.0))),
        ("two angles", lambda: R.rotate3d(s2, v([0.1, 0.2]))),
        ("two angles with axis", lambda: R.rotate3d(s2, v([0.1, 0.2]), (0.0, 0.0, 1.0))),
        ("four angles", lambda: R.rotate3d(s2, v([0.1, 0.2, 0.3, 0.4]))),
        ("planar rotation of a 3d point", lambda: R.rotate2d(s2, 0.5)(v([1.0, 2.0, 3.0]))),
        ("spatial rotation of a 2d point", lambda: R.rotate3d(s2, 0.5, (0.0, 0.0, 1.0))(v([1.0, 2.0]))),
        ("uniform scaling by a vector", lambda: R.scale(s2, v([1.0, 2.0]))),
        ("revolution about axis 2", lambda: R.revolution(s2, 2)(v([1.0, 2.0, 3.0]))),
        ("revolution of a 2d point", lambda: R.revolution(s2)(v([1.0, 2.0]))),
    ):
        try:
            fn()
            ok = False
        except Exception:
            ok = True
        ctx.emit("refuse", what=what, refused=ok)


# ---------------------------------------------------------------- C21
NORMALIZED = ("alpha", "p")


def primitives(ctx):
    # systems that are not normalized under- or overflow when nested deeply: low orders only
    sys_ = [None] + [q for q in systems(ctx) if q[1]["t"] != "rho" and (q[1]["t"] != "alpham" or q[1]["mm"] <= 2)]
    for i, r in ctx.cases("cuboid", ctx.n(84, 900)):
        cuboid(ctx, r, i, sys_[i % len(sys_)])
    for i, r in ctx.cases("round", ctx.n(60, 600)):
        round_(ctx, r, i)
    for i, r in ctx.cases("norm1", ctx.n(30, 300)):
        norm1(ctx, r, i)


def chain(ctx, r, d, i):
    """A few rigid motions and uniform scalings."""
    if i % 3:
        return [], []
    kinds = ["move", "scale", "refl"] + (["rot2"] if d == 2 else ["rot3", "euler"] if d == 3 else [])
    fns, recs = [], []
    for _ in range(int(r.integers(1, 3))):
        fn, rec = make(ctx, r, kinds[int(r.integers(0, len(kinds)))], d)
        fns.append(fn)
        recs.append(rec)
    return fns, recs


def forward(recs, y):
    """Image of y under the chain (numerically, to place test points)."""
    from .enc import val
    x = np.asarray(y, dtype=np.float64)
    d = len(x)
    for T in recs:
        g = lambda k: np.array([val(z) for z in T[k]])
        if T["t"] == "move":
            x = x + g("y")
        elif T["t"] == "scale":
            x = x * val(T["s"])
        elif T["t"] == "refl":
            n, o = g("n"), g("o")
            x = x - 2 * ((x - o) @ n) / (n @ n) * n
        elif T["t"] == "rot2":
            a, o = val(T["a"]), g("o")
            c, s = np.cos(a), np.sin(a)
            x = np.array([[c, -s], [s, c]]) @ (x - o) + o
        elif T["t"] == "rot3":
            a, o, ax = val(T["a"]), g("o"), g("ax")
            x = rod(x - o, a, ax) + o
        elif T["t"] == "euler":
            a, o = g("a"), g("o")
            z = x - o
            for k in range(3):
                z = rod(z, a[k], np.eye(3)[k])
            x = z + o
    return x


def rod(x, a, ax):
    u = ax / np.linalg.norm(ax)
    return x * np.cos(a) + np.cross(u, x) * np.sin(a) + u * (u @ x) * (1 - np.cos(a))


def emit_prim(ctx, r, adf, shape, y, fns, recs, normalized, hasgrad, i, least=False):
    x = gen.f(ctx, forward(recs, y))

    def run():
        f = adf()
        for fn in fns:
            f = fn(f)
        xa = jnp.asarray(x)
        if len(x) == 1 and i % 5 == 0 and all(T["t"] != "refl" for T in recs):
            xa = jnp.asarray(x[0])
        val = f(xa) if i % 4 else jax.jit(f)(xa)
        out = {"val": enc.num(jnp.asarray(val).reshape(()))}
        if hasgrad:
            g = lambda z: jnp.asarray(f(z)).reshape(())
            out.update(grad=enc.vec(jax.grad(g)(xa)), fwd=enc.vec(jax.jacfwd(g)(xa)))
        return out
    ctx.call("prim", run, shape=shape, x=enc.vec(x), ts=recs, normalized=normalized, hasgrad=hasgrad, least=least)


def cuboid(ctx, r, i, sysrec):
    d = 1 + int(r.integers(0, 2 if sysrec is not None and sysrec[1]["t"] == "alpham" else 4))
    rs, rec = (None, {"t": "alpha"}) if sysrec is None else sysrec
    equal = r.integers(0, 3) == 0
    L = np.full(d, float(r.integers(1, 9)) / 4) if equal else r.integers(1, 13, size=d) / 4
    cent = bool(r.integers(0, 2))
    lb, ub = (-L / 2, L / 2) if cent else (np.zeros(d), L)
    kw = {} if not cent and r.integers(0, 2) else {"centering": cent}
    if rs is not None:
        kw["r_system"] = rs
    fm = int(r.integers(0, 3))
    one = equal and r.integers(0, 2)

    def adf():
        if one and d > 0:
            e = float(L[0])
            return R.cube(int(e) if e.is_integer() and fm == 2 else e, **kw)
        return R.cuboid(vec_form(L, fm), **kw)
    if one and d > 1:
        # a cube of scalar edge length is defined by broadcasting over the point's axes
        pass
    fns, recs = chain(ctx, r, d, i)
    shape = {"t": "cuboid", "lb": enc.vec(lb), "ub": enc.vec(ub)}
    isr1 = rec.get("a") == enc.num(1.0)
    pts = []
    for j in range(5):
        y = lb + (ub - lb) * r.uniform(0.1, 0.9, size=d)
        grad = True
        if j == 0:
            pass                                             # inside
        elif j == 1:
            k = int(r.integers(0, d))                        # outside one face
            y[k] = ub[k] + r.uniform(0.05, 1) if r.integers(0, 2) else lb[k] - r.uniform(0.05, 1)
        elif j == 2:
            k = int(r.integers(0, d))                        # on a face
            y[k] = ub[k] if r.integers(0, 2) else lb[k]
        elif j == 3:
            y = lb + (ub - lb) * r.choice([-0.3, 0.5, 1.4], size=d)   # grid of inside/outside
            grad = False
        else:
            if isr1:
                continue
            y = (lb + ub) / 2                                # centre, all distances tied
        pts.append((y, grad))
    for y, grad in pts:
        emit_prim(ctx, r, adf, shape, y, fns, recs, rec["t"] in NORMALIZED, grad, i, bool(isr1 and rec["t"] == "alpha"))


def round_(ctx, r, i):
    kind = ["sphere", "cylinder", "ellipsoid"][i % 3]
    d = {"sphere": 1 + int(r.integers(0, 4)), "cylinder": 2 + int(r.integers(0, 3)), "ellipsoid": 1 + int(r.integers(0, 4))}[kind]
    rad = float(gen.f(ctx, r.choice([1.0, 2.0, 0.5, r.uniform(0.3, 3)])))
    ax = gen.f(ctx, r.uniform(0.4, 2.5, size=d))
    fm = int(r.integers(0, 3))
    if kind == "sphere":
        adf, shape = (lambda: R.sphere(rad)), {"t": kind, "r": enc.num(rad)}
    elif kind == "cylinder":
        adf, shape = (lambda: R.cylinder(rad)), {"t": kind, "r": enc.num(rad)}
    else:
        adf, shape = (lambda: R.ellipsoid(vec_form(ax, fm))), {"t": kind, "ax": enc.vec(ax)}
    fns, recs = chain(ctx, r, d, i // 3)
    for j in range(5):
        u = r.normal(size=d)
        if kind == "cylinder":
            s = np.linalg.norm(u[:2])
            h = r.normal(size=d)
        else:
            s = np.linalg.norm(u)
        u = u / s
        f = [0.5, 1.0, 1.0, 1.6, 0.0][j]
        if kind == "ellipsoid":
            y = f * u * ax
        elif kind == "sphere":
            y = f * u * rad
        else:
            y = np.concatenate([f * u[:2] * rad, h[2:]])
        emit_prim(ctx, r, adf, shape, y, fns, recs, True, True, i)


def norm1(ctx, r, i):
    d = 1 + i % 3
    p = polys.rand(r, d, deg=3, maxexp=3)
    x = gen.f(ctx, np.round(r.uniform(-1.5, 1.5, size=d) * 8) / 8)
    g = np.zeros(d)
    for c, e in p.terms:
        for k in range(d):
            if e[k]:
                t = c * e[k]
                for q in range(d):
                    t *= x[q] ** (e[q] - (q == k))
                g[k] += t
    if np.linalg.norm(g) < 0.3:
        return                      # normalization is for non-vanishing gradients
    zero = i % 2 == 0
    if zero:
        # shift p so that it vanishes at x (exactly representable: dyadic data)
        v = sum(c * np.prod(x ** np.array(e)) for c, e in p.terms)
        p = polys.Poly(p.terms + [(float(gen.f(ctx, -v)), [0] * d)])

    def run():
        f = R.normalize_1st_order(lambda y: p([y[k] for k in range(d)]))
        f = jax.jit(f) if i % 4 == 1 else f
        out = {"val": enc.num(f(jnp.asarray(x)))}
        if zero:
            out["grad"] = enc.vec(jax.grad(f)(jnp.asarray(x)))
        return out
    ctx.call("norm1", run, f=p.enc(), x=enc.vec(x), zero=bool(zero))

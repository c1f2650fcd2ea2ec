"""Models with imposed initial, Dirichlet and Neumann conditions."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import model as mm

from . import enc, gen, polys

UNIT = {1: [[1.0], [-1.0]], 2: [[0.6, 0.8], [-0.8, 0.6], [1.0, 0.0], [0.0, -1.0]],
        3: [[2 / 7, 3 / 7, 6 / 7], [1 / 3, -2 / 3, 2 / 3], [0.0, 0.0, 1.0], [0.0, -0.6, 0.8]]}


class Case:
    """Positions of the arguments x, t, p and the variables x.., t, p, q of the polynomials."""
    def __init__(self, ctx, r, d, comps):
        self.ctx, self.r, self.d, self.comps = ctx, r, d, comps
        self.nv = d + 3
        self.order = list(r.permutation(["x", "t", "p"]))
        self.pos = {a: self.order.index(a) for a in self.order}

    def poly(self, vs):
        """Random polynomial in the chosen of the variables x, t, p, q."""
        ids = [i for i in range(self.nv) if ("x" if i < self.d else "tpq"[i - self.d]) in vs]
        q = polys.rand(self.r, len(ids), deg=2, maxexp=2)
        out = []
        for c, e in q.terms[:5]:
            f = [0] * self.nv
            for i, k in zip(ids, e):
                f[i] += k
            out.append((float(c), f))
        return polys.Poly(out)

    def polys(self, vs):
        return [self.poly(vs) for _ in range(max(1, self.comps))]

    def vars(self, x=None, t=0.0, p=0.0, q=0.0):
        xs = [0.0] * self.d if x is None else ([x] if self.d == 1 else [x[i] for i in range(self.d)])
        return xs + [t, p, q]

    def fun(self, ps, names):
        """Function of the named arguments, in this order; q by keyword."""
        def f(*args, q=0.0):
            v = self.vars(**dict(zip(names, args)), q=q)
            z = [jnp.asarray(u(v)) for u in ps]
            return z[0] if self.comps == 0 else jnp.stack(z)
        return f

    def argnums(self, names):
        a = [self.pos[n] for n in names]
        if len(a) == 1 and self.r.integers(0, 2):
            return a[0]
        return tuple(a) if self.r.integers(0, 2) else a


def impose_layer(cs, name, model, nrm, off, zeta, k, t0, on):
    """Applies one layer; returns the new model and its description."""
    r = cs.r
    deco = bool(r.integers(0, 2))
    if name == "ic":
        m0 = cs.polys("xp")
        names = [["x"], ["x", "p"], ["p", "x"]][int(r.integers(0, 3))]
        m0 = m0 if "p" in names else [polys.Poly([(c, [ee if i < cs.d else 0 for i, ee in enumerate(e)]) for c, e in u.terms]) for u in m0]
        f0 = cs.fun(m0, names)
        kw = dict(t0=t0, decay_rate=k, argnums_m0=cs.argnums(names), argnum_t=cs.pos["t"])
        if kw["t0"] == 0.0 and r.integers(0, 2):
            kw.pop("t0")
        if k == 10.0 and r.integers(0, 2):
            kw.pop("decay_rate")
        if cs.pos["t"] == 1 and r.integers(0, 2):
            kw.pop("argnum_t")
        if names == ["x"] and cs.pos["x"] == 0 and r.integers(0, 2):
            kw.pop("argnums_m0")
        new = mm.impose_ic(f0, **kw)(model) if deco else mm.impose_ic(f0, model, **kw)
        return new, {"w": "ic", "k": enc.num(k), "t0": enc.num(t0), "m0": [u.enc() for u in m0]}, m0
    lin = polys.Poly([(float(nrm[i]), [int(j == i) for j in range(cs.nv)]) for i in range(cs.d)] + [(float(off), [0] * cs.nv)]
                     + [(float(zeta), [int(j == cs.d + 1) for j in range(cs.nv)])])
    l1 = lambda v: lin(v)
    base = name.rstrip("0")
    if base == "dir":
        names = [["x", "p"], ["p", "x"]][int(r.integers(0, 2))] if zeta else ["x"]
    else:
        names = ["x", "p"] if zeta else ["x"]
    adf = lambda *a: jnp.asarray(l1(cs.vars(**dict(zip(names, a)))))
    data = None if name.endswith("0") else cs.polys("xt")
    dn = [["x", "t"], ["t", "x"]][int(r.integers(0, 2))]
    kw = {"argnums_adf": cs.argnums(names)}
    if names == ["x"] and cs.pos["x"] == 0 and r.integers(0, 2):
        kw.pop("argnums_adf")
    if base == "dir":
        if data is not None:
            kw["g"], kw["argnums_g"] = cs.fun(data, dn), cs.argnums(dn)
        elif r.integers(0, 2):
            kw["argnums_g"] = cs.argnums(dn)
        new = mm.impose_dirichlet_bc(adf, **kw)(model) if deco else mm.impose_dirichlet_bc(adf, model, **kw)
        return new, {"w": "dir", "l": lin.enc(), "g": [u.enc() for u in data] if data else []}, data
    if data is not None:
        kw["h"], kw["argnums_h"] = cs.fun(data, dn), cs.argnums(dn)
    kw["argnum_model"] = cs.pos["x"]
    if cs.pos["x"] == 0 and r.integers(0, 2):
        kw.pop("argnum_model")
    new = mm.impose_neumann_bc(adf, **kw)(model) if deco else mm.impose_neumann_bc(adf, model, **kw)
    return new, {"w": "neu"}, data


def conditions(ctx):
    scen = ctx.sample("stack", ctx.scen["stacks"], ctx.n(180, 2500))
    for s, r in ctx.cases("stack", scen):
        stack(ctx, r, s["names"], s["late"])
    for i, r in ctx.cases("curved", ctx.n(40, 400)):
        curved(ctx, r, i)


def stack(ctx, r, names, late):
    d, comps = int(r.choice([1, 2, 3])), int(r.choice([0, 0, 2]))
    cs = Case(ctx, r, d, comps)
    neu = any(n.startswith("neu") for n in names)
    nrm = gen.f(ctx, UNIT[d][int(r.integers(0, len(UNIT[d])))])
    zeta = float(r.choice([0.0, 0.5]))
    off = float(gen.f(ctx, r.normal()))
    k = float(r.choice([10.0, 2.0, 0.5]))
    t0 = float(gen.f(ctx, r.choice([0.0, r.normal()])))
    t = t0 if not late else float(gen.f(ctx, t0 + r.uniform(0.05, 1.0)))
    p, q = float(gen.f(ctx, r.normal())), float(gen.f(ctx, r.normal()))
    x = r.normal(size=d)
    on = neu or bool(r.integers(0, 2))
    if on:
        x = x - (x @ nrm + off + zeta * p) * nrm
    x = gen.f(ctx, x)
    F = cs.polys("xtpq")
    model = cs.fun(F, cs.order)
    ws, datas = [], []
    for nme in names:
        model, w, data = impose_layer(cs, nme, model, nrm, off, zeta, k, t0, on)
        ws.append(w)
        datas.append(data)
    v = [float(z) for z in x] + [t, p, q]
    X = jnp.asarray(x if d > 1 else x[0])
    val = {"x": X, "t": jnp.asarray(t), "p": jnp.asarray(p)}
    args = [val[a] for a in cs.order]
    usejit = bool(r.integers(0, 2))

    def go():
        f = lambda *a: model(*a, q=q)
        z = np.asarray((jax.jit(f) if usejit else f)(*args))
        ok = z.shape == (() if comps == 0 else (comps,))
        return {"shape": ok, "res": enc.vec(z) if ok else []}
    ctx.call("stack", go, F=[u.enc() for u in F], ws=ws, v=enc.vec(v), t=enc.num(t))
    if names[-1].startswith("neu"):
        def flux():
            xi = cs.pos["x"]
            f = lambda y: model(*args[:xi], y, *args[xi + 1:], q=q)
            J = np.asarray((jax.jacrev if r.integers(0, 2) else jax.jacfwd)(f)(X)).reshape(max(1, comps), d)
            return {"grad": enc.mat(J), "scale": enc.num(scale)}
        fr = cs.fun(F, cs.order)
        xi = cs.pos["x"]
        scale = max(1.0, 30 * float(np.max(np.abs(np.asarray(jax.jacfwd(lambda y: fr(*args[:xi], y, *args[xi + 1:], q=q))(X))))))
        ctx.call("flux", flux, H=[u.enc() for u in datas[-1]] if datas[-1] else [], v=enc.vec(v), n=enc.vec(-nrm))


def curved(ctx, r, i):
    """A ball's normalized distance function; boundary point."""
    d = int(r.choice([2, 3]))
    cs = Case(ctx, r, d, int(r.choice([0, 2])))
    c, R = r.normal(size=d), float(r.uniform(0.5, 2))
    u = r.normal(size=d)
    u = u / np.linalg.norm(u)
    x = gen.f(ctx, c + R * u)
    n = (x - c) / np.linalg.norm(x - c)
    adf = lambda y: (R - jnp.linalg.norm(y - jnp.asarray(c)))
    F, H = cs.polys("xtpq"), cs.polys("xt")
    t, p, q = 0.3, float(gen.f(ctx, r.normal())), 0.5
    t, q = float(gen.f(ctx, t)), q
    free = cs.fun(F, cs.order)
    none = bool(r.integers(0, 3) == 0)
    kw = {} if none else dict(h=cs.fun(H, ["x", "t"]), argnums_h=cs.argnums(["x", "t"]))
    X = jnp.asarray(x)
    val = {"x": X, "t": jnp.asarray(t), "p": jnp.asarray(p)}
    args = [val[a] for a in cs.order]
    xi = cs.pos["x"]
    v = [float(z) for z in x] + [t, p, q]
    scale = max(1.0, 30 * float(np.max(np.abs(np.asarray(jax.jacfwd(lambda y: free(*args[:xi], y, *args[xi + 1:], q=q))(X))))))

    def go():
        m = mm.impose_neumann_bc(adf, free, argnums_adf=cs.argnums(["x"]), argnum_model=xi, **kw)
        J = np.asarray(jax.jacfwd(lambda y: m(*args[:xi], y, *args[xi + 1:], q=q))(X)).reshape(max(1, cs.comps), d)
        return {"grad": enc.mat(J), "scale": enc.num(scale)}
    ctx.call("flux", go, H=[] if none else [u.enc() for u in H], v=enc.vec(v), n=enc.vec(n))

    def dirichlet():
        m = mm.impose_dirichlet_bc(adf, free, g=cs.fun(H, ["x", "t"]), argnums_adf=cs.argnums(["x"]), argnums_g=cs.argnums(["x", "t"]))
        want = np.asarray(cs.fun(H, ["x", "t"])(X, jnp.asarray(t)))
        return {"res": enc.vec(m(*args, q=q)), "want": enc.vec(want), "scale": enc.num(scale)}
    ctx.call("exact", dirichlet, what="Dirichlet data on a sphere")

"""Surface integrals, single-layer potentials, surface charges."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import integrate as mi
from magpi import surface_integral as si

from . import enc, gen, polys
from .d_quad import FORMS, npoly, rule_of, tree_fn


def skew(d):
    a, h = d[:-1], d[1:] - d[:-1]
    return jnp.concatenate([h / 4, 3 * h / 4]), jnp.concatenate([a + h / 3, a + 3 * h / 4])


def get_rule(name):
    if name == "skew":
        return skew, {"t": "skew"}
    m, e, _ = rule_of(name)
    return m, e


class Patch:
    def __init__(self, ctx, r, kind):
        self.kind = kind
        if kind == "cyl":
            self.a, self.z, self.h, self.f, self.w = (float(gen.f(ctx, v)) for v in (
                r.uniform(0.5, 2), r.normal(), r.uniform(0.5, 2) * r.choice([-1, 1]), r.uniform(-3, 3), r.uniform(0.5, 2) * r.choice([-1, 1])))
            return
        if kind == "affine":
            while True:
                m = np.round(r.normal(size=(3, 3)) * 4) / 4
                if np.linalg.norm(np.cross(m[:, 0], m[:, 1])) > 0.3:
                    break
            self.r = [polys.Poly([(float(m[i, 0]), [1, 0]), (float(m[i, 1]), [0, 1]), (float(m[i, 2]), [0, 0])]) for i in range(3)]
        elif kind == "graph":         # regular everywhere
            s = r.permutation(3)
            g = polys.Poly([(float(r.choice([-1, 0.5, 1])), [2, 0]), (float(r.choice([-1, 0.5, 1.5])), [1, 1]), (float(r.choice([-1, 0.5])), [0, 2]), (0.25, [0, 0])])
            x = polys.Poly([(float(r.choice([1.0, 1.5, -1.0])), [1, 0])])
            y = polys.Poly([(float(r.choice([1.0, 2.0, -0.5])), [0, 1]), (0.25, [1, 0])])
            v = [x, y, g]
            self.r = [v[i] for i in s]

    def __call__(self, u):
        if self.kind == "cyl":
            p = self.f + self.w * u[..., 0]
            return jnp.stack([self.a * jnp.cos(p), self.a * jnp.sin(p), self.z + self.h * u[..., 1]], axis=-1)
        v = [u[..., 0], u[..., 1]]
        return jnp.stack([p(v) for p in self.r], axis=-1)

    def enc(self):
        if self.kind == "cyl":
            return {"t": "cyl", **{k: enc.num(getattr(self, k)) for k in "azhfw"}}
        return {"t": "poly", "r": [p.enc() for p in self.r]}


KINDS = ["affine", "graph", "cyl"]


class Scen(Patch):
    """The catalogue of MC_Surface."""
    def __init__(self, k):
        P = polys.Poly
        if k == 3:
            self.kind, self.a, self.z, self.h, self.f, self.w = "cyl", 1.5, -0.5, 2.0, 0.25, 1.0
        else:
            self.kind = "poly"
            self.r = [None, [P([(1, [1, 0]), (-0.5, [0, 0])]), P([(2, [0, 1])]), P([(1, [1, 0]), (-1, [0, 1])])],
                      [P([(1, [1, 0])]), P([(1, [0, 1]), (0.5, [1, 0])]), P([(1, [2, 0]), (0.5, [1, 1])])]][k]


def part(ctx, r, n):
    k = int(r.integers(0, 3))
    if k == 0:
        return np.linspace(0.0, 1.0, n)
    if k == 1:
        return gen.f(ctx, np.sort(r.uniform(0, 1, size=n)))
    return gen.f(ctx, np.cumsum(r.uniform(0.1, 0.6, size=n)))


def scen_part(ctx, h, a):
    return gen.f(ctx, a + np.concatenate([[0.0], np.cumsum([x / y for x, y in h])]))


SMALL = ["gauss2", "gauss3", "midpoint", "trap", "simpson", "skew", "gauss5"]


def setups(ctx, name, quick, thorough):
    scen = ctx.sample(name, ctx.scen["surfaces"], ctx.n(quick, thorough))
    for i, (s, r) in enumerate(ctx.cases(name, [("s", s) for s in scen] + [("r", i) for i in range(ctx.n(quick, thorough))])):
        if s[0] == "s":
            s = s[1]
            yield i, r, Scen(s["pat"]), s["rule"], scen_part(ctx, s["hu"], 0.0), scen_part(ctx, s["hv"], 0.25)
        else:
            k = s[1]
            rule = SMALL[k % len(SMALL)]
            m = 3 if rule == "gauss5" else 5
            yield i, r, Patch(ctx, r, KINDS[k % 3]), rule, part(ctx, r, int(r.integers(2, m))), part(ctx, r, int(r.integers(2, m)))


def scale_tree(c, z):
    return jax.tree_util.tree_map(lambda y: c * y, z)


def surfaces(ctx):
    for i, r, P, name, u, v in setups(ctx, "surf", 34, 500):
        rule, er = get_rule(name)
        form, n = FORMS[int(r.integers(0, 4))]
        ps = [npoly(r, 3, 2) for _ in range(n)]
        f, flat = tree_fn(ps, form, r)
        s, t = float(r.choice([0.5, -2.0])), float(r.choice([3.0, -1.0]))
        how = int(r.integers(0, 3))
        kw = {} if name == "gauss5" and r.integers(0, 2) else {"method": rule}
        base = dict(patch=P.enc(), u=enc.vec(u), v=enc.vec(v), rule=er)

        def g(x, a, b=1.0):
            return scale_tree(a * b, f(x))

        def go():
            if how == 0:
                z = jax.jit(lambda uu, vv, a: si.integrate_surface(g, P, uu, vv, a, b=t, **kw))(jnp.asarray(u), jnp.asarray(v), s)
            else:
                z = si.integrate_surface(g, P, jnp.asarray(u), jnp.asarray(v), s, b=t, **kw)
            res = flat(z)
            return {"shape": res is not None, "res": enc.vec(res) if res is not None else []}
        ctx.call("surf", go, ps=[p.scale(s * t).enc() for p in ps], w=3, **base)

        qs = [npoly(r, 6, 1) for _ in range(n)]
        fq, flatq = tree_fn(qs, form, r)

        def gq(x, c, a, b=1.0):
            return scale_tree(a * b, fq([x[0], x[1], x[2], c[0], c[1], c[2]]))

        def goe():
            nu, nv = len(u) - 1, len(v) - 1
            z = si.integrate_surface_elements(gq, P, jnp.asarray(u), jnp.asarray(v), s, b=t, **kw)
            out, ok = [], all(np.shape(q)[:2] == (nu, nv) for q in jax.tree_util.tree_leaves(z))
            for a in range(nu) if ok else []:
                row = []
                for b in range(nv):
                    w = flatq(jax.tree_util.tree_map(lambda q: q[a, b], z))
                    ok = ok and w is not None
                    row.append(enc.vec(w) if w is not None else [])
                out.append(row)
            return {"shape": bool(ok), "res": out if ok else []}
        ctx.call("elems", goe, ps=[p.scale(s * t).enc() for p in qs], w=4, **base)

        def gom():
            z = np.asarray(si.midpoints(P, jnp.asarray(u), jnp.asarray(v)))
            ok = z.shape == (len(u) - 1, len(v) - 1, 3)
            return {"shape": ok, "res": [enc.mat(q) for q in z] if ok else []}
        base.pop("rule")
        ctx.call("mids", gom, **base)


def xpoly(r, deg):
    """Polynomial in three variables of total degree exactly deg."""
    t = [(float(r.choice([-1, 0.5, 1, 2])), [0, 0, 0])]
    for _ in range(2 * deg):
        e = [0, 0, 0]
        for _ in range(int(r.integers(1, deg + 1))):
            e[int(r.integers(0, 3))] += 1
        t.append((float(r.choice([-1, 0.5, 1, 2])), e))
    if deg:
        e = [0, 0, 0]
        for _ in range(deg):
            e[int(r.integers(0, 3))] += 1
        t.append((1.5, e))
    return polys.Poly(t)


def potentials(ctx):
    scen = ctx.sample("slp", ctx.scen["surfaces"], ctx.n(10, 150))
    items = [("s", s) for s in scen] + [("r", i) for i in range(ctx.n(26, 300))]
    for (k, s), r in ctx.cases("slp", items):
        if k == "s":
            P, name = Scen(s["pat"]), s["rule"]
            u, v = scen_part(ctx, s["hu"], 0.0), scen_part(ctx, s["hv"], 0.25)
        else:
            P = Patch(ctx, r, KINDS[s % 3])
            name = ["gauss2", "skew", "gauss3", "midpoint", "simpson", "gauss5"][s % 6]
            m = 3 if name == "gauss5" else 4
            u, v = part(ctx, r, int(r.integers(2, m))), part(ctx, r, int(r.integers(2, m)))
        potential(ctx, r, P, name, u, v)
    for i, r in ctx.cases("charge", ctx.n(60, 600)):
        charge(ctx, r, i)


def potential(ctx, r, P, name, u, v):
    rule, er = get_rule(name)
    order = int(r.integers(0, 4))
    deg = int(r.integers(0, order + 1)) if r.integers(0, 3) == 0 else order
    n = int(r.choice([1, 3, 3]))
    ps = [xpoly(r, deg) for _ in range(n)]
    # a target away from the surface
    uu, vv = np.meshgrid(np.linspace(u[0], u[-1], 12), np.linspace(v[0], v[-1], 12))
    pts = np.asarray(P(jnp.stack([jnp.asarray(uu.ravel()), jnp.asarray(vv.ravel())], axis=-1)))
    while True:
        x = gen.f(ctx, pts[int(r.integers(0, len(pts)))] + r.normal(size=3) * r.choice([0.7, 2.0]))
        dist = np.min(np.linalg.norm(pts - x, axis=1))
        if dist > 0.3:
            break
    s, t = float(r.choice([0.5, -2.0])), float(r.choice([3.0, -1.0]))

    def f(y, a, b=1.0):
        z = [a * b * p(y) for p in ps]
        return z[0] if n == 1 else jnp.stack(z)
    withd = bool(r.integers(0, 4))
    kw = {} if name == "gauss5" and r.integers(0, 2) else {"method": rule}
    okw = {} if order == 2 and r.integers(0, 2) else {"order": order}

    def go():
        U, W = jnp.asarray(u), jnp.asarray(v)
        C = si.charge_tensor(f, P, U, W, s, b=t, **okw)
        src = si.source_tensor(jnp.asarray(x), P, U, W, **kw, **okw, **({} if withd else {"compute_jacfwd": False}))
        val = si.single_layer_potential(src[0] if withd else src, C)
        out = {"val": enc.vec(val), "grad": withd}
        if withd:
            out["g"] = enc.mat(np.asarray(si.single_layer_potential(src[1], C)).reshape(n, 3))
            if n == 3:
                out["curl"] = enc.vec(si.curl_single_layer_potential(src[1], C))
        return out
    ctx.call("slp", go, patch=P.enc(), u=enc.vec(u), v=enc.vec(v), rule=er, x=enc.vec(x), dist=enc.num(float(np.float32(dist / 2))),
             ps=[p.scale(s * t).enc() for p in ps], w=4)


def adf_poly(ctx, r):
    k = int(r.integers(0, 3))
    if k == 0:    # half space through a point, normal not normalized
        m = r.normal(size=3) * r.uniform(0.5, 3)
        return polys.Poly([(float(gen.f(ctx, m[i])), [int(j == i) for j in range(3)]) for i in range(3)] + [(float(gen.f(ctx, r.normal())), [0, 0, 0])])
    if k == 1:    # ball, not normalized
        c = np.round(r.normal(size=3) * 4) / 4
        return polys.Poly([(-1.0, [2 * int(j == i) for j in range(3)]) for i in range(3)]
                          + [(float(2 * c[i]), [int(j == i) for j in range(3)]) for i in range(3)] + [(float(4 - c @ c), [0, 0, 0])])
    return polys.rand(r, 3, deg=2, maxexp=2)


def charge(ctx, r, i):
    w = adf_poly(ctx, r)
    while True:
        x = polys.point(ctx, r, 3)
        g = np.asarray(jax.grad(lambda z: w(z))(jnp.asarray(x)))
        if np.linalg.norm(g) > 0.2:
            break
    nf = 1 if i % 2 else 3
    mag = [polys.rand(r, 3, deg=2, maxexp=2) for _ in range(3)]
    f = [polys.rand(r, 3, deg=2, maxexp=2) for _ in range(nf)]
    a, b = float(r.choice([0.5, -2.0])), float(r.choice([3.0, -1.0]))
    normalized = bool(r.integers(0, 2))
    make = si.scalar_potential_charge if nf == 1 else si.vector_potential_charge
    M = lambda z, c=1.0: jnp.stack([c * m(z) for m in mag])
    F = (lambda z, c=1.0: c * f[0](z)) if nf == 1 else (lambda z, c=1.0: jnp.stack([c * q(z) for q in f]))
    how = int(r.integers(0, 4))
    pm, pf = [((a,), (b,)), ((a,), ()), ((), (b,)), ((a,), (b,))][int(r.integers(0, 4))]
    kf = ("params_phi1" if nf == 1 else "params_A1") if r.integers(0, 3) == 0 else None
    if not pm and kf is not None:
        kf = "only"

    def pars():
        if kf == "only":
            return (), {("params_phi1" if nf == 1 else "params_A1"): pf}
        if kf is not None:
            return (pm,), ({kf: pf} if pf else {})
        return ((pm, pf) if pf or r.integers(0, 2) else (pm,)), {}

    def go():
        ch = make(lambda z: w(z), M, F, normalized=True) if normalized else (make(lambda z: w(z), M, F) if r.integers(0, 2) else make(lambda z: w(z), M, F, normalized=False))
        if how == 1:
            ch = jax.jit(ch)
        if how == 2:
            pa, kw = pars()
            z = jax.vmap(lambda q: ch(q, *pa, **kw))(jnp.stack([jnp.asarray(x), jnp.asarray(x) + 0.5]))[0]
        else:
            pa, kw = pars()
            z = ch(jnp.asarray(x), *pa, **kw)
        return {"res": enc.vec(z)}
    ctx.call("charge", go, adf=w.enc(), mag=[m.scale(a if pm else 1.0).enc() for m in mag], f=[q.scale(b if pf else 1.0).enc() for q in f], x=enc.vec(x), normalized=normalized)
    if i % 2 == 0:
        agree(ctx, r, i)


def agree(ctx, r, i):
    """A boundary point of a body with a normalized distance function."""
    nf = 1 if r.integers(0, 2) else 3
    k = int(r.integers(0, 2))
    if k == 0:
        n = np.array([[3, 4, 0], [2, 3, 6], [0, 0, -1], [1, -2, 2], [0, 5, -12]][int(r.integers(0, 5))], dtype=float)
        n = n / np.linalg.norm(n)
        d = float(r.normal())
        q = r.normal(size=3)
        x = gen.f(ctx, q - (q @ n - d) * n)
        adf = lambda z: jnp.dot(z, jnp.asarray(n)) - d
    else:
        c, R = r.normal(size=3), float(r.uniform(0.5, 2))
        q = r.normal(size=3)
        x = gen.f(ctx, c + R * q / np.linalg.norm(q))
        adf = lambda z: R - jnp.linalg.norm(z - jnp.asarray(c))
    mag = [polys.rand(r, 3, deg=2, maxexp=2) for _ in range(3)]
    f = [polys.rand(r, 3, deg=2, maxexp=2) for _ in range(nf)]
    M = lambda z: jnp.stack([m(z) for m in mag])
    F = (lambda z: f[0](z)) if nf == 1 else (lambda z: jnp.stack([p(z) for p in f]))
    make = si.scalar_potential_charge if nf == 1 else si.vector_potential_charge
    X = jnp.asarray(x)
    scale = max(float(jnp.max(jnp.abs(jax.jacfwd(F)(X)))), float(jnp.max(jnp.abs(M(X)))))

    def go():
        return {"a": enc.vec(make(adf, M, F, normalized=True)(X)), "b": enc.vec(make(adf, M, lambda z: adf(z) * F(z))(X))}
    ctx.call("agree", go, scale=enc.num(scale))

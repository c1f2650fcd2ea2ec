"""Domains: maps, boundary maps, membership, normals."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import domain as md

from . import enc, gen

F = lambda ctx, x: [float(v) for v in gen.f(ctx, x)]


def tup(x):
    return tuple(float(v) for v in x)


class D:
    """A domain: the code's object or functions beside its description."""
    def __init__(self, t, obj=None, tr=None, bnd=None, pdim=2, bdim=1, **par):
        self.t, self.obj, self.tr, self.bnd, self.pdim, self.bdim, self.par = t, obj, tr, bnd, pdim, bdim, par

    def enc(self):
        e = {"t": self.t}
        for k, v in self.par.items():
            e[k] = enc.num(v) if np.ndim(v) == 0 else (enc.vec(v) if np.ndim(v) == 1 else enc.mat(v))
        return e


def box(lb, ub, fn):
    lb, ub = np.array(lb, float), np.array(ub, float)
    n = len(lb)
    if fn:
        return D("box", None, lambda x: md.transform_hypercube(x, jnp.asarray(lb), jnp.asarray(ub)),
                 lambda x: md.transform_hypercube_bnd(x, jnp.asarray(lb), jnp.asarray(ub)), n, n - 1, lb=lb, ub=ub)
    o = md.Hypercube(tup(lb), tup(ub))
    return D("box", o, o.transform, o.transform_bnd, n, n - 1, lb=lb, ub=ub)


def ball(c, rad, fn):
    c, rad = np.array(c, float), float(rad)
    n = len(c)
    if fn:
        a, b = (md.transform_circle, md.transform_circle_bnd) if n == 2 else (md.transform_sphere, md.transform_sphere_bnd)
        return D("ball", None, lambda x: a(x, jnp.asarray(rad), jnp.asarray(c)), lambda x: b(x, jnp.asarray(rad), jnp.asarray(c)), n, n - 1, o=c, r=rad)
    o = (md.Disk if n == 2 else md.Sphere)(rad, tup(c))
    return D("ball", o, o.transform, o.transform_bnd, n, n - 1, o=c, r=rad)


def annulus(c, r1, r2, fn):
    c = np.array(c, float)
    if fn:
        return D("annulus", None, lambda x: md.transform_annulus(x, jnp.asarray(r1), jnp.asarray(r2), jnp.asarray(c)), None, 2, 1, o=c, r1=r1, r2=r2)
    o = md.Annulus(r1, r2, tup(c))
    return D("annulus", o, o.transform, None, 2, 1, o=c, r1=r1, r2=r2)


def par(a, b, c):
    o = md.Parallelogram(tup(a), tup(b), tup(c))
    return D("par", o, o.transform, o.transform_bnd, 2, 1, a=np.array(a, float), b=np.array(b, float), c=np.array(c, float))


def tri(a, b, c):
    a, b, c = (np.array(z, float) for z in (a, b, c))
    return D("tri", None, lambda x: md.transform_triangle(x, jnp.asarray(a), jnp.asarray(b), jnp.asarray(c)), None, 2, 1, a=a, b=b, c=c)


def line(ps):
    ps = np.array(ps, float)
    return D("line", None, None, lambda s: md.transform_polyline(s, tuple(jnp.asarray(p) for p in ps)), 2, 1, p=ps)


def corners(ctx, r, dims):
    n = int(r.choice(dims))
    while True:
        p = gen.f(ctx, np.round(r.normal(size=(3, n)) * 8) / 8 if r.integers(0, 2) else r.normal(size=(3, n)) * r.choice([0.5, 2.0]))
        d, e = p[1] - p[0], p[2] - p[0]
        g = (d @ d) * (e @ e) - (d @ e) ** 2
        if g > 0.05:
            return p


def rand_dom(ctx, r, kinds):
    t = kinds[int(r.integers(0, len(kinds)))]
    fn = bool(r.integers(0, 3) == 0)
    if t == "box":
        n = int(r.choice([1, 2, 2, 3, 3, 4]))
        lb = gen.f(ctx, r.normal(size=n) * r.choice([0.5, 3.0]))
        return box(lb, gen.f(ctx, lb + r.uniform(0.2, 3, size=n)), fn)
    if t == "ball":
        n = int(r.choice([2, 3]))
        return ball(gen.f(ctx, r.normal(size=n) * 2), gen.f(ctx, r.uniform(0.2, 3)), fn)
    if t == "annulus":
        r1 = float(gen.f(ctx, r.choice([0.0, r.uniform(0.1, 2)])))
        return annulus(gen.f(ctx, r.normal(size=2) * 2), r1, float(gen.f(ctx, r1 + r.uniform(0.2, 2))), fn)
    if t == "par":
        return par(*corners(ctx, r, [2, 3, 3]))
    if t == "tri":
        return tri(*corners(ctx, r, [2, 2, 3]))
    n, m = int(r.choice([2, 3])), int(r.integers(2, 7))
    p = gen.f(ctx, r.normal(size=(m, n)) * 2)
    if m > 2 and r.integers(0, 2):
        p = np.concatenate([p, p[:1]])
    return line(p)


CAT = [lambda: box([-1, 0], [1, 2], False), lambda: box([0, -1, 0], [1, 1, 2], False), lambda: ball([0, 1], 1, False),
       lambda: ball([0, 0, 1], 1, False), lambda: annulus([0, 0], 1.0, 2.0, False), lambda: par([-1, 0], [1, 1], [0, 2]), lambda: tri([-1, 0], [1, -1], [0, 2])]


def params(ctx, r, shape):
    x = r.uniform(0, 1, size=shape)
    k = int(r.integers(0, 4))
    if k == 0:
        x = np.round(x * 4) / 4
    if k == 1:
        x = np.where(r.uniform(size=shape) < 0.3, r.choice([0.0, 1.0, 0.5], size=shape), x)
    return gen.f(ctx, x)


def interior(ctx, r, n, d):
    return gen.f(ctx, r.uniform(0.02, 0.98, size=(n, d)))


def kron(n, d):
    """Low-discrepancy points (additive recurrence)."""
    g = 2.0
    for _ in range(60):
        g = (1 + g) ** (1 / (d + 1))
    a = np.array([g ** -(j + 1) for j in range(d)])
    return (0.5 + np.outer(np.arange(1, n + 1), a)) % 1.0


def interiors(ctx):
    items = [i for i in range(7)] + [None] * ctx.n(60, 700)
    for c, r in ctx.cases("map", items):
        dom = CAT[c]() if c is not None else rand_dom(ctx, r, ["box", "ball", "annulus", "par", "tri", "box", "ball"])
        bshape = [(), (5,), (2, 3), (1,), (2, 1, 2)][int(r.integers(0, 5))]
        x = params(ctx, r, bshape + (dom.pdim,))
        y = interior(ctx, r, 4, dom.pdim)
        usejit = bool(r.integers(0, 2))
        ysh = [(4,), (2, 2), (4, 1), (1, 2, 2)][int(r.integers(0, 4))]

        def go():
            tr = jax.jit(dom.tr) if usejit else dom.tr
            z = np.asarray(tr(jnp.asarray(x)))
            dim = len(dom.par.get("lb", dom.par.get("o", dom.par.get("a"))))
            ok = z.shape == bshape + (dim,)
            pts = z.reshape(-1, dim) if ok else []
            jac = [np.asarray(jax.jacfwd(dom.tr)(jnp.asarray(q))).reshape(dim, dom.pdim) for q in y]
            out = {"shape": ok, "pts": enc.mat(pts) if ok else [], "jac": [enc.mat(J) for J in jac]}
            has = dom.obj is not None and hasattr(dom.obj, "support")
            out["bat"] = enc.mat(np.asarray(tr(jnp.asarray(y).reshape(ysh + (dom.pdim,)))).reshape(4, dim))
            out["sgl"] = enc.mat([np.asarray(dom.tr(jnp.asarray(q))) for q in y])
            out["hassup"] = has
            out["sup"] = enc.num(dom.obj.support()) if has else 0
            return out
        ctx.call("map", go, dom=dom.enc(), w=2)
        g = kron(2000, dom.pdim)

        def cover():
            z = np.asarray(dom.tr(jnp.asarray(g)), dtype=np.float64)
            m = z.mean(axis=0)
            return {"mean": enc.vec(m), "cov": enc.mat((z - m).T @ (z - m) / len(z))}
        ctx.call("cover", cover, dom=dom.enc())
    for i, r in ctx.cases("affine", ctx.n(30, 300)):
        if i % 2:
            n = int(r.integers(2, 5))
            abc = gen.f(ctx, r.normal(size=(3, n)) * float(r.choice([1.0, 10.0, 0.1])))
            ref, img, fn = np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]]), abc, md.affine_plane
            arg = [jnp.asarray(q) for q in abc]
        else:
            k, n = int(r.integers(1, 5)), int(r.integers(1, 5))
            ref = gen.f(ctx, np.eye(k) * r.choice([1.0, 2.0, -1.5]) + 0.2 * r.normal(size=(k, k)))
            img = gen.f(ctx, r.normal(size=(k, n)) * float(r.choice([1.0, 10.0, 0.1])))
            fn, arg = (lambda a, b: (md.linear_map(a, b), jnp.zeros(b.shape[1]))), [jnp.asarray(ref), jnp.asarray(img)]
        fn = jax.jit(fn) if i % 4 < 2 else fn

        def go():
            B, o = fn(*arg)
            return {"B": enc.mat(np.asarray(B)), "off": enc.vec(np.asarray(o))}
        ctx.call("affine", go, ref=enc.mat(ref), img=enc.mat(img))
    pts = [s for s in ctx.scen["lattice"] if s["dom"] <= 4]
    for s, r in ctx.cases("incl", ctx.sample("incl", pts, ctx.n(120, 3000))):
        member(ctx, CAT[s["dom"] - 1](), np.array(s["pt"]) / 2.0, r)
    for i, r in ctx.cases("inclr", ctx.n(80, 900)):
        dom = None
        while dom is None or dom.obj is None:
            dom = rand_dom(ctx, r, ["box", "ball"])
        n = dom.pdim
        if dom.t == "box":
            x = dom.par["lb"] + (dom.par["ub"] - dom.par["lb"]) * r.choice([-0.1, 0.0, 0.3, 0.7, 1.0, 1.2], size=n, p=[0.08, 0.2, 0.27, 0.27, 0.1, 0.08])
        else:
            q = r.normal(size=n)
            x = dom.par["o"] + q / np.linalg.norm(q) * dom.par["r"] * r.choice([0.0, 0.5, 0.99, 1.01, 2.0])
        member(ctx, dom, gen.f(ctx, x), r)


def member(ctx, dom, x, r):
    form = int(r.integers(0, 3))

    def go():
        X = jnp.asarray(x)
        if form == 1:
            X = jnp.stack([X + 100.0, X])
        elif form == 2:
            X = jnp.stack([jnp.stack([X]), jnp.stack([X + 100.0])])
        z = np.asarray(dom.obj.includes(X))
        if z.shape == X.shape and dom.t == "box":
            z = z.all(axis=-1)
        assert z.shape == X.shape[:-1], z.shape
        return {"res": bool(z if form == 0 else (z[1] if form == 1 else z[0, 0]))}
    ctx.call("includes", go, dom=dom.enc(), x=enc.vec(x))


def ends(ctx, r, x):
    """Some of the parameters moved to the very ends of the range."""
    eps = 2.0 ** (-53 if ctx.mode == 64 else -24)
    top = 1 - eps * r.integers(1, 40, size=np.shape(x))
    return gen.f(ctx, np.where(r.uniform(size=np.shape(x)) < 0.4, np.where(r.integers(0, 4, size=np.shape(x)) > 0, top, eps), x))


LINES = [[[0, 0], [3, 0], [3, 4], [0, 0]], [[0, 0], [2, 0], [2, 1], [0, 1], [0, 0]], [[1, 0, 0], [1, 2, 0], [1, 2, 3], [5, 2, 6]],
         [[0, 0], [4, 3], [4, 3], [1, 7]]]


def boundaries(ctx):
    bylines = {}
    for s in ctx.scen["params"]:
        bylines.setdefault(s["line"], []).append(s["s"][0] / s["s"][1])
    doms = [("line", k) for k in sorted(bylines)] + [("cat", k) for k in (0, 1, 2, 3, 5)] + [("long", i) for i in range(ctx.n(10, 150))] + [("rand", i) for i in range(ctx.n(60, 700))]
    for (kind, k), r in ctx.cases("bmap", doms):
        xs = None
        if kind == "line":
            dom = line(LINES[k - 1])
            xs = gen.f(ctx, sorted(bylines[k]))
        elif kind == "cat":
            dom = CAT[k]()
        elif kind == "long":
            # of several polylines the one whose length depends most on the order of summation
            best, m, d = -np.inf, int(r.integers(20, 80)), int(r.choice([2, 3]))
            for _ in range(60):
                q = gen.f(ctx, r.uniform(-3, 3, size=(m, d)))
                sides = jnp.linalg.norm(jnp.diff(jnp.asarray(q), axis=0), axis=1)
                gap = float(jnp.sum(sides) - jnp.cumsum(sides)[-1])
                if gap > best:
                    best, p = gap, q
            if k % 3 == 0:              # a repeated point, also at the start or end
                j = int(r.choice([0, 0, len(p) - 1, r.integers(0, len(p))]))
                p = np.insert(p, j, p[j], axis=0)
            dom = line(p)
            xs = ends(ctx, r, params(ctx, r, (8,)))
            xs[:2] = gen.f(ctx, [1 - 2.0 ** (-53 if ctx.mode == 64 else -24), 0.0])
        else:
            dom = rand_dom(ctx, r, ["box", "box", "ball", "par", "line"])
        dim = dom.par["p"].shape[1] if dom.t == "line" else len(dom.par.get("lb", dom.par.get("o", dom.par.get("a"))))
        b = dom.bdim
        if dom.t == "box" and dim == 1:
            shapes = [(), (5,), (4, 1)]
        elif dom.t == "box" and dim == 2:
            shapes = [(), (5,), (4, 1), (2, 3, 1)]
        elif dom.t == "box":
            shapes = [(b,), (5, b), (2, 2, b)]
        elif dom.t == "ball" and dim == 3:
            shapes = [(2,), (5, 2), (2, 3, 2)]
        elif dom.t == "ball":
            shapes = [(), (5,), (4, 1), (2, 3)]
        else:
            shapes = [(), (5,), (1,)]
        sh = shapes[int(r.integers(0, len(shapes)))]
        x = xs if xs is not None else params(ctx, r, sh)
        if xs is None and r.integers(0, 4) == 0:
            x = ends(ctx, r, x)
        sh = x.shape
        lead = sh if not (b > 1 or (sh and sh[-1] == 1 and dom.t in ("box", "ball") and len(sh) > 1)) else sh[:-1]
        npts = int(np.prod(lead)) if lead else 1
        usejit = bool(r.integers(0, 2))
        # derivative parameters, in the interior of parts
        y = interior(ctx, r, 5, max(b, 1))

        def go():
            f = jax.jit(dom.bnd) if usejit else dom.bnd
            z = np.asarray(f(jnp.asarray(x)))
            ok = z.size == npts * dim and (z.shape == lead + (dim,) or (dim == 1))
            pts = z.reshape(-1, dim) if ok else []
            jac = []
            if not (dom.t == "box" and dim == 1):
                for q in y:
                    if b == 1:
                        J = np.asarray(jax.jacfwd(lambda s: dom.bnd(s).reshape(dim))(jnp.asarray(q[0]))).reshape(dim, 1)
                    else:
                        J = np.asarray(jax.jacfwd(dom.bnd)(jnp.asarray(q))).reshape(dim, b)
                    jac.append(enc.mat(J))
            z = [np.asarray(dom.bnd(jnp.asarray(q if b > 1 else q[0]))).reshape(dim) for q in y]
            if not ok:
                bat = z
            elif sh in ((), (b,)) and b > 1 or sh == ():
                bat = np.asarray(f(jnp.asarray(y if b > 1 else y[:, 0]))).reshape(5, dim)
            else:     # the given layout, filled with these parameters
                q = np.resize(y, (npts, max(b, 1))).reshape(sh)
                bat = np.resize(np.asarray(f(jnp.asarray(q))).reshape(-1, dim), (npts, dim))
                z = [z[i % 5] for i in range(npts)]
            return {"shape": bool(ok), "pts": enc.mat(pts) if ok else [], "jac": jac, "bat": enc.mat(bat), "sgl": enc.mat(z)}
        ctx.call("bmap", go, dom=dom.enc(), w=2)
        N = 3000
        g = kron(N, b) if b > 1 else (np.arange(N)[:, None] + 0.5) / N

        def share():
            q = jnp.asarray(g if b > 1 or (dom.t == "box" and dim > 1) else g[:, 0])
            z = np.asarray(dom.bnd(q), dtype=np.float64).reshape(N, dim)
            return {"parts": enc.vec(np.bincount(parts(dom, z), minlength=nparts(dom)) / N)}
        ctx.call("share", share, dom=dom.enc())


def nparts(dom):
    if dom.t == "box":
        return 2 * len(dom.par["lb"])
    if dom.t == "ball":
        return 2 ** len(dom.par["o"])
    return 4 if dom.t == "par" else len(dom.par["p"]) - 1


def parts(dom, z):
    """Index of the boundary part nearest to each point."""
    if dom.t == "box":
        d = np.concatenate([np.abs(z - dom.par["lb"]), np.abs(z - dom.par["ub"])], axis=1)
        return np.argmin(d, axis=1)
    if dom.t == "ball":
        return ((z - dom.par["o"]) > 0) @ (2 ** np.arange(z.shape[1]))
    if dom.t == "par":
        a, b, c = dom.par["a"], dom.par["b"], dom.par["c"]
        p = np.stack([a, b, b + c - a, c, a])
    else:
        p = dom.par["p"]
    ds = []
    for u, v in zip(p[:-1], p[1:]):
        e = v - u
        ee = e @ e
        s = np.clip((z - u) @ e / ee, 0, 1) if ee > 0 else np.zeros(len(z))
        # a repeated point is never the nearest part
        ds.append(np.linalg.norm(z - u - s[:, None] * e, axis=1) if ee > 0 else np.full(len(z), np.inf))
    return np.argmin(np.stack(ds, axis=1), axis=1)


def normals(ctx):
    pts = [s for s in ctx.scen["lattice"] if s["dom"] <= 4]
    for s, r in ctx.cases("normal", ctx.sample("normal", pts, ctx.n(220, 3000))):
        normal(ctx, CAT[s["dom"] - 1](), np.array(s["pt"])[None] / 2.0, r, True)
    for i, r in ctx.cases("normals", ctx.n(160, 1500)):
        dom = None
        while dom is None or dom.obj is None:
            dom = rand_dom(ctx, r, ["box", "ball"])
        n, k = dom.pdim, int(r.choice([1, 1, 2, 4]))
        xs = []
        for _ in range(k):
            if dom.t == "box":
                lb, ub = dom.par["lb"], dom.par["ub"]
                x = lb + (ub - lb) * r.uniform(0.05, 0.95, size=n)
                m = 1 + int(r.integers(0, n)) if r.integers(0, 2) else 1
                for a in r.permutation(n)[:m]:
                    x[a] = lb[a] if r.integers(0, 2) else ub[a]
            else:
                q = r.normal(size=n)
                if r.integers(0, 3) == 0:
                    q = np.eye(n)[int(r.integers(0, n))] * r.choice([-1, 1])
                x = dom.par["o"] + q / np.linalg.norm(q) * dom.par["r"]
            xs.append(gen.f(ctx, x))
        xs = np.array(xs)
        off = int(r.integers(0, 5))
        if off == 0:      # one point off the boundary: inside or outside
            j = int(r.integers(0, k))
            c = (dom.par["lb"] + dom.par["ub"]) / 2 if dom.t == "box" else dom.par["o"]
            xs[j] = gen.f(ctx, c + (xs[j] - c) * r.choice([0.5, 1.5, 0.9]))
        if off == 1 and dom.t == "box":      # on the plane of a face but beyond it
            j, a = int(r.integers(0, k)), int(r.integers(0, n))
            xs[j, a] = gen.f(ctx, dom.par["ub"][a] + 0.5)
        normal(ctx, dom, xs, r, k == 1 and bool(r.integers(0, 2)))
    for i, r in ctx.cases("tol", ctx.n(60, 500)):
        loose(ctx, r, i)
    for i, r in ctx.cases("thin", ctx.n(16, 120)):
        n = 2 + int(r.integers(0, 2))
        lb = np.array([r.uniform(50, 200) * r.choice([-1, 1]) for _ in range(n)])
        w = r.uniform(1, 3, size=n)
        a = int(r.integers(0, n))
        w[a] = 2e-4
        lb = gen.f(ctx, lb)
        dom = box(lb, gen.f(ctx, lb + w), False)
        x = lb + w * r.uniform(0.2, 0.8, size=n)
        x[a] = dom.par["lb" if r.integers(0, 2) else "ub"][a]
        normal(ctx, dom, gen.f(ctx, x)[None], r, True)
    for i, r in ctx.cases("equal", ctx.n(30, 200)):
        equality(ctx, r, i)


def loose(ctx, r, i):
    """Tolerances given by the user: points this close to the boundary count as on it."""
    tol = float(r.choice([0.02, 0.05]))
    dom = None
    while dom is None or dom.obj is None:
        dom = rand_dom(ctx, r, ["box", "ball"])
    n, k = dom.pdim, int(r.choice([1, 2, 4]))
    xs = []
    for j in range(k):
        off = tol * r.uniform(-0.4, 0.4) if i % 3 or j else tol * r.choice([-3.0, 3.0])
        if dom.t == "box":
            lb, ub = dom.par["lb"], dom.par["ub"]
            x = lb + (ub - lb) * r.uniform(0.3, 0.7, size=n)
            a = int(r.integers(0, n))
            x[a] = (lb if r.integers(0, 2) else ub)[a] + off
        else:
            q = r.normal(size=n)
            x = dom.par["o"] + q / np.linalg.norm(q) * (dom.par["r"] + off)
        xs.append(gen.f(ctx, x))
    normal(ctx, dom, np.array(xs), r, k == 1 and bool(r.integers(0, 2)), tol)


def normal(ctx, dom, xs, r, single, tol=None):
    n, k = xs.shape[1], len(xs)
    sh = (k, n)
    if single:
        sh = (n,)
    elif k == 4 and r.integers(0, 2):
        sh = (2, 2, n)

    def go():
        x = jnp.asarray(xs.reshape(sh))
        z = dom.obj.normal_vec(x) if tol is None else dom.obj.normal_vec(x, rtol=0.0, atol=tol)
        if z is None:
            return {"got": False, "shape": True, "ns": []}
        z = np.asarray(z)
        ok = z.shape == sh
        return {"got": True, "shape": ok, "ns": enc.mat(z.reshape(-1, n)) if ok else []}
    ctx.call("normal", go, dom=dom.enc(), pts=enc.mat(xs), **({} if tol is None else {"tol": enc.num(tol)}))


def equality(ctx, r, i):
    cls = [md.Hypercube, md.Parallelogram, md.Sphere, md.Disk, md.Annulus][i % 5]

    def make(v):
        v = [float(q) for q in v]
        if cls is md.Hypercube:
            return lambda: md.Hypercube(tuple(v[:2]), (v[0] + v[2] ** 2 + 1, v[1] + 1.0))
        if cls is md.Parallelogram:
            return lambda: md.Parallelogram((v[0], v[1]), (v[0] + 1.0, v[1]), (v[2], v[1] + 2.0))
        if cls is md.Sphere:
            return lambda: md.Sphere(abs(v[0]) + 1, (v[1], v[2], 0.0))
        if cls is md.Disk:
            return lambda: md.Disk(abs(v[0]) + 1, (v[1], v[2]))
        return lambda: md.Annulus(0.5, abs(v[0]) + 1, (v[1], v[2]))
    v = gen.f(ctx, r.normal(size=3))
    w = np.array(v)
    w[int(r.integers(0, 3))] += 1.0
    f = jax.jit(lambda d, x: d.transform(x) + 0.0, static_argnums=0)

    def go():
        a, b, c = make(v)(), make(v)(), make(w)()
        x = jnp.full((3, 3 if cls is md.Sphere else 2), 0.25)
        z = f(a, x)
        f(b, x)
        ok = f._cache_size() >= 1 and bool(np.allclose(z, b.transform(x), rtol=1e-4, atol=1e-4))
        return {"eq": bool(a == b) and not bool(a != b), "hash": hash(a) == hash(b), "neq": not bool(a == c), "static": ok and len({a, b}) == 1}
    ctx.call("equal", go, cls=cls.__name__)

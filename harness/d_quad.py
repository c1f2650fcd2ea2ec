"""Quadrature rules, boxes, disks and balls."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import integrate as mi

from . import enc, gen, polys


def rule_of(name):
    if name.startswith("gauss"):
        n = int(name[5:])
        return mi.gauss(n), {"t": "gauss", "n": n}, 2 * n - 1
    return getattr(mi, name), {"t": name}, {"midpoint": 1, "trap": 1, "simpson": 3}[name]


RULES = ["midpoint", "trap", "simpson", "gauss1", "gauss2", "gauss3", "gauss4", "gauss5", "gauss7", "gauss9", "gauss12"]


def partition(ctx, r, n=None):
    n = int(r.integers(2, 8)) if n is None else n
    k = int(r.integers(0, 6))
    a, b = np.sort(r.uniform(-2, 2, size=2))
    b = a + max(b - a, 0.3)
    if k == 0:
        d = np.linspace(a, b, n)
    elif k == 1:
        d = a + (b - a) * np.linspace(0, 1, n) ** 2
    elif k == 2:
        d = np.sort(r.uniform(a, b, size=n))
    elif k == 3:
        d = np.sort(r.uniform(a, b, size=n))[::-1]
    elif k == 4:
        d = np.round(np.cumsum(r.uniform(0, 1.2, size=n)) * 4) / 4     # repeated points
    else:
        d = np.cumsum(r.uniform(-0.5, 1.0, size=n))                    # folding back
    return gen.f(ctx, d)


def scen_partition(ctx, s):
    return gen.f(ctx, -0.5 + np.concatenate([[0.0], np.cumsum([a / b for a, b in s["hs"]])]))


def poly1(r, deg):
    k = int(r.integers(1, 4))
    t = [(float(r.choice([-3, -2, -1, 0.5, 1, 2])), [int(r.integers(0, deg + 1))]) for _ in range(k)]
    return polys.Poly(t + [(float(r.choice([-1, 1, 2])), [deg])])


def one_dimensional(ctx):
    scen = [s for s in ctx.scen["partitions"]]
    items = [(s["rule"], s) for s in ctx.sample("scen", scen, ctx.n(110, 2000))]
    items += [(RULES[i % len(RULES)], None) for i in range(ctx.n(126, 1800))]
    for i, ((name, s), r) in enumerate(ctx.cases("one", items)):
        rule, er, deg = rule_of(name)
        many = None if i % 6 != 5 else int(r.choice([12, 33, 80])) if deg <= 7 else 12
        d = scen_partition(ctx, s) if s else partition(ctx, r, many)
        how = int(r.integers(0, 3))

        def go():
            f = jax.jit(rule) if how == 1 else rule
            if how == 2:
                w, x = jax.vmap(rule)(jnp.stack([jnp.asarray(d), jnp.asarray(d) * 2 + 1]))
                w, x = w[0], x[0]
            else:
                w, x = f(jnp.asarray(d))
            return {"wt": enc.vec(w), "x": enc.vec(x)}
        ctx.call("rule", go, d=enc.vec(d), rule=er)
        integral1(ctx, r, rule, er, deg, d, name)


def integral1(ctx, r, rule, er, deg, d, name):
    p = poly1(r, deg if name.startswith("gauss") or r.integers(0, 2) else deg + 2)
    q = poly1(r, max(0, deg - 1))
    s, t = float(r.choice([-2.0, 0.5, 3.0])), float(r.choice([-1.0, 2.0]))
    # s * p + t * q with s positional and t by keyword
    tot = polys.Poly([(c * s, e) for c, e in p.terms] + [(c * t, e) for c, e in q.terms])
    form = int(r.integers(0, 6))
    args = int(r.integers(0, 3))

    def val(x, a, b):
        return a * p([x]) + b * q([x])

    def f(x, a=s if args == 0 else 7.0, b=t if args == 0 else 5.0):
        v = val(x, a, b)
        if form == 3:
            return {"u": v, "v": (2 * v, p([x]))}
        if form == 4:
            return jnp.stack([v, -v], axis=-1)
        return v
    dom = jnp.asarray(d)
    if form == 1:
        dom = [dom]
    elif form == 2:
        dom = (dom,)
    elif form == 5:
        dom = dom[None, :]
    ps = [tot]
    if form == 3:
        ps = [tot, tot.scale(2), p]
    elif form == 4:
        ps = [tot, tot.scale(-1)]
    kw = {} if name == "simpson" and r.integers(0, 2) else {"method": rule}

    def go():
        if args == 0:
            z = mi.integrate(f, dom, **kw)
        elif args == 1:
            z = mi.integrate(f, dom, s, b=t, **kw)
        else:
            z = jax.jit(lambda dm, a, b: mi.integrate(f, dm, a, b, **kw))(dom, s, t)
        if form == 3:
            ok = isinstance(z, dict) and set(z) == {"u", "v"} and all(np.shape(v) == () for v in jax.tree_util.tree_leaves(z))
            res = [z["u"], z["v"][0], z["v"][1]] if ok else []
        elif form == 4:
            ok = np.shape(z) == (2,)
            res = list(z) if ok else []
        else:
            ok = np.shape(z) == ()
            res = [z]
        return {"shape": bool(ok), "res": enc.vec(res) if ok else []}
    ctx.call("box", go, ds=[enc.vec(d)], rule=er, ps=[u.enc() for u in ps])


def tree_fn(ps, form, r):
    """A tree-valued integrand and how its integral is flattened in the order of ps."""
    n = len(ps)

    def f(x):
        v = [jnp.asarray(p(x)) for p in ps]
        if form == "scalar":
            return v[0]
        if form == "vec":
            return jnp.stack(v)
        if form == "mat":
            return jnp.stack(v).reshape(2, 2)
        return {"a": v[0], "b": (jnp.stack(v[1:]).reshape(1, -1),)}

    def flat(z):
        like = {"scalar": (), "vec": (n,), "mat": (2, 2)}.get(form)
        if like is not None:
            return (list(np.asarray(z).ravel()) if np.shape(z) == like else None)
        try:
            if np.shape(z["a"]) != () or np.shape(z["b"][0]) != (1, n - 1):
                return None
            return [z["a"]] + list(np.asarray(z["b"][0]).ravel())
        except Exception:  # noqa: BLE001
            return None
    return f, flat


FORMS = [("scalar", 1), ("vec", 3), ("mat", 4), ("tree", 3)]


def npoly(r, nv, deg):
    """Terms whose exponents differ between the axes."""
    out = []
    for _ in range(int(r.integers(2, 4))):
        e = [int(r.integers(0, deg + 1)) for _ in range(nv)]
        out.append((float(r.choice([-2, -1, 0.5, 1, 3])), e))
    e = [0] * nv
    e[int(r.integers(0, nv))] = min(deg, 1)
    out.append((float(r.choice([-2, 1, 3])), e))
    return polys.Poly(out)


def solids(ctx):
    for i, r in ctx.cases("box", ctx.n(90, 1000)):
        box(ctx, r, i)
    secs = {}
    for s in ctx.scen["solids"]:
        for p in s["pieces"]:
            secs[tuple(sorted(p.items()))] = p
    secs = [secs[k] for k in sorted(secs)]
    for i, (s, r) in enumerate(ctx.cases("sector", ctx.sample("sector", secs, ctx.n(36, 300)))):
        r1, r2 = s["r1"] / 2, s["r2"] / 2
        f1, f2, t1, t2 = (gen.f(ctx, s[k] * np.pi / 6) for k in ("f1", "f2", "t1", "t2"))
        polar(ctx, r, "disk" if i % 3 == 0 else "ball", r1, r2, f1, f2, t1, t2)
    for i, r in ctx.cases("polar", ctx.n(60, 700)):
        r1 = float(gen.f(ctx, r.choice([0.0, r.uniform(0.1, 1)])))
        r2 = float(gen.f(ctx, r1 + r.uniform(0.3, 1.5)))
        f1, f2 = gen.f(ctx, np.sort(r.uniform(0, np.pi, size=2)))
        t1, t2 = gen.f(ctx, np.sort(r.uniform(-np.pi, 2 * np.pi, size=2)))
        polar(ctx, r, "disk" if i % 2 else "ball", r1, r2, float(f1), float(f2), float(t1), float(t2))


def box(ctx, r, i):
    nv = int(r.choice([2, 2, 3, 3, 4]))
    name = RULES[i % len(RULES)]
    rule, er, deg = rule_of(name)
    form, np_ = FORMS[int(r.integers(0, 4))]
    dd = min(deg, 3) if name.startswith("gauss") else min(deg, 2) + int(r.integers(0, 2))
    ps = [npoly(r, nv, dd) for _ in range(np_)]
    sizes = [2, 3, 4, 5] if nv < 4 else [2, 3]
    ds = [partition(ctx, r, int(r.choice(sizes))) for _ in range(nv)]
    if r.integers(0, 3) == 0:
        ds = [partition(ctx, r, 3) for _ in range(nv)]
    f, flat = tree_fn(ps, form, r)
    k = int(r.integers(0, 4))
    kw = {} if name == "simpson" and r.integers(0, 2) else {"method": rule}
    s, t = float(r.choice([0.5, -2.0])), float(r.choice([3.0, -1.0]))
    dom = [jnp.asarray(d) for d in ds]
    if k == 0:
        dom = tuple(dom)
    elif k == 1 and len({len(d) for d in ds}) == 1:
        dom = jnp.stack(dom)

    def g(x, a, b=1.0):
        return jax.tree_util.tree_map(lambda z: a * b * z, f(x))

    def go():
        if k == 2:
            z = jax.jit(lambda dm, a, b: mi.integrate(g, dm, a, b=b, **kw))(dom, s, t)
        else:
            z = mi.integrate(g, dom, s, b=t, **kw)
        res = flat(z)
        return {"shape": res is not None, "res": enc.vec(res) if res is not None else []}
    ctx.call("box", go, ds=[enc.vec(d) for d in ds], rule=er, ps=[p.scale(s * t).enc() for p in ps], w=2)


def polar(ctx, r, kind, r1, r2, f1, f2, t1, t2):
    nv = 2 if kind == "disk" else 3
    form, np_ = FORMS[int(r.integers(0, 4))]
    ps = [npoly(r, nv, 2) for _ in range(np_)]
    f, flat = tree_fn(ps, form, r)
    o = gen.f(ctx, r.choice([0.0, 1.0], p=[0.2, 0.8]) * r.normal(size=nv))
    resolved = bool(r.integers(0, 2))
    if resolved:
        name, n = "gauss12", ([3, 7] if kind == "disk" else [2, 4, 7])
    else:
        name = ["simpson", "trap", "midpoint", "gauss2"][int(r.integers(0, 4))]
        n = [int(r.integers(2, 6)) for _ in range(nv)]
    same = (not resolved) and r.integers(0, 4) == 0
    if same:
        n = [n[0]] * nv
    rule, er, _ = rule_of(name)
    full = r.integers(0, 5)
    if full == 0:     # all defaults: the full disk or ball
        r1, f1, f2, t1, t2 = 0.0, 0.0, float(gen.f(ctx, np.pi)), 0.0, float(gen.f(ctx, 2 * np.pi))
    s, t = float(r.choice([0.5, -2.0])), float(r.choice([3.0, -1.0]))
    how = int(r.integers(0, 3))
    kw = {} if name == "simpson" and r.integers(0, 2) else {"method": rule}
    fn = mi.integrate_disk if kind == "disk" else mi.integrate_sphere

    def g(x, a=7.0 if how == 0 and full else s, b=t if how == 2 or full == 0 else 5.0):
        return jax.tree_util.tree_map(lambda z: a * b * z, f(x))

    def go():
        nn = n[0] if same else tuple(n)
        oo = jnp.asarray(o)
        if full == 0:
            z = fn(g, r2, oo, nn, **kw)
        elif kind == "disk":
            if how == 0:
                z = fn(g, r2, oo, nn, r1, t1, t2, s, b=t, **kw)
            elif how == 1:
                z = fn(g, r2, oo, nn, r_inner=r1, phi1=t1, phi2=t2, b=t, **kw)
            else:
                z = jax.jit(lambda q, c: fn(g, q, c, nn, r1, t1, t2, **kw))(r2, oo)
        else:
            if how == 0:
                z = fn(g, r2, oo, nn, r1, f1, f2, t1, t2, s, b=t, **kw)
            elif how == 1:
                z = fn(g, r2, oo, nn, r_inner=r1, phi1=f1, phi2=f2, theta1=t1, theta2=t2, b=t, **kw)
            else:
                z = jax.jit(lambda q, c: fn(g, q, c, nn, r1, f1, f2, t1, t2, **kw))(r2, oo)
        res = flat(z)
        return {"shape": res is not None, "res": enc.vec(res) if res is not None else []}
    extra = {} if kind == "disk" else {"f1": enc.num(f1), "f2": enc.num(f2)}
    ctx.call(kind, go, rule=er, n=n, o=enc.vec(o), r1=enc.num(r1), r2=enc.num(r2), t1=enc.num(t1), t2=enc.num(t2),
             resolved=resolved, ps=[p.scale(s * t).enc() for p in ps], w=3, **extra)

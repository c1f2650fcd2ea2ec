import jax
import jax.numpy as jnp
import numpy as np

from magpi import r_fun
from magpi.r_fun import RAlpha, RAlphaM, RP, RhoBlending

from . import enc, gen


def systems(ctx, r=None):
    """(system, spec record)"""
    out = [(r_fun.r1, {"t": "alpha", "a": enc.num(1.0)}), (r_fun.r0, {"t": "alpha", "a": enc.num(0.0)}),
           (r_fun.rp2, {"t": "p", "p": 2}), (r_fun.rp4, {"t": "p", "p": 4}), (RP(6), {"t": "p", "p": 6}),
           (RP(20), {"t": "p", "p": 20})]
    for a in (0.5, -0.5, 0.25, -0.75):
        out.append((RAlpha(a), {"t": "alpha", "a": enc.num(a)}))
    out.append((RAlpha(1), {"t": "alpha", "a": enc.num(1)}))
    for m, a in ((2, 0.0), (1, 0.5), (3, 1.0), (0, -0.5), (4, 0.25)):
        out.append((RAlphaM(m, a), {"t": "alpham", "mm": m, "a": enc.num(a)}))
    for rho in (0.5, 2.0, 0.125):
        out.append((RhoBlending(rho), {"t": "rho", "rho": enc.num(rho)}))
    return out


BIN = {"inter": "intersection", "union": "union", "diff": "difference", "xor": "xor", "impl": "implication", "equiv": "equivalence"}


def values(ctx, r, shape):
    """Leaf values: general position, zeros, ties, near-ties, mixed magnitudes."""
    k = int(r.integers(0, 7))
    v = r.normal(size=shape)
    if k == 0:
        v = np.round(v * 2) / 2
    elif k == 1:
        v = v * 10.0 ** r.integers(-3, 4, size=shape)
    elif k == 2:
        v = np.sign(v) * abs(v[..., :1])
    elif k == 3:
        v = v[..., :1] * (1 + r.integers(-2, 3, size=shape) * (1e-9 if ctx.mode == 64 else 1e-5))
    elif k == 4:
        v[..., int(r.integers(0, shape[-1]))] = 0.0
    elif k == 5:
        v = v * 1e-2
    return gen.f(ctx, v)


def expressions(ctx):
    sys_ = systems(ctx)
    progs = ctx.scen["expressions"]
    main = ctx.sample("progs", progs, ctx.n(170, 3000))
    small = [p for p in progs if len(p) == 3]
    items = [(p, s) for i, p in enumerate(main) for s in [sys_[i % len(sys_)]]]
    items += [(p, s) for s in sys_ for p in small]
    # nesting raises values to high powers in systems of order m: they overflow, which is not a sign
    lim = 3 if ctx.mode == 64 else 2
    items = [(p, s) for p, s in items if s[1].get("mm", 0) < lim or len(p) == 3]
    for (prog, (s, rec)), r in ctx.cases("expr", items):
        program(ctx, r, prog, s, rec)
    for i, r in ctx.cases("bin", ctx.n(220, 3000)):
        s, rec = sys_[i % len(sys_)]
        a, b = [float(z) for z in values(ctx, r, (2,))]
        if rec["t"] == "p" and i % 3 == 0:      # powers of these do not fit into a floating-point number
            a, b = [float(z) for z in gen.f(ctx, np.array([a, b]) * 10.0 ** float(r.choice([-9, -6, 6, 9, 12])))]
        if rec["t"] == "alpham" and ctx.mode == 32:
            a, b = np.clip([a, b], -50, 50).tolist()
        form = int(r.integers(0, 3))
        mk = (float, jnp.asarray, lambda z: jnp.asarray(z))[form]

        def run():
            x, y = mk(a), mk(b)
            c = jax.jit(s.conjunction) if form == 2 and i % 8 == 0 else s.conjunction
            return {"conj": enc.num(c(x, y)), "disj": enc.num(s.disjunction(x, y)),
                    "swap": enc.num(s.conjunction(y, x)), "dual": enc.num(s.disjunction(-x, -y))}
        ctx.call("bin", run, sys=rec, a=enc.num(a), b=enc.num(b))
    for i, r in ctx.cases("nary", ctx.n(40, 300)):
        s, rec = [q for q in sys_ if q[1]["t"] in ("alpha", "p")][i % 10]
        n = int(r.integers(2, 6))
        v = values(ctx, r, (n,))
        op = ["inter", "union"][i % 2]

        def run():
            fn = s.conjunction if op == "inter" else s.disjunction
            adfs = [(lambda x, j=j: x[j]) for j in range(n)]
            return {"res": enc.num(r_fun.compose(fn)(*adfs)(jnp.asarray(v)))}
        ctx.call("nary", run, sys=rec, leaves=enc.vec(v), op=op)
    if ctx.part == 0:
        for what, fn in (("alpha -1", lambda: RAlpha(-1.0)), ("alpha 1.5", lambda: RAlpha(1.5)), ("alpham -1", lambda: RAlphaM(1, -1.0)),
                         ("alpham 2", lambda: RAlphaM(1, 2.0)), ("p 3", lambda: RP(3))):
            try:
                fn()
                ok = False
            except Exception:
                ok = True
            ctx.emit("refuse", what=what, refused=ok)


def program(ctx, r, prog, s, rec):
    nleaf = prog.count("leaf")
    npts = 3
    X = values(ctx, r, (npts, nleaf))
    if rec["t"] in ("alpham", "p") and ctx.mode == 32:
        X = np.clip(X, -8, 8)
    if rec["t"] == "alpham":
        X = np.clip(X, -4, 4)
    ctx.new()
    ctx.log("begin", sys=rec)
    st, k = [], 0
    mode = int(r.integers(0, 3))

    def ev(adf):
        if mode == 0:
            return np.array([float(adf(jnp.asarray(x))) for x in X])
        f = jax.vmap(adf)
        return np.asarray((jax.jit(f) if mode == 2 else f)(jnp.asarray(X)))
    for ins in prog:
        if ins == "leaf":
            st.append(lambda x, k=k: x[k])
            ctx.log("leaf", res=enc.vec(X[:, k]))
            k += 1
            continue
        try:
            if ins == "neg":
                f = s.negate(st.pop())
            else:
                b, a = st.pop(), st.pop()
                f = getattr(s, BIN[ins])(a, b)
            res = enc.vec(ev(f))
        except Exception as ex:  # noqa: BLE001
            ctx.log("op", op=ins, exc=type(ex).__name__ + ": " + str(ex)[:100])
            return
        ctx.log("op", op=ins, res=res)
        st.append(f)


# -- gradients of set expressions ------------------------------------------

def body(ctx, r, d):
    """A body with unit normals: (function, a point of its boundary as a function of a random one)."""
    kind = int(r.integers(0, 4))
    c = r.normal(size=d)
    if kind == 0:      # half space
        n = r.normal(size=d)
        n = n / np.linalg.norm(n)
        ca, na = jnp.asarray(gen.f(ctx, c)), jnp.asarray(gen.f(ctx, n))
        return (lambda x: (x - ca) @ na), (lambda y: y - n * ((y - c) @ n))
    c = gen.f(ctx, c)
    if kind == 1:
        R = float(r.integers(2, 9)) / 4

        def onto(y):
            v = y - c
            return c + R * v / np.linalg.norm(v)
        return r_fun.translate(r_fun.sphere(R), jnp.asarray(c)), onto
    L = r.integers(2, 9, size=d) / 4
    q = int(r.integers(0, d))
    side = float(r.integers(0, 2))

    def onto(y):
        z = c + np.clip((y - c), -0.35 * L, 0.35 * L)
        z[q] = c[q] + (side - 0.5) * L[q]
        return z
    return r_fun.translate(r_fun.cuboid(L.tolist(), centering=True), jnp.asarray(c)), onto


def gradients(ctx):
    sys_ = systems(ctx)
    progs = ctx.scen["expressions"]
    main = ctx.sample("progs", progs, ctx.n(90, 1500))
    small = [p for p in progs if len(p) == 3]
    items = [(p, sys_[i % len(sys_)]) for i, p in enumerate(main)] + [(small[(i + j) % len(small)], s) for i, s in enumerate(sys_) for j in (0, 3)]
    for (prog, (s, rec)), r in ctx.cases("grad", items):
        gradient(ctx, r, prog, s, rec)


def gradient(ctx, r, prog, s, rec):
    nleaf, npts = prog.count("leaf"), 3
    geo = bool(r.integers(0, 3))
    high = rec.get("mm", 0) > 2 and len(prog) > 3
    if high:
        return
    if geo:
        d = int(r.integers(2, 4))
        made = [body(ctx, r, d) for _ in range(nleaf)]
        leaves = [m[0] for m in made]
        X = r.normal(size=(npts, d)) * 1.2
        for j in range(npts):
            if j != 1:
                X[j] = made[int(r.integers(0, nleaf))][1](X[j])
        X = gen.f(ctx, X)
    else:
        d = nleaf
        leaves = [(lambda x, k=k: x[k]) for k in range(nleaf)]
        X = values(ctx, r, (npts, d))
        X = np.clip(X, -8, 8)
        if rec["t"] == "alpham":
            X = np.clip(X, -3, 3)
    ctx.new()
    ctx.log("begin", sys=rec)
    usejit = bool(r.integers(0, 2))

    def ev(adf):
        w = (lambda f: jax.jit(jax.vmap(f))) if usejit else jax.vmap
        Xj = jnp.asarray(X)
        return np.asarray(w(adf)(Xj)), np.asarray(w(jax.grad(adf))(Xj)), np.asarray(w(jax.jacfwd(adf))(Xj))
    st, k, vals, grads = [], 0, [], []
    for ins in prog:
        if ins == "leaf":
            f = leaves[k]
            v, g, _ = ev(f)
            vals.append(v)
            grads.append(g)
            ctx.log("leaf", res=enc.vec(v), grad=enc.mat(g))
            st.append(f)
            k += 1
            continue
        try:
            if ins == "neg":
                f = s.negate(st.pop())
            else:
                b, a = st.pop(), st.pop()
                f = getattr(s, BIN[ins])(a, b)
            v, g, h = ev(f)
        except Exception as ex:  # noqa: BLE001
            ctx.log("op", op=ins, exc=type(ex).__name__ + ": " + str(ex)[:100])
            return
        ctx.log("op", op=ins, res=enc.vec(v), grad=enc.mat(g), fwd=enc.mat(h))
        st.append(f)
    on, normals = [], []
    tiny = 1e-9 if ctx.mode == 64 else 1e-5
    for j in range(npts):
        a = np.abs(np.array([v[j] for v in vals], dtype=np.float64))
        k = int(np.argmin(a))
        rest = np.sort(np.delete(a, k))
        apart = len(rest) > 0 and rest[0] > 0.05 and rest[-1] < 20 and np.all(np.diff(rest) > 0.02 * rest[1:])
        good = a[k] <= tiny and apart and (not geo or abs(np.linalg.norm(grads[k][j]) - 1) < 1e-3)
        on.append(k + 1 if good else 0)
        normals.append(grads[k][j])
    ctx.log("final", on=on, normals=enc.mat(np.array(normals)))

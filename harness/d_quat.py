import jax
import jax.numpy as jnp
import numpy as np

from magpi.quaternions import (Quaternion, arg, from_axis_angle, from_euler_angles, quanternion_exp,
                               quanternion_log, quaternion_left_div, quaternion_reflection,
                               quaternion_right_div, quaternion_rotation)

from . import enc, gen

OPS = {
    "add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q, "div": lambda p, q: p / q,
    "ldiv": quaternion_left_div, "rdiv": quaternion_right_div,
    "neg": lambda p: -p, "conj": lambda p: p.conj(), "recip": lambda p: p.reciprocal(),
    "copy": lambda p: jax.jit(lambda z: z)(p),
    "tree": lambda p: jax.tree_util.tree_map(lambda z: z, p),
    "adds": lambda p, s: p + s, "radds": lambda p, s: s + p, "subs": lambda p, s: p - s, "rsubs": lambda p, s: s - p,
    "muls": lambda p, s: p * s, "rmuls": lambda p, s: s * p, "divs": lambda p, s: p / s,
}
BIN = {"add", "sub", "mul", "div", "ldiv", "rdiv"}
UN = {"neg", "conj", "recip", "copy", "tree"}


def qvec(q):
    return enc.vec(np.concatenate([np.asarray(q.real, dtype=np.float64)[None], np.asarray(q.imag, dtype=np.float64)]))


def leaf(ctx, r, kind=None):
    kind = r.integers(0, 10) if kind is None else kind
    v = gen.vec(r, 4)
    if kind == 0:
        v = np.zeros(4)
        v[r.integers(0, 4)] = r.choice([-1.0, 1.0, 2.0])
    elif kind == 1:
        v[0] = 0.0
    elif kind == 2:
        v[1:] = 0.0
    elif kind == 3:
        v = v / np.linalg.norm(v + 1e-9)
    elif kind == 4:
        v = v * 10.0 ** r.integers(-6, 7)
    elif kind == 5:
        v[r.integers(0, 4)] = 0.0
    elif kind == 6:
        v = v * np.array([1.0, -1.0, 1.0, -1.0])
    if not np.any(v):
        v[0] = 1.0
    return gen.f(ctx, v)


def mk(v, form=0):
    if form == 1:
        return Quaternion(jnp.asarray(v[0]), jnp.asarray(v[1:]))
    if form == 2 and all(float(x).is_integer() for x in v):
        return Quaternion(int(v[0]), tuple(int(x) for x in v[1:]))
    return Quaternion(float(v[0]), tuple(float(x) for x in v[1:]))


def scalar_as(s, form):
    if form == 1:
        return jnp.asarray(s)
    if form == 2 and float(s).is_integer():
        return int(s)
    if form == 3:
        return np.asarray(s, dtype=jnp.zeros(()).dtype)[()]
    return float(s)


def program(ctx, prog, r, jit):
    ctx.new()
    ctx.log("begin")
    leaves, scal = [], []
    form = int(r.integers(0, 3))
    for ins in prog:
        if ins == "push":
            leaves.append(leaf(ctx, r, 8 if (form == 2) else None))
            if form == 2:
                leaves[-1] = np.array([float(r.integers(-5, 6)) for _ in range(4)])
                if not leaves[-1].any():
                    leaves[-1][3] = 2.0
        elif ins not in BIN and ins not in UN:
            scal.append(float(gen.f(ctx, gen.nonzero(r))))

    def run(lv, sc, log):
        st, i, j, outs = [], 0, 0, []
        for ins in prog:
            if ins == "push":
                st.append(lv[i])
                i += 1
                if log:
                    ctx.log("push", res=qvec(st[-1]))
                continue
            try:
                if ins in BIN:
                    q, p = st.pop(), st.pop()
                    res, fld = OPS[ins](p, q), {}
                elif ins in UN:
                    res, fld = OPS[ins](st.pop()), {}
                else:
                    s = sc[j]
                    j += 1
                    fld = {} if not log else {"sc": enc.num(s)}
                    res = OPS[ins](st.pop(), s)
                if not isinstance(res, Quaternion):
                    raise TypeError("result is a " + type(res).__name__)
            except Exception as ex:  # noqa: BLE001
                if not log:
                    raise
                ctx.log("op", op=ins, exc=type(ex).__name__ + ": " + str(ex)[:100])
                return
            if log:
                ctx.log("op", op=ins, res=qvec(res), **fld)
            outs.append(res)
            st.append(res)
        return outs

    qs = [mk(v, form) for v in leaves]
    ss = [scalar_as(s, int(r.integers(0, 4))) for s in scal]
    if not jit:
        run(qs, ss, True)
        return
    # compiled: the whole program as one function; all intermediate results are outputs
    try:
        outs = jax.jit(lambda a, b: run(a, b, False))(qs, ss)
    except Exception as ex:  # noqa: BLE001
        ctx.log("op", op="jit", exc=type(ex).__name__ + ": " + str(ex)[:100])
        return
    i = j = k = 0
    for ins in prog:
        if ins == "push":
            ctx.log("push", res=qvec(qs[i]))
            i += 1
        else:
            fld = {}
            if ins not in BIN and ins not in UN:
                fld = {"sc": enc.num(ss[j])}
                j += 1
            ctx.log("op", op=ins, res=qvec(outs[k]), **fld)
            k += 1


def algebra(ctx):
    progs = ctx.sample("programs", ctx.scen["programs"], ctx.n(260, 4000)) + ctx.sample("deep", ctx.scen["deep"], ctx.n(140, 3000))
    for prog, r in ctx.cases("prog", progs):
        program(ctx, prog, r, False)
    for prog, r in ctx.cases("jit", ctx.sample("jit", progs, ctx.n(24, 300))):
        program(ctx, prog, r, True)
    for i, r in ctx.cases("abs", ctx.n(60, 600)):
        v = leaf(ctx, r)
        ctx.call("abs", lambda: {"res": enc.num(abs(mk(v)))}, q=enc.vec(v))
    for i, r in ctx.cases("eq", ctx.n(60, 300)):
        p = leaf(ctx, r)
        q = p.copy()
        if i % 3:
            j = i % 4
            q[j] = p[j] + (1.0 if i % 2 else -0.5) if i % 5 or p[j] == 0 else np.nextafter(np.float32(p[j]), np.float32(np.inf), dtype=np.float32)
            q = gen.f(ctx, q)
        if i % 7 == 0:
            q = -p
        ctx.call("eq", lambda: {"res": bool(mk(p, 1) == mk(q))}, p=enc.vec(p), q=enc.vec(q))
        if i % 10 == 0:
            ctx.call("eqother", lambda: {"res": bool(mk(p) == 1.5)})
    ctx.call("zero", lambda: {"res": qvec(Quaternion.zero_quaternion())})


def angle(ctx, r):
    k = r.integers(0, 5)
    if k == 0:
        a = float(r.choice([0, 1, -1, 2, 3, 4, 0.5])) * np.pi
    elif k == 1:
        a = float(r.integers(-7, 8))
    elif k == 2:
        a = r.normal() * 1e-3
    else:
        a = r.uniform(-10, 10)
    return float(gen.f(ctx, a))


def v3(ctx, r, nz=True):
    while True:
        k = r.integers(0, 4)
        v = gen.vec(r, 3)
        if k == 0:
            v = np.zeros(3)
            v[r.integers(0, 3)] = r.choice([-1.0, 1.0, 3.0])
        if k == 1:
            v[r.integers(0, 3)] = 0.0
        v = gen.f(ctx, v)
        if not nz or np.linalg.norm(v) > 1e-3:
            return v


def v3s(ctx, r, nz=True):
    """As v3, of any length."""
    v = v3(ctx, r, nz)
    return gen.f(ctx, v * 10.0 ** r.uniform(-7, 6)) if r.integers(0, 2) else v


def as_vec(v, form):
    return tuple(float(x) for x in v) if form else jnp.asarray(v)


def cached(fn):
    """fn of (q, *args) compiled once; every 8th call runs uncompiled."""
    jf = jax.jit(fn)
    n = [0]

    def call(*a):
        n[0] += 1
        return fn(*a) if n[0] % 8 == 0 else jf(*a)
    return call


def rotations(ctx):
    jexp, jlog, jarg, jpow, jrpow = map(cached, (quanternion_exp, quanternion_log, arg, lambda q, p: q ** p, lambda q, b: b ** q))
    jrot = jax.jit(quaternion_rotation)
    # rotation quaternions are built by programs of the model
    progs = [p for p in ctx.scen["rotations"]]
    for prog, r in ctx.cases("rot", (progs * 40)[:ctx.n(160, 2000)]):
        st = []
        for ins in prog:
            if ins == "push":
                st.append(mk(leaf(ctx, r), 1))
            elif ins in BIN:
                b, a = st.pop(), st.pop()
                st.append(OPS[ins](a, b))
            elif ins in UN:
                st.append(OPS[ins](st.pop()))
            else:
                st.append(OPS[ins](st.pop(), float(gen.nonzero(r))))
        q = st[-1]
        n = float(abs(q))
        if not 1e-8 < n < 1e8:
            continue
        x = v3s(ctx, r, False)
        form = bool(r.integers(0, 2))
        fn = quaternion_rotation if r.integers(0, 4) else jrot
        ctx.call("rot", lambda: {"res": enc.vec(fn(as_vec(x, form), q))}, x=enc.vec(x), q=qvec(q))
    for i, r in ctx.cases("rotb", ctx.n(6, 20)):   # batches of points, one quaternion
        q = mk(leaf(ctx, r, 9), 1)
        xs = np.stack([v3(ctx, r) for _ in range(4)])
        try:
            ys = jax.vmap(lambda z: quaternion_rotation(z, q))(jnp.asarray(xs))
        except Exception as ex:
            ctx.emit("rot", exc=repr(ex)[:100])
            continue
        for x, y in zip(xs, ys):
            ctx.emit("rot", res=enc.vec(y), x=enc.vec(x), q=qvec(q))
    for i, r in ctx.cases("refl", ctx.n(60, 600)):
        x, n = v3s(ctx, r, False), v3s(ctx, r)
        form = bool(r.integers(0, 2))
        ctx.call("refl", lambda: {"res": enc.vec(quaternion_reflection(as_vec(x, form), as_vec(n, not form)))},
                 x=enc.vec(x), n=enc.vec(n))
    for i, r in ctx.cases("axis", ctx.n(70, 700)):
        t, ax = angle(ctx, r), v3s(ctx, r)
        form = bool(r.integers(0, 2))
        ctx.call("axis", lambda: {"res": qvec(from_axis_angle(t, as_vec(ax, form)))}, t=enc.num(t), ax=enc.vec(ax))
    for i, r in ctx.cases("euler", ctx.n(60, 600)):
        t = np.array([angle(ctx, r) for _ in range(3)])
        if i % 6 == 0:
            t[r.integers(0, 3)] = 0.0
        form = bool(r.integers(0, 2))
        ctx.call("euler", lambda: {"res": qvec(from_euler_angles(as_vec(t, form)))}, t=enc.vec(t))
    for i, r in ctx.cases("exp", ctx.n(60, 600)):
        v = gen.f(ctx, np.concatenate([[r.uniform(-3, 3)], v3(ctx, r, False) if i % 5 else np.zeros(3)]))
        if np.linalg.norm(v[1:]) > 30:
            v[1:] /= 64
        if i % 4 == 1:
            v[1:] = gen.f(ctx, v[1:] * 10.0 ** r.uniform(-12, -2))
        ctx.call("exp", lambda: {"res": qvec(jexp(mk(v)))}, q=enc.vec(v))

    def moderate(r):
        while True:
            v = gen.f(ctx, r.normal(size=4) * 10.0 ** r.uniform(-2, 2))
            c = v[0] / np.linalg.norm(v)
            if abs(c) < 0.95:
                return v
    for i, r in ctx.cases("log", ctx.n(60, 600)):
        if i % 3 == 0:          # close to the positive or the negative real axis, or on the positive one
            v = gen.f(ctx, np.concatenate([[abs(gen.nonzero(r))], r.normal(size=3) * r.choice([0.0, 0.0, 1e-3, 1e-5, 1e-7, 1e-9])]))
            if v[1:].any() and i % 2:
                v[0] *= -1
        else:
            v = moderate(r)
            if r.integers(0, 3) == 0:
                v = gen.f(ctx, v * 10.0 ** r.choice([-14.0, -8.0, -5.0, 4.0]))
        ctx.call("log", lambda: {"res": qvec(jlog(mk(v)))}, q=enc.vec(v))
        ctx.call("arg", lambda: {"res": enc.num((jarg if i % 2 else arg)(mk(v)))}, q=enc.vec(v))
        w = gen.f(ctx, np.concatenate([[r.uniform(-2, 2)], r.normal(size=3)]))
        w[1:] = gen.f(ctx, w[1:] / np.linalg.norm(w[1:]) * r.choice([r.uniform(0.1, 3.0), 10.0 ** r.uniform(-9, -1)]))
        ctx.call("logexp", lambda: {"res": qvec(jlog(jexp(mk(w))))}, q=enc.vec(w))
    for i, r in ctx.cases("logreal", ctx.n(30, 300)):
        v = gen.f(ctx, np.concatenate([r.uniform(0.1, 10, size=1), [0.0, 0.0, 0.0]]))
        v[1:] = gen.f(ctx, r.choice([0.0, 0.0, 1e-3, 1e-5, 1e-9]) * np.array([0, 1, 0]))
        ctx.call("log", lambda: {"res": qvec(jlog(mk(v)))}, q=enc.vec(v))
    for i, r in ctx.cases("pow", ctx.n(60, 500)):
        v = moderate(r)
        if i % 4 == 3:              # on the positive real axis or close to it
            v = np.concatenate([[1.0], r.normal(size=3) * r.choice([0.0, 0.0, 1e-3, 1e-6])])
        v = gen.f(ctx, v / np.linalg.norm(v) * r.uniform(0.5, 2))
        n = int(r.integers(-4, 6))
        e = n if i % 2 else float(n)
        ctx.call("powi", lambda: {"res": qvec(jpow(mk(v), e))}, q=enc.vec(v), n=n)
        # sums of powers small enough to stay on the principal branch
        a, b = float(r.integers(-8, 9)) / 16, float(r.integers(-8, 9)) / 16
        ctx.call("powsum", lambda: {"ra": qvec(jpow(mk(v), a)), "rb": qvec(jpow(mk(v), b)), "rc": qvec(jpow(mk(v), a + b))}, q=enc.vec(v))
        k = int(r.choice([2, 4]))
        ctx.call("powroot", lambda: {"ra": qvec(jpow(mk(v), 1 / k))}, q=enc.vec(v), n=k)
        c = float(gen.f(ctx, r.uniform(-1.5, 1.5)))
        base = float(np.exp(np.float64(c)))
        if ctx.mode == 32:
            base = float(np.float32(base))
        ctx.call("rpow", lambda: {"res": qvec(jrpow(mk(v), base))}, q=enc.vec(v), c=enc.num(np.log(base)))

"""Rejection sampling."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import sampling

from . import enc, gen


def make(w, f, a, b, form, use):
    cw = np.cumsum(np.array(w) / np.sum(w))
    fj = jnp.asarray(np.array(f))

    def sample_fn(key):
        raw = jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key
        k1, k2 = jax.random.split(key)
        if use == "u":          # proposals drawn with the very key they are given
            k2 = key
        elif use == "c":
            k1 = key
        c = jnp.sum(jax.random.uniform(k1) >= jnp.asarray(cw[:-1])).astype(jnp.int32)
        u = jax.random.uniform(k2)
        if form == "flat":      # one array: category, number, key halves (exact in 24-bit pieces)
            r = raw.astype(jnp.uint32).ravel()
            parts = jnp.stack([r[0] >> 16, r[0] & 0xFFFF, r[1] >> 16, r[1] & 0xFFFF]).astype(u.dtype)
            return jnp.concatenate([jnp.stack([c.astype(u.dtype), u]), parts])
        if form == "tuple":
            return (c, (u, raw))
        return {"c": c, "z": {"u": u, "k": raw, "v": jnp.stack([u, 2 * u])}}

    def cu(s):
        if form == "flat":
            return s[..., 0].astype(jnp.int32), s[..., 1]
        if form == "tuple":
            return s[0], s[1][0]
        return s["c"], s["z"]["u"]

    def keys(s):
        if form == "flat":
            p = np.asarray(s[..., 2:]).astype(np.uint32)
            return np.stack([(p[..., 0] << 16) | p[..., 1], (p[..., 2] << 16) | p[..., 3]], axis=-1)
        return np.asarray(s[1][1] if form == "tuple" else s["z"]["k"])

    def pdf(s):
        c, u = cu(s)
        return fj[c] * (a + b * u)
    return sample_fn, pdf, cu, keys


def sampling_runs(ctx):
    q = lambda p: p[0] / p[1]
    items = [("s", s) for s in ctx.scen["problems"]] * (2 if ctx.mode == 64 else 1) + [("r", i) for i in range(ctx.n(20, 300))]
    for (kind, s), r in ctx.cases("rej", items):
        if kind == "s":
            w, f, a, b, m = [q(x) for x in s["w"]], [q(x) for x in s["f"]], q(s["a"]), q(s["b"]), q(s["m"])
        else:
            C = int(r.integers(2, 6))
            w = [float(r.integers(1, 5)) for _ in range(C)]
            f = [float(r.choice([0.0, 0.25, 0.5, 1.0, 2.0])) for _ in range(C)]
            f[int(r.integers(0, C))] = 1.0
            a, b = [(1.0, 0.0), (0.0, 1.0), (0.5, 1.0), (1.0, -1.0), (0.25, 0.5)][int(r.integers(0, 5))]
            top = max(f) * max(a, a + b)
            m = top * float(r.choice([1.0, 1.0, 1.5, 4.0]))
        one(ctx, r, w, f, a, b, m)
    if ctx.mode == 32:
        for i, r in ctx.cases("zero", len(ZERO_DRAWS)):
            excluded(ctx, r, ZERO_DRAWS[i])


# keys with which one of the first numbers a proposal is accepted by is exactly zero (chance 2^-23 per proposal)
ZERO_DRAWS = [3155069, 6392399, 19155830, 20780330, 22831763, 26069087, 44385076, 47651598]


def excluded(ctx, r, k):
    """One after the other the density of what was returned is set to zero; it may not be returned again."""
    new = bool(r.integers(0, 2))
    key = (jax.random.key if new else jax.random.PRNGKey)(k)
    bound = float(r.choice([1.0, 2.0]))
    sample_fn = jax.random.uniform

    def go():
        out = []
        for _ in range(4):
            banned = jnp.asarray(out, dtype=jnp.float32)
            pdf = lambda s: bound * jnp.where(jnp.any(banned == s), 0.0, 1.0)
            out.append(float(sampling.rejection_sampling(key, pdf, sample_fn, 1, bound)[0]))
        return {"res": enc.vec(out)}
    ctx.call("excluded", go, key=k, new=new)


def one(ctx, r, w, f, a, b, m):
    form = ["tree", "tuple", "flat"][int(r.integers(0, 3))]
    sample_fn, pdf, cu, keys = make(w, f, a, b, form, ["u", "c", "split"][int(r.integers(0, 3))])
    new = bool(r.integers(0, 2))
    mk = jax.random.key if new else jax.random.PRNGKey
    k = int(r.integers(0, 2 ** 31))
    K, C = 4, len(w)
    n = int(r.choice([12000, 20000]) if not ctx.thorough else 60000)
    nsmall = int(r.choice([1, 2, 5]))
    wrap = lambda z: jax.random.wrap_key_data(jnp.asarray(z)) if new else jnp.asarray(z)
    mm = m if r.integers(0, 2) else jnp.asarray(m)
    base = dict(wt=enc.vec(w), f=enc.vec(f), a=enc.num(a), b=enc.num(b), bound=enc.num(m))
    state = {}

    def go():
        run = lambda key, num: sampling.rejection_sampling(key, pdf, sample_fn, num, mm)
        s = run(mk(k), n)
        state["s"] = s
        small = run(mk(k + 1), nsmall)
        like = jax.eval_shape(sample_fn, mk(0))
        ok = all(jax.tree_util.tree_structure(z) == jax.tree_util.tree_structure(like)
                 and all(p.shape == (num,) + q.shape for p, q in zip(jax.tree_util.tree_leaves(z), jax.tree_util.tree_leaves(like)))
                 for z, num in ((s, n), (small, nsmall)))
        if not ok:
            return {"shape": False, "proposed": True, "distinct": True, "same": True, "differ": True, "counts": [[0] * K] * C, "n": 0}
        kk = keys(s)
        again = jax.vmap(lambda z: sample_fn(z))(wrap(kk))
        proposed = all(np.allclose(np.asarray(p, dtype=np.float64), np.asarray(q, dtype=np.float64), rtol=1e-6, atol=1e-7)
                       for p, q in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(again)))
        s2 = jax.jit(lambda key: run(key, n))(mk(k))
        same = all(np.allclose(np.asarray(p, dtype=np.float64), np.asarray(q, dtype=np.float64), rtol=1e-6, atol=1e-7)
                   for p, q in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(s2)))
        c, u = (np.asarray(z) for z in cu(s))
        c3, u3 = (np.asarray(z) for z in cu(run(mk(k + 7), n)))
        differ = not np.array_equal(u, u3) and np.mean(u == u3) < 0.5
        bins = np.minimum((u * K).astype(int), K - 1)
        counts = np.zeros((C, K), dtype=int)
        np.add.at(counts, (c, bins), 1)
        return {"shape": True, "proposed": bool(proposed), "distinct": len({tuple(z) for z in kk.reshape(n, -1).tolist()}) > n - 3,
                "same": bool(same), "differ": bool(differ), "counts": counts.tolist(), "n": n}
    ctx.call("sample", go, **base)
    if "s" in state:
        c = np.asarray(cu(state["s"])[0])
        if c.shape == (n,) and c.min() >= 0 and c.max() < C:
            joint = np.zeros((C, C), dtype=int)
            np.add.at(joint, (c[:-1:2], c[1::2]), 1)
            ctx.emit("pairs", joint=joint.tolist(), n=int(joint.sum()), **base)

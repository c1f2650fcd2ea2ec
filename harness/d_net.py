"""Multi-layer perceptrons."""
import re

import jax
import jax.numpy as jnp
import numpy as np

from magpi import model as mm

from . import enc, gen

ACTS = {"tanh": jnp.tanh, "sin": jnp.sin, "square": lambda x: x * x, "id": lambda x: x, "relu": lambda x: jnp.maximum(x, 0.0),
        "bent": lambda x: x + jnp.sqrt(x * x + 1) - 1}


def layer_list(params):
    """Layers of a parameter tree in order: numbered hidden ones, then the output layer."""
    p = params["params"]

    def key(name):
        m = re.search(r"(\d+)$", name)
        return (0, int(m.group(1))) if m else (1, 0)
    return [(n, p[n]) for n in sorted(p, key=key)]


def networks(ctx):
    scen = ctx.sample("net", ctx.scen["nets"], ctx.n(90, 1200))
    items = [(s["widths"], s["act"]) for s in scen] + [None] * ctx.n(50, 500)
    for it, r in ctx.cases("net", items):
        if it is None:
            kind = int(r.integers(0, 4))
            act = list(ACTS)[int(r.integers(0, len(ACTS)))]
            if kind == 0:      # deep
                L = int(r.integers(6, 15))
                widths = [int(r.integers(1, 4)) for _ in range(L)]
                act = "bent" if act == "square" else act
            elif kind == 1:    # wide
                widths = [int(r.integers(1, 5)), int(r.integers(8, 40)), int(r.integers(1, 20)), int(r.integers(1, 4))]
            else:
                widths = [int(r.integers(1, 6)) for _ in range(int(r.integers(2, 6)))]
        else:
            widths, act = it
        one(ctx, r, widths, act)


def one(ctx, r, widths, act):
    key = jax.random.PRNGKey(int(r.integers(0, 2 ** 31)))
    key2 = jax.random.PRNGKey(int(r.integers(0, 2 ** 31)))
    default = act == "tanh" and r.integers(0, 2)
    direct = bool(r.integers(0, 3) == 0)
    mk = lambda k: mm.mlp(k, tuple(widths) if direct else list(widths)) if default else mm.mlp(k, widths, ACTS[act])

    def struct():
        m, p = mk(key)
        _, p2 = mk(key)
        _, p3 = mk(key2)
        same = jax.tree_util.tree_all(jax.tree_util.tree_map(lambda a, b: bool(np.array_equal(a, b)), p, p2))
        kern = lambda q: [np.asarray(v["kernel"]) for _, v in layer_list(q)]
        differ = any(not np.array_equal(a, b) for a, b in zip(kern(p), kern(p3)))
        return {"shapes": [[list(np.shape(v["kernel"])), list(np.shape(v["bias"]))] for _, v in layer_list(p)], "same": bool(same), "differ": bool(differ)}
    ctx.call("layers", struct, widths=list(widths))
    # arbitrary parameter values
    try:
        model, params = mk(key)
    except Exception as ex:  # noqa: BLE001
        ctx.emit("eval", exc=type(ex).__name__ + ": " + str(ex)[:120], widths=list(widths))
        return
    if direct:
        model = mm.MLP(tuple(widths[1:]), None if default else ACTS[act])
    if r.integers(0, 3):
        params = jax.tree_util.tree_map(lambda a: jnp.asarray(gen.f(ctx, r.normal(size=a.shape) / np.sqrt(max(a.shape[0] if a.ndim > 1 else 1, 1)))).astype(a.dtype), params)
    Ls = [{"K": enc.mat(v["kernel"]), "b": enc.vec(v["bias"])} for _, v in layer_list(params)]
    bshape = [(), (3,), (2, 2), (1,), (2, 1, 2)][int(r.integers(0, 5))]
    x = gen.f(ctx, r.normal(size=bshape + (widths[0],)) * r.choice([0.5, 2.0]))
    out = widths[-1]
    usejit = bool(r.integers(0, 2))

    def go():
        f = (jax.jit(model.apply) if usejit else model.apply)
        y = np.asarray(f(params, jnp.asarray(x)))
        ok = y.shape == bshape + (() if out == 1 else (out,))
        return {"shape": ok, "res": enc.mat(y.reshape(-1, out)) if ok else []}
    ctx.call("eval", go, Ls=Ls, act=act, x=enc.mat(x.reshape(-1, widths[0])), w=2)

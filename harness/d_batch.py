"""Mini-batches and the batch iterator."""
import jax
import jax.numpy as jnp
import numpy as np

from magpi import opt


def rawkey(k):
    k = jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k
    return np.asarray(k).astype(np.uint32).tobytes().hex()


def children(k, nb):
    """The keys a user gets by splitting k or folding small numbers into it."""
    out = []
    for n in sorted({2, 3, 4, max(nb, 1)}):
        out += [rawkey(c) for c in jax.random.split(k, n)]
    return sorted(set(out + [rawkey(jax.random.fold_in(k, i)) for i in range(3)]))


class Data:
    """A tree of arrays whose rows tell their number."""

    def __init__(self, r, n, form):
        perm = r.permutation(n)
        a = np.asarray(perm * 3 + 1)
        b = np.stack([perm * 0.5 + 0.25, -perm * 1.0], axis=-1)
        c = (perm[:, None, None] * 8 + np.arange(6).reshape(2, 3)).astype(np.float32)
        z = lambda x: jnp.asarray(x) if form != "numpy" else np.asarray(x)
        self.parts = [z(a), z(b), z(c)]
        self.X = {"one": self.parts[1], "pair": (self.parts[0], self.parts[1]), "numpy": {"a": self.parts[0], "b": [self.parts[2]]},
                  "tree": {"q": {"a": self.parts[0], "bc": (self.parts[1], self.parts[2])}, "r": self.parts[1] * 2},
                  "flat": self.parts[0]}[form]
        self.leaves = [np.asarray(x) for x in jax.tree_util.tree_leaves(self.X)]
        self.index = [{row.tobytes(): i + 1 for i, row in enumerate(x)} for x in self.leaves]
        self.n = n

    def structure(self, B, lead):
        if jax.tree_util.tree_structure(B) != jax.tree_util.tree_structure(self.X):
            return False
        return all(np.shape(b)[len(lead):] == x.shape[1:] and np.shape(b)[:len(lead)] == lead and np.asarray(b).dtype in (x.dtype, jax.dtypes.canonicalize_dtype(x.dtype))
                   for b, x in zip(jax.tree_util.tree_leaves(B), self.leaves))

    def rows(self, B, depth):
        """Row numbers per leaf (0: not a row of the data)."""
        out = []
        for b, x, idx in zip(jax.tree_util.tree_leaves(B), self.leaves, self.index):
            b = np.asarray(b)

            def down(v, k):
                if k == 0:
                    return idx.get(np.ascontiguousarray(v).astype(x.dtype).tobytes(), 0)
                return [down(w, k - 1) for w in v] if np.ndim(v) else [0]
            out.append(down(b, depth))
        return out


FORMS = ["one", "pair", "numpy", "tree", "flat"]


def batch_fn(c, X, jit):
    if c["kind"] == "without":
        f = lambda key: opt.batches_without_replacement(key, X, c["size"])
    elif c["rep"]:
        f = lambda key: opt.batches_with_replacement(key, X, c["num"], c["size"])
    else:
        f = lambda key: opt.batches_with_replacement(key, X, c["num"], c["size"], replace_within_batch=False)
    return jax.jit(f) if jit else f


def config(r, big):
    n = int(r.integers(20, 60)) if big else int(r.integers(1, 9))
    kind = ["without", "without", "with"][int(r.integers(0, 3))]
    if kind == "without":
        return dict(kind=kind, n=n, size=int(r.choice([1, 2, 3, 4, 5, 7, n, n + 1])) if not big else int(r.choice([3, 5, 8, 10, n // 2])), num=0, rep=False)
    rep = bool(r.integers(0, 2))
    size = int(r.integers(1, 10)) if not big else int(r.integers(6, 20))
    return dict(kind=kind, n=n, size=size if rep else min(size, n), num=int(r.integers(1, 6)), rep=rep)


def batching(ctx):
    scen = ctx.sample("scen", ctx.scen["iterators"], ctx.n(90, 2000))
    for s, r in ctx.cases("scen", scen):
        iterators(ctx, r, s["c"], s["epochs"], s["rng"], False)
    for i, r in ctx.cases("iter", ctx.n(40, 600)):
        big = bool(r.integers(0, 2))
        iterators(ctx, r, config(r, big), int(r.integers(1, 5)), bool(r.integers(0, 2)), big)
    for i, r in ctx.cases("sel", ctx.n(60, 1000)):
        selections(ctx, r, config(r, i % 2 == 0), i % 2 == 0)
    for i, r in ctx.cases("freq", ctx.n(24, 120)):
        frequencies(ctx, r, i)
    for i, r in ctx.cases("epochs", ctx.n(5, 20)):
        epoch_table(ctx, r)
    for i, r in ctx.cases("refuse", ctx.n(8, 40)):
        refusals(ctx, r)


def mkkey(r):
    new = bool(r.integers(0, 2))
    k = int(r.integers(0, 2 ** 31))
    mk = jax.random.key if new else jax.random.PRNGKey
    return lambda j: mk((k + j) % 2 ** 31)


def selections(ctx, r, c, big):
    form = FORMS[int(r.integers(0, len(FORMS)))]
    d = Data(r, c["n"], form)
    key = mkkey(r)
    jit = bool(r.integers(0, 2)) and form != "numpy"
    f, g = batch_fn(c, d.X, jit), batch_fn(c, d.X, False)
    nb = c["n"] // c["size"] if c["kind"] == "without" else c["num"]

    def go():
        B = f(key(0))
        rows = d.rows(B, 2)
        again, other = d.rows(g(key(0)), 2), d.rows(g(key(1)), 2)
        # two selections of at least six rows out of twenty or more: equal with probability < 1e-7
        return {"leaves": rows, "struct": d.structure(B, (nb, c["size"])), "same": again == rows,
                "differ": not (big and nb) or other != rows,
                "batchesdiffer": not (big and nb > 1) or all(rows[0][i] != rows[0][j] for i in range(len(rows[0])) for j in range(i))}
    ctx.call("batches", go, **c)


def iterators(ctx, r, c, epochs, rng, big):
    """Two or three iterators (same key, another key), interleaved."""
    d = Data(r, c["n"], FORMS[int(r.integers(0, len(FORMS)))])
    key = mkkey(r)
    own = bool(r.integers(0, 4) == 0)      # a user's own batch function, with a varying number of batches
    ctx.new()
    ctx.log("begin")
    ids, live = [], []
    base = batch_fn(c, d.X, False)
    for i in range(3):
        calls = [0]

        def fn(k, i=i, calls=calls):
            calls[0] += 1
            if own:
                m = (calls[0] % 3) + (1 if c["kind"] == "with" else 0)
                idx = np.asarray(jax.random.randint(k, (m, c["size"]), 0, c["n"]))
                B = jax.tree_util.tree_map(lambda x: jnp.asarray(x)[idx], d.X)
            else:
                B = base(k)
            rows = d.rows(B, 2)
            ctx.log("draw", id=i + 1, key=rawkey(k), kids=children(k, len(rows[0])), sel=rows[0])
            return B
        ctx.log("iter", epochs=epochs, rng=rng, kind=c["kind"])
        k = key(0 if i != 1 else 5)
        live.append(opt.make_iterator(k, epochs, fn, add_rng=True) if rng else
                    (opt.make_iterator(k, epochs, fn) if r.integers(0, 2) else opt.make_iterator(k, epochs, fn, False)))
    open_ = [0, 1, 2]
    stopped = []
    budget = 3 * epochs * (c["n"] + 8) + 9
    while open_ and budget:
        budget -= 1
        i = open_[int(r.integers(0, len(open_)))]
        try:
            b = next(live[i])
        except StopIteration:
            open_.remove(i)
            stopped.append(i)
            twin = 3 if i == 0 and 2 in stopped else (1 if i == 2 and 0 in stopped else 0)
            other = 2 if i == 0 and 1 in stopped else 0
            ctx.log("stop", id=i + 1, twin=twin, other=other, big=big and c["size"] >= 3 and not own)
            continue
        except Exception as ex:  # noqa: BLE001
            ctx.log("next", id=i + 1, exc=type(ex).__name__ + ": " + str(ex)[:120])
            open_.remove(i)
            continue
        try:
            kk, x = b if rng else (None, b)
            ctx.log("next", id=i + 1, leaves=d.rows(x, 1), key=rawkey(kk) if rng else "", kids=children(kk, 2) if rng else [], struct=d.structure(x, (c["size"],)))
        except Exception as ex:  # noqa: BLE001
            ctx.log("next", id=i + 1, exc="not a batch: " + type(ex).__name__ + ": " + str(ex)[:120])
    if open_ and not budget:
        ctx.log("next", id=open_[0] + 1, exc="iterates without end")


def frequencies(ctx, r, i):
    n = int(r.integers(2, 6))
    mode = ["within", "across", "within", "across", "without", "without"][i % 6]
    rep = True
    key = mkkey(r)
    runs = 6000
    X = jnp.arange(n)
    if mode == "without":
        f = lambda k: opt.batches_without_replacement(k, X, 1 if n < 4 else 2)
        size, nb = (1, n) if n < 4 else (2, n // 2)
        rep = False
        spots = [(0, 0), (nb - 1, size - 1)]
    else:
        within_rep = bool(r.integers(0, 2))
        size, nb = (2, 3)
        f = lambda k: opt.batches_with_replacement(k, X, nb, size, within_rep)
        spots = [(1, 0), (1, 1)] if mode == "within" else [(0, 1), (2, 1)]
        rep = within_rep if mode == "within" else True

    def go():
        B = np.asarray(jax.vmap(f)(jax.random.split(key(0), runs)))
        x, y = (B[(slice(None),) + s] for s in spots)
        tab = np.zeros((n, n), dtype=int)
        np.add.at(tab, (x, y), 1)
        return {"tab": tab.tolist()}
    ctx.call("table", go, n=n, runs=runs, repeat=rep, what=mode)


def epoch_table(ctx, r):
    """Selections of neighbouring epochs are independent."""
    n, epochs = int(r.integers(2, 5)), 500
    key = mkkey(r)
    X = jnp.arange(n)
    fn = jax.jit(lambda k: opt.batches_without_replacement(k, X, n))

    def go():
        s = np.array([np.asarray(b)[0] for b in opt.make_iterator(key(0), epochs, fn)])
        tab = np.zeros((n, n), dtype=int)
        np.add.at(tab, (s[:-1:2], s[1::2]), 1)
        return {"tab": tab.tolist(), "runs": len(s) // 2}
    ctx.call("table", go, n=n, repeat=True, what="epochs")


def refusals(ctx, r):
    n = int(r.integers(2, 9))
    m = n + int(r.choice([-1, 1, 2]))
    a, b = jnp.zeros((n, 2)), jnp.ones((m,))
    X = [(a, b), (b, a), {"u": a, "v": (a, b)}, [a, a, b]][int(r.integers(0, 4))]
    key = mkkey(r)
    size = int(r.integers(1, min(n, m) + 1))
    B = jax.tree_util.tree_map(lambda x: x[:, None], X)
    for what, f in (("batches_without_replacement", lambda: opt.batches_without_replacement(key(0), X, size)),
                    ("batches_with_replacement", lambda: opt.batches_with_replacement(key(0), X, 3, size)),
                    ("batches_with_replacement no repeats", lambda: opt.batches_with_replacement(key(0), X, 2, size, False)),
                    ("make_iterator", lambda: list(opt.make_iterator(key(0), 2, lambda k: B))),
                    ("make_iterator with keys", lambda: list(opt.make_iterator(key(0), 1, lambda k: B, True)))):
        try:
            f()
            ok = False
        except Exception:  # noqa: BLE001
            ok = True
        ctx.emit("refuse", what=what, refused=ok)

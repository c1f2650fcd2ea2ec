"""Random polynomials: the same object is a jax function and a spec value."""
import jax.numpy as jnp
import numpy as np

from . import enc


class Poly:
    def __init__(self, terms):
        self.terms = terms          # [(float coef, [int exps])]

    def scale(self, s):
        return Poly([(c * s, e) for c, e in self.terms])

    def __call__(self, x):
        """x: sequence of scalars (or arrays of one shape), one per variable."""
        out = 0.0
        for c, e in self.terms:
            t = c
            for i, k in enumerate(e):
                if k == 1:
                    t = t * x[i]
                elif k > 1:
                    t = t * x[i] ** k
            out = out + t
        return out + 0.0 * x[0]

    def enc(self):
        return [[enc.num(c), list(map(int, e))] for c, e in self.terms]


def rand(r, n, deg=4, terms=None, maxexp=4):
    """Coefficients are small dyadics; every variable occurs."""
    terms = terms or int(r.integers(2, 5))
    out = []
    for t in range(terms):
        e = [0] * n
        for _ in range(int(r.integers(1, deg + 1))):
            i = int(r.integers(0, n))
            if e[i] < maxexp:
                e[i] += 1
        out.append((float(r.choice([-3, -2, -1.5, -1, -0.5, 0.5, 1, 1.25, 2, 3])), e))
    # every pair of neighbouring variables interacts
    for i in range(n):
        e = [0] * n
        e[i] += 1 + int(r.integers(0, 2))
        e[(i + 1) % n] += 1
        out.append((float(r.choice([-2, -1, 0.5, 1.5, 3])), e))
    return Poly(out)


def point(ctx, r, n):
    from . import gen
    k = r.integers(0, 5)
    x = r.uniform(-2, 2, size=n)
    if k == 0:
        x = np.round(x * 4) / 4
    if k == 1:
        x[r.integers(0, n)] = 0.0
    return gen.f(ctx, x)

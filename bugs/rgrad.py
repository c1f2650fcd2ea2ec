R = "magpi/r_fun.py"


def b(id, needs, breaks, edits, demo):
    return dict(id=id, property="C28", needs=needs, breaks=breaks, edits=edits, demo=demo)


BUGS = [
 b("rg-alpham-frozen", "a derivative of a union in a system of order m", "the damping factor of the disjunction counts as a constant in derivatives",
   [(R, "    def disjunction(self, a: Scalar, b: Scalar) -> Scalar:\n        r = a**2 + b**2\n", "    def disjunction(self, a: Scalar, b: Scalar) -> Scalar:\n        r = lax.stop_gradient(a**2 + b**2)\n")], """
import jax, jax.numpy as jnp
from magpi.r_fun import RAlphaM
f = RAlphaM(2, 0.0).union(lambda x: x[0], lambda x: x[1])
h, x = 1e-3, jnp.array([0.5, 0.75])
d = jnp.array([1.0, 0.0])
num = (f(x + h * d) - f(x - h * d)) / (2 * h)
assert abs(jax.grad(f)(x)[0] - num) < 1e-2, (jax.grad(f)(x), num)
"""),
 b("rg-equiv-frozen", "the gradient of an equivalence where the second body's boundary is active",
   "one of the two branches of the equivalence counts as a constant in derivatives",
   [(R, "            c1 = self.disjunction(a, -b)\n            c2 = self.disjunction(-a, b)\n            return self.conjunction(c1, c2)\n", "            c1 = self.disjunction(a, -b)\n            c2 = lax.stop_gradient(-self.conjunction(a, -b))\n            return self.conjunction(c1, c2)\n")], """
import jax, jax.numpy as jnp
from magpi.r_fun import r0
f = r0.equivalence(lambda x: x[0], lambda x: x[1])
g = jax.grad(f)(jnp.array([1.0, 0.0]))
assert abs(g[0]) + abs(g[1] - 1) < 1e-5, g
"""),
 b("rg-blend-constant", "the blending system inside its radius", "the blending term is treated as a constant: gradients near rounded corners are wrong",
   [(R, "        s = a**2 + b**2 - self.rho**2\n        return a + b + sqrt(", "        s = lax.stop_gradient(a**2 + b**2 - self.rho**2)\n        return a + b + sqrt(")], """
import jax, jax.numpy as jnp
from magpi.r_fun import RhoBlending
h = 1e-3
for s in (RhoBlending(1.0).union, RhoBlending(1.0).intersection):
    f = s(lambda x: x[0], lambda x: x[1])
    x, d = jnp.array([0.3, 0.2]), jnp.array([h, 0.0])
    g = jax.grad(f)(x)
    assert abs(g[0] - (f(x + d) - f(x - d)) / (2 * h)) < 1e-2, g
"""),
]

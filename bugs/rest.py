D, M, R, SA, OP, SP = ("magpi/" + f for f in ("domain.py", "model.py", "r_fun.py", "sampling.py", "opt.py", "spline.py"))


def b(id, prop, needs, breaks, edits, demo):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


BUGS = [
 b("dom-annulus-linear", "C14", "an annulus with a positive inner radius", "points crowd towards the inner circle",
   [(D, "r = sqrt(x[..., 1] * (r2**2 - r1**2) + r1**2)", "r = r1 + sqrt(x[..., 1]) * (r2 - r1)")], """
import jax.numpy as jnp
from magpi.domain import Annulus
x = jnp.linspace(0, 1, 2001)[:-1] + 0.00025
z = Annulus(1.0, 2.0, (0.0, 0.0)).transform(jnp.stack([x, x], -1))
assert abs(jnp.mean(jnp.sum(z ** 2, -1)) - 2.5) < 1e-2
"""),
 b("dom-par-area-space", "C14", "a parallelogram in space that is not a rectangle", "the reported measure is the product of the side lengths",
   [(D, "return sqrt(jnp.linalg.det(d @ d.T))", "return jnp.abs(jnp.linalg.det(d)) if d.shape[1] == 2 else norm(d[0]) * norm(d[1])")], """
from magpi.domain import Parallelogram
p = Parallelogram((0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 1.0, 0.0))
assert abs(p.support() - 1.0) < 1e-9, p.support()
"""),
 b("dom-par-batch-axes", "C14", "a parallelogram and a batch with two or more leading axes", "the two coordinates trade places in such batches",
   [(D, "            return samples @ self.B.T + a", "            return samples @ self.B.T + a if samples.ndim == 2 else samples[..., ::-1] @ self.B.T + a")], """
import jax.numpy as jnp
from magpi.domain import Parallelogram
p = Parallelogram((0.0, 0.0), (1.0, 0.0), (1.0, 2.0))
x = jnp.array([0.25, 0.75])
assert jnp.allclose(p.transform(x[None, None])[0, 0], p.transform(x))
"""),
 b("dom-face-shares", "C15", "a box in three dimensions whose sides differ", "faces get a share by the side orthogonal to them",
   [(D, "return jnp.prod(concatenate([b[:i], b[i + 1 :]]))", "return jnp.prod(concatenate([b[:i], b[i + 1 :]])) if len(b) < 3 else 1.0 / (1.0 / b[i])")], """
import jax.numpy as jnp
from magpi.domain import Hypercube
h = Hypercube((0.0, 0.0, 0.0), (1.0, 1.0, 4.0))
s = (jnp.arange(4000) + 0.5) / 4000
z = h.transform_bnd(jnp.stack([s, jnp.full_like(s, 0.3)], -1))
share = jnp.mean((z[:, 2] == 0.0) | (z[:, 2] == 4.0))
assert abs(share - 2 / 18) < 1e-2, share
"""),
 b("dom-normal-some", "C16", "a batch in which some points are on the sphere and some are not", "normals are returned although a point is off the boundary",
   [(D, "if not on_bnd.all():", "if not on_bnd.any():")], """
import jax.numpy as jnp
from magpi.domain import Disk
assert Disk(1.0, (0.0, 0.0)).normal_vec(jnp.array([[1.0, 0.0], [0.5, 0.0]])) is None
"""),
 b("rf-rho-factor", "C19", "the blending system away from radius one", "the blending term leaves the basic system's sign inside the radius",
   [(R, "        return a + b + sqrt(a**2 + b**2 + 1 / (8 * self.rho) * s * (s - jnp.abs(s)))", "        return a + b + sqrt(a**2 + b**2 + 1 / 8 * self.rho * s * (s - jnp.abs(s)))")], """
import jax.numpy as jnp
from magpi.r_fun import RhoBlending
f = RhoBlending(0.5)
a, b = jnp.asarray(0.2), jnp.asarray(-0.1)
assert jnp.allclose(f.disjunction(a, b), -f.conjunction(-a, -b)), (f.disjunction(a, b), f.conjunction(-a, -b))
"""),
 b("rf-m-half", "C19", "a system of odd order m", "the disjunction rounds half the order down and is no longer dual to the conjunction",
   [(R, "            * (a + b + sqrt((a - b) ** 2 + 2 * (1 - self.alpha) * a * b))\n            * r ** (self.m / 2)\n", "            * (a + b + sqrt((a - b) ** 2 + 2 * (1 - self.alpha) * a * b))\n            * r ** (self.m // 2)\n")], """
from magpi.r_fun import RAlphaM
s = RAlphaM(3, 0.0)
assert abs(s.disjunction(-1.0, -2.0) + s.conjunction(1.0, 2.0)) < 1e-4
"""),
 b("sh-project-origin", "C20", "a projection plane with a normal that is not a unit vector", "points are not moved onto the plane",
   [(R, "x = x - (x @ _n) / (norm(_n) ** 2) * _n", "x = x - (x @ _n) * _n")], """
import jax.numpy as jnp
from magpi.r_fun import project
f = project(lambda x: x[0] + 10 * x[1], jnp.array([0.0, 2.0]))
assert abs(f(jnp.array([3.0, 1.0])) - 3.0) < 1e-9
"""),
 b("im-ic-order", "C22", "an initial condition with arguments taken in another order", "its arguments arrive in ascending order",
   [(M, "args_m0 = (args[i] for i in argnums_m0)", "args_m0 = (args[i] for i in sorted(argnums_m0))")], """
from magpi.model import impose_ic
f = impose_ic(lambda a, b: a + 10 * b, lambda t, x, y: 0.0 * x, 0.0, 1.0, argnum_t=0, argnums_m0=(2, 1))
assert abs(f(0.0, 1.0, 2.0) - 12.0) < 1e-9
"""),
 b("im-neumann-keyword", "C22", "a model that takes a keyword argument", "keywords do not reach the model under a Neumann condition",
   [(M, "x, *args[argnum_model + 1:], **kwargs)", "x, *args[argnum_model + 1:])")], """
import jax.numpy as jnp
from magpi.model import impose_neumann_bc
f = impose_neumann_bc(lambda x: 1.0 - jnp.sum(x ** 2))(lambda x, c=0.0: c + 0 * x[0])
assert abs(f(jnp.array([1.0, 0.0]), c=3.0) - 3.0) < 1e-9
"""),
 b("net-deep-linear", "C23", "a network with five or more layers", "deep hidden layers lose their activation",
   [(M, "x = activation(nn.Dense(layer, name=f\"layers_{i}\")(x))", "x = nn.Dense(layer, name=f\"layers_{i}\")(x)\n            x = activation(x) if i < 3 else x")], """
import jax, jax.numpy as jnp
from magpi.model import mlp
m, p = mlp(jax.random.PRNGKey(0), [1, 2, 2, 2, 2, 1], jnp.zeros_like)
x = jnp.array([3.0])
q = p["params"]
assert abs(m.apply(p, x) - q["output_layer"]["bias"][0]) < 1e-9
p2 = jax.tree_util.tree_map(lambda z: z + 1.0, p)
assert abs(m.apply(p2, x) - p2["params"]["output_layer"]["bias"][0]) < 1e-9
"""),
 b("net-squeeze", "C23", "a batch axis of length one with output width one", "the batch axis is lost",
   [(M, "            return x[..., 0]", "            return x.squeeze()")], """
import jax, jax.numpy as jnp
from magpi.model import mlp
m, p = mlp(jax.random.PRNGKey(0), [2, 3, 1])
assert m.apply(p, jnp.ones((1, 2))).shape == (1,)
"""),
 b("rej-shared-key", "C24", "proposals compared with a value drawn from the same key", "acceptance depends on the proposal itself",
   [(SA, "            p = random.uniform(valkey)\n            sample", "            p = random.uniform(samplekey)\n            sample")], """
import jax, jax.numpy as jnp
from magpi.sampling import rejection_sampling
s = rejection_sampling(jax.random.PRNGKey(1), lambda x: 0.2 + 0 * x, jax.random.uniform, 20000, 1)
assert abs(jnp.mean(s) - 0.5) < 0.02, jnp.mean(s)
"""),
 b("bat-epoch-key", "C25", "an iterator over more than one epoch", "every epoch repeats the first selection",
   [(OP, "        key, sample_key, batch_key = random.split(key, 3)", "        _, sample_key, batch_key = random.split(key, 3)")], """
import jax, jax.numpy as jnp
from magpi.opt import make_iterator, batches_without_replacement
X = jnp.arange(32)
it = list(make_iterator(jax.random.PRNGKey(0), 2, lambda k: batches_without_replacement(k, X, 32)))
assert not jnp.array_equal(it[0], it[1])
"""),
 b("bat-key-cycle", "C25", "more than four batches per epoch with random keys requested", "keys repeat within the epoch",
   [(OP, "                batch_key, subkey = random.split(batch_key)\n", "                subkey = random.fold_in(batch_key, i % 4)\n")], """
import jax, jax.numpy as jnp
from magpi.opt import make_iterator, batches_without_replacement
X = jnp.arange(12)
ks = [tuple(map(int, k)) for k, _ in make_iterator(jax.random.PRNGKey(0), 1, lambda k: batches_without_replacement(k, X, 2), add_rng=True)]
assert len(set(ks)) == 6
"""),
 b("bat-leaf-sorted", "C25", "a data tree with a leaf of three or more axes", "rows of that leaf no longer belong to the rows of the others",
   [(OP, "    return tree_map(lambda x: x[perms], X)\n\n\ndef batches_with", "    return tree_map(lambda x: x[perms] if x.ndim < 3 else x[jnp.sort(perms, -1)], X)\n\n\ndef batches_with")], """
import jax, jax.numpy as jnp
from magpi.opt import batches_without_replacement
x = jnp.arange(16)
a, c = batches_without_replacement(jax.random.PRNGKey(0), (x, x[:, None, None]), 8)
assert jnp.array_equal(a, c[..., 0, 0])
"""),
 b("sp-shared-grid", "C27", "a parameterized grid that differs between features", "every feature uses the grid of the first",
   [(SP, "            grid = grid.value\n", "            grid = grid.value[:1]\n")], """
import jax, jax.numpy as jnp
from magpi.spline import SplineActivation, basis
m = SplineActivation(nodes=8, parameterize_grid=True, coef_init=jax.nn.initializers.ones)
x = jnp.array([0.3, 0.4])
v = m.init(jax.random.PRNGKey(0), x)
g = v["grids"]["grid"] + jnp.array([[0.0], [50.0]])
y = m.apply({"params": v["params"], "grids": {"grid": g}}, x)
assert abs(y[1] - jnp.tanh(0.4)) < 1e-9, y
"""),
 b("sp-power-integer", "C27", "a grid power that is not an integer", "the power is rounded",
   [(SP, "    t = jnp.sign(t) * (jnp.abs(t) ** power)\n", "    t = jnp.sign(t) * (jnp.abs(t) ** jnp.round(power))\n")], """
import jax.numpy as jnp
from magpi.spline import make_grid
assert jnp.allclose(make_grid(-1.0, 1.0, 1.5, 5)[3], 0.5 ** 1.5)
"""),
 b("sp-range-positive", "C27", "a grid whose ends are both positive", "the grid overshoots its end",
   [(SP, "t = t * jnp.abs(start - stop) + start", "t = t * (jnp.abs(start) + jnp.abs(stop)) + start")], """
import jax.numpy as jnp
from magpi.spline import make_grid
assert jnp.allclose(make_grid(1.0, 2.0, 1.0, 5)[-1], 2.0)
"""),
 b("dom-normal-tolerance", "C16", "tolerances given by the user", "the upper faces of a box ignore them",
   [(D, "on_ub = jnp.isclose(bnd_sample, ub, rtol=rtol, atol=atol).astype(", "on_ub = jnp.isclose(bnd_sample, ub).astype(")], """
import jax.numpy as jnp
from magpi.domain import Hypercube
n = Hypercube((0.0, 0.0), (1.0, 1.0)).normal_vec(jnp.array([[0.99, 0.5]]), atol=0.05)
assert n is not None and float(n[0, 0]) == 1.0
"""),
 b("sh-cylinder-axes", "C21", "a cylinder evaluated in three dimensions off the diagonal", "the base lies in the last two coordinates",
   [(R, "return lambda x: s(asarray(x)[:2])", "return lambda x: s(asarray(x)[-2:])")], """
import jax.numpy as jnp
from magpi.r_fun import cylinder
assert cylinder(1.0)(jnp.array([0.0, 0.5, 7.0])) > 0
"""),
 b("sh-ellipsoid-raw", "C21", "an ellipsoid whose axes differ", "the gradient on the boundary is not a unit vector",
   [(R, "    adf = normalize_1st_order(adf)\n    return adf", "    adf = normalize_1st_order(adf) if asarray(axes_lengths).size > 2 else adf\n    return adf")], """
import jax, jax.numpy as jnp
from magpi.r_fun import ellipsoid
g = jax.grad(ellipsoid(jnp.array([2.0, 1.0])))(jnp.array([2.0, 0.0]))
assert abs(jnp.linalg.norm(g) - 1.0) < 1e-6, g
"""),
 b("sp-short-basis", "C26", "a knot vector with more knots than ten", "the basis functions at the end are missing",
   [(SP, "    return vmap(lambda i: _base_fun(x, degree, i, grid), 0, -1)(jnp.arange(n))", "    return vmap(lambda i: _base_fun(x, degree, i, grid), 0, -1)(jnp.minimum(jnp.arange(n), 11))")], """
import jax.numpy as jnp
from magpi.spline import basis
t = jnp.arange(20.0)
assert abs(jnp.sum(basis(jnp.asarray(14.5), t, degree=1)) - 1.0) < 1e-9
"""),
]

C = "magpi/calc.py"
BUGS = [
 dict(id="calc-argnums-first", property="C11", edits=[(C, "argnums = [argnums for _ in wrt]", "argnums = [argnums] + [None for _ in wrt[1:]]")],
      needs="a sequence of components with one integer argnums", breaks="only the first entry of the sequence is taken as a component, later ones as argument positions",
      demo="""import jax.numpy as jnp
from magpi.calc import derivative
f = lambda x, y: x[0] ** 2 * x[1] ** 3 * y
d = derivative([0, 1], argnums=0)(f)(jnp.array([2.0, 3.0]), jnp.array(5.0))
assert abs(d - 2 * 2 * 3 * 9 * 5) < 1e-9, d
"""),
 dict(id="calc-names-sorted", property="C11", edits=[(C, "arg_names = list(sig.parameters.keys())", "arg_names = sorted(sig.parameters.keys())")],
      needs="argument names that are not in alphabetical order", breaks="a derivative requested by name is taken with respect to another argument",
      demo="""from magpi.calc import derivative
f = lambda time, pos: time ** 2 + 3 * pos
assert abs(derivative('time')(f)(2.0, 1.0) - 4.0) < 1e-9
"""),
 dict(id="calc-div-argnums", property="C12", edits=[(C, "y, Jf = value_and_jacfwd(f, argnums)(*args, **kwargs)", "y, Jf = value_and_jacfwd(f)(*args, **kwargs)")],
      needs="argnums other than zero", breaks="the divergence is always taken with respect to the first argument",
      demo="""import jax.numpy as jnp
from magpi.calc import divergence
f = lambda t, x: x ** 2 * t[0]
d = divergence(f, 1)(jnp.array([3.0, 1.0]), jnp.array([1.0, 2.0]))
assert abs(d - 18.0) < 1e-9, d
"""),
 dict(id="calc-lap-kw", property="C12", edits=[(C, "H_diag = hessian_diag(lambda x: f(x, *args, **kwargs), x)", "H_diag = hessian_diag(lambda x: f(x, *args), x)")],
      needs="a keyword argument", breaks="keyword arguments are dropped by the Laplacian",
      demo="""import jax.numpy as jnp
from magpi.calc import laplace
f = lambda x, c=1.0: c * jnp.sum(x ** 2)
assert abs(laplace(f)(jnp.array([1.0, 2.0]), c=3.0) - 12.0) < 1e-9
"""),
 dict(id="calc-hvp-alpha", property="C13", edits=[(C, "tree_scalar_mul(alpha, tangents[0])", "tree_scalar_mul(alpha, primals[0])")],
      needs="a damping alpha", breaks="the damping term is added along the point instead of the vector",
      demo="""import jax.numpy as jnp
from magpi.calc import hvp_forward_over_reverse as h
f = lambda x: jnp.sum(x ** 3)
d = h(f, [jnp.array([1.0, 2.0])], [jnp.array([1.0, -1.0])], alpha=0.5)
assert jnp.allclose(d, jnp.array([6.5, -12.5])), d
"""),
 dict(id="calc-vgh-kwargs", property="C13", edits=[(C, "            value, _grad_f = f(p, *args, **kwargs)", "            value, _grad_f = f(p, *args)")],
      needs="a user-supplied gradient and keyword arguments", breaks="keyword arguments do not reach a user-supplied value-and-gradient function",
      demo="""import jax, jax.numpy as jnp
from magpi.calc import value_grad_hvp
f = lambda x, c=1.0: c * jnp.sum(x ** 2)
v, g, h = value_grad_hvp(jax.value_and_grad(f), jnp.array([1.0, 2.0]), value_and_grad=True, c=3.0)
assert abs(v - 15) < 1e-9 and jnp.allclose(h(jnp.array([1.0, 0.0])), jnp.array([6.0, 0.0]))
"""),
]

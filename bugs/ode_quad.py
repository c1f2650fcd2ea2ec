O = "magpi/ode.py"
I = "magpi/integrate.py"
S = "magpi/surface_integral.py"
BUGS = [
 dict(id="ode-rk4-time", property="C05", edits=[(O, "df(tree_add(y, tree_scalar_mul(1 / 2, y2)), t + dt / 2, *args)", "df(tree_add(y, tree_scalar_mul(1 / 2, y2)), t, *args)")],
      needs="a right-hand side that depends on time", breaks="the third stage is evaluated at the wrong time",
      demo="""import jax.numpy as jnp
from magpi.ode import odeint
ys = odeint(lambda y, t: t ** 2 * jnp.ones_like(y), jnp.array([0.0]), jnp.array([0.0, 1.0, 3.0]))
assert jnp.allclose(ys[:, 0], jnp.array([0.0, 1 / 3, 9.0])), ys
"""),
 dict(id="ode-const-dt", property="C05", edits=[(O, "        dt = t - t_prev\n", "        dt = ts[1] - ts[0]\n")],
      needs="time points that are not equally spaced", breaks="every step uses the first step size",
      demo="""import jax.numpy as jnp
from magpi.ode import odeint
ys = odeint(lambda y, t: jnp.ones_like(y), jnp.array([0.0]), jnp.array([0.0, 1.0, 3.0]))
assert jnp.allclose(ys[:, 0], jnp.array([0.0, 1.0, 3.0])), ys
"""),
 dict(id="ode-abs-dt", property="C05", edits=[(O, "        dt = t - t_prev\n", "        dt = jnp.abs(t - t_prev)\n")],
      needs="decreasing time points", breaks="integration backwards in time moves forward",
      demo="""import jax.numpy as jnp
from magpi.ode import odeint
ys = odeint(lambda y, t: jnp.ones_like(y), jnp.array([0.0]), jnp.array([0.0, -1.0]))
assert jnp.allclose(ys[1], -1.0), ys
"""),
 dict(id="ode-detached-args", property="C06", edits=[(O, "    y4 = tree_scalar_mul(dt, df(tree_add(y, y3), t + dt, *args))", "    y4 = tree_scalar_mul(dt, df(tree_add(y, y3), t + dt, *lax.stop_gradient(args)))")],
      needs="derivatives with respect to parameters of the right-hand side", breaks="the last stage does not contribute to parameter sensitivities",
      demo="""import jax, jax.numpy as jnp
from magpi.ode import odeint
g = jax.grad(lambda a: odeint(lambda y, t, a: a * jnp.ones_like(y), jnp.array([0.0]), jnp.array([0.0, 1.0]), a)[1, 0])(2.0)
assert abs(g - 1.0) < 1e-9, g
"""),
 dict(id="ode-euler-detached", property="C06", edits=[(O, "    dy = df(y, t, *args)\n", "    dy = df(y, t, *args)\n    dt = lax.stop_gradient(dt)\n    y = tree_map(lambda a: a if a.ndim else lax.stop_gradient(a), y)\n")],
      needs="explicit Euler with a scalar leaf", breaks="the initial value of scalar leaves gets no derivative",
      demo="""import jax, jax.numpy as jnp
from magpi.ode import odeint, explicit_euler
g = jax.grad(lambda y: odeint(lambda y, t: -y, y, jnp.array([0.0, 0.5]), method=explicit_euler)[1])(jnp.asarray(2.0))
assert abs(g - 0.5) < 1e-9, g
"""),
 dict(id="quad-simpson-uniform", property="C07", edits=[(I, "w = w.at[2:-1:2].set(_w[:-1, 2] + _w[1:, 0])", "w = w.at[2:-1:2].set(2 * _w[1:, 0])")],
      needs="a partition that is not uniform", breaks="interior nodes get the weight of the cell to their right twice",
      demo="""import jax.numpy as jnp
from magpi.integrate import integrate, simpson
v = integrate(lambda x: x ** 2, jnp.array([0.0, 1.0, 3.0]), method=simpson)
assert abs(v - 9.0) < 1e-9, v
"""),
 dict(id="quad-trap-uniform", property="C07", edits=[(I, "b = b.at[1:].set(d)", "b = b.at[1:].set(d[::-1])")],
      needs="a partition that is not symmetric", breaks="the trapezoidal weights mix up the cells",
      demo="""import jax.numpy as jnp
from magpi.integrate import integrate, trap
v = integrate(lambda x: x, jnp.array([0.0, 1.0, 3.0]), method=trap)
assert abs(v - 4.5) < 1e-9, v
"""),
 dict(id="quad-gauss-many", property="C07", edits=[(I, "nodes, weights = map(asarray, leggauss(degree))", "nodes, weights = map(asarray, leggauss(min(degree, 8)))")],
      needs="a Gauss rule with more than eight points", breaks="the rule is not exact to its degree",
      demo="""import jax.numpy as jnp
from magpi.integrate import integrate, gauss
v = integrate(lambda x: x ** 18, jnp.array([-1.0, 1.0]), method=gauss(10))
assert abs(v - 2 / 19) < 1e-9, v
"""),
 dict(id="quad-disk-inner", property="C08", edits=[(I, "        return tree.map(lambda f: f * r, f(p, *args, **kwargs))", "        return tree.map(lambda f: f * (r - r_inner), f(p, *args, **kwargs))")],
      needs="an annulus", breaks="the area element of an annulus is wrong",
      demo="""import jax.numpy as jnp
from magpi.integrate import integrate_disk
v = integrate_disk(lambda x: jnp.asarray(1.0), 2.0, jnp.zeros(2), 20, r_inner=1.0)
assert abs(v - 3 * jnp.pi) < 1e-6, v
"""),
 dict(id="quad-sphere-theta", property="C08", edits=[(I, "        jnp.linspace(theta1, theta2, n[2]),", "        jnp.linspace(0.0, theta2 - theta1, n[2]),")],
      needs="a ball sector that does not start at angle zero", breaks="the sector is rotated",
      demo="""import jax.numpy as jnp
from magpi.integrate import integrate_sphere
v = integrate_sphere(lambda x: x[1], 1.0, jnp.zeros(3), 30, theta1=jnp.pi / 2, theta2=jnp.pi)
w = integrate_sphere(lambda x: x[0], 1.0, jnp.zeros(3), 30, theta1=jnp.pi / 2, theta2=jnp.pi)
assert v > 0.1 and w < -0.1, (v, w)
"""),
 dict(id="quad-sphere-nodes", property="C08", edits=[(I, "        jnp.linspace(phi1, phi2, n[1]),\n        jnp.linspace(theta1, theta2, n[2]),", "        jnp.linspace(phi1, phi2, n[2]),\n        jnp.linspace(theta1, theta2, n[1]),")],
      needs="different resolutions of the two angles", breaks="the resolutions of the two angles are exchanged",
      demo="""import jax.numpy as jnp
from magpi.integrate import integrate_sphere
v = integrate_sphere(lambda x: jnp.asarray(1.0), 1.0, jnp.zeros(3), (5, 60, 3))
assert abs(v - 4 / 3 * jnp.pi) < 1e-4, v
"""),
 dict(id="surf-center-corners", property="C09", edits=[(S, "    return parametrization(jnp.stack([u_bar, v_bar], axis=-1))", "    c = lambda a, b: parametrization(jnp.stack([a, b], axis=-1))\n    return (c(u[..., 0], v_bar) + c(u[..., 1], v_bar)) / 2")],
      needs="a curved parametrization", breaks="element centres are not the images of the cell midpoints",
      demo="""import jax.numpy as jnp
from magpi.surface_integral import midpoints
p = lambda x: jnp.stack([x[..., 0], x[..., 1], x[..., 0] ** 2], -1)
c = midpoints(p, jnp.array([0.0, 1.0]), jnp.array([0.0, 1.0]))
assert jnp.allclose(c, jnp.array([0.5, 0.5, 0.25])), c
"""),
 dict(id="surf-skew", property="C09", edits=[(S, "        z = norm(cross(ru, rv))\n", "        z = norm(ru) * norm(rv)\n")],
      needs="a parametrization with oblique coordinate lines", breaks="the area element of oblique patches is too large",
      demo="""import jax.numpy as jnp
from magpi.surface_integral import integrate_surface
p = lambda x: jnp.stack([x[0] + x[1], x[1], 0 * x[0]])
v = integrate_surface(lambda r: jnp.asarray(1.0), p, jnp.array([0.0, 1.0]), jnp.array([0.0, 1.0]))
assert abs(v - 1.0) < 1e-9, v
"""),
 dict(id="pot-factorial", property="C10", edits=[(S, "v = df(c) / math.factorial(i + 1)", "v = df(c) / (i + 1)")],
      needs="expansion order three", breaks="cubic terms of the charge are weighted wrongly",
      demo="""import jax.numpy as jnp
from magpi.surface_integral import source_tensor, charge_tensor, single_layer_potential, integrate_surface
p = lambda x: jnp.stack([x[..., 0], x[..., 1], 0 * x[..., 0]], -1)
u = jnp.array([0.0, 1.0]); x = jnp.array([0.3, 0.2, 0.7])
q = lambda y: y[0] ** 3 + y[1]
a = single_layer_potential(source_tensor(x, p, u, u, order=3, compute_jacfwd=False), charge_tensor(q, p, u, u, order=3))
b = integrate_surface(lambda y: q(y) / jnp.linalg.norm(x - y), p, u, u) / (4 * jnp.pi)
assert abs(a - b) < 1e-9, (a, b)
"""),
 dict(id="pot-phi-params", property="C10", edits=[(S, "return mag(x, *params_mag) @ n - jacfwd(phi1)(x, *params_phi1) @ n", "return mag(x, *params_mag) @ n - jacfwd(phi1)(x, *(params_phi1 or params_mag)) @ n")],
      needs="parameters for the magnetization and an optional parameter of the potential that is left at its default", breaks="the potential gets the parameters of the magnetization",
      demo="""import jax.numpy as jnp
from magpi.surface_integral import scalar_potential_charge
adf = lambda x: (1 - jnp.sum(x ** 2)) / 2
c = scalar_potential_charge(adf, lambda x, a: a * x, lambda x, a=1.0: a * jnp.sum(x ** 2))
v = c(jnp.array([1.0, 0.0, 0.0]), (3.0,))
assert abs(v - 1.0) < 1e-9, v
"""),
]

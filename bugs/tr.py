TR = "magpi/tr.py"
BUGS = [
 dict(id="tr-reject-aux", property="C01", edits=[(TR, "                    aux=old_aux,\n", "                    aux=aux,\n")],
      needs="has_aux and a rejected step", breaks="after a rejected step the auxiliary output belongs to the rejected trial point",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
def f(x):
    return jnp.sum(x**4 - 2 * x**2) + 3 * jnp.exp(-8 * jnp.sum(x**2)), x
s = TR(f, has_aux=True, init_tr_radius=2.0, max_tr_radius=8.0, min_tr_radius=1e-6)
x = jnp.array([0.3, -1.7]); st = s.init_state(x); rej = 0
for _ in range(12):
    x, st = s.update(x, st)
    rej += not bool(st.accepted)
    assert jnp.allclose(st.aux, x), (x, st.aux)
assert rej > 0
"""),
 dict(id="tr-reject-grad", property="C01", edits=[(TR, "                    grad=old_grad,\n                    error=tree_l2_norm(old_grad),\n", "                    grad=old_grad,\n                    error=tree_l2_norm(new_grad),\n")],
      needs="a rejected step", breaks="after a rejected step the reported gradient norm is that of the trial point, so a run can stop away from a stationary point",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
f = lambda x: jnp.sum(x**4 - 2 * x**2) + 3 * jnp.exp(-8 * jnp.sum(x**2))
s = TR(f, init_tr_radius=2.0, max_tr_radius=8.0, min_tr_radius=1e-6)
x = jnp.array([0.3, -1.7]); st = s.init_state(x); rej = 0
for _ in range(12):
    x, st = s.update(x, st)
    rej += not bool(st.accepted)
    assert jnp.allclose(st.error, jnp.linalg.norm(st.grad)), st
assert rej > 0
"""),
 dict(id="tr-rho-damped", property="C02", edits=[(TR, "1 / 2 * tree_vdot(p, hvp(p)))", "1 / 2 * tree_vdot(p, _hvp(p)))")],
      needs="a damping factor", breaks="the ratio is formed with the damped model instead of the quadratic model of the objective",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
f = lambda x: jnp.sum(x**2) / 2
s = TR(f, damping_factor=3.0)
x = jnp.array([0.5, 0.25]); st = s.init_state(x)
x, st = s.update(x, st)
assert abs(st.rho - 1) < 1e-6, st.rho
"""),
 dict(id="tr-increase-tie", property="C02", edits=[(TR, "(rho > rho_increase) & limit_step", "(rho >= rho_increase) & limit_step")],
      needs="a ratio exactly at the increase threshold with a boundary step", breaks="the region grows although the ratio is not above the threshold",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
s = TR(lambda x: (0.75 * (x**2 / 2 - 4 * x), x - 4), value_and_grad=True)
x = jnp.asarray(0.0); st = s.init_state(x)
x, st = s.update(x, st)
assert st.rho == 0.75 and st.tr_radius == 1.0, st
"""),
 dict(id="tr-restart-counter", property="C02", edits=[(TR, "            iter_num = state.iter_num\n            init_params", "            iter_num = jnp.where(state.tr_radius <= self.min_tr_radius, 0, state.iter_num)\n            init_params")],
      needs="restarting from a result whose radius has collapsed", breaks="the iteration count is lost on re-opening the region",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
s = TR(lambda x: (-x**2, 2 * x), value_and_grad=True, min_tr_radius=0.2)
x = jnp.asarray(1.0); st = s.init_state(x); r = (x, st)
for _ in range(3):
    r = s.update(r[0], r[1])
assert r.state.tr_radius <= 0.2
n = int(r.state.iter_num)
assert n > 0 and int(s.init_state(r).iter_num) == n
"""),
 dict(id="tr-cap-current", property="C02", edits=[(TR, "jnp.minimum(tr_radius * increase_factor, max_tr_radius)", "jnp.where(tr_radius < max_tr_radius, tr_radius * increase_factor, max_tr_radius)")],
      needs="an increase from a radius whose multiple exceeds the maximum", breaks="the radius exceeds its maximum",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
s = TR(lambda x: jnp.sum(x**2), init_tr_radius=1.5, max_tr_radius=2.0)
x = jnp.array([50.0, 20.0]); st = s.init_state(x)
for _ in range(4):
    x, st = s.update(x, st)
    assert st.tr_radius <= 2.0
"""),
 dict(id="cg-beta-lagged", property="C03", edits=[(TR, "        beta = tree_vdot(r_new, r_new) / rTr\n", "        beta = tree_vdot(r_new, tree_sub(r_new, r)) / tree_vdot(grad_f, grad_f)\n")],
      needs="at least three conjugate-gradient steps", breaks="search directions lose conjugacy after the second step",
      demo="""import jax.numpy as jnp
from magpi.tr import steihaug
H = jnp.diag(jnp.array([1.0, 3.0, 7.0]))
g = jnp.array([1.0, -2.0, 1.0])
r = steihaug(g, lambda v: H @ v, 100.0, 1e-8)
assert r.iter_num == 3 and jnp.allclose(r.p, -jnp.linalg.solve(H, g)), r
"""),
 dict(id="cg-limit-overshoot", property="C03", edits=[(TR, "        tau = - b / a + sqrt(discriminant)\n", "        tau = sqrt(discriminant)\n"),],
      needs="the path leaves the region, or meets non-positive curvature, after the first conjugate-gradient step", breaks="the step leaves the trust region",
      demo="""import jax.numpy as jnp
import numpy as np
from magpi.tr import steihaug
r = np.random.default_rng(0)
for _ in range(40):
    A = r.normal(size=(3, 3)); H = jnp.asarray((A + A.T) / 2); g = jnp.asarray(r.normal(size=3))
    s = steihaug(g, lambda v: H @ v, 2.0, 1e-8)
    assert s.step_length < 2.0 + 1e-6, s
"""),
 dict(id="cg-default-limit", property="C03", edits=[(TR, "        maxiter = 10 * tree_size(grad_f)\n", "        maxiter = 10 * len(tree_leaves(grad_f))\n")],
      needs="more than ten parameters in one array", breaks="the default iteration limit counts arrays, so large subproblems end unconverged",
      demo="""import jax.numpy as jnp
from magpi.tr import steihaug
H = jnp.linspace(0.5, 6.0, 14)
g = jnp.ones(14)
s = steihaug(g, lambda v: H * v, 100.0, 1e-6)
assert s.converged and jnp.allclose(s.p, -g / H, atol=1e-4), s
"""),
 dict(id="tr-callback-frozen", property="C04", edits=[(TR, "            # in case steihaug does not make any progress, p = 0\n            return jaxopt.OptStep(params, state)\n", "            _step = jaxopt.OptStep(params, state)\n            if self.callback is not None:\n                io_callback(self.callback, None, _step)\n            return _step\n")],
      needs="a run whose radius collapses before the iteration limit", breaks="the callback is invoked for updates that were not performed",
      demo="""import jax, jax.numpy as jnp
from magpi.tr import TR
seen = []
s = TR(lambda x: (-x**2, 2 * x), value_and_grad=True, min_tr_radius=0.2, maxiter=10, callback=lambda q: seen.append(int(q.state.iter_num)))
r = s.run(jnp.asarray(1.0)); jax.effects_barrier()
assert seen == list(range(1, int(r.state.iter_num) + 1)), seen
"""),
 dict(id="tr-vg-aux-kwargs", property="C04", edits=[("magpi/utils.py", "            def value_and_grad_fun(*a, **kw):\n                v, g = fun(*a, **kw)\n", "            def value_and_grad_fun(p, *a, **kw):\n                v, g = fun(p, *a, **{k: kw[k] for k in list(kw)[:1]})\n")],
      needs="user-supplied gradients without auxiliary output and more than one keyword argument", breaks="only the first keyword argument reaches the objective",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
f = lambda x, a=1.0, b=1.0: (jnp.sum(a * x**2 - b * x), 2 * a * x - b)
s = TR(f, value_and_grad=True, tol=1e-6)
r = s.run(jnp.array([1.0, 3.0]), a=2.0, b=8.0)
assert jnp.allclose(r.params, 2.0), r.params
"""),
 dict(id="tr-eps-forget", property="C03", edits=[(TR, "        eps = jnp.minimum(state.subproblem_result.eps, eps)\n        eps = jnp.maximum(self.tol, eps)\n", "        eps = jnp.maximum(self.tol, eps)\n        eps = jnp.where(state.accepted, eps, jnp.minimum(state.subproblem_result.eps, eps))\n")],
      needs="an accepted step after which the gradient has grown", breaks="the subproblem tolerance grows again within a run",
      demo="""import jax.numpy as jnp
from magpi.tr import TR
s = TR(lambda x: jnp.sum(x**4 / 4 - x**2 / 2), init_tr_radius=0.25, tol=1e-4)
x = jnp.array([0.02, 0.01]); st = s.init_state(x); last = jnp.inf
for _ in range(6):
    x, st = s.update(x, st)
    assert st.subproblem_result.eps <= last * (1 + 1e-9)
    last = st.subproblem_result.eps
"""),
 dict(id="tr-sens-first-argument", property="C29", edits=[("magpi/tr.py", "        return self._value_and_grad_with_aux(params, *args, **kwargs)[1]", "        return self._value_and_grad_with_aux(params, *args[:1], *jax.lax.stop_gradient(args[1:]), **kwargs)[1]")],
      needs="differentiating a run by the objective's second extra argument", breaks="the optimum seems independent of every argument but the first",
      demo="""import jax, jax.numpy as jnp
from magpi.tr import TR
s = TR(lambda x, a, b: jnp.sum((x - a * b) ** 2), tol=1e-8)
g = jax.grad(lambda b: s.run(jnp.zeros(2), 2.0, b).params[0])(3.0)
assert abs(g - 2.0) < 1e-3, g
"""),
 dict(id="tr-sens-scaled", property="C29", edits=[("magpi/tr.py", "        return self._value_and_grad_with_aux(params, *args, **kwargs)[1]", "        (value, _), grad = self._value_and_grad_with_aux(params, *args, **kwargs)\n        return tree_scalar_mul(1.0, grad) if self.damping_factor is None else tree_add_scalar_mul(grad, self.damping_factor, params)")],
      needs="differentiating a run of a damped optimizer by an argument", breaks="the damping enters the derivative of the optimum although it does not move it",
      demo="""import jax, jax.numpy as jnp
from magpi.tr import TR
s = TR(lambda x, a: jnp.sum((x - a) ** 2), tol=1e-8, damping_factor=1.0)
g = jax.grad(lambda a: s.run(jnp.zeros(2), a).params[0])(3.0)
assert abs(g - 1.0) < 1e-3, g
"""),
]

BUGS = [
 dict(id="quat-reflect-short-normal", property="C18", edits=[("magpi/quaternions.py", "    n = normal_vec / norm(normal_vec)\n", "    n = normal_vec / jnp.maximum(norm(normal_vec), 1.0)\n")],
      needs="reflecting at a plane given by a normal shorter than one", breaks="reflection is no longer an isometry for short normals",
      demo="""import jax.numpy as jnp
from magpi.quaternions import quaternion_reflection
r = quaternion_reflection(jnp.array([1.0, 2.0, 3.0]), jnp.array([0.0, 0.0, 0.25]))
assert abs(r[2] + 3.0) + abs(r[0] - 1) < 1e-6, r
"""),
 dict(id="quat-leftdiv-order", property="C17", edits=[("magpi/quaternions.py", "    return q2.reciprocal() * q1\n", "    return (q1.conj() * q2.reciprocal().conj()).conj() if q2.real < 0 else q1 * q2.reciprocal()\n")],
      needs="left division of two non-commuting quaternions by one with non-negative real part", breaks="left division becomes right division",
      demo="""from magpi.quaternions import Quaternion, quaternion_left_div
a, b = Quaternion(1.0, (2.0, 3.0, 4.0)), Quaternion(0.5, (0.0, 1.0, 2.0))
r = b * quaternion_left_div(a, b)
assert abs(r.imag[0] - 2.0) + abs(r.imag[2] - 4) < 1e-6, r
"""),
 dict(id="quat-sgn-threshold", property="C18", edits=[("magpi/quaternions.py", "        lambda: v / r,\n", "        lambda: v / jnp.maximum(r, 1e-2),\n")],
      needs="a quaternion whose imaginary part is small but not negligible", breaks="exp and log drop imaginary parts below 0.01",
      demo="""from magpi.quaternions import Quaternion, quanternion_exp
r = quanternion_exp(Quaternion(0.0, (0.005, 0.0, 0.0)))
assert abs(r.imag[0] - 0.005) < 1e-6, r
"""),
]

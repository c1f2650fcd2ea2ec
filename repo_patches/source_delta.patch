From 2b86495243606289f7533556926b727cbdcf847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 01/24] fix: odeint evaluates each step at the start of its
 interval

The scan passed the end time of the interval to the one-step method, so every
stage of a non-autonomous right-hand side was evaluated one step too late.
---
 magpi/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/ode.py b/magpi/ode.py
index 6d9fbbe..1814ce7 100644
--- a/magpi/ode.py
+++ b/magpi/ode.py
@@ -54,7 +54,7 @@ def _odeint(df, unroll, method, y, ts, *args):
     def _step(state, t):
         y, t_prev = state
         dt = t - t_prev
-        y = method(df, y, t, dt, *args)
+        y = method(df, y, t_prev, dt, *args)
         return (y, t), y
 
     _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
-- 
2.43.0


From ee5a1e260ed09d7000b662f9f1d825bc7204d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 02/24] fix: transform_triangle combines the two edge vectors

The barycentric weights were indexed along the wrong axis (and the second one
out of bounds), which is only right for axis-aligned right triangles.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 0f34940..425b92f 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -312,7 +312,7 @@ def transform_triangle(x: Array, a: Array, b: Array, c: Array) -> Array:
     x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)[..., None]
     d1 = j - i
     d2 = k - i
-    return i + x[..., 0] * d1 + x[..., 1] * d2
+    return i + x[..., 0, :] * d1 + x[..., 1, :] * d2
 
 
 def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
-- 
2.43.0


From b5b50d14ba7090a38e813533d2f09e3a31253471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 03/24] fix: Parallelogram.transform_bnd uses the corners of
 the parallelogram

The corners a, b, c are points (see transform and support); the boundary was
only right for a = 0.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 425b92f..c7de01e 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -103,7 +103,7 @@ class Parallelogram:
 
     def transform_bnd(self, samples: Array) -> Array:
         a, b, c = array([self.a, self.b, self.c])
-        return transform_polyline(samples, (a, a + b, a + b + c, c, a))
+        return transform_polyline(samples, (a, b, b + c - a, c, a))
 
 
 def linear_map(X_ref: Array, X: Array) -> Array:
-- 
2.43.0


From cdfe6a16f87c81d50ad8352e3b2ac4fc682cce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 04/24] fix: Parallelogram can be compared and hashed

The derived array took part in the generated __eq__ and __hash__ and made both
raise.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index c7de01e..feafde9 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -79,7 +79,7 @@ class Parallelogram:
     a: tuple[float, ...]
     b: tuple[float, ...]
     c: tuple[float, ...]
-    B: Array = field(repr=False, init=False)
+    B: Array = field(repr=False, init=False, compare=False)
     dimension = property(lambda self: len(self.a))
 
     def __post_init__(self):
-- 
2.43.0


From e0040e17d8a8611de5701d4fe55757fe75c6a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 05/24] fix: normal vectors of batches of points on disks and
 spheres

The norm was broadcast against the component axis.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index feafde9..f5bcc26 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -135,7 +135,7 @@ class _Spherical:
         on_bnd = jnp.isclose(sample_norm, r, rtol=rtol, atol=atol)
         if not on_bnd.all():
             return None
-        return sample / sample_norm
+        return sample / sample_norm[..., None]
 
 
 @dataclass(frozen=True, slots=True)
-- 
2.43.0


From 4e8d1a1f66ee66c246ef6f740577fe3343868a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 06/24] fix: Hypercube.normal_vec is defined on corners of
 lower and upper faces

A point on a lower and an upper face had both normals added and was then
reported as not on the boundary.
---
 magpi/domain.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index f5bcc26..a58646a 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -64,9 +64,8 @@ class Hypercube:
         on_ub = jnp.isclose(bnd_sample, ub, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
         )
-        on_lb = where(jnp.cumsum(on_lb, axis=-1) > 1, 0.0, on_lb)
-        on_ub = where(jnp.cumsum(on_ub, axis=-1) > 1, 0.0, on_ub)
-        n = on_ub - on_lb
+        on_ub = where(on_lb > 0, 0.0, on_ub)
+        n = where(jnp.cumsum(on_lb + on_ub, axis=-1) > 1, 0.0, on_ub - on_lb)
 
         if (norm(n, axis=-1) == 1.0).all():
             return n
-- 
2.43.0


From 7a059be9f66b4be0797c7e9f9e1536adaa2c9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 07/24] fix: Hypercube.normal_vec returns None if any sample is
 off the boundary

Samples outside of the domain which lie on the extension of a face were given
a normal as soon as another sample of the batch was inside.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index a58646a..c73a809 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -56,7 +56,7 @@ class Hypercube:
             (bnd_sample > lb - (atol + rtol * abs(lb)))
             & (bnd_sample < ub + (atol + rtol * abs(ub)))
         ).all(axis=-1)
-        if not in_domain.any():
+        if not in_domain.all():
             return None
         on_lb = jnp.isclose(bnd_sample, lb, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
-- 
2.43.0


From ccd263c32720794296631fe7b7b5169a93ed67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 08/24] fix: scalar - quaternion had the wrong sign

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 4ac0432..8622cac 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -61,7 +61,7 @@ class Quaternion:
         return self.__class__(a, q)
 
     def __rsub__(self, other) -> Self:
-        return self - other
+        return -self + other
 
     def __mul__(self, other: Self | Scalar) -> Self:
         if isinstance(other, self.__class__):
-- 
2.43.0


From b9d908e582cf35f2d85a591f8c3419bb4ac17971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 09/24] fix: derivative accepts a single argument name of any
 length

A name was iterated character by character.
---
 magpi/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 4c80112..a60eb17 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -129,7 +129,7 @@ def derivative(
         setattr(_df, "__signature__", sig)
         return _df
 
-    if isinstance(wrt, int):
+    if isinstance(wrt, (int, str)):
         wrt = [wrt]
 
     if not isinstance(argnums, Sequence):
-- 
2.43.0


From 5191c8d062b9db93092937581ab0ec997c747e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 10/24] fix: derivative accepts modules and other functions
 with tree arguments

Modules are accepted explicitly (apply_to_module), but their parameters are a
tree, for which zeros_like raised.
---
 magpi/calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index a60eb17..6bc739c 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -57,10 +57,11 @@ def value_and_derivative(
     def df(*args, **kwargs):
         if isinstance(wrt, int) and argnum is None:
             ei = [
-                ones_like(x) if i == wrt else zeros_like(x) for i, x in enumerate(args)
+                tree_map(ones_like if i == wrt else zeros_like, x)
+                for i, x in enumerate(args)
             ]
         elif isinstance(wrt, int) and argnum is not None:
-            ei = [zeros_like(x) for x in args]
+            ei = [tree_map(zeros_like, x) for x in args]
             ei[argnum] = ei[argnum].at[wrt].set(1.0)
         else:
             ei = wrt
-- 
2.43.0


From a7aa12fce8d62cb5a40a017fc2ee102276917541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 11/24] fix: rotate2d with an integer angle

The rotation matrix was cast to the dtype of the angle, which truncated it to
integers.
---
 magpi/r_fun.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 92e92f1..3b48329 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -399,9 +399,7 @@ def rotate2d(adf: ADF, angle: Scalar, o: Vec2d = (0.0, 0.0)) -> ADF:
     _o = asarray(o)
     _angle = asarray(angle)
     _adf = translate(adf, -_o)
-    M = array(
-        [[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]], dtype=_angle.dtype
-    )
+    M = array([[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]])
 
     def rot_op(x):
         msg = f"Cannot rotate vector of size {x.shape} in 2d. Please pass a 2d vector."
-- 
2.43.0


From 32bec9a9c1b36620b2a0ed918d58d7426bea93ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 12/24] fix: sphere is differentiable at its centre

norm has no derivative at zero, so the gradient of the sphere was nan at the
centre and so was the value of the (normalized) ellipsoid.
---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 3b48329..9efbdbc 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -270,7 +270,7 @@ def sphere(r: Scalar) -> ADF:
     -------
     ADF
     """
-    return lambda x: (r**2 - norm(x) ** 2) / (2 * r)
+    return lambda x: (r**2 - jnp.sum(asarray(x) ** 2)) / (2 * r)
 
 
 def cylinder(r: Scalar) -> ADF:
-- 
2.43.0


From dd2b223956c5b60e87e35818ffebfa93cc01f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 13/24] fix: R_alpha is finite for nearly equal arguments

For alpha = 1 rounding made the radicand a**2 + b**2 - 2*a*b negative for about
one in eight pairs of nearly equal arguments, which gave nan.
---
 magpi/r_fun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 9efbdbc..3df86c9 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -101,12 +101,12 @@ class RAlpha(RFun):
 
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b - sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b - sqrt((a - b) ** 2 + 2 * (1 - self.alpha) * a * b))
         )
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b + sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b + sqrt((a - b) ** 2 + 2 * (1 - self.alpha) * a * b))
         )
 
 
@@ -131,7 +131,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b - sqrt(r - 2 * self.alpha * a * b))
+            * (a + b - sqrt((a - b) ** 2 + 2 * (1 - self.alpha) * a * b))
             * r ** (self.m / 2)
         )
 
@@ -140,7 +140,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b + sqrt(r - 2 * self.alpha * a * b))
+            * (a + b + sqrt((a - b) ** 2 + 2 * (1 - self.alpha) * a * b))
             * r ** (self.m / 2)
         )
 
-- 
2.43.0


From d3caf3abe172ef84ba5f24feb81af362533206ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 14/24] fix: from_axis_angle returns a unit quaternion for
 every axis

An axis which is not a unit vector gave a rotation by a different angle.
---
 magpi/quaternions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 8622cac..ef1f038 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -248,5 +248,6 @@ def from_axis_angle(angle: Scalar, axis: Vec) -> Quaternion:
     Quaternion
     """
     axis_arr = asarray(axis)
+    axis_arr = axis_arr / norm(axis_arr)
     angle = angle / 2
     return Quaternion(cos(angle), axis_arr * sin(angle))
-- 
2.43.0


From 50d8886475a944946e06e7456650064ace2c8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 15/24] fix: rotate3d turns in the same direction as rotate2d

quaternion_rotation (q^-1 p q) already applies the inverse rotation to the
query point, negating the angle turned the body clockwise.
---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 3df86c9..0a343f0 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -439,7 +439,7 @@ def rotate3d(
     _o = asarray(o)
     _adf = translate(adf, -_o)
 
-    _angle = -asarray(angle)
+    _angle = asarray(angle)
     if _angle.shape == ():
         if rot_axis is None:
             msg = "If only the angle is specified, the rotation axis must be provided"
-- 
2.43.0


From a737e0eefec172b3fe87e285779d2a4727bd4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 16/24] fix: spline basis has finite derivatives for repeated
 knots

The division by zero in the branch that is not selected gave nan in reverse
mode.
---
 magpi/spline.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/magpi/spline.py b/magpi/spline.py
index 09b8d5a..2bb26fa 100644
--- a/magpi/spline.py
+++ b/magpi/spline.py
@@ -7,15 +7,17 @@ def _base_fun(x: Array, k: int, i: int, t: Array) -> Array:
     if k == 0:
         return jnp.where((t[..., i] <= x) & (x < t[..., i + 1]), 1.0, 0.0)
 
+    d1 = t[..., i + k] - t[..., i]
+    d2 = t[..., i + k + 1] - t[..., i + 1]
     c1: Array = jnp.where(
-        t[..., i + k] == t[..., i],
+        d1 == 0,
         0.0,
-        (x - t[..., i]) / (t[..., i + k] - t[..., i]) * _base_fun(x, k - 1, i, t)
+        (x - t[..., i]) / jnp.where(d1 == 0, 1.0, d1) * _base_fun(x, k - 1, i, t)
     )
     c2: Array = jnp.where(
-        t[..., i + k + 1] == t[..., i + 1],
+        d2 == 0,
         0.0,
-        (t[..., i + k + 1] - x) / (t[..., i + k + 1] - t[..., i + 1]) * _base_fun(x, k - 1, i + 1, t),
+        (t[..., i + k + 1] - x) / jnp.where(d2 == 0, 1.0, d2) * _base_fun(x, k - 1, i + 1, t),
     )
     return c1 + c2
 
-- 
2.43.0


From 8219a20dff3664d43c43b56bc902b3a5b12281e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:23 +0000
Subject: [PATCH 17/24] fix: normalized functions are differentiable where the
 gradient vanishes

---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 0a343f0..c5dd501 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -556,6 +556,6 @@ def normalize_1st_order(adf: ADF) -> ADF:
     def normalize(x):
         y = adf(x)
         dy = df(x)
-        return y / sqrt(y**2 + norm(dy) ** 2)
+        return y / sqrt(y**2 + jnp.sum(dy**2))
 
     return normalize
-- 
2.43.0


From 1f01e3352912ce92e5da6a9ad45a5401e61d5493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:56 +0000
Subject: [PATCH 18/24] fix: subproblem search stops at a zero residual when
 the tolerance is zero

With eps = 0 the iteration went on after finding the exact minimizer (or with
a zero gradient) and returned a nan step.
---
 magpi/tr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/tr.py b/magpi/tr.py
index 76037c9..a97d008 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -296,7 +296,7 @@ def steihaug(
 
     def condition(state):
         curvature, norm_z, norm_r = state["curvature"], state["norm_z"], state["norm_r"]
-        cond = (curvature <= 0) | (norm_z >= tr_radius) | (norm_r < eps)
+        cond = (curvature <= 0) | (norm_z >= tr_radius) | (norm_r <= eps)
         return jnp.invert(cond)
 
     dtype = utils.tree_single_dtype(grad_f)
-- 
2.43.0


From dc70c121f3199928e5bb70f63fd23331adb0ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 19/24] fix: direction of the imaginary part of tiny
 quaternions is kept

The absolute cutoff dropped the imaginary part whenever it was shorter than
machine epsilon, so the logarithm of a short quaternion lost its direction.
---
 magpi/quaternions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index ef1f038..6e12874 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -160,10 +160,9 @@ def arg(q: Quaternion) -> Scalar:
 
 
 def sgn(v: Array) -> Array:
-    eps = jnp.finfo(v.dtype).eps
     r = norm(v)
     return lax.cond(
-        r <= eps,
+        r == 0,
         lambda: zeros_like(v),
         lambda: v / r,
     )
-- 
2.43.0


From e0128b4cb3d93950c879fcfd708a75a4507f2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 20/24] fix: rejection sampling never keeps a proposal of zero
 density

---
 magpi/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/sampling.py b/magpi/sampling.py
index 16d116f..652c333 100644
--- a/magpi/sampling.py
+++ b/magpi/sampling.py
@@ -44,7 +44,7 @@ def rejection_sampling(
 
         def not_valid(state):
             _, p, sample = state
-            return p > (pdf(sample) / m)
+            return p >= (pdf(sample) / m)
 
         _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))
         return sample
-- 
2.43.0


From 6d1293ff2a26f6ef4b20ab174561e0c54609e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 21/24] fix: transform_polyline stays on the polyline at the
 end of the range

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index c73a809..8471835 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -318,8 +318,8 @@ def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
     line = stack(points)
     assert len(s.shape) == 0 or len(s.shape) == 1
     segments = norm(line[1:] - line[:-1], axis=1)
-    length = jnp.sum(segments)
     cumlengths = jnp.cumsum(segments)
+    length = cumlengths[-1]
     _s = s % 1
     _s = (_s * length).ravel()
     idx = jnp.argmax(_s[:, None] <= cumlengths, axis=-1)
-- 
2.43.0


From 91481079256b94befc57245a64f728d856121765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 22/24] fix: transform_polyline with a repeated first point

---
 magpi/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 8471835..518d834 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -326,7 +326,8 @@ def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
 
     p1, p2 = line[idx], line[idx + 1]
     d = cumlengths[idx] - _s
-    p = p2 + (p1 - p2) * d[:, None] / (norm(p1 - p2, axis=-1, keepdims=True))
+    l = norm(p1 - p2, axis=-1, keepdims=True)
+    p = p2 + (p1 - p2) * d[:, None] / where(l == 0, 1.0, l)
     if s.shape == ():
         return p[0]
     else:
-- 
2.43.0


From f72fed60087f31e0e1d1826ced60364f408206ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 23/24] fix: argument of quaternions close to the real axis

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 6e12874..fbed4fa 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -156,7 +156,7 @@ def quanternion_log(q: Quaternion) -> Quaternion:
 
 
 def arg(q: Quaternion) -> Scalar:
-    return arccos(q.real * (1 / abs(q)))
+    return jnp.arctan2(norm(q.imag), q.real)
 
 
 def sgn(v: Array) -> Array:
-- 
2.43.0


From 55ab1a26a8dec00a93ff3c88d48babd6f02e2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:53 +0000
Subject: [PATCH 24/24] fix: R_p is finite and keeps its sign for large and
 small arguments

---
 magpi/r_fun.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index c5dd501..72a10a0 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -159,11 +159,17 @@ class RP(RFun):
         assert p % 2 == 0, "`p` must be an even integer"
         self.p = p
 
+    def _p_norm(self, a: Scalar, b: Scalar) -> Scalar:
+        # the powers of the scaled arguments neither overflow nor vanish together
+        s = lax.stop_gradient(maximum(jnp.abs(a), jnp.abs(b)))
+        s = where(s == 0, 1.0, s)
+        return s * ((a / s) ** self.p + (b / s) ** self.p) ** (1 / self.p)
+
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
-        return a + b - (a**self.p + b**self.p) ** (1 / self.p)
+        return a + b - self._p_norm(a, b)
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
-        return a + b + (a**self.p + b**self.p) ** (1 / self.p)
+        return a + b + self._p_norm(a, b)
 
 
 class RhoBlending(RFun):
-- 
2.43.0


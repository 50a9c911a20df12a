From 4d8de46387dfdf78b12d353dfe6b886b0da21f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 01/15] fix: circular expansion is symmetric for an odd number
 of terms

`-n // 2` rounds toward minus infinity, so that for odd `n` an additional negative
order was a candidate without its positive counterpart.
---
 src/fmmax/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 882a636..820a4e4 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -292,7 +292,7 @@ def _basis_coefficients_circular(
     """
     # Generate candidate coefficients. These will include more coefficients than needed;
     # subsequently we will filter based on magnitude.
-    g = onp.arange(-approximate_num_terms // 2, approximate_num_terms // 2 + 1)
+    g = onp.arange(-(approximate_num_terms // 2), approximate_num_terms // 2 + 1)
     G1, G2 = onp.meshgrid(g, g, indexing="ij")
     G1 = G1.flatten()
     G2 = G2.flatten()
-- 
2.43.0


From 6a47989176db57bf5f8adc08e4c88f3a1a42996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 02/15] fix: reciprocal and transverse wavevectors for batched
 lattice vectors

The trailing vector axis and the expansion axis were broadcast against the batch
axes of the lattice vectors.
---
 src/fmmax/basis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 820a4e4..4ac0d4f 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -120,11 +120,11 @@ def reciprocal(lattice_vectors: LatticeVectors) -> LatticeVectors:
     cross_product = _cross_product(lattice_vectors.u, lattice_vectors.v)
     uprime = (
         jnp.stack([lattice_vectors.v[..., 1], -lattice_vectors.v[..., 0]], axis=-1)
-        / cross_product
+        / cross_product[..., jnp.newaxis]
     )
     vprime = (
         jnp.stack([-lattice_vectors.u[..., 1], lattice_vectors.u[..., 0]], axis=-1)
-        / cross_product
+        / cross_product[..., jnp.newaxis]
     )
     return LatticeVectors(u=uprime, v=vprime)
 
@@ -254,12 +254,12 @@ def transverse_wavevectors(
     """
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0, jnp.newaxis]
     )
     ky = in_plane_wavevector[..., 1, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1, jnp.newaxis]
     )
     return jnp.stack([kx, ky], axis=-1)
 
-- 
2.43.0


From 5f47bdec7503c3fc6d9d404429d34d0bf80d85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 03/15] fix: reject every non-positive brillouin grid shape

Tuples compare lexicographically, so that e.g. `(2, -1)` was accepted.
---
 src/fmmax/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 4ac0d4f..43547dd 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -210,7 +210,7 @@ def brillouin_zone_in_plane_wavevector(
     Returns:
         The in-plane wavevectors, with shape `brillouin_grid_shape + (2,)`.
     """
-    if len(brillouin_grid_shape) != 2 or brillouin_grid_shape < (1, 1):
+    if len(brillouin_grid_shape) != 2 or any(d < 1 for d in brillouin_grid_shape):
         raise ValueError(
             f"`brillouin_grid_shape` must be length-2 with positive values, "
             f"but got {brillouin_grid_shape}."
-- 
2.43.0


From 3ce86aebbd25446aa5e8bb5e789022c7ec293d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 04/15] fix: unflatten farfield quantities with any order of
 brillouin grid axes

---
 src/fmmax/farfield.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fmmax/farfield.py b/src/fmmax/farfield.py
index f75aae7..178be70 100644
--- a/src/fmmax/farfield.py
+++ b/src/fmmax/farfield.py
@@ -430,7 +430,7 @@ def unflatten_flux(
     batch_axes = tuple(
         [i for i in range(flux.ndim) if i not in brillouin_grid_axes + (flux.ndim - 2,)]
     )
-    axes = batch_axes + tuple([i for i in range(flux.ndim) if i not in batch_axes])
+    axes = batch_axes + brillouin_grid_axes + (flux.ndim - 2,)
     flux = jnp.transpose(flux, axes)
 
     flux = unflatten(flux, expansion)
@@ -466,9 +466,7 @@ def unflatten_transverse_wavevectors(
     batch_axes = tuple(
         [i for i in range(transverse_wavevectors.ndim) if i not in non_batch_axes]
     )
-    axes = batch_axes + tuple(
-        [i for i in range(transverse_wavevectors.ndim) if i not in batch_axes]
-    )
+    axes = batch_axes + non_batch_axes
     transverse_wavevectors = jnp.transpose(transverse_wavevectors, axes)
 
     transverse_wavevectors = unflatten(transverse_wavevectors, expansion)
-- 
2.43.0


From 44c3d2674eb37d4b5ab5aa364ab0c2668506e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:25 +0000
Subject: [PATCH 05/15] fix: fft for transformed axes that are not adjacent and
 ascending

---
 src/fmmax/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/fft.py b/src/fmmax/fft.py
index eebac1b..5d9aadc 100644
--- a/src/fmmax/fft.py
+++ b/src/fmmax/fft.py
@@ -76,8 +76,9 @@ def fft(
 
     x_fft = jnp.fft.fft2(x, axes=axes, norm="forward")
 
-    leading_dims = len(x.shape[: axes[0]])
-    trailing_dims = len(x.shape[axes[1] + 1 :])
+    leading_dims = min(axes)
+    trailing_dims = x.ndim - leading_dims - 2
+    x_fft = jnp.moveaxis(x_fft, axes, (leading_dims, leading_dims + 1))
     slices = (
         [slice(None)] * leading_dims
         + [expansion.basis_coefficients[:, 0], expansion.basis_coefficients[:, 1]]
-- 
2.43.0


From 248a482f475452d2aad6733ac6750c11289ee2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:38 +0000
Subject: [PATCH 06/15] fix: one-dimensional tangent field is perpendicular to
 the gradient

The previous expression was perpendicular only to gradients along the x- or y-axis,
and parallel to the gradient for a diagonal one.
---
 src/fmmax/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 4ca7784..b845b77 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -243,7 +243,7 @@ def _compute_tangent_field_no_batch(
     field = fft.ifft(fourier_field, expansion=expansion, shape=grid_shape, axis=-2)
 
     # Manually set the tangent field in the 1d case.
-    field_1d = jnp.stack([jnp.sin(grad_angle), jnp.cos(grad_angle)])
+    field_1d = jnp.stack([-jnp.sin(grad_angle), jnp.cos(grad_angle)])
     field = jnp.where(is_1d, field_1d, field)
     return normalize(field)
 
-- 
2.43.0


From 1fb6415f785a2058da06adb66db189b6e85ef0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:38 +0000
Subject: [PATCH 07/15] fix: tangent field for lattice vectors and arrays with
 compatible batch shapes

The batch axes of the lattice vectors were flattened before they were broadcast against
those of the array.
---
 src/fmmax/vector.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index b845b77..bd94bb4 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -147,19 +147,23 @@ def compute_tangent_field(
         The normal field, `(tx, ty)`.
     """
     arr = jax.lax.stop_gradient(arr)
-    batch_shape = arr.shape[:-2]
-    arr = utils.atleast_nd(arr, n=3)
+    batch_shape = jnp.broadcast_shapes(
+        arr.shape[:-2],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+    )
+    arr = jnp.broadcast_to(arr, batch_shape + arr.shape[-2:])
     arr = arr.reshape((-1,) + arr.shape[-2:])
 
     primitive_lattice_vectors = basis.LatticeVectors(
         u=jnp.broadcast_to(
-            primitive_lattice_vectors.u.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.u,
+            batch_shape + (2,),
+        ).reshape((-1, 2)),
         v=jnp.broadcast_to(
-            primitive_lattice_vectors.v.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.v,
+            batch_shape + (2,),
+        ).reshape((-1, 2)),
     )
 
     field_fn = jax.vmap(
-- 
2.43.0


From afbe687ff29c65911eb2eff7ad2d8de0b478d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 08/15] fix: uniform isotropic eigensolve with batched lattice
 vectors

The batch axes of the lattice vectors were left out of the shape of the eigenvectors.
---
 src/fmmax/fmm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index e0e248c..4f69d19 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -412,7 +412,11 @@ def _eigensolve_uniform_isotropic_media(
         )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity.shape[:-2],
     )
 
     num_eigenvalues = 2 * expansion.num_terms
-- 
2.43.0


From 3afa5797f99dcdb49df4b7883c8cc0b5dbd7927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:43 +0000
Subject: [PATCH 09/15] fix: beam rotation matrix for integer angles

---
 src/fmmax/beams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fmmax/beams.py b/src/fmmax/beams.py
index 237f551..d137ddc 100644
--- a/src/fmmax/beams.py
+++ b/src/fmmax/beams.py
@@ -129,6 +129,9 @@ def rotation_matrix(
             jnp.asarray(polarization_angle).dtype,
         ),
     )
+    if not jnp.issubdtype(dtype, jnp.inexact):
+        # Avoid truncating the matrix elements when all angles are integers.
+        dtype = jnp.result_type(float)
     # Matrix that rotates around the y-axis by `polar_angle`.
     rotation_y_matrix = jnp.asarray(
         [
-- 
2.43.0


From 682261b607315b24812312a9371daab5a1447a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:44 +0000
Subject: [PATCH 10/15] fix: redheffer star product honours force_x64_solve
 when extending the first matrix

---
 src/fmmax/scattering.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index 74be383..a81d03f 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -286,7 +286,12 @@ def redheffer_star_product(
     force_x64_solve: bool = False,
 ) -> ScatteringMatrix:
     """Compute the Redheffer star product of two scattering matrices."""
-    a_extended = append_layer(a, b.start_layer_solve_result, b.start_layer_thickness)
+    a_extended = append_layer(
+        a,
+        b.start_layer_solve_result,
+        b.start_layer_thickness,
+        force_x64_solve=force_x64_solve,
+    )
     a11, a12, a21, a22 = a_extended.s11, a_extended.s12, a_extended.s21, a_extended.s22
     b11, b12, b21, b22 = b.s11, b.s12, b.s21, b.s22
 
-- 
2.43.0


From ef6d6f788fc1a19608fb7878a697d6d7e6f1d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:57 +0000
Subject: [PATCH 11/15] fix: internal source in a layer without the batch axes
 of the rest of the stack

---
 src/fmmax/sources.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 117c5c9..783eaf7 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -288,6 +288,7 @@ def amplitudes_for_source(
 
     # The matrix solve directly yields the forward-going wave amplitudes after the
     # source, and the backward-going wave amplitudes before the source.
+    pol = utils.atleast_nd(pol, n=matrix.ndim)
     ab = jnp.linalg.solve(matrix, pol)
     fwd_amplitude_after_start, bwd_amplitude_before_end = jnp.split(ab, 2, axis=-2)
 
-- 
2.43.0


From 7e484a08fc08d324e9d83df7c6102acdfd3c6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:33 +0000
Subject: [PATCH 12/15] fix: amplitudes_for_fields for fields without the batch
 axes of the layer

---
 src/fmmax/sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 783eaf7..e2195b5 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -62,7 +62,9 @@ def amplitudes_for_fields(
     if brillouin_grid_axes is None:
         brillouin_grid_shape = (1, 1)
     else:
-        absolute_brillouin_grid_axes = utils.absolute_axes(brillouin_grid_axes, ex.ndim)
+        # Fields may lack some of the leading batch axes of the layer.
+        ndim = max(ex.ndim, len(layer_solve_result.batch_shape) + 3)
+        absolute_brillouin_grid_axes = utils.absolute_axes(brillouin_grid_axes, ndim)
         brillouin_grid_shape = (
             layer_solve_result.batch_shape[absolute_brillouin_grid_axes[0]],
             layer_solve_result.batch_shape[absolute_brillouin_grid_axes[1]],
-- 
2.43.0


From 50ff737c09e8cb111c35122a5350c30866d634fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:37 +0000
Subject: [PATCH 13/15] fix: automatic grid for batches of lattice vectors

---
 src/fmmax/fields.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/fields.py b/src/fmmax/fields.py
index a59db09..5339e18 100644
--- a/src/fmmax/fields.py
+++ b/src/fmmax/fields.py
@@ -723,9 +723,12 @@ def stack_fields_3d_auto_grid(
         The electric and magnetic fields and grid coordinates, `(ef, hf, (x, y, z))`.
     """
     primitive_lattice_vectors = layer_solve_results[0].primitive_lattice_vectors
+    # For batches of lattice vectors, the grid is fine enough for the largest unit cell.
+    u_length = jnp.amax(jnp.linalg.norm(primitive_lattice_vectors.u, axis=-1))
+    v_length = jnp.amax(jnp.linalg.norm(primitive_lattice_vectors.v, axis=-1))
     grid_shape = (
-        int(jnp.round(jnp.linalg.norm(primitive_lattice_vectors.u) / grid_spacing)),
-        int(jnp.round(jnp.linalg.norm(primitive_lattice_vectors.v) / grid_spacing)),
+        int(jnp.round(u_length / grid_spacing)),
+        int(jnp.round(v_length / grid_spacing)),
     )
 
     layer_znum = tuple([int(jnp.round(t / grid_spacing)) for t in layer_thicknesses])
-- 
2.43.0


From 3dcf55150629de373266e21d21b513c10e5d6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:30 +0000
Subject: [PATCH 14/15] fix: hessian of the tangent field loss where a residual
 is exactly zero

The second derivative of abs(x)**2 vanished for x = 0, so that the Newton
step missed the minimum, and the tangent field depended on rounding, e.g.
on the scale of the unit cell.
---
 src/fmmax/vector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index bd94bb4..e8329cc 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -452,6 +452,11 @@ def _field_loss(
     return loss
 
 
+def _abs_squared(x: jnp.ndarray) -> jnp.ndarray:
+    """Computes `abs(x)**2` such that its second derivative is correct also for `x = 0`."""
+    return jnp.real(x) ** 2 + jnp.imag(x) ** 2
+
+
 def _alignment_loss(
     field: jnp.ndarray,
     target_field: jnp.ndarray,
@@ -460,7 +465,7 @@ def _alignment_loss(
     """Compute loss that penalizes differences between `field` and `target_field`."""
     assert elementwise_alignment_loss_weight.ndim == field.ndim
     elementwise_loss = jnp.sum(
-        jnp.abs(field - target_field) ** 2, axis=-1, keepdims=True
+        _abs_squared(field - target_field), axis=-1, keepdims=True
     )
     return jnp.mean(elementwise_alignment_loss_weight * elementwise_loss)
 
@@ -497,7 +502,7 @@ def _fourier_loss(
     area = jnp.abs(jnp.linalg.det(basis_vectors))
 
     kt = jnp.linalg.norm(transverse_wavevectors, axis=-1) * jnp.sqrt(area)
-    return jnp.sum(jnp.abs(fourier_field) ** 2 * kt[..., jnp.newaxis] ** 2)
+    return jnp.sum(_abs_squared(fourier_field) * kt[..., jnp.newaxis] ** 2)
 
 
 def _smoothness_loss(
@@ -505,7 +510,7 @@ def _smoothness_loss(
 ) -> jnp.ndarray:
     """Compute loss associated with smoothness of `field`."""
     grads = _vector_field_forward_difference_gradient(field, basis_vectors)
-    return jnp.mean(jnp.abs(jnp.asarray(grads)) ** 2)
+    return jnp.mean(_abs_squared(jnp.asarray(grads)))
 
 
 # -------------------------------------------------------------------------------------
-- 
2.43.0


From 12e53cc3ee3274711fd3bec6244d83633959edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 15/15] fix: one-dimensional tangent field of complex arrays

---
 src/fmmax/vector.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index e8329cc..a01ed61 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -338,6 +338,7 @@ def _filter_and_adjust_resolution(
 
 def _is_1d_field(field: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     """Determine whether the field varies in one direction only."""
+    field = _remove_phase(field)
     ref_field = _field_at_max_magnitude(field)
     assert ref_field.shape == (2,)
     ref_angle = _angle(ref_field[0] + 1j * ref_field[1])
@@ -351,12 +352,26 @@ def _is_1d_field(field: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
         | jnp.isclose(angle, ref_angle + 1 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
         | jnp.isclose(angle, ref_angle + 2 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
     )
+    # A complex field is 1D only if it consists of real vectors multiplied by a phase.
+    is_1d = is_1d & jnp.all(
+        jnp.isclose(jnp.imag(field), 0.0, atol=_ATOL_1D_FIELD_ANGLE)
+    )
     # If one of the spatial dimensions is a singleton, the field is automatically 1D.
     assert field.ndim == 3
     is_1d = is_1d | (field.shape[0] == 1) | (field.shape[1] == 1)
     return is_1d, ref_angle
 
 
+def _remove_phase(field: jnp.ndarray) -> jnp.ndarray:
+    """Removes the phase from vectors that are real-valued up to a phase factor.
+
+    The gradient of a complex array has such a phase, which does not affect the direction.
+    """
+    field_squared = jnp.sum(field**2, axis=-1, keepdims=True).astype(complex)
+    field_squared_safe = jnp.where(field_squared == 0, 1.0, field_squared)
+    return field / jnp.sqrt(field_squared_safe / jnp.abs(field_squared_safe))
+
+
 def _field_at_max_magnitude(field: jnp.ndarray) -> jnp.ndarray:
     """Return the field at the location where its magnitude is largest."""
     assert field.ndim == 3
-- 
2.43.0


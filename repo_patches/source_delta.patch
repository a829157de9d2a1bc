From e9a081dd8b963f0e81086fe7f8cf5bcfa6b865f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 01/32] fix: increment evaluation of interpolations for
 PyTree-valued paths

evaluate(t0, t1) subtracted the two PyTrees directly, which raises a TypeError
unless the path value is a bare array.
---
 diffrax/_global_interpolation.py | 12 +++++++++---
 diffrax/_local_interpolation.py  |  4 ++--
 diffrax/_solver/dopri8.py        |  2 +-
 diffrax/_solver/kencarp3.py      |  2 +-
 diffrax/_solver/tsit5.py         |  2 +-
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 278d7c5..c0fb44b 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -131,7 +131,9 @@ class LinearInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, fractional_part = self._interpret_t(t0, left)
 
         def _index(_ys):
@@ -253,7 +255,9 @@ class CubicInterpolation(AbstractGlobalInterpolation):
         """
 
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         index, frac = self._interpret_t(t0, left)
 
         d, c, b, a = self.coeffs
@@ -344,7 +348,9 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         self, t0: RealScalarLike, t1: RealScalarLike | None = None, left: bool = True
     ) -> PyTree[Shaped[Array, "?*shape"], "Y"]:
         if t1 is not None:
-            return self.evaluate(t1, left=left) - self.evaluate(t0, left=left)
+            return (
+                self.evaluate(t1, left=left) ** ω - self.evaluate(t0, left=left) ** ω
+            ).ω
         t = t0 * self.direction
         t_bounded = self._nan_if_out_of_bounds(t)
         out = self._get_local_interpolation(t_bounded, left).evaluate(
diff --git a/diffrax/_local_interpolation.py b/diffrax/_local_interpolation.py
index 1f35d1d..70219c2 100644
--- a/diffrax/_local_interpolation.py
+++ b/diffrax/_local_interpolation.py
@@ -81,7 +81,7 @@ class ThirdOrderHermitePolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
@@ -128,7 +128,7 @@ class FourthOrderPolynomialInterpolation(AbstractLocalInterpolation):
     ) -> PyTree[Array]:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
diff --git a/diffrax/_solver/dopri8.py b/diffrax/_solver/dopri8.py
index 958d881..0f38e7a 100644
--- a/diffrax/_solver/dopri8.py
+++ b/diffrax/_solver/dopri8.py
@@ -296,7 +296,7 @@ class _Dopri8Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
         t = linear_rescale(self.t0, t0, self.t1)
         coeffs = _vmap_polyval(jnp.asarray(self.eval_coeffs, dtype=t.dtype), t) * t
         with jax.numpy_dtype_promotion("standard"):
diff --git a/diffrax/_solver/kencarp3.py b/diffrax/_solver/kencarp3.py
index cda0448..6bcb8d4 100644
--- a/diffrax/_solver/kencarp3.py
+++ b/diffrax/_solver/kencarp3.py
@@ -112,7 +112,7 @@ class KenCarpInterpolation(AbstractLocalInterpolation):
     ) -> PyTree:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
         explicit_k, implicit_k = self.k
diff --git a/diffrax/_solver/tsit5.py b/diffrax/_solver/tsit5.py
index 7dc7a14..789e9ce 100644
--- a/diffrax/_solver/tsit5.py
+++ b/diffrax/_solver/tsit5.py
@@ -118,7 +118,7 @@ class _Tsit5Interpolation(AbstractLocalInterpolation):
     ) -> Y:
         del left
         if t1 is not None:
-            return self.evaluate(t1) - self.evaluate(t0)
+            return (self.evaluate(t1) ** ω - self.evaluate(t0) ** ω).ω
 
         t = linear_rescale(self.t0, t0, self.t1)
 
-- 
2.43.0


From b7dc42d801fe9dc789f1978d6c3e92aced56679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 02/32] fix: an event no longer hides a solver failure on the
 same step

---
 diffrax/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8241fa9..64006b1 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -626,8 +626,9 @@ def loop(
                 event_mask_leaves.append(event_mask_i & jnp.invert(had_event))
                 had_event = event_mask_i | had_event
             event_mask = jtu.tree_unflatten(event_structure, event_mask_leaves)
+            # Don't let an event mask a failure on the same step.
             result = RESULTS.where(
-                had_event,
+                had_event & is_okay(result),
                 RESULTS.event_occurred,
                 result,
             )
-- 
2.43.0


From 01d6d3a65c70cb38d4df9be3f0eaa5461a2ff600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 03/32] fix: root-finding an event in one batch element no
 longer affects the others

---
 diffrax/_integrate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 64006b1..f0101e8 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -783,6 +783,12 @@ def loop(
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
+            # Batch elements without an event must not be affected by the root find,
+            # which (e.g. if it requires a bracket) may not be meaningful for them.
+            _keep = lambda a, b: jnp.where(event_happened, a, b)
+            _tfinal = _keep(_tfinal, final_state.tprev)
+            _yfinal = jtu.tree_map(_keep, _yfinal, final_state.y)
+            _result = RESULTS.where(event_happened, _result, result)
             return _tfinal, _yfinal, _result
 
         # Fastpath: if no event happened anywhere at all, then skip the root-find
-- 
2.43.0


From a2416f73a19f74a235aa29f021ee5aa7a7cc032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 04/32] fix: SaveAt(steps=..., t1=True) saves the final value
 exactly once

It was not saved at all if no step was made (t0 == t1, or an event true at t0),
and was saved twice with a root-finding event that did not truncate the step.
---
 diffrax/_integrate.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index f0101e8..77308dc 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -858,12 +858,14 @@ def loop(
             t1_saved_via_steps = False
         elif subsaveat.steps == 1:
             # We're definitely saving the final value via `steps`,
-            # so we can skip saving it via `t1`.
-            t1_saved_via_steps = True
+            # so we can skip saving it via `t1`. (Unless we never made a step at all.)
+            t1_saved_via_steps = final_state.num_accepted_steps > 0
         else:
             # We might be saving the final value via `steps`,
             # so we might need to save it via `t1`.
-            t1_saved_via_steps = final_state.num_accepted_steps % subsaveat.steps == 0
+            t1_saved_via_steps = (final_state.num_accepted_steps > 0) & (
+                final_state.num_accepted_steps % subsaveat.steps == 0
+            )
         if event is None or event.root_finder is None:
             if type(t1_saved_via_steps) is bool:
                 t1_not_saved_via_steps = not t1_saved_via_steps
@@ -872,9 +874,10 @@ def loop(
             pred = subsaveat.t1 & t1_not_saved_via_steps
         else:
             # If we're using an event with a root finder, and are saving steps,
-            # then we need to write the final value here because we deleted the
-            # last value after the event time above.
-            pred = subsaveat.t1 | t1_saved_via_steps
+            # then we need to write the final value here if we deleted the last value
+            # after the event time above. (And otherwise we mustn't save it twice.)
+            t1_deleted = final_state.tprev > tfinal
+            pred = jnp.where(t1_saved_via_steps, t1_deleted, subsaveat.t1)
         if pred is not False:
             save_state = _save(
                 tfinal, yfinal, args, subsaveat.fn, save_state, repeat=1, pred=pred
-- 
2.43.0


From 84d324a2f6ad8bb9e58b4702912389a01732d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 05/32] fix: unused SaveAt times are always padded with +inf

With t1 < t0, times deleted after an event became -inf rather than +inf.
---
 diffrax/_integrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 77308dc..4cc8974 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -1487,8 +1487,11 @@ def diffeqsolve(
 
     progress_meter.close(final_state.progress_meter_state)
     is_save_state = lambda x: isinstance(x, SaveState)
+    # All unused entries are padded with `inf`, regardless of the direction of time.
     ts = jtu.tree_map(
-        lambda s: s.ts * direction, final_state.save_state, is_leaf=is_save_state
+        lambda s: jnp.where(jnp.isinf(s.ts), jnp.inf, s.ts * direction),
+        final_state.save_state,
+        is_leaf=is_save_state,
     )
     ys = jtu.tree_map(lambda s: s.ys, final_state.save_state, is_leaf=is_save_state)
 
-- 
2.43.0


From b3030be23f6970c188adab1c7cf9d37553a55c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 06/32] fix: round the first step to t1 like every other step

With a jump time equal to t1 a first step reaching it ended just before t1, so
SaveAt(ts=[..., t1]) was never filled in.
---
 diffrax/_integrate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 4cc8974..11fd6b5 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -320,6 +320,11 @@ def loop(
     t1_clip_floor = t1
     for _ in range(100):
         t1_clip_floor = eqxi.prevbefore(t1_clip_floor)
+    # The first step needs rounding to t1, just like every other step.
+    init_tnext = _clip_to_end(
+        init_state.tprev, init_state.tnext, t1, t1_clip_floor, keep_step=True
+    )
+    init_state = eqx.tree_at(lambda s: s.tnext, init_state, init_tnext)
 
     if saveat.dense:
         dense_ts = init_state.dense_ts
-- 
2.43.0


From ef3d2dfcce612e741d5b98d88c501eb84ec859d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 07/32] fix: only floating events are located by the event root
 finder

Boolean events, and batch elements without an event, now stop exactly at the end
of the step. Previously a bracketing root finder raised an error for them.
---
 diffrax/_integrate.py | 45 ++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 11fd6b5..8545a75 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -703,8 +703,14 @@ def loop(
         event_mask = final_state.event_mask
         flat_mask = jtu.tree_leaves(event_mask)
         assert all(jnp.shape(x) == () for x in flat_mask)
-        float_mask = jnp.array(flat_mask).astype(jnp.float32)
-        event_happened = jnp.max(float_mask) > 0.0
+        # Only a floating event needs a root find. If a boolean event triggered, or no
+        # event triggered at all, then we stop at the end of the last step.
+        flat_values = jtu.tree_leaves(final_state.event_values)
+        float_mask = [
+            mask_i & jnp.issubdtype(jnp.result_type(value_i), jnp.floating)
+            for mask_i, value_i in zip(flat_mask, flat_values)
+        ]
+        needs_root_find = jnp.any(jnp.array(float_mask))
 
         def _root_find():
             _interpolator = solver.interpolation_cls(
@@ -714,7 +720,8 @@ def loop(
             )
 
             def _to_root_find(_t, _):
-                _distance_from_t_end = final_state.event_tnext - _t
+                # Nonpositive, with a root at `event_tnext`.
+                _distance_from_t_end = _t - final_state.event_tnext
 
                 def _call_real(_event_mask_i, _cond_fn_i):
                     def _call_real_impl():
@@ -752,10 +759,10 @@ def loop(
                     # to avoid this, I think.
                     _value = lax.cond(_event_mask_i, _call_real_impl, lambda: 0.0)
 
-                    # Third: if no events triggered at all, then have the root occur at
-                    # the end of the last step (which will be the `t1` of the overall
-                    # solve).
-                    _value = jnp.where(event_happened, _value, _distance_from_t_end)
+                    # Third: if no floating events triggered at all (so that we are only
+                    # here because of some other batch element), then have the root
+                    # occur at the end of the last step.
+                    _value = jnp.where(needs_root_find, _value, _distance_from_t_end)
                     return _value
 
                 return jtu.tree_map(
@@ -765,7 +772,13 @@ def loop(
                 )
 
             _options = {
-                "lower": final_state.event_tprev,
+                # If we don't need a root find then the last step may have zero length,
+                # so make sure to offer a nontrivial bracket.
+                "lower": jnp.where(
+                    needs_root_find,
+                    final_state.event_tprev,
+                    final_state.event_tnext - 1,
+                ),
                 "upper": final_state.event_tnext,
             }
             _event_root_find = optx.root_find(
@@ -788,20 +801,20 @@ def loop(
                 result,
                 RESULTS.promote(_event_root_find.result),
             )
-            # Batch elements without an event must not be affected by the root find,
-            # which (e.g. if it requires a bracket) may not be meaningful for them.
-            _keep = lambda a, b: jnp.where(event_happened, a, b)
+            # Batch elements without a floating event must not be affected by the root
+            # find.
+            _keep = lambda a, b: jnp.where(needs_root_find, a, b)
             _tfinal = _keep(_tfinal, final_state.tprev)
             _yfinal = jtu.tree_map(_keep, _yfinal, final_state.y)
-            _result = RESULTS.where(event_happened, _result, result)
+            _result = RESULTS.where(needs_root_find, _result, result)
             return _tfinal, _yfinal, _result
 
-        # Fastpath: if no event happened anywhere at all, then skip the root-find
-        # altogether.
+        # Fastpath: if no floating event happened anywhere at all, then skip the
+        # root-find altogether.
         # Note that `_root_find` might still be called on batch elements which did not
-        # have an event, so we still need to access `event_happened` inside of it.
+        # have an event, so we still need to access `needs_root_find` inside of it.
         tfinal, yfinal, result = lax.cond(
-            eqxi.unvmap_any(event_happened),
+            eqxi.unvmap_any(needs_root_find),
             _root_find,
             lambda: (final_state.tprev, final_state.y, result),
         )
-- 
2.43.0


From 5f88b297ef66cf6f43a4cf005cac5417ba7c5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:50 +0000
Subject: [PATCH 08/32] fix: ConstantStepSize takes steps of size dt0 when dt0
 does not divide t1 - t0

---
 diffrax/_step_size_controller/constant.py | 44 +++++++++++------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/diffrax/_step_size_controller/constant.py b/diffrax/_step_size_controller/constant.py
index 0225286..c96400c 100644
--- a/diffrax/_step_size_controller/constant.py
+++ b/diffrax/_step_size_controller/constant.py
@@ -11,9 +11,9 @@ from .._term import AbstractTerm
 from .base import AbstractStepSizeController
 
 
-# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim_or_dt0)
+# ConstantStepSizeState = (steps_completed, num_steps, t0_sim, t1_sim, dt0)
 _ConstantStepSizeState = tuple[
-    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike
+    IntScalarLike, IntScalarLike, RealScalarLike, RealScalarLike, RealScalarLike
 ]
 
 
@@ -48,11 +48,10 @@ class ConstantStepSize(
         # `eqxi.nextafter` to handle floating point error, see
         # https://github.com/patrick-kidger/diffrax/pull/666#discussion_r2215868590
         num_steps = jnp.astype(jnp.ceil((t1 - t0) / eqxi.nextafter(dt0)), jnp.int32)
-        # Use `num_steps=-1` as a marker to indicate that `diffeqsolve(..., t1=...)` is
-        # infinite.
+        # Use `num_steps=-1` as a marker to indicate that we do not know in advance how
+        # many steps we will make, e.g. `diffeqsolve(..., t1=...)` is infinite.
         num_steps = jnp.where(jnp.isfinite(t1), num_steps, -1)
-        t1_sim_or_dt0 = jnp.where(jnp.isfinite(t1), t1, dt0)
-        return t0 + dt0, (steps_completed, num_steps, t0, t1_sim_or_dt0)
+        return t0 + dt0, (steps_completed, num_steps, t0, t1, dt0)
 
     def adapt_step_size(
         self,
@@ -73,33 +72,30 @@ class ConstantStepSize(
         RESULTS,
     ]:
         del t0, y0, y1_candidate, args, y_error, error_order
-        steps_already_completed, num_steps, t0_sim, t1_sim_or_dt0 = controller_state
+        steps_already_completed, num_steps, t0_sim, t1_sim, dt0 = controller_state
+        time_dtype = jnp.result_type(t0_sim, dt0)
+        # Normally the step we have just made will have finished at the time we expect.
+        # If it didn't (e.g. because we've been given the state of an earlier solve,
+        # whose last step was clipped) then count our steps from here instead.
+        t1_expected = t0_sim + dt0 * jnp.astype(steps_already_completed, time_dtype)
+        restart = jnp.abs(t1 - t1_expected) > 1e-3 * dt0
+        steps_already_completed = jnp.where(restart, 0, steps_already_completed)
+        num_steps = jnp.where(restart, -1, num_steps)
+        t0_sim = jnp.where(restart, t1, t0_sim)
         # Number of steps that will be completed when this function returns.
         steps_completed = steps_already_completed + 1
-
-        # Calculate step size by calculating fraction of `t1 - t0` -- rather than just
-        # adding up `dt0` multiple times -- to avoid compounding of truncation/rounding
-        # errors.
-        time_dtype = jnp.result_type(t0_sim, t1_sim_or_dt0)
-        t1_next = t0_sim + (t1_sim_or_dt0 - t0_sim) * (
-            jnp.astype(steps_completed, time_dtype) / jnp.astype(num_steps, time_dtype)
-        )
-
+        # Multiply `dt0` by the number of steps -- rather than just adding up `dt0`
+        # multiple times -- to avoid compounding of truncation/rounding errors.
+        t1_next = t0_sim + dt0 * jnp.astype(steps_completed, time_dtype)
         # If we're on the final step then use `t1` directly, this time to avoid
         # floating-point weirdness in the above. (Not sure if necessary?)
-        t1_next = jnp.where(steps_completed == num_steps, t1_sim_or_dt0, t1_next)
-
-        # If `num_steps == -1` then we use that as a marker to indicate that we have an
-        # infinite `diffeqsolve(..., t1=...)`. In this case then never mind everything
-        # above, we really do just want to keep adding on `dt0` multiple times.
-        t1_next = jnp.where(num_steps >= 0, t1_next, t1 + t1_sim_or_dt0)
-
+        t1_next = jnp.where(steps_completed == num_steps, t1_sim, t1_next)
         return (
             True,
             t1,
             t1_next,
             False,
-            (steps_completed, num_steps, t0_sim, t1_sim_or_dt0),
+            (steps_completed, num_steps, t0_sim, t1_sim, dt0),
             RESULTS.successful,
         )
 
-- 
2.43.0


From 71bc433595385ec000b55143eb4143d75bd1c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 09/32] fix: left/right evaluation of the dense output of a
 solve run backwards in time

---
 diffrax/_global_interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index c0fb44b..68658e6 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -337,7 +337,11 @@ class DenseInterpolation(AbstractGlobalInterpolation):
         jtu.tree_map(_check, self.infos)
 
     def _get_local_interpolation(self, t: RealScalarLike, left: bool):
+        # We store things forwards in time. If we solved backwards in time, then the left
+        # of each point is stored to its right.
         index, _ = self._interpret_t(t, left)
+        flipped_index, _ = self._interpret_t(t, not left)
+        index = jnp.where(self.direction < 0, flipped_index, index)
         prev_t = self.ts[index]
         next_t = self.ts[index + 1]
         infos = ω(self.infos)[index].ω
-- 
2.43.0


From 626d0b9f1354496ca26e15b66ff2bd3e77d8bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 10/32] fix: stochastic Runge-Kutta solvers integrate the drift
 with the right sign backwards in time

---
 diffrax/_solver/srk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/srk.py b/diffrax/_solver/srk.py
index ddb0309..62601e8 100644
--- a/diffrax/_solver/srk.py
+++ b/diffrax/_solver/srk.py
@@ -362,6 +362,8 @@ class AbstractSRK(AbstractSolver[_SolverState]):
 
         # time increment
         h = t1 - t0
+        # This is not just `h`: when integrating backwards in time it is `-h`.
+        drift_contr = drift.contr(t0, t1)
 
         # First the drift related stuff
         a = self._embed_a_lower(self.tableau.a, dtype)
@@ -545,7 +547,7 @@ class AbstractSRK(AbstractSolver[_SolverState]):
             z_j = (y0**ω + _drift_result**ω + _diffusion_result**ω).ω
 
             def compute_and_insert_kf_j(_h_kfs_in):
-                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, h)
+                h_kf_j = drift.vf_prod(t0 + c_j * h, z_j, args, drift_contr)
                 return insert_jth_stage(_h_kfs_in, h_kf_j, j)
 
             if ignore_stage_f is None:
-- 
2.43.0


From 016d1ab122e4e9339a98d631280218a6fe4dccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 11/32] fix: sign of space-time Levy area when integrating
 backwards in time

---
 diffrax/_term.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 9b0c031..3fb2952 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -17,6 +17,7 @@ from jaxtyping import Array, ArrayLike, PyTree, Shaped
 from ._brownian import AbstractBrownianPath
 from ._custom_types import (
     AbstractBrownianIncrement,
+    AbstractSpaceTimeLevyArea,
     Args,
     Control,
     IntScalarLike,
@@ -742,7 +743,20 @@ class WrapTerm(AbstractTerm[_VF, _Control]):
     def contr(self, t0: RealScalarLike, t1: RealScalarLike, **kwargs) -> _Control:
         _t0 = jnp.where(self.direction == 1, t0, -t1)
         _t1 = jnp.where(self.direction == 1, t1, -t0)
-        return (self.direction * self.term.contr(_t0, _t1, **kwargs) ** ω).ω
+        control = self.term.contr(_t0, _t1, **kwargs)
+
+        def _reverse(x):
+            out = (self.direction * x**ω).ω
+            if isinstance(x, AbstractSpaceTimeLevyArea):
+                # Unlike an increment, space-time Lévy area is unchanged when run
+                # backwards in time: both of the path minus its chord and the length of
+                # the interval are the same in either direction.
+                out = eqx.tree_at(lambda z: z.H, out, x.H)
+            return out
+
+        return jtu.tree_map(
+            _reverse, control, is_leaf=lambda x: isinstance(x, AbstractSpaceTimeLevyArea)
+        )
 
     def prod(self, vf: _VF, control: _Control) -> Y:
         with jax.numpy_dtype_promotion("standard"):
-- 
2.43.0


From 371d1ab2c4f25428797bced02790752707d204ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 12/32] fix: coefficients of the Langevin solvers for large
 steps backwards in time

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index ea1026f..09c9acb 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -197,7 +197,7 @@ class AbstractFosterLangevinSRK(
             # c is a leaf of gamma
             # Depending on the size of h*gamma choose whether the Taylor expansion or
             # direct computation is more accurate.
-            cond = h * c < self.taylor_threshold
+            cond = jnp.abs(h * c) < self.taylor_threshold
             tay_out = self._eval_taylor(h, _tay_coeffs)
             if cond.ndim < jtu.tree_leaves(tay_out)[0].ndim:
                 # This happens when c is a scalar
-- 
2.43.0


From dc1325ce17988ec9827ba48d4815d5192a0b1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 13/32] fix: event functions see the real time when integrating
 backwards in time

---
 diffrax/_integrate.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index 8545a75..a515cf8 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -220,6 +220,28 @@ def _is_subsaveat(x: Any) -> bool:
     return isinstance(x, SubSaveAt)
 
 
+class _DirectionCondFn(eqx.Module):
+    # Internally we always integrate forwards in time. The user-provided event functions
+    # should see time as the user does.
+    cond_fn: Callable[..., BoolScalarLike | RealScalarLike]
+    direction: IntScalarLike
+
+    def __call__(self, t, y, args, *, terms, t0, t1, dt0, **kwargs):
+        terms = jtu.tree_map(
+            lambda x: x.term, terms, is_leaf=lambda x: isinstance(x, WrapTerm)
+        )
+        return self.cond_fn(
+            self.direction * t,
+            y,
+            args,
+            terms=terms,
+            t0=self.direction * t0,
+            t1=self.direction * t1,
+            dt0=None if dt0 is None else self.direction * dt0,
+            **kwargs,
+        )
+
+
 def _inner_buffers(save_state):
     assert type(save_state) is SaveState
     return save_state.ts, save_state.ys
@@ -1273,6 +1295,11 @@ def diffeqsolve(
             return x
 
     saveat = jtu.tree_map(_subsaveat_direction_fn, saveat, is_leaf=_is_subsaveat)
+    if event is not None:
+        cond_fn = jtu.tree_map(
+            lambda x: _DirectionCondFn(x, direction), event.cond_fn, is_leaf=callable
+        )
+        event = eqx.tree_at(lambda e: e.cond_fn, event, cond_fn)
 
     # Initialise states
     tprev = t0
-- 
2.43.0


From 91d16b482cc61af05d7a49b715a69754b5feda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:47 +0000
Subject: [PATCH 14/32] fix: QUICSORT can be used with jumps in the vector
 field

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index 09c9acb..32e1892 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -404,7 +404,7 @@ class AbstractFosterLangevinSRK(
             )
 
         x0, v0 = y0
-        if made_jump is False:
+        if made_jump is False or not self._is_fsal:
             prev_f = st.prev_f
         else:
             prev_f = lax.cond(
-- 
2.43.0


From c52ec8c199929df48c5471e7b64dc76137f87983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 15/32] fix: VeryChord keeps iterating whilst it is converging,
 instead of reporting divergence

---
 diffrax/_root_finder/_verychord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_root_finder/_verychord.py b/diffrax/_root_finder/_verychord.py
index 385a2cb..99f3d97 100644
--- a/diffrax/_root_finder/_verychord.py
+++ b/diffrax/_root_finder/_verychord.py
@@ -162,7 +162,8 @@ class VeryChord(optx.AbstractRootFinder):
         converged = _converged(factor, self.kappa)
         terminate = at_least_two & (small | diverged | converged)
         terminate_result = optx.RESULTS.where(
-            at_least_two & jnp.invert(small) & (diverged | jnp.invert(converged)),
+            # If we have neither diverged nor converged then keep iterating.
+            at_least_two & jnp.invert(small) & diverged,
             optx.RESULTS.nonlinear_divergence,
             optx.RESULTS.successful,
         )
-- 
2.43.0


From 6568a6819cdce8d48f91a363ad6b3154808ebf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:40 +0000
Subject: [PATCH 16/32] fix: HalfSolver around a Runge--Kutta method works with
 DirectAdjoint and ForwardMode

isinstance looks through wrapper solvers, which have no scan_kind of their own.
---
 diffrax/_adjoint.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/diffrax/_adjoint.py b/diffrax/_adjoint.py
index 7bc081b..63af382 100644
--- a/diffrax/_adjoint.py
+++ b/diffrax/_adjoint.py
@@ -21,6 +21,7 @@ from ._solver import (
     AbstractRungeKutta,
     AbstractSRK,
     AbstractStratonovichSolver,
+    AbstractWrappedSolver,
 )
 from ._term import AbstractTerm, AdjointTerm
 
@@ -32,6 +33,19 @@ def _is_none(x):
     return x is None
 
 
+def _set_scan_kind(solver, kind):
+    if isinstance(solver, AbstractWrappedSolver):
+        return eqx.tree_at(
+            lambda s: s.solver, solver, _set_scan_kind(solver.solver, kind)
+        )
+    if (
+        isinstance(solver, (AbstractRungeKutta, AbstractSRK))
+        and solver.scan_kind is None
+    ):
+        return eqx.tree_at(lambda s: s.scan_kind, solver, kind, is_leaf=_is_none)
+    return solver
+
+
 def _is_subsaveat(x: Any) -> bool:
     return isinstance(x, SubSaveAt)
 
@@ -380,13 +394,7 @@ class DirectAdjoint(AbstractAdjoint):
             msg = None
         # Support forward-mode autodiff.
         # TODO: remove this hack once we can JVP through custom_vjps.
-        if (
-            isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
-        ):
-            solver = eqx.tree_at(
-                lambda s: s.scan_kind, solver, "bounded", is_leaf=_is_none
-            )
+        solver = _set_scan_kind(solver, "bounded")
         inner_while_loop = ft.partial(_inner_loop, kind=kind)
         outer_while_loop = ft.partial(_outer_loop, kind=kind)
         final_state = self._loop(
@@ -903,11 +911,7 @@ class ForwardMode(AbstractAdjoint):
         outer_while_loop = eqx.Partial(_outer_loop, kind="lax")
         # Support forward-mode autodiff.
         # TODO: remove this hack once we can JVP through custom_vjps.
-        if (
-            isinstance(solver, (AbstractRungeKutta, AbstractSRK))
-            and solver.scan_kind is None
-        ):
-            solver = eqx.tree_at(lambda s: s.scan_kind, solver, "lax", is_leaf=_is_none)
+        solver = _set_scan_kind(solver, "lax")
         final_state = self._loop(
             solver=solver,
             inner_while_loop=inner_while_loop,
-- 
2.43.0


From bd50fd6a4bced77caac1e8ebe9dd448cac541f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:24 +0000
Subject: [PATCH 17/32] fix: dt of Brownian increments over a PyTree-valued
 VirtualBrownianTree

It was scaled like the increments (by the square root of the length of the interval).
---
 diffrax/_brownian/tree.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 8a43066..2f12be4 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -314,13 +314,10 @@ class VirtualBrownianTree(AbstractBrownianPath):
             dtype = jnp.result_type(z)
             return jnp.astype(sqrt_len, dtype) * z
 
-        def is_dt(z):
-            return z is x.dt
-
-        dt, other = eqx.partition(x, is_dt)
-        dt_normalized = jtu.tree_map(mult, dt)
-        other_normalized = jtu.tree_map(sqrt_mult, other)
-        return eqx.combine(dt_normalized, other_normalized)
+        # `x.dt` may be a PyTree, if `self.shape` is.
+        dt_normalized = jtu.tree_map(mult, x.dt)
+        other_normalized = jtu.tree_map(sqrt_mult, x)
+        return eqx.tree_at(lambda z: z.dt, other_normalized, dt_normalized)
 
     @eqx.filter_jit
     def evaluate(
-- 
2.43.0


From 726171eb1482247413addf2a28e597d916691127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:34 +0000
Subject: [PATCH 18/32] fix: second-order interpolation of Midpoint and Ralston

---
 diffrax/_solver/midpoint.py | 14 ++++++++++----
 diffrax/_solver/ralston.py  | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/diffrax/_solver/midpoint.py b/diffrax/_solver/midpoint.py
index a797b84..7aba5d6 100644
--- a/diffrax/_solver/midpoint.py
+++ b/diffrax/_solver/midpoint.py
@@ -1,8 +1,8 @@
-from collections.abc import Callable
 from typing import ClassVar
 
 import equinox.internal as eqxi
 import numpy as np
+from equinox.internal import ω
 
 from .._local_interpolation import ThirdOrderHermitePolynomialInterpolation
 from .base import AbstractStratonovichSolver
@@ -30,9 +30,15 @@ class Midpoint(AbstractERK, AbstractStratonovichSolver):
     """
 
     tableau: ClassVar[ButcherTableau] = _midpoint_tableau
-    interpolation_cls: ClassVar[
-        Callable[..., ThirdOrderHermitePolynomialInterpolation]
-    ] = ThirdOrderHermitePolynomialInterpolation.from_k
+
+    @staticmethod
+    def interpolation_cls(t0, t1, y0, y1, k):
+        k0 = ω(k)[0].ω
+        # The second stage is at the middle of the step: extrapolate to its end.
+        k1 = (2 * ω(k)[1] - ω(k)[0]).ω
+        return ThirdOrderHermitePolynomialInterpolation(
+            t0=t0, t1=t1, y0=y0, y1=y1, k0=k0, k1=k1
+        )
 
     def order(self, terms):
         del terms
diff --git a/diffrax/_solver/ralston.py b/diffrax/_solver/ralston.py
index 098af35..5f22b34 100644
--- a/diffrax/_solver/ralston.py
+++ b/diffrax/_solver/ralston.py
@@ -1,8 +1,8 @@
-from collections.abc import Callable
 from typing import ClassVar
 
 import equinox.internal as eqxi
 import numpy as np
+from equinox.internal import ω
 
 from .._local_interpolation import ThirdOrderHermitePolynomialInterpolation
 from .base import AbstractStratonovichSolver
@@ -36,9 +36,15 @@ class Ralston(AbstractERK, AbstractStratonovichSolver):
     """
 
     tableau: ClassVar[ButcherTableau] = _ralston_tableau
-    interpolation_cls: ClassVar[
-        Callable[..., ThirdOrderHermitePolynomialInterpolation]
-    ] = ThirdOrderHermitePolynomialInterpolation.from_k
+
+    @staticmethod
+    def interpolation_cls(t0, t1, y0, y1, k):
+        k0 = ω(k)[0].ω
+        # The second stage is two thirds into the step: extrapolate to its end.
+        k1 = (1.5 * ω(k)[1] - 0.5 * ω(k)[0]).ω
+        return ThirdOrderHermitePolynomialInterpolation(
+            t0=t0, t1=t1, y0=y0, y1=y1, k0=k0, k1=k1
+        )
 
     def order(self, terms):
         del terms
-- 
2.43.0


From bfdce21306fd67fcd81bbe889841d03a8abbbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:20 +0000
Subject: [PATCH 19/32] fix: replace_nans_at_start only replaces missing values

---
 diffrax/_global_interpolation.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 68658e6..8c5af2e 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -420,6 +420,16 @@ def _check_ts(ts: Real[Array, " times"]) -> Real[Array, " times"]:
     return ts
 
 
+def _replace_nan_at_start(
+    ys: Shaped[Array, " times *channels"],
+    replace_nans_at_start: Shaped[ArrayLike, " *#channels"] | None,
+) -> Shaped[Array, " times *channels"]:
+    if replace_nans_at_start is None:
+        return ys
+    y0 = jnp.where(jnp.isnan(ys[0]), replace_nans_at_start, ys[0])
+    return ys.at[0].set(y0)
+
+
 def _interpolation_reverse(
     carry: tuple[Real[Array, " *channels"], Shaped[Array, " *channels"]],
     value: tuple[Real[Array, " *channels"], Shaped[Array, " *channels"]],
@@ -467,10 +477,7 @@ def _linear_interpolation(
 ) -> Shaped[Array, " times *channels"]:
     ts = left_broadcast_to(ts, ys.shape)
 
-    if replace_nans_at_start is None:
-        y0 = ys[0]
-    else:
-        y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+    ys = _replace_nan_at_start(ys, replace_nans_at_start)
 
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts, ys), reverse=True
@@ -478,7 +485,7 @@ def _linear_interpolation(
     if fill_forward_nans_at_end:
         next_ys = fill_forward(next_ys)
     _, ys = lax.scan(
-        _linear_interpolation_forward, (ts[0], y0), (ts, ys, next_ts, next_ys)
+        _linear_interpolation_forward, (ts[0], ys[0]), (ts, ys, next_ts, next_ys)
     )
     return ys
 
@@ -689,6 +696,7 @@ def _backward_hermite_coefficients(
     Shaped[Array, " times-1 *channels"],
 ]:
     ts = left_broadcast_to(ts, ys.shape)
+    ys = _replace_nan_at_start(ys, replace_nans_at_start)
 
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
@@ -698,10 +706,7 @@ def _backward_hermite_coefficients(
         next_ys = fill_forward(next_ys)
 
     t0 = ts[0]
-    if replace_nans_at_start is None:
-        y0 = ys[0]
-    else:
-        y0 = jnp.broadcast_to(replace_nans_at_start, ys[0].shape)
+    y0 = ys[0]
     if deriv0 is None:
         with jax.numpy_dtype_promotion("standard"):
             deriv0 = (next_ys[0] - y0) / (next_ts[0] - t0)
-- 
2.43.0


From e37d6b3278c3e894aa7e37f3cf4f98d705718e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:20 +0000
Subject: [PATCH 20/32] fix: Hermite splines are continuously differentiable
 across missing values

---
 diffrax/_global_interpolation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index 8c5af2e..a8a1976 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -673,14 +673,15 @@ def _hermite_coeffs(t0, y0, deriv0, t1, y1):
 
 
 def _hermite_impl(prev_ti, prev_yi, prev_deriv_i, ti, next_ti, next_yi):
+    # The cubic between the previous and the next observation...
     d, c, b, a = _hermite_coeffs(prev_ti, prev_yi, prev_deriv_i, next_ti, next_yi)
-    ts = jnp.stack([prev_ti, next_ti])
-    interpolation = CubicInterpolation(
-        ts=ts, coeffs=(d[None], c[None], b[None], a[None])
-    )
-    interp_yi = interpolation.evaluate(ti)
-    interp_deriv_i = interpolation.derivative(ti)
-    return _hermite_coeffs(ti, interp_yi, interp_deriv_i, next_ti, next_yi)
+    # ...re-expanded around `ti`, which is between them if its observation is missing.
+    frac = ti - prev_ti
+    with jax.numpy_dtype_promotion("standard"):
+        a = a + frac * (b + frac * (c + frac * d))
+        b = b + frac * (2 * c + frac * 3 * d)
+        c = c + frac * 3 * d
+    return d, c, b, a
 
 
 def _backward_hermite_coefficients(
-- 
2.43.0


From 7ba95161896a2262d318a0d9576ae64f30e56673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:20 +0000
Subject: [PATCH 21/32] fix: fill forward missing values at the end before
 fitting the Hermite spline

---
 diffrax/_global_interpolation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/diffrax/_global_interpolation.py b/diffrax/_global_interpolation.py
index a8a1976..29bf642 100644
--- a/diffrax/_global_interpolation.py
+++ b/diffrax/_global_interpolation.py
@@ -699,13 +699,16 @@ def _backward_hermite_coefficients(
     ts = left_broadcast_to(ts, ys.shape)
     ys = _replace_nan_at_start(ys, replace_nans_at_start)
 
+    if fill_forward_nans_at_end:
+        _, (_, next_ys) = lax.scan(
+            _interpolation_reverse, (ts[-1], ys[-1]), (ts, ys), reverse=True
+        )
+        ys = jnp.where(jnp.isnan(next_ys), fill_forward(ys), ys)
+
     _, (next_ts, next_ys) = lax.scan(
         _interpolation_reverse, (ts[-1], ys[-1]), (ts[1:], ys[1:]), reverse=True
     )
 
-    if fill_forward_nans_at_end:
-        next_ys = fill_forward(next_ys)
-
     t0 = ts[0]
     y0 = ys[0]
     if deriv0 is None:
-- 
2.43.0


From f4202d9decfab0e1b436767a0b7e435c0ceed7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 22/32] fix: ControlTerm.prod conjugated complex vector fields

---
 diffrax/_term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_term.py b/diffrax/_term.py
index 3fb2952..87f3c0d 100644
--- a/diffrax/_term.py
+++ b/diffrax/_term.py
@@ -266,7 +266,7 @@ def _callable_to_path(
 # control: Shaped[Array, "*control"]
 # return: Shaped[Array, "*state"]
 def _prod(vf, control):
-    return jnp.tensordot(jnp.conj(vf), control, axes=jnp.ndim(control))
+    return jnp.tensordot(vf, control, axes=jnp.ndim(control))
 
 
 class ControlTerm(AbstractTerm[_VF, _Control]):
-- 
2.43.0


From a1118aa32e727ad48675f01205f70c175a469c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 23/32] fix: progress meters could not be differentiated with
 respect to t0/t1

---
 diffrax/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffrax/_integrate.py b/diffrax/_integrate.py
index a515cf8..03f74cd 100644
--- a/diffrax/_integrate.py
+++ b/diffrax/_integrate.py
@@ -440,7 +440,8 @@ def loop(
         tnext = _clip_to_end(tprev, tnext, t1, t1_clip_floor, keep_step)
 
         progress_meter_state = progress_meter.step(
-            state.progress_meter_state, linear_rescale(t0, tprev, t1)
+            state.progress_meter_state,
+            lax.stop_gradient(linear_rescale(t0, tprev, t1)),
         )
 
         # The other parts of the mutable state are kept/not-kept (based on whether the
-- 
2.43.0


From 5659a06a8bd5a43f766f98bb79d535b2359941e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 24/32] fix: ImplicitEuler step with a failed nonlinear solve
 could be accepted

---
 diffrax/_solver/implicit_euler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diffrax/_solver/implicit_euler.py b/diffrax/_solver/implicit_euler.py
index 68477c7..daa6b9c 100644
--- a/diffrax/_solver/implicit_euler.py
+++ b/diffrax/_solver/implicit_euler.py
@@ -1,6 +1,8 @@
 from collections.abc import Callable
 from typing import ClassVar, TypeAlias
 
+import jax.numpy as jnp
+import jax.tree_util as jtu
 import optimistix as optx
 from equinox.internal import ω
 
@@ -8,7 +10,7 @@ from .._custom_types import Args, BoolScalarLike, DenseInfo, RealScalarLike, VF,
 from .._heuristics import is_sde
 from .._local_interpolation import LocalLinearInterpolation
 from .._root_finder import with_stepsize_controller_tols
-from .._solution import RESULTS
+from .._solution import is_okay, RESULTS
 from .._term import AbstractTerm
 from .base import AbstractAdaptiveSolver, AbstractImplicitSolver
 
@@ -97,6 +99,10 @@ class ImplicitEuler(AbstractImplicitSolver, AbstractAdaptiveSolver):
         dense_info = dict(y0=y0, y1=y1)
         solver_state = None
         result = RESULTS.promote(nonlinear_sol.result)
+        y_error = jtu.tree_map(
+            lambda _y_error: jnp.where(is_okay(result), _y_error, jnp.inf),
+            y_error,
+        )  # i.e. the implicit step failed to converge
         return y1, y_error, dense_info, solver_state, result
 
     def func(
-- 
2.43.0


From 91381823c1d675801e22f85613a9bf97e7568214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 25/32] fix: PIDController got stuck when a step overflowed to
 infinity

---
 diffrax/_step_size_controller/pid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diffrax/_step_size_controller/pid.py b/diffrax/_step_size_controller/pid.py
index 752b9be..914d8f0 100644
--- a/diffrax/_step_size_controller/pid.py
+++ b/diffrax/_step_size_controller/pid.py
@@ -482,9 +482,10 @@ class PIDController(
 
         def _scale(_y0, _y1_candidate, _y_error):
             # In case the solver steps into a region for which the vector field isn't
-            # defined.
-            _nan = jnp.isnan(_y1_candidate).any()
-            _y1_candidate = jnp.where(_nan, _y0, _y1_candidate)
+            # defined, or overflows. (In which case `_y_error` will be infinite, and we
+            # must not compute `inf / inf = nan`.)
+            _finite = jnp.isfinite(_y1_candidate).all()
+            _y1_candidate = jnp.where(_finite, _y1_candidate, _y0)
             _y = jnp.maximum(jnp.abs(_y0), jnp.abs(_y1_candidate))
             with jax.numpy_dtype_promotion("standard"):
                 return _y_error / (self.atol + _y * self.rtol)
-- 
2.43.0


From 6ea57221a98cea628be0c01dca6f252adf387e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 26/32] fix: VeryChord never converged when starting at a root
 up to rounding

---
 diffrax/_root_finder/_verychord.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/diffrax/_root_finder/_verychord.py b/diffrax/_root_finder/_verychord.py
index 99f3d97..aada2ac 100644
--- a/diffrax/_root_finder/_verychord.py
+++ b/diffrax/_root_finder/_verychord.py
@@ -19,11 +19,14 @@ from .._custom_types import Y
 ω = cast(Callable, ω)
 
 
-def _small(diffsize: Scalar) -> Bool[Array, ""]:
+def _small(diffsize: Scalar, ysize: Scalar) -> Bool[Array, ""]:
     # TODO(kidger): make a more careful choice here -- the existence of this
     # function is pretty ad-hoc.
-    resolution = 10 ** (2 - jnp.finfo(diffsize.dtype).precision)
-    return diffsize < resolution
+    finfo = jnp.finfo(diffsize.dtype)
+    resolution = 10 ** (2 - finfo.precision)
+    # Also consider updates that are at the level of the floating-point error in `y`.
+    # These do not get any smaller, so that we would never have convergence.
+    return (diffsize < resolution) | (diffsize < 10 * finfo.eps * ysize)
 
 
 def _diverged(rate: Scalar) -> Bool[Array, ""]:
@@ -152,12 +155,15 @@ class VeryChord(optx.AbstractRootFinder):
         state: _VeryChordState,
         tags: frozenset[object],
     ):
-        del fn, y, args, options, tags
+        del fn, args, options, tags
+        with jax.numpy_dtype_promotion("standard"):
+            scale = (self.atol + self.rtol * ω(y).call(jnp.abs)).ω
+            ysize = self.norm((y**ω / scale**ω).ω)
         # TODO(kidger): perform only one iteration when solving a linear system!
         at_least_two = state.step >= 2
         rate = state.diffsize / state.diffsize_prev
         factor = state.diffsize * rate / (1 - rate)
-        small = _small(state.diffsize)
+        small = _small(state.diffsize, ysize)
         diverged = _diverged(rate)
         converged = _converged(factor, self.kappa)
         terminate = at_least_two & (small | diverged | converged)
-- 
2.43.0


From e20c3635940a780478a0623a7e3baf6db6e1e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 27/32] fix: ItoMilstein raised for PyTree-valued Brownian
 motion

---
 diffrax/_solver/milstein.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diffrax/_solver/milstein.py b/diffrax/_solver/milstein.py
index 897bc9c..768a8fa 100644
--- a/diffrax/_solver/milstein.py
+++ b/diffrax/_solver/milstein.py
@@ -214,6 +214,7 @@ class ItoMilstein(AbstractItoSolver):
         # We're going to use this notation extensively.
         #
         leaves_Δw, tree_Δw = jtu.tree_flatten(Δw)
+        complex_Δw = any(jnp.iscomplexobj(leaf) for leaf in leaves_Δw)
         leaves_ΔwΔw = []
         for i1, l1 in enumerate(leaves_Δw):
             for i2, l2 in enumerate(leaves_Δw):
@@ -244,7 +245,7 @@ class ItoMilstein(AbstractItoSolver):
             _, _jvp = jax.jvp(_to_vjp, (y0,), (_g0,))
             # jvp has structure (tree(g0), leaf(g0))
             _jvp_matrix = jax.jacfwd(
-                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+                lambda _Δw: diffusion.prod(_jvp, _Δw), holomorphic=complex_Δw
             )(Δw)
             # _jvp_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
             return _jvp_matrix
@@ -292,7 +293,7 @@ class ItoMilstein(AbstractItoSolver):
         # g0 has structure (tree(g0), leaf(g0))
         # Which we now transform into its isomorphic matrix form, as above.
         g0_matrix = jax.jacfwd(
-            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=jnp.iscomplexobj(Δw)
+            lambda _Δw: diffusion.prod(g0, _Δw), holomorphic=complex_Δw
         )(Δw)
         # g0_matrix has structure (tree(y0), tree(Δw), leaf(y0), leaf(Δw))
         g0_matrix = jtu.tree_transpose(y_treedef, Δw_treedef, g0_matrix)
-- 
2.43.0


From 8192915ff8b52d36d7e1a222d395a356dcce0e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 28/32] fix: ItoMilstein conjugated complex diffusions

---
 diffrax/_solver/milstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/milstein.py b/diffrax/_solver/milstein.py
index 768a8fa..7d18029 100644
--- a/diffrax/_solver/milstein.py
+++ b/diffrax/_solver/milstein.py
@@ -312,7 +312,7 @@ class ItoMilstein(AbstractItoSolver):
         def __dot(_v0, _ΔwΔw):
             # _v0 has structure (leaf(y0), leaf(Δw), leaf(Δw))
             # _ΔwΔw has structure (leaf(Δw), leaf(Δw))
-            _out = jnp.tensordot(jnp.conj(_v0), _ΔwΔw, axes=jnp.ndim(_ΔwΔw))
+            _out = jnp.tensordot(_v0, _ΔwΔw, axes=jnp.ndim(_ΔwΔw))
             # _out has structure (leaf(y0),)
             return _out
 
-- 
2.43.0


From a0cf551e7ab571a38569a575634be65a8d379730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:05 +0000
Subject: [PATCH 29/32] fix: Runge-Kutta methods accept states whose leaves
 have different dtypes

---
 diffrax/_solver/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/diffrax/_solver/base.py b/diffrax/_solver/base.py
index d4a476e..c97fb97 100644
--- a/diffrax/_solver/base.py
+++ b/diffrax/_solver/base.py
@@ -35,10 +35,13 @@ _SolverState = TypeVar("_SolverState")
 
 
 def vector_tree_dot(a, b):
-    return jtu.tree_map(
-        lambda bi: jnp.tensordot(a, bi, axes=1, precision=lax.Precision.HIGHEST),
-        b,
-    )
+    # The coefficients `a` are always real-valued, and the leaves of `b` may have
+    # different dtypes. (E.g. only some of them are complex.)
+    def _dot(bi):
+        ai = jnp.real(a).astype(jnp.result_type(bi))
+        return jnp.tensordot(ai, bi, axes=1, precision=lax.Precision.HIGHEST)
+
+    return jtu.tree_map(_dot, b)
 
 
 class _MetaAbstractSolver(type(eqx.Module), type):
-- 
2.43.0


From 6da41ce753623f2be121614c780003fec312f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 30/32] fix: space-time Levy area of VirtualBrownianTree just
 after t0 in single precision

---
 diffrax/_brownian/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diffrax/_brownian/tree.py b/diffrax/_brownian/tree.py
index 2f12be4..56852d5 100644
--- a/diffrax/_brownian/tree.py
+++ b/diffrax/_brownian/tree.py
@@ -551,9 +551,11 @@ class VirtualBrownianTree(AbstractBrownianPath):
                     + ((r - 2 * s) / 12) * r_bb_s
                 )
 
-                inverse_r = 1 / jnp.where(jnp.square(r) < jnp.finfo(r).eps, jnp.inf, r)
+                inverse_r = 1 / jnp.where(jnp.abs(r) < jnp.finfo(r).eps, jnp.inf, r)
                 hh_r = inverse_r * bhh_r
-                kk_r = inverse_r**2 * bkk_r
+                r2 = jnp.square(r)
+                inverse_r2 = 1 / jnp.where(r2 < jnp.finfo(r).eps, jnp.inf, r2)
+                kk_r = inverse_r2 * bkk_r
 
             return _LevyVal(dt=r, W=w_r, H=hh_r, bar_H=bhh_r, K=kk_r, bar_K=bkk_r)
 
-- 
2.43.0


From c07a51a2f680e96eaac26fe369ebac71f7a05584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 31/32] fix: Langevin solvers recompute their coefficients
 however small the steps are

---
 diffrax/_solver/foster_langevin_srk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffrax/_solver/foster_langevin_srk.py b/diffrax/_solver/foster_langevin_srk.py
index 32e1892..5b6a314 100644
--- a/diffrax/_solver/foster_langevin_srk.py
+++ b/diffrax/_solver/foster_langevin_srk.py
@@ -388,7 +388,7 @@ class AbstractFosterLangevinSRK(
         # If h changed, recompute coefficients
         # Even when using constant step sizes, h can fluctuate by small amounts,
         # so we use `jnp.isclose` for comparison
-        cond = jnp.isclose(h_prev, h, rtol=1e-10, atol=1e-12)
+        cond = jnp.isclose(h_prev, h, rtol=1e-10, atol=0.0)
         coeffs = lax.cond(
             eqxi.unvmap_all(cond),
             lambda: old_coeffs,
-- 
2.43.0


From 3aa5ce3df47143ab35324a8be262d9690a975a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:19 +0000
Subject: [PATCH 32/32] fix: implicit Runge-Kutta stages are accepted to the
 tolerance of the state, in any units of time

The root find of first-same-as-last implicit methods was on values of the
vector field, but with tolerances for values of the state. With large units
of time the stages were accepted without being solved. Now iterate on
vf * dt.
---
 diffrax/_solver/runge_kutta.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/diffrax/_solver/runge_kutta.py b/diffrax/_solver/runge_kutta.py
index 9473ab4..e9b286f 100644
--- a/diffrax/_solver/runge_kutta.py
+++ b/diffrax/_solver/runge_kutta.py
@@ -242,12 +242,20 @@ class CalculateJacobian(enum.IntEnum):
 _SolverState: TypeAlias = tuple[BoolScalarLike, PyTree[Array]] | None
 
 
+def _scale(x, scale):
+    return jtu.tree_map(lambda xi: xi * scale.astype(jnp.result_type(xi)), x)
+
+
 # TODO: examine termination criterion for Newton iteration
 # TODO: replace fi with fi=(zi + predictor), where this relation defines some zi, and
 #       iterate to find zi, using zi=0 as the predictor. This should give better
 #       numerical behaviour since the iteration is close to 0. (Although we have
 #       multiplied by the increment of the control, i.e. dt, which is small...)
-def _implicit_relation_f(fi, nonlinear_solve_args):
+def _implicit_relation_f(scaled_fi, nonlinear_solve_args):
+    # We actually iterate on `f * dt`: it has the same units as `y`, and thus as the
+    # tolerances of the root finder. (So that what is accepted as a solution does not
+    # depend on the units in which time is measured.)
+    #
     # We pass stage_index, even without using it, so that custom nonlinear solvers
     # can special-case on the stage if they want to.
     (
@@ -259,11 +267,12 @@ def _implicit_relation_f(fi, nonlinear_solve_args):
         yi_partial,
         args,
         control,
+        f_scale,
     ) = nonlinear_solve_args
     del stage_index
-    diff = (
-        fi**ω - vf(ti, (yi_partial**ω + diagonal * prod(fi, control) ** ω).ω, args) ** ω
-    ).ω
+    fi = _scale(scaled_fi, 1 / f_scale)
+    new_fi = vf(ti, (yi_partial**ω + diagonal * prod(fi, control) ** ω).ω, args)
+    diff = (scaled_fi**ω - _scale(new_fi, f_scale) ** ω).ω
     return diff
 
 
@@ -895,6 +904,9 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
                         # FSAL => explicit first stage so the choice of predictor
                         # doesn't matter.
                         f_pred = jtu.tree_map(if_first_stage, f0_for_jac, f_pred)
+                    # The `where` is for the finished elements of a batch.
+                    f_scale = lax.stop_gradient(jnp.where(dt == 0, jnp.ones_like(dt), dt))
+                    f_pred = _scale(f_pred, f_scale)
                     assert f0 is not _unused
                     f_implicit_args = (
                         stage_index,
@@ -905,6 +917,7 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
                         yi_partial,
                         args,
                         implicit_control,
+                        f_scale,
                     )
                     k_pred = _unused
                     k_implicit_args = _unused
@@ -992,7 +1005,7 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
                         throw=False,
                         max_steps=self.root_find_max_steps,
                     )
-                    implicit_fi = nonlinear_sol.value
+                    implicit_fi = _scale(nonlinear_sol.value, 1 / f_scale)
                     implicit_ki = _unused
                     implicit_inc = implicit_term.prod(implicit_fi, implicit_control)  # pyright: ignore
                 else:
@@ -1097,6 +1110,7 @@ class AbstractRungeKutta(AbstractAdaptiveSolver[_SolverState]):
                     y0,
                     args,
                     implicit_control,
+                    jnp.ones_like(dt),
                 )
                 jac_f = self.root_finder.init(
                     lambda y, a: (_implicit_relation_f(y, a), None),
-- 
2.43.0


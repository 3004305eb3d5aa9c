From ebe5caced3bae5d73bfdc9e82b5d964bd511cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 01/39] fix: land truncated adaptive steps exactly on their
 target time

`t + (target - t)` need not equal the target in floating point.  When it overshot,
the requested point was dropped from the solution (or indexing past the end failed);
when it undershot after a rejection the zero remainder stalled the loop.
---
 torchdyn/numerics/odeint.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..9523ec6 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -349,8 +349,10 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
+		# a truncated step ends exactly at its target: `t + (target - t)` can miss it in floating point
+		t_target = None
 		if t + dt > T:
-			dt = T - t
+			dt, t_target = T - t, T
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
@@ -359,6 +361,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					# save old dt, raise "checkpoint" flag and repeat step
 					dt_old, ckpt_flag = dt, True
 					dt = t_eval[ckpt_counter] - t
+					t_target = t_eval[ckpt_counter]
+		t_new = t + dt if t_target is None else t_target.reshape(t.shape)
 
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
@@ -376,8 +380,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
+					t0, t1 = t, t_new
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -386,18 +390,19 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_new == t_eval[ckpt_counter] or return_all_eval: # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_new, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
 		# reset "dt" in case of checkpoint without interp
 		if ckpt_flag:
-			dt = dt_old - dt
+			# the remainder of a step truncated at (nearly) its own end is no step at all
+			if t + (dt_old - dt) > t: dt = dt_old - dt
 			ckpt_flag = False
 
 		dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From e02574102f72def8186c72c57cc95b200c485e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 02/39] fix: integrate reversed time spans in the caller's time

The initial step was sized with the un-reversed field, `save_at` was not mapped to the
reversed domain, and the returned times were those of the internal negated domain, so
that the adjoint of a reversed solve was evaluated at the wrong times.
---
 torchdyn/numerics/odeint.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 9523ec6..d5533b8 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -51,10 +51,12 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 	Returns:
 		Tuple[Tensor, Tensor]: returns a Tuple (t_eval, solution).
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	reverse = t_span[1] < t_span[0]
+	if reverse: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
 	else: f_ = f
 
 	if type(t_span) == list: t_span = torch.cat(t_span)
@@ -82,13 +84,14 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 			if atol != odeint.__defaults__[0] or rtol != odeint.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
 			# instantiate save_at tensor
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
-			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+			dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+		return (-t_eval if reverse else t_eval), sol
 
 
 # TODO (qol) state augmentation for symplectic methods
-- 
2.43.0


From c30cecaf8d9d7792628f156cfebd918195930bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 03/39] fix: recover from non-finite trial steps instead of
 looping forever

A NaN error estimate (or a NaN in the initial step heuristic) made the step size NaN,
after which the adaptive loops could never advance.  Such a trial is now rejected like
any other, and a step size too small to advance time raises.
---
 torchdyn/numerics/odeint.py | 4 ++++
 torchdyn/numerics/utils.py  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index d5533b8..357e934 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -322,6 +322,8 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 							solver.min_factor,
 							solver.max_factor,
 							solver.order)
+			if not accept_step and t + dt == t:
+				raise RuntimeError(f"step size underflow in adaptive solve at time {t.item()}")
 
 	return torch.cat(eval_times), torch.stack(sol)
 
@@ -413,6 +415,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 						solver.min_factor,
 						solver.max_factor,
 						solver.order)
+		if not accept_step and t + dt == t:
+			raise RuntimeError(f"step size underflow in adaptive solve at time {t.item()}")
 	return torch.cat(eval_times), torch.stack(sol)
 
 
diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..a5b541d 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -51,12 +51,15 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
     else:
         h1 = (0.01 / max(d1, d2)) ** (1. / float(order + 1))
     dt = torch.min(100 * h0, h1).to(t0)
+    # a non-finite field value must not leave the solver without a usable step
+    if not (torch.isfinite(dt) and dt > 0): dt = torch.tensor(1e-6).to(t0)
     return dt
 
 
 @torch.no_grad()
 def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
     if error_ratio == 0: return dt * max_factor
+    if error_ratio.isnan(): return dt * min_factor  # rejected step
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
     factor = torch.min(max_factor, torch.max(safety / error_ratio ** exponent, min_factor))
-- 
2.43.0


From 0f92cef031103849a9ef923d5ac94e3f20ed25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 04/39] fix: count jumps in odeint_hybrid so that j_span bounds
 them

Only a jump at the initial time was counted, so a Zeno system never stopped.
---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 357e934..6e20253 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -284,6 +284,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
+			jnum = jnum + 1
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
-- 
2.43.0


From 83298f810a22558fa6d3471ff2a40954c748cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 05/39] fix: make event localisation in odeint_hybrid a
 bisection

Restarting from the full step after every advance took O(log^2) evaluations, so the
iteration cap was hit for ordinary tolerances: the event was then mislocated, or no
event was active at the last point and selecting the jump failed.  It could also step
past the end of the bracket.
---
 torchdyn/numerics/odeint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 6e20253..d178ed1 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -260,20 +260,21 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 					dt_inner = dt_inner / 2
 					f_new, x_, x_err, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)
 
-					new_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
+					mid_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
 												   for cb in callbacks])
 					triggered_events = sum([(a_ != b_)  & (b_ == False)
-											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
+											for a_, b_ in zip(mid_event_states.evid, event_states.evid)])
 					niters = niters + 1
 
 				if triggered_events == 0: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
 					k1 = f_new
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
+				else: # the event lies in the first half of the bracket
+					new_event_states = mid_event_states
 			x = x_inner
 			t = t_inner
 			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
-- 
2.43.0


From c948bf034265dbbe79b6d7c094fa538c8e34e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 06/39] fix: reach every requested time in odeint_hybrid

A checkpoint was counted as passed when a step was first truncated to it, so a rejected
or event-interrupted step skipped it; a stale or zero remainder could stall the loop.
---
 torchdyn/numerics/odeint.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index d178ed1..54c3f1c 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -232,19 +232,21 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
+		t_target = None
 		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+			dt, t_target = t_span[-1] - t, T
 		if t_eval is not None:
 			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
 				dt_old, ckpt_flag = dt, True
 				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+				t_target = t_eval[ckpt_counter]
+		t_new = t + dt if t_target is None else t_target.reshape(t.shape)
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
@@ -293,7 +295,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# reset k1
 			k1 = None
-			dt = dt_pre
+			dt, ckpt_flag = dt_pre, False
 
 		else:
 			################# compute error #############################
@@ -309,14 +311,16 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			accept_step = error_ratio <= 1
 
 			if accept_step:
-				t = t + dt
+				# a checkpoint is passed when it is reached, not when a step is first aimed at it
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+				t = t_new
 				x = x_new
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
 
 			if ckpt_flag:
-				dt = dt_old - dt
+				if t + (dt_old - dt) > t: dt = dt_old - dt
 				ckpt_flag = False
 			################ stepsize control ###########################
 			dt = adapt_step(dt, error_ratio,
-- 
2.43.0


From b3628ab52ef7aeacdd1a62e3360a4a8d00116541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 07/39] fix: look for events in odeint_hybrid only at the end
 of accepted steps

A trial step too long for the tolerances could report an event the flow never meets,
and the flow up to an event was never error controlled.
---
 torchdyn/numerics/odeint.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 54c3f1c..df7daae 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -245,6 +245,18 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
+		################# compute error #############################
+		if seminorm[0] == True:
+			state_dim = seminorm[1]
+			error = x_err[:state_dim]
+			error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
+		else:
+			error = x_err
+			error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
+
+		error_ratio = hairer_norm(error_scaled)
+		accept_step = error_ratio <= 1
+
 		################ callback and events ########################
 		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
@@ -252,7 +264,8 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 
 		# if event, close in on switching state in [t, t + Δt] via bisection
-		if triggered_events > 0:
+		# (a rejected step says nothing about events: it is retried first)
+		if accept_step and triggered_events > 0:
 
 			dt_pre, t_inner, dt_inner, x_inner, niters = dt, t, dt, x, 0
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
@@ -298,18 +311,6 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			dt, ckpt_flag = dt_pre, False
 
 		else:
-			################# compute error #############################
-			if seminorm[0] == True:
-				state_dim = seminorm[1]
-				error = x_err[:state_dim]
-				error_scaled = error / (atol + rtol * torch.max(x[:state_dim].abs(), x_new[:state_dim].abs()))
-			else:
-				error = x_err
-				error_scaled = error / (atol + rtol * torch.max(x.abs(), x_new.abs()))
-
-			error_ratio = hairer_norm(error_scaled)
-			accept_step = error_ratio <= 1
-
 			if accept_step:
 				# a checkpoint is passed when it is reached, not when a step is first aimed at it
 				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
-- 
2.43.0


From 4aec46f2c14207b418d4282118804a92932cb8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 08/39] fix: validate and align save_at against t_span in
 fixed-step solves

save_at was compared with itself, so times absent from t_span were silently dropped and
unsorted ones paired with the wrong states, while a grid too fine for isclose failed
even without save_at.
---
 torchdyn/numerics/odeint.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index df7daae..fbfad21 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -429,17 +429,21 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 
 def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
-	if len(save_at) == 0: save_at = t_span
-	if not isinstance(save_at, torch.Tensor):
-		save_at = torch.tensor(save_at)
-		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
-		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+	if len(save_at) == 0:
+		save_mask = torch.ones(len(t_span), dtype=torch.bool)
+	else:
+		if not isinstance(save_at, torch.Tensor):
+			save_at = torch.tensor(save_at)
+		save_at = save_at.to(t_span)
+
+		assert all(torch.isclose(t, t_span).sum() == 1 for t in save_at),\
+			"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+		save_mask = torch.stack([torch.isclose(t, save_at).any() for t in t_span])
 
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
 	sol = []
-	if torch.isclose(t, save_at).sum():
+	if save_mask[0]:
 		sol = [x]
 
 	steps = 1
@@ -447,7 +451,7 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 		_, x, _ = solver.step(f, x, t, dt, k1=None, args=args)
 		t = t + dt
 
-		if torch.isclose(t, save_at).sum():
+		if save_mask[steps]:
 			sol.append(x)
 		if steps < len(t_span) - 1: dt = t_span[steps+1] - t
 		steps += 1
@@ -461,7 +465,7 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	else:
 		raise NotImplementedError(f"{type(x)} is not supported as the state variable")
 
-	return save_at, final_out
+	return t_span[save_mask], final_out
 
 
 def _shifted_fixed_odeint(f, x, t_span):
-- 
2.43.0


From e46fd896598e80d3858f3b30992ae67ae4338f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 09/39] fix: validate and align save_at against t_span in SDE
 solves

As in odeint: times absent from t_span were silently dropped and unsorted ones paired
with the wrong states.
---
 torchdyn/numerics/sdeint.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..80817af 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -89,16 +89,24 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
+    if save_at is t_span:
+        save_mask = torch.ones(len(t_span), dtype=torch.bool)
+    else:
+        save_at = save_at.to(t_span)
+        assert all(torch.isclose(t, t_span).sum() == 1 for t in save_at), \
+            "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+        save_mask = torch.stack([torch.isclose(t, save_at).any() for t in t_span])
+
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
     sol = []
-    if torch.isclose(t, save_at).sum():
+    if save_mask[0]:
         # if t is in save_at
         sol = [x]
     steps = 1  # starting with 1
     while steps <= len(t_span) - 1:
         _, x, _ = solver.step(x, t, dt)
         t = t + dt
-        if torch.isclose(t, save_at).sum():
+        if save_mask[steps]:
             sol.append(x)
         if steps < len(t_span) - 1:
             dt = t_span[steps + 1] - t
@@ -113,4 +121,4 @@ def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
     else:
         raise NotImplementedError(f"{type(x)} is not supported as the state variable")
 
-    return save_at, final_out
+    return t_span[save_mask], final_out
-- 
2.43.0


From fecdd2839af6868e3319bdaadd46534fd71060da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:57 +0000
Subject: [PATCH 10/39] fix: check the SDE's calculus and noise type in the
 Milstein solvers too

An Ito solver accepted a Stratonovich equation (and vice versa) and silently solved
the wrong one.
---
 torchdyn/numerics/solvers/sde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From 3d16eefe5dcf20618110dab57da5acf193edcfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 11/39] fix: stop multiple shooting once every shooting point
 is exact

With maxiter >= len(t_span) the solvers indexed past the last shooting point.
---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..bb011c0 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,7 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        while i <= maxiter and i < n_subinterv: # exact after as many iterations as points
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -264,7 +264,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
         B = B.requires_grad_(True)
-        while i <= maxiter:
+        while i <= maxiter and i < n_subinterv: # exact after as many iterations as points
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
             B_out = torch.zeros_like(B)
-- 
2.43.0


From 1115ef92fdd92519475d25e431bb2ed61883993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 12/39] fix: index fine solutions relative to the active points
 in MSBackward

From the second iteration on the fine solutions start at shooting point i-1, so every
correction used the wrong subinterval or failed.
---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index bb011c0..28b2605 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -273,8 +273,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                J_blk = torch.autograd.grad(B_fine[m-i], B, B_in - B[m-1], retain_graph=True)[0][m-1]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
-- 
2.43.0


From 98f607dc627d5cf8db24ef3502d3e9e7e06cb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:05 +0000
Subject: [PATCH 13/39] fix: keep a solver's tableau at full precision across
 calls of mixed dtype

One single-precision call left a shared solver (or interpolator) with coefficients
rounded to single precision for all later double-precision calls.
---
 torchdyn/numerics/interpolators.py     | 5 ++++-
 torchdyn/numerics/solvers/templates.py | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/interpolators.py b/torchdyn/numerics/interpolators.py
index ea3c7b4..3c5c5ab 100644
--- a/torchdyn/numerics/interpolators.py
+++ b/torchdyn/numerics/interpolators.py
@@ -20,7 +20,10 @@ class Interpolator:
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other interpolator tensors are on the same device with compatible dtypes"
-        if self.bmid is not None: self.bmid = self.bmid.to(x) 
+        if self.bmid is not None:
+            # always cast the coefficients as given: cast ones have lost digits to any lower precision in between
+            if self.bmid is not getattr(self, '_cast_bmid', None): self._given_bmid = self.bmid
+            self.bmid = self._cast_bmid = self._given_bmid.to(x)
         return x, t_span
 
     def fit(self, f0, f1, x0, x1, t, dt, **kwargs):
diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..0345bda 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -24,15 +24,17 @@ class DiffEqSolver(nn.Module):
         self.min_factor = torch.tensor([min_factor])
         self.max_factor = torch.tensor([max_factor])
         self.safety = torch.tensor([safety])
-        self.tableau = None
+        self.tableau = self._given_tableau = self._cast_tableau = None
         self.stepping_class = stepping_class
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
         device = x.device
         if self.tableau is not None:
-            c, a, bsol, berr = self.tableau
-            self.tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
+            # always cast the tableau as given: a cast one has lost the digits of any lower precision in between
+            if self.tableau is not self._cast_tableau: self._given_tableau = self.tableau
+            c, a, bsol, berr = self._given_tableau
+            self.tableau = self._cast_tableau = c.to(x), [a.to(x) for a in a], bsol.to(x), berr.to(x)
         t_span = t_span.to(device)
         self.safety = self.safety.to(device)
         self.min_factor = self.min_factor.to(device)
-- 
2.43.0


From 152b0d33caaa003a29316b8a683ee15b0cd6cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 14/39] fix: build the solvers of models with full-precision
 coefficients

They were rounded to single precision at construction, which double-precision models
then integrated with.
---
 torchdyn/core/problems.py              | 4 ++--
 torchdyn/numerics/solvers/templates.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..d12c408 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -54,11 +54,11 @@ class ODEProblem(nn.Module):
         super().__init__()
         # instantiate solver at initialization
         if type(solver) == str:
-            solver = str_to_solver(solver)
+            solver = str_to_solver(solver, torch.float64)  # cast to the dtype of the state by each solve
         if solver_adjoint is None:
             solver_adjoint = solver
         else:
-            solver_adjoint = str_to_solver(solver_adjoint)
+            solver_adjoint = str_to_solver(solver_adjoint, torch.float64)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
             solver,
diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index 0345bda..cd4f1c2 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -71,8 +71,8 @@ class MultipleShootingDiffeqSolver(nn.Module):
         from torchdyn.numerics.solvers.ode import str_to_solver
 
         super(MultipleShootingDiffeqSolver, self).__init__()
-        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method)
-        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method)
+        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method, torch.float64)
+        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method, torch.float64)
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-- 
2.43.0


From f2d288164ecede083b8a350e3e25616e340348d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 15/39] fix: adjoint gradients of fields that ignore the state
 or a parameter

An unused parameter with more than one element, or a field independent of the state,
gave an adjoint of the wrong shape or failed.
---
 torchdyn/numerics/sensitivity.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..43c6a2c 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -63,13 +63,14 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                     dx = vf(t, x)
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
                                     allow_unused=True, retain_graph=False))
+                    if dλ is None: dλ = torch.zeros_like(x)  # the field does not depend on the state
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -137,13 +138,14 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                     dx = vf(t, x)
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
                                         allow_unused=True, retain_graph=False))
+                    if dλ is None: dλ = torch.zeros_like(x)  # the field does not depend on the state
 
                     if integral_loss:
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From 4e9d8e72fae9a209c268322a53bfde48be492226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 16/39] fix: accumulate every cotangent in the interpolated
 adjoint

The backward pass indexed the cotangents of all returned points with positions in
t_span, so losses on any but the last point had wrong gradients with adaptive solvers;
reversed spans gave the spline decreasing knots.
---
 torchdyn/numerics/sensitivity.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 43c6a2c..27f3983 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -124,8 +124,10 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
-            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
-            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
+            # the knots of the spline are in increasing order also if the solve was not
+            knots, states = (t_sol, sol) if t_sol[0] < t_sol[-1] else (t_sol.flip(0), sol.flip(0))
+            spline_coeffs = natural_cubic_coeffs(x=states.permute(1, 0, 2).detach(), t=knots)
+            x_spline = CubicSpline(coeffs=spline_coeffs, t=knots)
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
@@ -150,8 +152,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
-            for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+            for i in range(len(t_sol) - 1, 0, -1): # `grad_output` has an entry for every point of `t_sol`
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From 534df849d073e194294bd47ad68502de0eaaf583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 17/39] fix: solve the interpolated adjoint with the adjoint
 solver and tolerances

solver_adjoint, atol_adjoint and rtol_adjoint were ignored.
---
 torchdyn/numerics/sensitivity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 27f3983..ab1d682 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -153,7 +153,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
             for i in range(len(t_sol) - 1, 0, -1): # `grad_output` has an entry for every point of `t_sol`
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0),
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From c51f39841899fe969edf53ef4b8dc20acdad3221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 18/39] fix: run adjoint backward passes with the conditioning
 of their own forward pass

Data-control inputs and trace-estimator noise were read from the modules at backward
time, so another forward pass in between silently changed the gradients.
---
 torchdyn/numerics/sensitivity.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index ab1d682..b1eefaa 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -10,6 +10,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from contextlib import contextmanager
 from inspect import getfullargspec
 import torch
 from torch.autograd import Function, grad
@@ -27,6 +28,23 @@ def generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator
         return odeint_mshooting(vf, x, t_span, solver, B0=B0, fine_steps=fine_steps, maxiter=maxiter)
 
 
+def _get_conditioning(vf):
+    "Inputs that modules of `vf` hold for the duration of one solve: data-control, noise of trace estimators"
+    return [(module, name, getattr(module, name)) for module in vf.modules()
+            for name in ('_control', 'noise') if hasattr(module, name)]
+
+
+@contextmanager
+def _conditioned_on(conditioning):
+    "Temporarily reinstates inputs recorded by `_get_conditioning`"
+    current = [(module, name, getattr(module, name)) for module, name, _ in conditioning]
+    try:
+        for module, name, value in conditioning: setattr(module, name, value)
+        yield
+    finally:
+        for module, name, value in current: setattr(module, name, value)
+
+
 # TODO: optimize and make conditional gradient computations w.r.t end times
 # TODO: link `seminorm` arg from `ODEProblem`
 def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, solver_adjoint, 
@@ -38,6 +56,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         False, maxiter, fine_steps, save_at)
             ctx.save_for_backward(sol, t_sol)
+            ctx.conditioning = _get_conditioning(vf)
             return t_sol, sol
 
         @staticmethod
@@ -50,7 +69,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
 
             λT_flat = λT.flatten()
-            λtT = λT_flat @ vf(t_sol[-1], xT).flatten()
+            with _conditioned_on(ctx.conditioning): λtT = λT_flat @ vf(t_sol[-1], xT).flatten()
             # concatenate all states of adjoint system
             A = torch.cat([xT.flatten(), λT_flat, μT.flatten(), λtT[None]])
 
@@ -60,7 +79,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 x, λ, μ = x.reshape(xT.shape), λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
-                    dx = vf(t, x)
+                    # other solves may have taken place since the forward pass
+                    with _conditioned_on(ctx.conditioning): dx = vf(t, x)
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
                                     allow_unused=True, retain_graph=False))
                     if dλ is None: dλ = torch.zeros_like(x)  # the field does not depend on the state
@@ -86,7 +106,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
                 xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
+                with _conditioned_on(ctx.conditioning):
+                    dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
                 A[-1, -1:] -= grad_output[0][i - 1]
                 dLdt[i-1] = dLdt_
 
@@ -111,6 +132,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         True, maxiter, fine_steps, save_at)
             ctx.save_for_backward(sol, t_span, t_sol)
+            ctx.conditioning = _get_conditioning(vf)
             return t_sol, sol
 
         @staticmethod
@@ -137,7 +159,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 λ, μ = A[:λT_nel], A[-μT_nel:]
                 λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
                 with torch.set_grad_enabled(True):
-                    dx = vf(t, x)
+                    # other solves may have taken place since the forward pass
+                    with _conditioned_on(ctx.conditioning): dx = vf(t, x)
                     dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
                                         allow_unused=True, retain_graph=False))
                     if dλ is None: dλ = torch.zeros_like(x)  # the field does not depend on the state
-- 
2.43.0


From 500bbf70e002ad40c324d751be2422ccf27de9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 19/39] fix: honour save_at in models with adjoint
 sensitivities

save_at was passed in the place of the initial shooting parameters and args in its own,
so it was ignored.  Both adjoints now go back to the initial time from any saved subset.
---
 torchdyn/core/problems.py        |  2 +-
 torchdyn/numerics/sensitivity.py | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index d12c408..a15864e 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -152,7 +152,7 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            return self._autograd_func()(self.vf_params, x, t_span, None, save_at)
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index b1eefaa..69943a6 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -55,13 +55,16 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
         def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         False, maxiter, fine_steps, save_at)
-            ctx.save_for_backward(sol, t_sol)
+            ctx.save_for_backward(sol, t_sol, t_span[:1])
             ctx.conditioning = _get_conditioning(vf)
             return t_sol, sol
 
         @staticmethod
         def backward(ctx, *grad_output):
-            sol, t_sol = ctx.saved_tensors
+            sol, t_sol, t_0 = ctx.saved_tensors
+            if t_sol[0] != t_0: # the adjoint goes back to the initial time also if that was not saved
+                t_sol, sol = torch.cat([t_0, t_sol]), torch.cat([torch.zeros_like(sol[:1]), sol])
+                grad_output = [torch.cat([torch.zeros_like(g[:1]), g]) for g in grad_output]
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
             # initialize flattened adjoint state
             xT, λT, μT = sol[-1], grad_output[-1][-1], torch.zeros_like(vf_params)
@@ -130,14 +133,21 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
         @staticmethod
         def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
-                                        True, maxiter, fine_steps, save_at)
+                                        True, maxiter, fine_steps)
+            # the whole trajectory is interpolated in the backward pass, also if only part of it is returned
+            ctx.saved = list(range(len(t_sol)))
+            if len(save_at) > 0 and solver.stepping_class == 'fixed':
+                ctx.saved = [i for i in ctx.saved if torch.isclose(t_sol[i], torch.as_tensor(save_at).to(t_sol)).any()]
             ctx.save_for_backward(sol, t_span, t_sol)
             ctx.conditioning = _get_conditioning(vf)
-            return t_sol, sol
+            return t_sol[ctx.saved], sol[ctx.saved]
 
         @staticmethod
         def backward(ctx, *grad_output):
             sol, t_span, t_sol = ctx.saved_tensors
+            grad_sol = torch.zeros_like(sol)
+            grad_sol[ctx.saved] = grad_output[-1]
+            grad_output = (grad_output[0], grad_sol)
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
 
             # initialize adjoint state
-- 
2.43.0


From dfcd0b0a2523ca6bbab5b935c7bd4cfd16bff8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 20/39] fix: evaluate the stages of rk4 at their own times

The nodes were shifted by one stage, so rk4 was a low-order method for any field that
depends on time.
---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..84dee80 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From a3c5b81566cfa316328de416c2c38ed52a64c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 21/39] fix: end adaptive solves that stop advancing time, and
 only those

---
 torchdyn/numerics/odeint.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index fbfad21..c3fb5cf 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -25,6 +25,9 @@ from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, Tsitouras45, str
 from torchdyn.numerics.interpolators import str_to_interp
 from torchdyn.numerics.utils import hairer_norm, init_step, adapt_step, EventState
 
+# consecutive trial steps of adaptive solves that may leave time where it is before steps too short to advance it are an error
+MAX_STALLED = 30
+
 
 def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, nn.Module], atol:float=1e-3, rtol:float=1e-3,
 		   t_stops:Union[List, Tensor, None]=None, verbose:bool=False, interpolator:Union[str, Callable, None]=None, return_all_eval:bool=False,
@@ -205,7 +208,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	if type(solver) == str: solver = str_to_solver(solver, x.dtype)
 	x, t_span = solver.sync_device_dtype(x, t_span)
 	x_shape = x.shape
-	ckpt_counter, ckpt_flag, jnum = 0, False, 0
+	ckpt_counter, ckpt_flag, jnum, stalled = 0, False, 0, 0
 	t_eval, t, T = t_span[1:], t_span[:1], t_span[-1]
 
 	###### initial jumps ###########
@@ -314,11 +317,13 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			if accept_step:
 				# a checkpoint is passed when it is reached, not when a step is first aimed at it
 				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+				stalled = 0 if t_new > t else stalled + 1
 				t = t_new
 				x = x_new
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
+			else: stalled += 1
 
 			if ckpt_flag:
 				if t + (dt_old - dt) > t: dt = dt_old - dt
@@ -329,7 +334,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 							solver.min_factor,
 							solver.max_factor,
 							solver.order)
-			if not accept_step and t + dt == t:
+			if stalled > MAX_STALLED and t + dt == t:
 				raise RuntimeError(f"step size underflow in adaptive solve at time {t.item()}")
 
 	return torch.cat(eval_times), torch.stack(sol)
@@ -358,7 +363,7 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 		is called for interpolated adjoints
 	"""
 	t_eval, t, T = t_span[1:], t_span[:1], t_span[-1]
-	ckpt_counter, ckpt_flag = 0, False
+	ckpt_counter, ckpt_flag, stalled = 0, False, 0
 	eval_times, sol = [t], [x]
 	while t < T:
 		# a truncated step ends exactly at its target: `t + (target - t)` can miss it in floating point
@@ -407,8 +412,10 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
 				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			stalled = 0 if t_new > t else stalled + 1
 			t, x = t_new, x_new
 			k1 = f_new
+		else: stalled += 1
 
 		################ stepsize control ###########################
 		# reset "dt" in case of checkpoint without interp
@@ -422,7 +429,7 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 						solver.min_factor,
 						solver.max_factor,
 						solver.order)
-		if not accept_step and t + dt == t:
+		if stalled > MAX_STALLED and t + dt == t:
 			raise RuntimeError(f"step size underflow in adaptive solve at time {t.item()}")
 	return torch.cat(eval_times), torch.stack(sol)
 
-- 
2.43.0


From c1fff6ea20350c3902114c235f2c02c9ebab2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 22/39] fix: keep the step size of double precision solves in
 double precision

---
 torchdyn/numerics/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index a5b541d..9cf93bf 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -58,12 +58,12 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
 
 @torch.no_grad()
 def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
-    if error_ratio == 0: return dt * max_factor
-    if error_ratio.isnan(): return dt * min_factor  # rejected step
+    if error_ratio == 0: return dt * max_factor.to(dt)
+    if error_ratio.isnan(): return dt * min_factor.to(dt)  # rejected step
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
     factor = torch.min(max_factor, torch.max(safety / error_ratio ** exponent, min_factor))
-    return dt * factor
+    return dt * factor.to(dt) # the factors are single precision, the step size need not be
 
 
 def dense_output(sol, t_sol, t_eval, return_spline=False):
-- 
2.43.0


From bd8ba90b63d0cac920f1e6ac104ac05f5f3b1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 23/39] fix: give each adjoint solve its own flattened
 parameters

---
 torchdyn/core/problems.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index a15864e..8b37732 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -152,7 +152,11 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, None, save_at)
+            # `self.vf_params` belongs to whichever thread solved last, possibly without gradients
+            vf_params = torch.cat(
+                [p.contiguous().flatten() for p in self.vf.parameters()]
+            )
+            return self._autograd_func()(vf_params, x, t_span, None, save_at)
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
@@ -253,7 +257,10 @@ class MultipleShootingProblem(ODEProblem):
                 self.maxiter,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, B0)
+            vf_params = torch.cat(
+                [p.contiguous().flatten() for p in self.vf.parameters()]
+            )
+            return self._autograd_func()(vf_params, x, t_span, B0)
 
     def forward(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
         "For safety redirects to intended method `odeint`"
-- 
2.43.0


From 63b7fe86d9f8c4940b93d57494af09eb1f14245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 24/39] fix: adjoint gradients of fields with frozen parameters

---
 torchdyn/numerics/sensitivity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 69943a6..4e08df1 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -84,7 +84,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                     x, t = x.requires_grad_(True), t.requires_grad_(True)
                     # other solves may have taken place since the forward pass
                     with _conditioned_on(ctx.conditioning): dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
+                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(p for p in vf.parameters() if p.requires_grad), -λ,
                                     allow_unused=True, retain_graph=False))
                     if dλ is None: dλ = torch.zeros_like(x)  # the field does not depend on the state
 
@@ -92,6 +92,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
+                    dμ = [dμ.pop(0) if p.requires_grad else None for p in vf.parameters()]  # frozen parameters
                     dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
                                     for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
@@ -171,7 +172,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                 with torch.set_grad_enabled(True):
                     # other solves may have taken place since the forward pass
                     with _conditioned_on(ctx.conditioning): dx = vf(t, x)
-                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(vf.parameters()), -λ,
+                    dλ, dt, *dμ = tuple(grad(dx, (x, t) + tuple(p for p in vf.parameters() if p.requires_grad), -λ,
                                         allow_unused=True, retain_graph=False))
                     if dλ is None: dλ = torch.zeros_like(x)  # the field does not depend on the state
 
@@ -179,6 +180,7 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
+                    dμ = [dμ.pop(0) if p.requires_grad else None for p in vf.parameters()]  # frozen parameters
                     dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
                                     for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
-- 
2.43.0


From 862374447c181deb1a4804f2b12715b1a650f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:10 +0000
Subject: [PATCH 25/39] fix: make models copyable by not storing a non-leaf
 tensor of their parameters

---
 torchdyn/core/problems.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 8b37732..55b7418 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -80,32 +80,26 @@ class ODEProblem(nn.Module):
         optimizable_params = tuple(optimizable_params)
 
         if len(tuple(self.vf.parameters())) > 0:
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
+            pass
 
         elif len(optimizable_params) > 0:
             # use `optimizable_parameters` if f itself does not have a .parameters() iterable
             # TODO: advanced logic to retain naming in case `state_dicts()` are passed
             for k, p in enumerate(optimizable_params):
                 self.vf.register_parameter(f"optimizable_parameter_{k}", p)
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in optimizable_params]
-            )
 
         else:
             print("Your vector field does not have `nn.Parameters` to optimize.")
             dummy_parameter = nn.Parameter(torch.zeros(1))
             self.vf.register_parameter("dummy_parameter", dummy_parameter)
-            self.vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
+
+    @property
+    def vf_params(self):
+        "Flattened parameters of the vector field. Not stored: copies and threads would share a non-leaf tensor"
+        return torch.cat([p.contiguous().flatten() for p in self.vf.parameters()])
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
@@ -152,11 +146,7 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            # `self.vf_params` belongs to whichever thread solved last, possibly without gradients
-            vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
-            return self._autograd_func()(vf_params, x, t_span, None, save_at)
+            return self._autograd_func()(self.vf_params, x, t_span, None, save_at)
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
@@ -206,9 +196,6 @@ class MultipleShootingProblem(ODEProblem):
 
     def _autograd_func(self):
         "create autograd functions for backward pass"
-        self.vf_params = torch.cat(
-            [p.contiguous().flatten() for p in self.vf.parameters()]
-        )
         if (
             self.sensalg == "adjoint"
         ):  # alias .apply as direct call to preserve consistency of call signature
@@ -257,10 +244,7 @@ class MultipleShootingProblem(ODEProblem):
                 self.maxiter,
             )
         else:
-            vf_params = torch.cat(
-                [p.contiguous().flatten() for p in self.vf.parameters()]
-            )
-            return self._autograd_func()(vf_params, x, t_span, B0)
+            return self._autograd_func()(self.vf_params, x, t_span, B0)
 
     def forward(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
         "For safety redirects to intended method `odeint`"
-- 
2.43.0


From 6c6d1ee3639fef8f36a9a17d158a52fc6af76e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 26/39] fix: make used Galerkin layers copyable

---
 torchdyn/nn/galerkin.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..1cedcec 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -221,9 +221,10 @@ class GalLinear(GalLayer):
         t = input[-1,-1]
         input = input[:,:-1]
         w = self.calculate_weights(t)
-        self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
-        return torch.nn.functional.linear(input, self.weight, self.bias)
+        weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
+        bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        self.weight, self.bias = weight.detach(), bias.detach()  # layers holding non-leaf tensors cannot be copied
+        return torch.nn.functional.linear(input, weight, bias)
 
 
 class GalConv2d(GalLayer):
@@ -268,6 +269,6 @@ class GalConv2d(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
-        self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
-        return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
+        weight, bias = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks), w[n:].reshape(self.oc)
+        self.weight, self.bias = weight.detach(), bias.detach()  # layers holding non-leaf tensors cannot be copied
+        return torch.nn.functional.conv2d(input, weight, bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From d45eed756c3aad89df811ceb746eaa4d046f95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 27/39] fix: search along the step about to be taken in
 root_find

---
 torchdyn/numerics/solvers/root.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/solvers/root.py b/torchdyn/numerics/solvers/root.py
index d17b6d9..fe74d87 100644
--- a/torchdyn/numerics/solvers/root.py
+++ b/torchdyn/numerics/solvers/root.py
@@ -275,14 +275,15 @@ def root_find(g, z, alpha=0.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, ma
     while iteration <= maxiters:
         iteration += 1
 
-        # solver step
-        z, dz, geval, J_inv = solver.step(g=g, z0=z, J_inv=J_inv, geval_old=geval, alpha=alpha)
-
         # line search subroutines
         if SEARCH_METHODS[search_method] is not None:
+            dz = -einsum('...o,...io->...i', geval, J_inv) # direction in which the solver is about to step
             line_searcher = SEARCH_METHODS[search_method](g, geval, dz, z)
             alpha, phi = line_searcher.search()
 
+        # solver step
+        z, dz, geval, J_inv = solver.step(g=g, z0=z, J_inv=J_inv, geval_old=geval, alpha=alpha)
+
         # logging
         if verbose and logger:
             logger.log({'geval': geval,
-- 
2.43.0


From c8e61ee9ddc9188dfc2e516dfbcf80d830424220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:15 +0000
Subject: [PATCH 28/39] fix: discrete-adjoint multiple shooting without
 gradients, and without marking the caller's guess

---
 torchdyn/numerics/solvers/ode.py | 34 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 28b2605..6590e5c 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -263,22 +263,24 @@ class MSBackward(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        B = B.requires_grad_(True)
-        while i <= maxiter and i < n_subinterv: # exact after as many iterations as points
-            i += 1
-            B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
-            B_out = torch.zeros_like(B)
-            B_out[:i] = B[:i]
-            B_in = B[i-1]
-            for m in range(i, n_subinterv):
-                # instead of jvps here the full jacobian can be computed and the vector products
-                # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-i], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-i] + J_blk
-                B_out[m] = B_in
-            del B # manually free graph
-            B = B_out
-        return B
+        grad_enabled = torch.is_grad_enabled()
+        B = B if B.requires_grad else B.detach().requires_grad_(True) # the guess of the caller stays as it is
+        with torch.enable_grad(): # the discrete adjoint is part of the solve, also during inference
+            while i <= maxiter and i < n_subinterv: # exact after as many iterations as points
+                i += 1
+                B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
+                B_out = torch.zeros_like(B)
+                B_out[:i] = B[:i]
+                B_in = B[i-1]
+                for m in range(i, n_subinterv):
+                    # instead of jvps here the full jacobian can be computed and the vector products
+                    # which involve `B_in` can be performed. Trading memory ++ for speed ++
+                    J_blk = torch.autograd.grad(B_fine[m-i], B, B_in - B[m-1], retain_graph=True)[0][m-1]
+                    B_in = B_fine[m-i] + J_blk
+                    B_out[m] = B_in
+                del B # manually free graph
+                B = B_out
+        return B if grad_enabled else B.detach()
 
 
 class ParallelImplicitEuler(MultipleShootingDiffeqSolver):
-- 
2.43.0


From 3afd6d60d76d91d768ea769e3950c9fc24c4d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:51 +0000
Subject: [PATCH 29/39] fix: sub-intervals of multiple shooting in the
 precision of the time span

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 6590e5c..bc0c034 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -232,7 +232,7 @@ class MSZero(MultipleShootingDiffeqSolver):
     # TODO (qol): extend to time-variant ODEs by using shifted_odeint
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=t_span.dtype).to(x)
         i = 0
         while i <= maxiter and i < n_subinterv: # exact after as many iterations as points
             i += 1
@@ -261,7 +261,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=t_span.dtype).to(x)
         i = 0
         grad_enabled = torch.is_grad_enabled()
         B = B if B.requires_grad else B.detach().requires_grad_(True) # the guess of the caller stays as it is
-- 
2.43.0


From 5a6da21fefe72cb3619acc6f500f5b817244ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 30/39] fix: start multiple shooting from the given initial
 condition also with a given guess

---
 torchdyn/numerics/odeint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index c3fb5cf..94a6873 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -179,6 +179,8 @@ def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.M
 	# first-guess B0 of shooting parameters
 	if B0 is None:
 		_, B0 = odeint(f, x, t_span, solver.coarse_method)
+	else: # whatever the guess, the solution starts from `x`
+		B0 = torch.cat([x[None], B0[1:]])
 	# determine which odeint to apply to MS solver. This is where time-variance can be introduced
 	odeint_func = _fixed_odeint
 	B = solver.root_solve(odeint_func, f, x, t_span, B0, fine_steps, maxiter)
-- 
2.43.0


From f90bfca8884da95329d1497a145dd0471d532c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 31/39] fix: odeint_symplectic returns the requested times on
 reversed spans

Reversed spans came back with negated times, save_at was matched against them,
the first stage of adaptive solves had the sign of the unreversed field, and
return_all_eval was passed as args.
---
 torchdyn/numerics/odeint.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 94a6873..df827fb 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -115,10 +115,12 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		return_all_eval (bool, optional): Defaults to False.
 		save_at (Union[List, Tensor], optional): Defaults to t_span
 	"""
-	if t_span[1] < t_span[0]: # time is reversed
+	reverse = t_span[1] < t_span[0]
+	if reverse: # time is reversed
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
+		if len(save_at) > 0: save_at = -torch.as_tensor(save_at)
 	else: f_ = f
 	if type(t_span) == list: t_span = torch.cat(t_span)
 
@@ -143,17 +145,18 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+		return (-t_eval if reverse else t_eval), sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 035489aa1d85dcdf5900e68582faffde2f2a4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:54 +0000
Subject: [PATCH 32/39] fix: keep the first step size out of the autograd
 graph, models stay copyable after aborted solves

---
 torchdyn/numerics/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index 9cf93bf..bac9b33 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -41,7 +41,7 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
     if d0 < 1e-5 or d1 < 1e-5:
         h0 = torch.tensor(1e-6, dtype=t0.dtype, device=t0.device)
     else:
-        h0 = 0.01 * d0 / d1
+        h0 = (0.01 * d0 / d1).detach() # step sizes are constants, see `adapt_step`
 
     x_new = x0 + h0 * f0
     f_new = f(t0 + h0, x_new)
@@ -50,7 +50,7 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
         h1 = torch.max(torch.tensor(1e-6, dtype=t0.dtype, device=t0.device), h0 * 1e-3)
     else:
         h1 = (0.01 / max(d1, d2)) ** (1. / float(order + 1))
-    dt = torch.min(100 * h0, h1).to(t0)
+    dt = torch.min(100 * h0, h1).to(t0).detach()
     # a non-finite field value must not leave the solver without a usable step
     if not (torch.isfinite(dt) and dt > 0): dt = torch.tensor(1e-6).to(t0)
     return dt
-- 
2.43.0


From f401e011382580fe536aa8586071f231ad1cbcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:08 +0000
Subject: [PATCH 33/39] fix: adjoint sensitivities of multiple shooting
 problems use their parallel solver and budgets

---
 torchdyn/core/problems.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 55b7418..f23216c 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -179,6 +179,8 @@ class MultipleShootingProblem(ODEProblem):
             seminorm (bool, optional): . Defaults to False.
             integral_loss (Union[Callable, None], optional): . Defaults to None.
         """
+        if solver_adjoint is None: # there is no sequential forward solver to share
+            solver_adjoint = "tsit5"
         super().__init__(
             vector_field=vector_field,
             solver=None,
@@ -202,7 +204,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -211,14 +213,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -227,8 +229,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
                 self.maxiter,
+                self.fine_steps,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
-- 
2.43.0


From c72fd3ca0475ae68302530e4887c5d3d3bdf066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:45 +0000
Subject: [PATCH 34/39] fix: integral losses of higher-order neural ODEs
 without an adjoint

---
 torchdyn/core/defunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..457b7bb 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -71,7 +71,7 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
                 x_dyn = self.vf(t, x_dyn)
             return cat([dlds, x_dyn], 1).to(x_dyn)
-- 
2.43.0


From c90db86079ba01ac5301cf6fb0751d4aab6cba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:42 +0000
Subject: [PATCH 35/39] fix: expand Galerkin layers in the precision of their
 coefficients

---
 torchdyn/nn/galerkin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 1cedcec..0d60e78 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -176,11 +176,11 @@ class GalLayer(nn.Module):
         
     def calculate_weights(self, t):
         "Expands `t` following the chosen eigenbasis"
-        n_range = torch.linspace(0, self.deg, self.deg).to(self.coeffs.device)
-        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs.device) + self.shift.to(self.coeffs.device))
+        n_range = torch.linspace(0, self.deg, self.deg, dtype=self.coeffs.dtype).to(self.coeffs.device)
+        basis = self.expfunc(n_range, t*self.dilation.to(self.coeffs) + self.shift.to(self.coeffs))
         B = []  
         for i in range(self.n_eig):
-            Bin = torch.eye(self.deg).to(self.coeffs.device)
+            Bin = torch.eye(self.deg).to(self.coeffs)
             Bin[range(self.deg), range(self.deg)] = basis[i]
             B.append(Bin)
         B = torch.cat(B, 1).to(self.coeffs.device)
-- 
2.43.0


From 5a8e5b7ee03974cd441db6d491606336f6308861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:57 +0000
Subject: [PATCH 36/39] fix: gradients of the dilation and shift of Chebychev
 Galerkin layers

---
 torchdyn/nn/galerkin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 0d60e78..74c4cd5 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -151,14 +151,14 @@ class Chebychev(nn.Module):
 
     def forward(self, n_range, s):
         max_order = n_range[-1].int().item()
-        basis = [1]
+        basis = [torch.ones_like(s)]
         # Based on numpy's Cheb code
         if max_order > 0:
             s2 = 2 * s
-            basis += [s.item()]
+            basis += [s]
             for i in range(2, max_order):
                 basis += [basis[-1] * s2 - basis[-2]]
-        return [torch.tensor(basis).to(n_range)]
+        return [torch.cat(basis).to(n_range)]
 
 
 class GalLayer(nn.Module):
-- 
2.43.0


From cccb3200427fc6e33d162bc495916f257e2c4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:57 +0000
Subject: [PATCH 37/39] fix: one center and scale per degree in adaptive radial
 Galerkin bases

---
 torchdyn/nn/galerkin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 74c4cd5..e5398aa 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,8 +31,8 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = 0
             self.eps_scales = 2
@@ -60,8 +60,8 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = 0
             self.eps_scales = 2
@@ -89,8 +89,8 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = 0
             self.eps_scales = 2
-- 
2.43.0


From 384cca083df67632d6fe902fe65681dbae4a95c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:18 +0000
Subject: [PATCH 38/39] fix: implicit Euler evaluates the field at the end of
 the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index bc0c034..a97f648 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -188,7 +188,7 @@ class ImplicitEuler(DiffEqSolver):
 
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
-        f_sol = f(t, x_sol)
+        f_sol = f(t + dt, x_sol)
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-- 
2.43.0


From 279b792e9db8b037231533634fc670eef68a343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:07 +0000
Subject: [PATCH 39/39] fix: interpolated adjoint of trajectories with repeated
 times

---
 torchdyn/numerics/sensitivity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 4e08df1..4f6918f 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -159,6 +159,9 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # the knots of the spline are in increasing order also if the solve was not
             knots, states = (t_sol, sol) if t_sol[0] < t_sol[-1] else (t_sol.flip(0), sol.flip(0))
+            # steps below the resolution of time repeat a point
+            distinct = torch.cat([knots[1:] > knots[:-1], torch.ones_like(knots[:1], dtype=torch.bool)])
+            knots, states = knots[distinct], states[distinct]
             spline_coeffs = natural_cubic_coeffs(x=states.permute(1, 0, 2).detach(), t=knots)
             x_spline = CubicSpline(coeffs=spline_coeffs, t=knots)
 
-- 
2.43.0


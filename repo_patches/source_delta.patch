From 02a13ea8fa6a511bfabde843d475002665aad620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 01/44] fix: rk4 tableau nodes are shifted by one stage

---
 torchdyn/numerics/solvers/_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/_constants.py b/torchdyn/numerics/solvers/_constants.py
index e7d4fff..84dee80 100644
--- a/torchdyn/numerics/solvers/_constants.py
+++ b/torchdyn/numerics/solvers/_constants.py
@@ -18,7 +18,7 @@ ExplicitRKTableau = namedtuple('ExplicitRKTableau', 'c, A, b_sol, b_err')
 
 
 def construct_rk4(dtype):
-    c = torch.tensor([0., 1 / 2, 1 / 2, 1], dtype=dtype)
+    c = torch.tensor([1 / 2, 1 / 2, 1], dtype=dtype)
     a = [
         torch.tensor([1 / 2], dtype=dtype),
         torch.tensor([0., 1 / 2], dtype=dtype),
-- 
2.43.0


From 32176b1b23c3134c118080cd523f12a7e5ee1cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 02/44] fix: initial step and first derivative ignore the
 reversed vector field

---
 torchdyn/numerics/odeint.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 7f10158..0172117 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -86,7 +86,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
-			dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+			dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
 			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
 
@@ -142,11 +142,11 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 			t = t_span[0]
 			if f.order == 1:
 				pos = x[..., : solver.x_shape]
-				k1 = f(t, pos)
-				dt = init_step(f, k1, pos, t, solver.order, atol, rtol)
+				k1 = f_(t, pos)
+				dt = init_step(f_, k1, pos, t, solver.order, atol, rtol)
 			else:
-				k1 = f(t, x)
-				dt = init_step(f, k1, x, t, solver.order, atol, rtol)
+				k1 = f_(t, x)
+				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
 
 
-- 
2.43.0


From c5c8708bd908723d03d5d0c4b7f475041a9d9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 03/44] fix: odeint_symplectic passes return_all_eval in the
 position of args

---
 torchdyn/numerics/odeint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 0172117..8903126 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -147,7 +147,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 			else:
 				k1 = f_(t, x)
 				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval)
+			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From f3f5d677b8c6b146c1cd71731b1a426018577e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 04/44] fix: times returned by a reversed-time solve (and
 save_at) are in the negated frame

---
 torchdyn/numerics/odeint.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 8903126..4efc5ae 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -55,7 +55,9 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
-	else: f_ = f
+		if len(save_at) > 0: save_at = -(save_at if isinstance(save_at, Tensor) else torch.tensor(save_at))
+		reverse = True
+	else: f_, reverse = f, False
 
 	if type(t_span) == list: t_span = torch.cat(t_span)
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
@@ -82,13 +84,15 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 			if atol != odeint.__defaults__[0] or rtol != odeint.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
 			# instantiate save_at tensor
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at, args=args)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			k1 = f_(t, x)
 			dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
 			if len(save_at) > 0: warn("Setting save_at has no effect on adaptive-step methods")
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, args, interpolator, return_all_eval, seminorm)
+		# report times in the orientation given by the user
+		return (-t_eval if reverse else t_eval), sol
 
 
 # TODO (qol) state augmentation for symplectic methods
@@ -113,7 +117,9 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
-	else: f_ = f
+		if len(save_at) > 0: save_at = -(save_at if isinstance(save_at, Tensor) else torch.tensor(save_at))
+		reverse = True
+	else: f_, reverse = f, False
 	if type(t_span) == list: t_span = torch.cat(t_span)
 
 	# instantiate the solver in case the user has specified preference via a `str` and ensure compatibility of device ~ dtype
@@ -137,7 +143,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if stepping_class == 'fixed':
 			if atol != odeint_symplectic.__defaults__[0] or rtol != odeint_symplectic.__defaults__[1]:
 				warn("Setting tolerances has no effect on fixed-step methods")
-			return _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
+			t_eval, sol = _fixed_odeint(f_, x, t_span, solver, save_at=save_at)
 		elif stepping_class == 'adaptive':
 			t = t_span[0]
 			if f.order == 1:
@@ -147,7 +153,9 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 			else:
 				k1 = f_(t, x)
 				dt = init_step(f_, k1, x, t, solver.order, atol, rtol)
-			return _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+			t_eval, sol = _adaptive_odeint(f_, k1, x, dt, t_span, solver, atol, rtol, return_all_eval=return_all_eval)
+		# report times in the orientation given by the user
+		return (-t_eval if reverse else t_eval), sol
 
 
 def odeint_mshooting(f:Callable, x:Tensor, t_span:Tensor, solver:Union[str, nn.Module], B0=None, fine_steps=2, maxiter=4):
-- 
2.43.0


From 82a9d30dc1f9d045ee1ac5339d198bbf7db23096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 05/44] fix: save_at is not checked against the grid and
 unsorted save_at is paired with the wrong states

---
 torchdyn/numerics/odeint.py | 5 ++++-
 torchdyn/numerics/sdeint.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 4efc5ae..b0cf20c 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -422,9 +422,12 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	if not isinstance(save_at, torch.Tensor):
 		save_at = torch.tensor(save_at)
 		
-	assert all(torch.isclose(t, save_at).sum() == 1 for t in save_at),\
+	assert all(torch.isclose(t, t_span).sum() == 1 for t in save_at),\
 		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
 
+	# solutions are stored in the order of the grid
+	save_at = save_at.sort()[0]
+
 	t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
 
 	sol = []
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 1c2ba80..f4d02c9 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -89,6 +89,11 @@ def _adaptive_sdeint():
 
 
 def _fixed_sdeint(x, t_span, solver, save_at=(), args={}):
+    assert all(
+        torch.isclose(t, t_span).sum() == 1 for t in save_at
+    ), "each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
+    # solutions are stored in the order of the grid
+    save_at = save_at.sort()[0]
     t, T, dt = t_span[0], t_span[-1], t_span[1] - t_span[0]
     sol = []
     if torch.isclose(t, save_at).sum():
-- 
2.43.0


From dcd845eed244f26bd18b7c07bcd7ce0ce82aa561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 06/44] fix: adaptive solves can miss requested times because
 of the rounding of t + (T - t)

---
 torchdyn/numerics/odeint.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index b0cf20c..80b9919 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -357,16 +357,17 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 	ckpt_counter, ckpt_flag = 0, False
 	eval_times, sol = [t], [x]
 	while t < T:
-		if t + dt > T:
-			dt = T - t
+		t_new = t + dt
+		if t_new > T:
+			dt, t_new = T - t, t_span[-1:]
 		############### checkpointing ###############################
 		if t_eval is not None:
 			# satisfy checkpointing by using interpolation scheme or resetting `dt`
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				if interpolator == None:
 					# save old dt, raise "checkpoint" flag and repeat step
 					dt_old, ckpt_flag = dt, True
-					dt = t_eval[ckpt_counter] - t
+					dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter][None]
 
 		f_new, x_new, x_err, stages = solver.step(f, x, t, dt, k1=k1, args=args)
 		################# compute error #############################
@@ -384,8 +385,8 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 			############### checkpointing via interpolation ###############################
 			if t_eval is not None and interpolator is not None:
 				coefs = None
-				while (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
-					t0, t1 = t, t + dt
+				while (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
+					t0, t1 = t, t_new
 					x_mid = x + dt * sum([interpolator.bmid[i] * stages[i] for i in range(len(stages))])
 					f0, f1, x0, x1 = k1, f_new, x, x_new
 					if coefs == None: coefs = interpolator.fit(dt, f0, f1, x0, x1, x_mid)
@@ -394,12 +395,12 @@ def _adaptive_odeint(f, k1, x, dt, t_span, solver, atol=1e-4, rtol=1e-4, args=No
 					eval_times.append(t_eval[ckpt_counter][None])
 					ckpt_counter += 1
 
-			if t + dt == t_eval[ckpt_counter] or return_all_eval: # note (1)
+			if t_new == t_eval[ckpt_counter] or return_all_eval: # note (1)
 				sol.append(x_new)
-				eval_times.append(t + dt)
+				eval_times.append(t_new)
 				# we only increment the ckpt counter if the solution points corresponds to a time point in `t_span`
-				if t + dt == t_eval[ckpt_counter]: ckpt_counter += 1
-			t, x = t + dt, x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
+			t, x = t_new, x_new
 			k1 = f_new
 
 		################ stepsize control ###########################
-- 
2.43.0


From a8ae0336fd94091b7aa166f1e46a3adfc058e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 07/44] fix: odeint_hybrid never counts jumps, so j_span is
 ignored

---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 80b9919..1a08cdf 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -289,6 +289,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 
 			# apply jump func.
 			x = callbacks[i].jump_map(t, x)
+			jnum = jnum + 1
 
 			# save state and time AFTER jump
 			sol.append(x.reshape(x_shape))
-- 
2.43.0


From 3507db5da400725a293b35bf0d09f98a46be43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 08/44] fix: odeint_hybrid drops checkpoints whose step is
 rejected or interrupted by an event

---
 torchdyn/numerics/odeint.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 1a08cdf..48d5225 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -237,19 +237,19 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 	while t < T and jnum < j_span:
 
 		############### checkpointing ###############################
-		if t + dt > t_span[-1]:
-			dt = t_span[-1] - t
+		t_new = t + dt
+		if t_new > T:
+			dt, t_new = T - t, t_span[-1:]
 		if t_eval is not None:
-			if (ckpt_counter < len(t_eval)) and (t + dt > t_eval[ckpt_counter]):
+			if (ckpt_counter < len(t_eval)) and (t_new > t_eval[ckpt_counter]):
 				dt_old, ckpt_flag = dt, True
-				dt = t_eval[ckpt_counter] - t
-				ckpt_counter += 1
+				dt, t_new = t_eval[ckpt_counter] - t, t_eval[ckpt_counter][None]
 
 		################ step
 		f_new, x_new, x_err, _ = solver.step(f, x, t, dt, k1=k1)
 
 		################ callback and events ########################
-		new_event_states = EventState([cb.check_event(t + dt, x_new) for cb in callbacks])
+		new_event_states = EventState([cb.check_event(t_new, x_new) for cb in callbacks])
 		triggered_events = sum([(a_ != b_)  & (b_ == False)
 								for a_, b_ in zip(new_event_states.evid, event_states.evid)])
 
@@ -298,6 +298,7 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			# reset k1
 			k1 = None
 			dt = dt_pre
+			ckpt_flag = False
 
 		else:
 			################# compute error #############################
@@ -313,8 +314,9 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			accept_step = error_ratio <= 1
 
 			if accept_step:
-				t = t + dt
+				t = t_new
 				x = x_new
+				if t_new == t_eval[ckpt_counter]: ckpt_counter += 1
 				sol.append(x.reshape(x_shape))
 				eval_times.append(t.reshape(t.shape))
 				k1 = f_new
-- 
2.43.0


From 37b158f75365c61102e02c87ee375935d5a811da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 09/44] fix: odeint_hybrid event bisection restarts from the
 full step and can end without a triggered event

---
 torchdyn/numerics/odeint.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 48d5225..3551ef3 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -265,20 +265,21 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 					dt_inner = dt_inner / 2
 					f_new, x_, x_err, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)
 
-					new_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
+					inner_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
 												   for cb in callbacks])
 					triggered_events = sum([(a_ != b_)  & (b_ == False)
-											for a_, b_ in zip(new_event_states.evid, event_states.evid)])
+											for a_, b_ in zip(inner_event_states.evid, event_states.evid)])
 					niters = niters + 1
 
 				if triggered_events == 0: # if no event, advance start point of bisection search
 					x_inner = x_
 					t_inner = t_inner + dt_inner
-					dt_inner = dt
 					k1 = f_new
 					# TODO (qol): optional save
 					#sol.append(x_inner.reshape(x_shape))
 					#eval_times.append(t_inner.reshape(t.shape))
+				else: # keep the states of the earliest event found
+					new_event_states = inner_event_states
 			x = x_inner
 			t = t_inner
 			i = min([i for i, x in enumerate(new_event_states.evid) if x == True])
-- 
2.43.0


From 42897d9b6a9cca1056d4050e77caa4c1852641fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 10/44] fix: adjoint ODEProblem passes save_at as shooting
 parameters

---
 torchdyn/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 3157b96..4cd6911 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -152,7 +152,7 @@ class ODEProblem(nn.Module):
                 args=args,
             )
         else:
-            return self._autograd_func()(self.vf_params, x, t_span, save_at, args)
+            return self._autograd_func()(self.vf_params, x, t_span, None, save_at)
 
     def forward(self, x: Tensor, t_span: Tensor, save_at: Tensor = (), args={}):
         "For safety redirects to intended method `odeint`"
-- 
2.43.0


From d480ce0ae6758f42a599e97194a4dd4df0616931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 11/44] fix: an instantiated solver_adjoint is looked up by
 name

---
 torchdyn/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 4cd6911..757eef5 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -57,7 +57,7 @@ class ODEProblem(nn.Module):
             solver = str_to_solver(solver)
         if solver_adjoint is None:
             solver_adjoint = solver
-        else:
+        elif type(solver_adjoint) == str:
             solver_adjoint = str_to_solver(solver_adjoint)
 
         self.solver, self.interpolator, self.atol, self.rtol = (
-- 
2.43.0


From 790a5d8ce8fd21f892af82582eb067012d5c950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 12/44] fix: adjoint MultipleShootingProblem uses no solver and
 swaps maxiter and fine_steps

---
 torchdyn/core/problems.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/core/problems.py b/torchdyn/core/problems.py
index 757eef5..d42041f 100644
--- a/torchdyn/core/problems.py
+++ b/torchdyn/core/problems.py
@@ -211,7 +211,7 @@ class MultipleShootingProblem(ODEProblem):
             return _gather_odefunc_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -220,14 +220,14 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
-                self.maxiter,
+                fine_steps=self.fine_steps,
+                maxiter=self.maxiter,
             ).apply
         elif self.sensalg == "interpolated_adjoint":
             return _gather_odefunc_interp_adjoint(
                 self.vf,
                 self.vf_params,
-                self.solver,
+                self.parallel_solver,
                 0,
                 0,
                 None,
@@ -236,8 +236,8 @@ class MultipleShootingProblem(ODEProblem):
                 self.rtol_adjoint,
                 self.integral_loss,
                 "multiple_shooting",
-                self.fine_steps,
-                self.maxiter,
+                fine_steps=self.fine_steps,
+                maxiter=self.maxiter,
             ).apply
 
     def odeint(self, x: Tensor, t_span: Tensor, B0: Tensor = None):
-- 
2.43.0


From 40d5939a780d541962c8d5d0f605f32a25962293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 13/44] fix: adjoint of a parameter the vector field does not
 use has the wrong size

---
 torchdyn/numerics/sensitivity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index 503b21e..a17494d 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -68,8 +68,8 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                     if dt == None: dt = torch.zeros(1).to(t)
                     if len(t.shape) == 0: dt = dt.unsqueeze(0)
                 return torch.cat([dx.flatten(), dλ.flatten(), dμ.flatten(), dt.flatten()])
@@ -142,8 +142,8 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
                         dg = torch.autograd.grad(integral_loss(t, x).sum(), x, allow_unused=True, retain_graph=True)[0]
                         dλ = dλ - dg
 
-                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros(1) 
-                                    for el in dμ], dim=-1)
+                    dμ = torch.cat([el.flatten() if el is not None else torch.zeros_like(p).flatten()
+                                    for el, p in zip(dμ, vf.parameters())], dim=-1)
                 return torch.cat([dλ.flatten(), dμ.flatten()])
 
             # solve the adjoint equation
-- 
2.43.0


From af85f6662690cb9d87763c3eca52400c08a10f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 14/44] fix: adjoint gradient of the initial time has the wrong
 sign and time

---
 torchdyn/numerics/sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index a17494d..ec9c2e9 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -85,7 +85,7 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 # prepare adjoint state for next interval
                 #TODO: reuse vf_eval for dLdt calculations
                 xt = A[-1, :xT_nel].reshape(xT_shape)
-                dLdt_ = A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i], xt).flatten()
+                dLdt_ = -A[-1, xT_nel:xT_nel + λT_nel]@vf(t_sol[i - 1], xt).flatten()
                 A[-1, -1:] -= grad_output[0][i - 1]
                 dLdt[i-1] = dLdt_
 
-- 
2.43.0


From cedf13753d5483cb5571f8512a73a12ea47e210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 15/44] fix: adjoint gradients stop at the first saved time
 instead of the start of the interval

---
 torchdyn/numerics/sensitivity.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index ec9c2e9..e4da7f2 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -37,12 +37,12 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
         def forward(ctx, vf_params, x, t_span, B=None, save_at=()):
             t_sol, sol = generic_odeint(problem_type, vf, x, t_span, solver, atol, rtol, interpolator, B, 
                                         False, maxiter, fine_steps, save_at)
-            ctx.save_for_backward(sol, t_sol)
+            ctx.save_for_backward(sol, t_sol, t_span)
             return t_sol, sol
 
         @staticmethod
         def backward(ctx, *grad_output):
-            sol, t_sol = ctx.saved_tensors
+            sol, t_sol, t_span = ctx.saved_tensors
             vf_params = torch.cat([p.contiguous().flatten() for p in vf.parameters()])
             # initialize flattened adjoint state
             xT, λT, μT = sol[-1], grad_output[-1][-1], torch.zeros_like(vf_params)
@@ -92,6 +92,13 @@ def _gather_odefunc_adjoint(vf, vf_params, solver, atol, rtol, interpolator, sol
                 A = torch.cat([A[-1, :xT_nel], A[-1, xT_nel:xT_nel + λT_nel], A[-1, -μT_nel-1:-1], A[-1, -1:]])
                 A[xT_nel:xT_nel + λT_nel] += grad_output[-1][i - 1].flatten()
 
+            # `save_at` does not need to contain the initial time
+            if not torch.isclose(t_sol[0], t_span[0]):
+                _, A = odeint(adjoint_dynamics, A, torch.stack([t_sol[0], t_span[0]]),
+                              solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint,
+                              seminorm=(True, xT_nel+λT_nel))
+                A = A[-1]
+
             λ, μ = A[xT_nel:xT_nel + λT_nel], A[-μT_nel-1:-1]
             λ, μ = λ.reshape(λT.shape), μ.reshape(μT.shape)
             λ_tspan = torch.stack([dLdt[0], dLdt[-1]])
-- 
2.43.0


From 22a81f0a5988188794b2a9f1460da03400884860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 16/44] fix: interpolated adjoint ignores the adjoint solver
 options and misplaces the gradients of the saved states

---
 torchdyn/numerics/sensitivity.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/sensitivity.py b/torchdyn/numerics/sensitivity.py
index e4da7f2..65bfa83 100644
--- a/torchdyn/numerics/sensitivity.py
+++ b/torchdyn/numerics/sensitivity.py
@@ -130,8 +130,10 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
             xT_shape, λT_shape, μT_shape = xT.shape, λT.shape, μT.shape
             A = torch.cat([λT.flatten(), μT.flatten()])
 
-            spline_coeffs = natural_cubic_coeffs(x=sol.permute(1, 0, 2).detach(), t=t_sol)
-            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_sol)
+            # knots of the spline are increasing, also on reversed time domains
+            x_knots, t_knots = (sol, t_sol) if t_sol[-1] > t_sol[0] else (sol.flip(0), t_sol.flip(0))
+            spline_coeffs = natural_cubic_coeffs(x=x_knots.permute(1, 0, 2).detach(), t=t_knots)
+            x_spline = CubicSpline(coeffs=spline_coeffs, t=t_knots)
 
             # define adjoint dynamics
             def adjoint_dynamics(t, A):
@@ -155,8 +157,9 @@ def _gather_odefunc_interp_adjoint(vf, vf_params, solver, atol, rtol, interpolat
 
             # solve the adjoint equation
             n_elements = (λT_nel, μT_nel)
-            for i in range(len(t_span) - 1, 0, -1):
-                t_adj_sol, A = odeint(adjoint_dynamics, A, t_span[i - 1:i + 1].flip(0), solver, atol=atol, rtol=rtol)
+            for i in range(len(t_sol) - 1, 0, -1):
+                t_adj_sol, A = odeint(adjoint_dynamics, A, t_sol[i - 1:i + 1].flip(0),
+                                      solver_adjoint, atol=atol_adjoint, rtol=rtol_adjoint)
                 # prepare adjoint state for next interval
                 A = torch.cat([A[-1, :λT_nel], A[-1, -μT_nel:]])
                 A[:λT_nel] += grad_output[-1][i - 1].flatten()
-- 
2.43.0


From 3e84a16c76a491611fa083ccedb59fc65a0fe924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 17/44] fix: implicit Euler evaluates the vector field at the
 start of the step

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 7406fb9..4796455 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -188,7 +188,7 @@ class ImplicitEuler(DiffEqSolver):
 
     @staticmethod
     def _residual(f, x, t, dt, x_sol):
-        f_sol = f(t, x_sol)
+        f_sol = f(t + dt, x_sol)
         return torch.sum((x_sol - x - dt*f_sol)**2)
 
     def step(self, f, x, t, dt, k1=None, args=None):
-- 
2.43.0


From 3c2e1b3c8afd42d55735f02f59deed44259847ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 18/44] fix: str_to_solver passes dtype in the position of
 channel_index for alf

---
 torchdyn/numerics/solvers/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 4796455..bbcb71d 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -333,7 +333,7 @@ MS_SOLVER_DICT = {'mszero': MSZero, 'zero': MSZero, 'parareal': MSZero,
 def str_to_solver(solver_name, dtype=torch.float32):
     "Transforms string specifying desired solver into an instance of the Solver class."
     solver = SOLVER_DICT[solver_name]
-    return solver(dtype)
+    return solver(dtype=dtype)
 
 
 def str_to_ms_solver(solver_name, dtype=torch.float32):
-- 
2.43.0


From 7a04ee67cd1b37f9d50547b3c0218f63cd25b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 19/44] fix: multiple shooting solvers crash when maxiter
 exceeds the number of subintervals

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index bbcb71d..4f60b57 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -234,7 +234,7 @@ class MSZero(MultipleShootingDiffeqSolver):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
-        while i <= maxiter:
+        while i <= maxiter and i < n_subinterv:
             i += 1
             B_coarse = odeint_func(f, B[i-1:], sub_t_span, solver=self.coarse_method)[1][-1]
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
@@ -264,7 +264,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
         sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
         i = 0
         B = B.requires_grad_(True)
-        while i <= maxiter:
+        while i <= maxiter and i < n_subinterv:
             i += 1
             B_fine = odeint_func(f, B[i-1:], sub_t_span, solver=self.fine_method)[1][-1]
             B_out = torch.zeros_like(B)
-- 
2.43.0


From 44c232b8eaebbbeae04555fa69934455c246846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 20/44] fix: MSBackward pairs shooting parameters with the
 wrong fine solution after the first iteration

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 4f60b57..bb57102 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -273,8 +273,8 @@ class MSBackward(MultipleShootingDiffeqSolver):
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-1], B, B_in - B[m-1], retain_graph=True)[0][m-1]
-                B_in = B_fine[m-1] + J_blk
+                J_blk = torch.autograd.grad(B_fine[m-i], B, B_in - B[m-1], retain_graph=True)[0][m-1]
+                B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
             B = B_out
-- 
2.43.0


From 5b56db3ce4e86589589d302a3a6d852551429be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 21/44] fix: MultipleShootingDiffeqSolver discards solvers
 given as instances

---
 torchdyn/numerics/solvers/templates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index f7e5e36..18556ba 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -69,8 +69,9 @@ class MultipleShootingDiffeqSolver(nn.Module):
         from torchdyn.numerics.solvers.ode import str_to_solver
 
         super(MultipleShootingDiffeqSolver, self).__init__()
-        if type(coarse_method) == str: self.coarse_method = str_to_solver(coarse_method)
-        if type(fine_method) == str: self.fine_method = str_to_solver(fine_method)
+        if type(coarse_method) == str: coarse_method = str_to_solver(coarse_method)
+        if type(fine_method) == str: fine_method = str_to_solver(fine_method)
+        self.coarse_method, self.fine_method = coarse_method, fine_method
 
     def sync_device_dtype(self, x, t_span):
         "Ensures `x`, `t_span`, `tableau` and other solver tensors are on the same device with compatible dtypes"
-- 
2.43.0


From 8b08592eef0607e75e6644f4b49a0ac08c4f3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 22/44] fix: BaseExplicit and BaseImplicit cannot be
 constructed

---
 torchdyn/numerics/solvers/templates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/templates.py b/torchdyn/numerics/solvers/templates.py
index 18556ba..1c2bbce 100644
--- a/torchdyn/numerics/solvers/templates.py
+++ b/torchdyn/numerics/solvers/templates.py
@@ -47,7 +47,7 @@ class BaseExplicit(DiffEqSolver):
     def __init__(self, *args, **kwargs):
         """Base template for an explicit differential equation solver
         """
-        super(BaseExplicit, DiffEqSolver).__init__(*args, **kwargs)
+        super(BaseExplicit, self).__init__(*args, **kwargs)
         assert self.stepping_class in ["fixed", "adaptive"]
 
 
@@ -56,7 +56,7 @@ class BaseImplicit(DiffEqSolver):
     def __init__(self, *args, **kwargs):
         """Base template for an implicit differential equation solver
         """
-        super(BaseImplicit, DiffEqSolver).__init__(*args, **kwargs)
+        super(BaseImplicit, self).__init__(*args, **kwargs)
         assert self.stepping_class in ["fixed", "adaptive"]
 
     @staticmethod
-- 
2.43.0


From dc0f1ed1458aa3387a9d1f934a6dba438311f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 23/44] fix: Milstein solvers accept SDEs of the other
 interpretation

---
 torchdyn/numerics/solvers/sde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchdyn/numerics/solvers/sde.py b/torchdyn/numerics/solvers/sde.py
index 328f440..4f0de97 100644
--- a/torchdyn/numerics/solvers/sde.py
+++ b/torchdyn/numerics/solvers/sde.py
@@ -94,6 +94,7 @@ class MilesteinIto(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "ito"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2 - dt
@@ -103,6 +104,7 @@ class MilesteinStratonovich(MilsteinBase):
     def __init__(self, sde: SDEFunc, bm: BaseBrownian, dtype=torch.float32):
         super().__init__(sde, bm, dtype)
         self.solver_sde_type = "stratonovich"
+        _check_types(self.sde, self.solver_sde_type, self.solver_noise_type)
 
     def v_term(self, bm_, dt):
         return bm_ ** 2
-- 
2.43.0


From 1cd01cff1b7c179d5317acde867fa09371d53128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 24/44] fix: NeuralSDE.trajectory raises TypeError

---
 torchdyn/core/neuralde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/core/neuralde.py b/torchdyn/core/neuralde.py
index 7be9b3b..f553896 100644
--- a/torchdyn/core/neuralde.py
+++ b/torchdyn/core/neuralde.py
@@ -252,15 +252,15 @@ class NeuralSDE(SDEProblem, pl.LightningModule):
             return sol
 
     def trajectory(self, x: torch.Tensor, t_span: torch.Tensor):
-        x = self._prep_sdeint(x)
-        sol = sdeint(
+        x, t_span = self._prep_sdeint(x, t_span)
+        _, sol = sdeint(
             self.defunc,
             x,
             t_span,
             solver=self.solver,
+            bm=self.bm,
             rtol=self.rtol,
             atol=self.atol,
-            dt=self.ds,
         )
         return sol
 
-- 
2.43.0


From fdfabb95726fe7ddc0cbb03f930ac386d356cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 25/44] fix: DEFunc calls a missing method for integral losses
 of higher order systems

---
 torchdyn/core/defunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/core/defunc.py b/torchdyn/core/defunc.py
index 2f0ce26..457b7bb 100644
--- a/torchdyn/core/defunc.py
+++ b/torchdyn/core/defunc.py
@@ -71,7 +71,7 @@ class DEFunc(nn.Module):
             if len(dlds.shape) == 1:
                 dlds = dlds[:, None]
             if self.order > 1:
-                x_dyn = self.horder_forward(t, x_dyn, args)
+                x_dyn = self.higher_order_forward(t, x_dyn, args)
             else:
                 x_dyn = self.vf(t, x_dyn)
             return cat([dlds, x_dyn], 1).to(x_dyn)
-- 
2.43.0


From 43631c9e11eb670f8eb4b6ced012d5a651379389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 26/44] fix: non-adaptive radial bases ignore the given centers
 and eps_scales

---
 torchdyn/nn/galerkin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 217d12b..def1a14 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -34,8 +34,8 @@ class GaussianRBF(nn.Module):
             self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
             self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = (n_range - self.centers) / self.eps_scales
@@ -63,8 +63,8 @@ class VanillaRBF(nn.Module):
             self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
             self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
@@ -92,8 +92,8 @@ class MultiquadRBF(nn.Module):
             self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
             self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
         else:
-            self.centers = 0
-            self.eps_scales = 2
+            self.centers = centers
+            self.eps_scales = eps_scales
 
     def forward(self, n_range, s):
         n_range_scaled = n_range / self.eps_scales
-- 
2.43.0


From 487cad9a72a643ccadee49feb406fa244935d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 27/44] fix: Chebychev basis cuts the gradient of dilation and
 shift

---
 torchdyn/nn/galerkin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index def1a14..23d66f2 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -151,14 +151,14 @@ class Chebychev(nn.Module):
 
     def forward(self, n_range, s):
         max_order = n_range[-1].int().item()
-        basis = [1]
+        basis = [torch.ones_like(s)]
         # Based on numpy's Cheb code
         if max_order > 0:
             s2 = 2 * s
-            basis += [s.item()]
+            basis += [s]
             for i in range(2, max_order):
                 basis += [basis[-1] * s2 - basis[-2]]
-        return [torch.tensor(basis).to(n_range)]
+        return [torch.cat([b.reshape(1) for b in basis]).to(n_range)]
 
 
 class GalLayer(nn.Module):
-- 
2.43.0


From f656b693c46d2ae14d8696997f424ac50fcff52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 28/44] fix: Galerkin layers with bias=False crash in forward

---
 torchdyn/nn/galerkin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index 23d66f2..f89addf 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -165,6 +165,7 @@ class GalLayer(nn.Module):
     """Galerkin layer template. Introduced in https://arxiv.org/abs/2002.08071"""
     def __init__(self, bias=True, expfunc=Fourier(5), dilation=True, shift=True):       
         super().__init__()
+        self.use_bias = bias
         self.dilation = torch.ones(1) if not dilation else nn.Parameter(data=torch.ones(1), requires_grad=True)
         self.shift = torch.zeros(1) if not shift else nn.Parameter(data=torch.zeros(1), requires_grad=True)
         self.expfunc = expfunc
@@ -222,7 +223,7 @@ class GalLinear(GalLayer):
         input = input[:,:-1]
         w = self.calculate_weights(t)
         self.weight = w[0:self.in_features*self.out_features].reshape(self.out_features, self.in_features)
-        self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
+        if self.use_bias: self.bias = w[self.in_features*self.out_features:(self.in_features+1)*self.out_features].reshape(self.out_features)
         return torch.nn.functional.linear(input, self.weight, self.bias)
 
 
@@ -269,5 +270,5 @@ class GalConv2d(GalLayer):
         w = self.calculate_weights(t)
         n = self.oc*self.ic*self.ks*self.ks
         self.weight = w[0:n].reshape(self.oc, self.ic, self.ks, self.ks)
-        self.bias = w[n:].reshape(self.oc)
+        if self.use_bias: self.bias = w[n:].reshape(self.oc)
         return torch.nn.functional.conv2d(input, self.weight, self.bias, stride=self.stride, padding=self.pad)
-- 
2.43.0


From d16f3aee8219b3fc891c9487b252aa3dd5fd2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 29/44] fix: ConservativeLinearSNF refers to missing attributes

---
 torchdyn/models/energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/models/energy.py b/torchdyn/models/energy.py
index 0cedd20..a4b9155 100644
--- a/torchdyn/models/energy.py
+++ b/torchdyn/models/energy.py
@@ -37,13 +37,13 @@ class ConservativeLinearSNF(nn.Module):
         with torch.set_grad_enabled(True):
             self.n = x.shape[1] // 2
             x = x.requires_grad_(True)
-            dHdx = torch.autograd.grad(self.H(x).sum(), x, create_graph=True)[0]
-            dHdx = torch.einsum('ijk, ij -> ik', self._skew(x), dHdx)
+            dHdx = torch.autograd.grad(self.energy(x).sum(), x, create_graph=True)[0]
+            dHdx = torch.einsum('ijk, ij -> ik', self._generate_skew(x), dHdx)
         return dHdx
 
     def _generate_skew(self, x):
-        M = self.J(x).reshape(-1, *x.shape[1:])
-        return (M - M.transpose(0, 2, 1)) / 2
+        M = self.J(x).reshape(-1, x.shape[1], x.shape[1])
+        return (M - M.transpose(1, 2)) / 2
 
 class GNF(nn.Module):
     def __init__(self, energy:nn.Module):
-- 
2.43.0


From 9412718c282dd29d45d5edfc02637809625fb7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 30/44] fix: gaussian datasets cannot be generated in more than
 two dimensions

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index ec67452..42073ed 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -137,7 +137,7 @@ def generate_gaussians(n_samples=100, n_gaussians=7, dim=2,
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians
-        if dim > 2: dist.loc = torch.Tensor([radius*torch.cos(angle), torch.sin(angle), radius*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radius*torch.cos(angle), radius*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radius*torch.cos(angle), radius*torch.sin(angle)])
         X[i*n_samples:(i+1)*n_samples] = dist.sample(sample_shape=(n_samples,)) + torch.randn(dim)*noise
         y[i*n_samples:(i+1)*n_samples] = i
@@ -179,7 +179,7 @@ def generate_gaussians_spiral(n_samples=100, n_gaussians=7, n_gaussians_per_loop
 
     for i in range(n_gaussians):
         angle += 2*math.pi / n_gaussians_per_loop
-        if dim > 2: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), torch.sin(angle), radiuses[i]*torch.zeros(dim-2)])
+        if dim > 2: dist.loc = torch.cat([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle), torch.zeros(dim-2)])
         else: dist.loc = torch.Tensor([radiuses[i]*torch.cos(angle), radiuses[i]*torch.sin(angle)])
         dist.scale = std_devs[i]
 
-- 
2.43.0


From 421c2a55ac1acd42e00fa29f63bd3be5864af994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 31/44] fix: concentric spheres of an odd number of samples
 cannot be generated

---
 torchdyn/datasets/static_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/datasets/static_datasets.py b/torchdyn/datasets/static_datasets.py
index 42073ed..6dd6673 100644
--- a/torchdyn/datasets/static_datasets.py
+++ b/torchdyn/datasets/static_datasets.py
@@ -61,10 +61,10 @@ def generate_concentric_spheres(n_samples:int=100, noise:float=1e-4, dim:int=3,
     X[:n_samples // 2] = cat(samples)
     X[:n_samples // 2] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
     samples = []
-    for i in range(n_samples // 2):
+    for i in range(n_samples - n_samples // 2):
         samples.append(randnsphere(dim, outer_radius)[None, :])
     X[n_samples // 2:] = cat(samples)
-    X[n_samples // 2:] += zeros((n_samples // 2, dim)).normal_(0, std=noise)
+    X[n_samples // 2:] += zeros((n_samples - n_samples // 2, dim)).normal_(0, std=noise)
     return X, y
 
 
-- 
2.43.0


From b87dec21b3c15cd0f4137669883687eed3be39a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 32/44] fix: _jagged_fixed_odeint reads the error estimate as
 the state and repeats the first node

---
 torchdyn/numerics/odeint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 3551ef3..2b5709b 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -501,7 +501,7 @@ def _jagged_fixed_odeint(f, x,
 	not_converged = ~((t - T).abs() <= 1e-6).bool()
 	steps = 0
 	while not_converged.any():
-		_, _, x = solver.step(f, x, t, dt[..., None, None])  # dt will be to x dims
+		_, x, _ = solver.step(f, x, t, dt[..., None, None])  # dt will be to x dims
 
 		for n, sol_ in enumerate(sol):
 			sol_.append(x[n])
@@ -511,10 +511,10 @@ def _jagged_fixed_odeint(f, x,
 		steps += 1
 		dt = []
 		for t_, tcur in zip(t_span, t):
-			if steps > len(t_) - 1:
+			if steps + 1 > len(t_) - 1:
 				dt.append(torch.zeros_like(tcur))  # subproblem already solved
 			else:
-				dt.append(t_[steps] - tcur)
+				dt.append(t_[steps + 1] - tcur)
 
 		dt = torch.stack(dt)
 	# prune solutions to remove noop steps
-- 
2.43.0


From a4ddf76da9e97aa234758f3ff19c7fb854623826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 33/44] fix: _shifted_fixed_odeint uses an undefined solver

---
 torchdyn/numerics/odeint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 2b5709b..6684838 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -461,7 +461,7 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	return save_at, final_out
 
 
-def _shifted_fixed_odeint(f, x, t_span):
+def _shifted_fixed_odeint(f, x, t_span, solver):
 	"""Solves ``n_segments'' jagged IVPs in parallel with fixed-step methods. All subproblems
 	have equal step sizes and number of solution points
 
@@ -474,7 +474,7 @@ def _shifted_fixed_odeint(f, x, t_span):
 	not_converged = ~((t - T).abs() <= 1e-6).bool()
 	while not_converged.any():
 		x[:, ~not_converged] = torch.zeros_like(x[:, ~not_converged])
-		k1, _, x = solver.step(f, x, t, dt[..., None], k1=k1)  # dt will be broadcasted on dim1
+		k1, x, _ = solver.step(f, x, t, dt[..., None], k1=k1)  # dt will be broadcasted on dim1
 		sol.append(x)
 		t = t + dt
 		not_converged = ~((t - T).abs() <= 1e-6).bool()
-- 
2.43.0


From c672e12c548cabf2c09ea0d2a1c9c175613e7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 34/44] fix: plot_static_vector_field reads an attribute models
 do not have

---
 torchdyn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/utils.py b/torchdyn/utils.py
index 2e44ee2..890d8b0 100644
--- a/torchdyn/utils.py
+++ b/torchdyn/utils.py
@@ -167,7 +167,7 @@ def plot_static_vector_field(model, trajectory, t=0., N=50, device='cuda'):
     for i in range(N):
         for j in range(N):
             p = torch.cat([X[i,j].reshape(1,1), Y[i,j].reshape(1,1)],1).to(device)
-            O = model.defunc(t,p).detach().cpu()
+            O = model.vf(t,p).detach().cpu()
             U[i,j], V[i,j] = O[0,0], O[0,1]
 
     fig = plt.figure(figsize=(3,3))
-- 
2.43.0


From 7e52feaec6609be1f5390881329ffe2bd887fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 35/44] fix: MSBackward applies the transposed Jacobian of the
 fine solution in its Newton update

---
 torchdyn/numerics/solvers/ode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index bb57102..304b3ee 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -273,7 +273,9 @@ class MSBackward(MultipleShootingDiffeqSolver):
             for m in range(i, n_subinterv):
                 # instead of jvps here the full jacobian can be computed and the vector products
                 # which involve `B_in` can be performed. Trading memory ++ for speed ++
-                J_blk = torch.autograd.grad(B_fine[m-i], B, B_in - B[m-1], retain_graph=True)[0][m-1]
+                v = torch.zeros_like(B_fine[m-i], requires_grad=True)
+                vJ_blk = torch.autograd.grad(B_fine[m-i], B, v, create_graph=True)[0][m-1]
+                J_blk = torch.autograd.grad(vJ_blk, v, B_in - B[m-1], retain_graph=True)[0]
                 B_in = B_fine[m-i] + J_blk
                 B_out[m] = B_in
             del B # manually free graph
-- 
2.43.0


From e34ee8099f16a62060fb4ad6fd5ce419b2d445e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:44 +0000
Subject: [PATCH 36/44] fix: adaptive RBF bases have one center and one scale
 per degree

GalLayer expands over deg degrees, the adaptive bases allocated deg + 1
centers and scales, and every call failed with a size mismatch.
---
 torchdyn/nn/galerkin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchdyn/nn/galerkin.py b/torchdyn/nn/galerkin.py
index f89addf..9cfe902 100644
--- a/torchdyn/nn/galerkin.py
+++ b/torchdyn/nn/galerkin.py
@@ -31,8 +31,8 @@ class GaussianRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = centers
             self.eps_scales = eps_scales
@@ -60,8 +60,8 @@ class VanillaRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = centers
             self.eps_scales = eps_scales
@@ -89,8 +89,8 @@ class MultiquadRBF(nn.Module):
         super().__init__()
         self.deg, self.n_eig = deg, 1
         if adaptive:
-            self.centers = torch.nn.Parameter(centers * torch.ones(deg + 1))
-            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones((deg + 1)))
+            self.centers = torch.nn.Parameter(centers * torch.ones(deg))
+            self.eps_scales = torch.nn.Parameter(eps_scales * torch.ones(deg))
         else:
             self.centers = centers
             self.eps_scales = eps_scales
-- 
2.43.0


From f2a010c46708609421a708f95d457d54bb1d687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:01 +0000
Subject: [PATCH 37/44] fix: _shifted_fixed_odeint does not overwrite the
 caller's initial state

---
 torchdyn/numerics/odeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 6684838..16c54fb 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -473,6 +473,7 @@ def _shifted_fixed_odeint(f, x, t_span, solver):
 
 	not_converged = ~((t - T).abs() <= 1e-6).bool()
 	while not_converged.any():
+		x = x.clone()  # neither the initial condition of the caller nor stored states are overwritten
 		x[:, ~not_converged] = torch.zeros_like(x[:, ~not_converged])
 		k1, x, _ = solver.step(f, x, t, dt[..., None], k1=k1)  # dt will be broadcasted on dim1
 		sol.append(x)
-- 
2.43.0


From 78e8d279460f2ef496505b8a43e5b3be54c1297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:44 +0000
Subject: [PATCH 38/44] fix: odeint_hybrid keeps the gradients of the states
 located before an event

---
 torchdyn/numerics/odeint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index 16c54fb..fed30ad 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -261,10 +261,10 @@ def odeint_hybrid(f, x, t_span, j_span, solver, callbacks, atol=1e-3, rtol=1e-3,
 			max_iters = 100  # TODO (numerics): compute tol as function of tolerances
 
 			while niters < max_iters and event_tol < dt_inner:
-				with torch.no_grad():
-					dt_inner = dt_inner / 2
-					f_new, x_, x_err, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)
+				dt_inner = dt_inner / 2
+				f_new, x_, x_err, _ = solver.step(f, x_inner, t_inner, dt_inner, k1=k1)
 
+				with torch.no_grad():
 					inner_event_states = EventState([cb.check_event(t_inner + dt_inner, x_)
 												   for cb in callbacks])
 					triggered_events = sum([(a_ != b_)  & (b_ == False)
-- 
2.43.0


From b5e40c31752bb90ea4d2506a24562a9dfbc1d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:59 +0000
Subject: [PATCH 39/44] fix: reversed HybridNeuralDE flips its input sequence
 instead of an undefined name

---
 torchdyn/models/hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchdyn/models/hybrid.py b/torchdyn/models/hybrid.py
index b95958a..f24b607 100644
--- a/torchdyn/models/hybrid.py
+++ b/torchdyn/models/hybrid.py
@@ -42,7 +42,7 @@ class HybridNeuralDE(nn.Module):
     def forward(self, x):
         h = c = self._init_latent(x)
         Y = torch.zeros(x.shape[0], *h.shape).to(x)
-        if self.reverse: x_t = x_t.flip(0)
+        if self.reverse: x = x.flip(0)
         for t, x_t in enumerate(x):
             h, c = self.jump_func(x_t, h, c)
             h = self.flow(h)
-- 
2.43.0


From 81f1f26ccd13cc63b6067629013bbfe13af66012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:22 +0000
Subject: [PATCH 40/44] fix: step sizes of adaptive solvers were computed in
 single precision for double precision problems

---
 torchdyn/numerics/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchdyn/numerics/utils.py b/torchdyn/numerics/utils.py
index c8f7c3e..c0d7a70 100644
--- a/torchdyn/numerics/utils.py
+++ b/torchdyn/numerics/utils.py
@@ -56,6 +56,7 @@ def init_step(f, f0, x0, t0, order, atol, rtol):
 
 @torch.no_grad()
 def adapt_step(dt, error_ratio, safety, min_factor, max_factor, order):
+    safety, min_factor, max_factor = safety.to(dt), min_factor.to(dt), max_factor.to(dt)
     if error_ratio == 0: return dt * max_factor
     if error_ratio < 1: min_factor = torch.ones_like(dt)
     exponent = torch.tensor(order, dtype=dt.dtype, device=dt.device).reciprocal()
-- 
2.43.0


From be00b58bb8a73261345c6ecc0778d1a7c39ede39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:22 +0000
Subject: [PATCH 41/44] fix: named solvers of problems and parallel solvers had
 single precision coefficients in double precision problems

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 304b3ee..64d713a 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -332,8 +332,8 @@ MS_SOLVER_DICT = {'mszero': MSZero, 'zero': MSZero, 'parareal': MSZero,
                   'ieuler': ParallelImplicitEuler, 'parallel-implicit-euler': ParallelImplicitEuler}
 
 
-def str_to_solver(solver_name, dtype=torch.float32):
-    "Transforms string specifying desired solver into an instance of the Solver class."
+def str_to_solver(solver_name, dtype=torch.float64):
+    "Transforms string specifying desired solver into an instance of the Solver class. Cast to the dtype of the state when integrating."
     solver = SOLVER_DICT[solver_name]
     return solver(dtype=dtype)
 
-- 
2.43.0


From 03938329a979bb47f2a0ebda214518b135f58979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:22 +0000
Subject: [PATCH 42/44] fix: grids of the fine solver of parallel solvers were
 single precision in double precision problems

---
 torchdyn/numerics/solvers/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchdyn/numerics/solvers/ode.py b/torchdyn/numerics/solvers/ode.py
index 64d713a..0d6bce5 100644
--- a/torchdyn/numerics/solvers/ode.py
+++ b/torchdyn/numerics/solvers/ode.py
@@ -232,7 +232,7 @@ class MSZero(MultipleShootingDiffeqSolver):
     # TODO (qol): extend to time-variant ODEs by using shifted_odeint
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype).to(x)
         i = 0
         while i <= maxiter and i < n_subinterv:
             i += 1
@@ -261,7 +261,7 @@ class MSBackward(MultipleShootingDiffeqSolver):
 
     def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
         dt, n_subinterv = t_span[1] - t_span[0], len(t_span)
-        sub_t_span = torch.linspace(0, dt, fine_steps).to(x)
+        sub_t_span = torch.linspace(0, dt, fine_steps, dtype=x.dtype).to(x)
         i = 0
         B = B.requires_grad_(True)
         while i <= maxiter and i < n_subinterv:
-- 
2.43.0


From e2bf05107e0f03aa50b239eede7c3080f559f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:22 +0000
Subject: [PATCH 43/44] fix: lists of times in save_at failed on double
 precision grids, and lists of integers on every grid

---
 torchdyn/numerics/odeint.py | 3 ++-
 torchdyn/numerics/sdeint.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index fed30ad..b7f5651 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -426,7 +426,8 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	if len(save_at) == 0: save_at = t_span
 	if not isinstance(save_at, torch.Tensor):
 		save_at = torch.tensor(save_at)
-		
+	save_at = save_at.to(t_span)
+
 	assert all(torch.isclose(t, t_span).sum() == 1 for t in save_at),\
 		"each element of save_at [torch.Tensor] must be contained in t_span [torch.Tensor] once and only once"
 
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index f4d02c9..8a7f4ac 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -61,6 +61,7 @@ def sdeint(
         save_at = t_span
     if not isinstance(save_at, torch.Tensor):
         save_at = torch.tensor(save_at)
+    save_at = save_at.to(t_span)
 
     # access parallel integration routines with different t_spans for each sample in `x`.
     if len(t_span.shape) > 1:
-- 
2.43.0


From 7c3f75c01c6a11ba3dd504171d77b5373828372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:38 +0000
Subject: [PATCH 44/44] fix: requested times given as lists were rounded to
 single precision in double precision problems

---
 torchdyn/numerics/odeint.py | 6 +++---
 torchdyn/numerics/sdeint.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchdyn/numerics/odeint.py b/torchdyn/numerics/odeint.py
index b7f5651..7b3280d 100644
--- a/torchdyn/numerics/odeint.py
+++ b/torchdyn/numerics/odeint.py
@@ -55,7 +55,7 @@ def odeint(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:Union[str, n
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
-		if len(save_at) > 0: save_at = -(save_at if isinstance(save_at, Tensor) else torch.tensor(save_at))
+		if len(save_at) > 0: save_at = -(save_at if isinstance(save_at, Tensor) else torch.tensor(save_at, dtype=torch.float64))
 		reverse = True
 	else: f_, reverse = f, False
 
@@ -117,7 +117,7 @@ def odeint_symplectic(f:Callable, x:Tensor, t_span:Union[List, Tensor], solver:U
 		if verbose: warn("You are integrating on a reversed time domain, adjusting the vector field automatically")
 		f_ = lambda t, x: -f(-t, x)
 		t_span = -t_span
-		if len(save_at) > 0: save_at = -(save_at if isinstance(save_at, Tensor) else torch.tensor(save_at))
+		if len(save_at) > 0: save_at = -(save_at if isinstance(save_at, Tensor) else torch.tensor(save_at, dtype=torch.float64))
 		reverse = True
 	else: f_, reverse = f, False
 	if type(t_span) == list: t_span = torch.cat(t_span)
@@ -425,7 +425,7 @@ def _fixed_odeint(f, x, t_span, solver, save_at=(), args={}):
 	"""Solves IVPs with same `t_span`, using fixed-step methods"""
 	if len(save_at) == 0: save_at = t_span
 	if not isinstance(save_at, torch.Tensor):
-		save_at = torch.tensor(save_at)
+		save_at = torch.tensor(save_at, dtype=torch.float64)
 	save_at = save_at.to(t_span)
 
 	assert all(torch.isclose(t, t_span).sum() == 1 for t in save_at),\
diff --git a/torchdyn/numerics/sdeint.py b/torchdyn/numerics/sdeint.py
index 8a7f4ac..c064359 100644
--- a/torchdyn/numerics/sdeint.py
+++ b/torchdyn/numerics/sdeint.py
@@ -60,7 +60,7 @@ def sdeint(
     if len(save_at) == 0:
         save_at = t_span
     if not isinstance(save_at, torch.Tensor):
-        save_at = torch.tensor(save_at)
+        save_at = torch.tensor(save_at, dtype=torch.float64)
     save_at = save_at.to(t_span)
 
     # access parallel integration routines with different t_spans for each sample in `x`.
-- 
2.43.0


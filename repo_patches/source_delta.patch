From df472a54e879b24d6e53e1d2fd4334b2f0ad00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:56 +0000
Subject: [PATCH 01/73] fix: evaluation after episodic vectorized learning no
 longer bounded by the stale fit schedule

---
 mushroom_rl/core/_impl/core_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/_impl/core_logic.py b/mushroom_rl/core/_impl/core_logic.py
index db187e3..74a442f 100644
--- a/mushroom_rl/core/_impl/core_logic.py
+++ b/mushroom_rl/core/_impl/core_logic.py
@@ -32,6 +32,9 @@ class CoreLogic(object):
             self.fit_required = self._fit_episodes_condition
 
     def initialize_evaluate(self):
+        self._n_steps_per_fit = None
+        self._n_episodes_per_fit = None
+
         self.fit_required = lambda: False
 
     def initialize_run(self, n_steps, n_episodes, initial_states, quiet):
-- 
2.43.0


From 1def6b78d9c160803172eaae0d28adef40c5e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:58 +0000
Subject: [PATCH 02/73] fix: apply core preprocessors to the reset state, not
 to the (state, info) tuple

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..8e89cf6 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From a959e9ce2f50bc161e0520ffb0a8a078d2203a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:44 +0000
Subject: [PATCH 03/73] fix: recurrent PPO sequences no longer span episode
 boundaries at the start of the dataset

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..7616c24 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -111,11 +111,11 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                lasts_absorbing = last[begin_seq: i].int() + absorbing[begin_seq: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From 84b2eee4294048a05905054be09c6730c4984d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:28 +0000
Subject: [PATCH 04/73] fix: sequences drawn from a full sequence replay memory
 no longer join the newest and the oldest samples

---
 mushroom_rl/rl_utils/replay_memory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..eeb4145 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -223,6 +223,11 @@ class SequenceReplayMemory(ReplayMemory):
                 begin_seq = np.maximum(i - self._truncation_length + 1, 0)
                 end_seq = i + 1
 
+                # once the memory is full, the oldest sample is not preceded by its own past
+                starts_at_oldest = self._full and begin_seq <= self._idx <= i
+                if starts_at_oldest:
+                    begin_seq = self._idx
+
                 # the sequence can contain more than one trajectory, check to only include one
                 lasts_absorbing = self._dataset.last[begin_seq: i]
                 begin_traj = self._backend.where(lasts_absorbing > 0)
@@ -232,7 +237,7 @@ class SequenceReplayMemory(ReplayMemory):
                     begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
+                if more_than_one_traj or begin_seq == 0 or starts_at_oldest or self._dataset.last[begin_seq-1]:
                     prev_actions = self._dataset.action[begin_seq:end_seq - 1]
                     init_prev_action = self._backend.zeros(1, *self._action_space_shape)
                     if len(prev_actions) == 0:
-- 
2.43.0


From 16cb4e81bcdd886c5a7fe08f75ea2a80148cd4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:38 +0000
Subject: [PATCH 05/73] fix: variance parameters keep one statistic per table
 entry instead of taking their size as maximum value

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..347ee03 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
-- 
2.43.0


From 2bcc6269213719d0fbb5ca93748f91c1165c316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:48 +0000
Subject: [PATCH 06/73] fix: windowed variance parameter works with a single
 entry

---
 mushroom_rl/rl_utils/variance_parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index 347ee03..3a87809 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -163,6 +163,9 @@ class WindowedVarianceParameter(Parameter):
         factor = kwargs.get('factor', 1.)
 
         # compute parameter value
+        if self._n_updates.table.size == 1:
+            idx = (0,) * len(self.shape)
+
         n = self._n_updates[idx]
         self._n_updates[idx] += 1
 
-- 
2.43.0


From e5f90f033e9a867de1db021a1b6d79d1593de539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:37 +0000
Subject: [PATCH 07/73] fix: CMAC derivative applies the tilings to the state
 once, not twice

---
 mushroom_rl/approximators/parametric/cmac.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 90b7c70..6e12ea9 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -89,6 +89,4 @@ class CMAC(LinearApproximator):
             The derivative of the output w.r.t. ``state``, and ``action`` if provided.
 
         """
-
-        phi = self._phi(state)
-        return super().diff(phi, action)
+        return super().diff(state, action)
-- 
2.43.0


From fd625b63295204613325d008d7e84f3660892d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:55 +0000
Subject: [PATCH 08/73] fix: vectorized policies return the policy states of
 all environments

---
 mushroom_rl/policy/vector_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..5543b83 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,9 +30,9 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
         if len(self) < n_envs:
-- 
2.43.0


From 4f7f72f86d626e4d554b29c7d173bef00cd5b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 09/73] fix: resizing a vectorized policy yields one
 independent policy per environment

---
 mushroom_rl/policy/vector_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index 5543b83..c37c0b9 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -35,11 +35,11 @@ class VectorPolicy(ParametricPolicy):
         return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        if len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From ee7953a26db15ac22c1a51bef09303b0d527f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:05 +0000
Subject: [PATCH 10/73] fix: recurrent gaussian policy keeps its log std bounds
 when saved and loaded

---
 mushroom_rl/policy/recurrent_torch_policy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..a176112 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 055e8ac4a379b83bc1caa2491c1abfbb92fc9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:05 +0000
Subject: [PATCH 11/73] fix: mellowmax evaluates its omega schedule once per
 query

---
 mushroom_rl/policy/td_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index 9665802..fe8e81d 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -196,8 +196,8 @@ class Mellowmax(Boltzmann):
 
         def __call__(self, state):
             q = self._outer._approximator.predict(state, **self._outer._predict_params)
-            mm = (logsumexp(q * self._omega(state)) - np.log(
-                q.size)) / self._omega(state)
+            omega = self._omega(state)
+            mm = (logsumexp(q * omega) - np.log(q.size)) / omega
 
             def f(beta):
                 v = q - mm
-- 
2.43.0


From 8c31b51ca3c9c2c9f01f5345e9b15f8cfc35fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 12/73] fix: array backends return the result of a
 three-argument where

---
 mushroom_rl/core/array_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..39a8d13 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -216,7 +216,7 @@ class NumpyBackend(ArrayBackend):
         if x is None:
             return np.where(cond)
         else:
-            np.where(cond, x, y)
+            return np.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
@@ -345,7 +345,7 @@ class TorchBackend(ArrayBackend):
         if x is None:
             return torch.where(cond)
         else:
-            torch.where(cond, x, y)
+            return torch.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
-- 
2.43.0


From a5f7895e62346dbee5c7a22989e9cd62ed58049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 13/73] fix: converting arrays to an unsupported backend raises
 instead of returning the exception class

---
 mushroom_rl/core/array_backend.py | 2 +-
 mushroom_rl/core/dataset.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 39a8d13..3799fc6 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -45,7 +45,7 @@ class ArrayBackend(object):
         elif to == 'torch':
             return backend.arrays_to_torch(*arrays) if len(arrays) > 1 else backend.arrays_to_torch(*arrays)[0]
         else:
-            return NotImplementedError
+            raise NotImplementedError
 
     @staticmethod
     def convert_to_backend(cls, array):
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..0e02183 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -516,7 +516,7 @@ class Dataset(Serializable):
         elif to == 'torch':
             return self._array_backend.arrays_to_torch(*arrays)
         else:
-            return NotImplementedError
+            raise NotImplementedError
 
     def _add_all_save_attr(self):
         self._add_save_attr(
-- 
2.43.0


From f997ca73f62b042516b1a7c6d11e774398385ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 14/73] fix: torch backend builds an array from a list holding
 a single tensor

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 3799fc6..864d181 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -396,7 +396,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def from_list(array):
-        if len(array) > 1 and isinstance(array[0], torch.Tensor):
+        if len(array) > 0 and isinstance(array[0], torch.Tensor):
             return torch.stack(array)
         else:
             return torch.tensor(array)
-- 
2.43.0


From 8aeaffff3e96e6ae641f479e2fcc973128265889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 15/73] fix: datasets built from arrays keep the policy states

---
 mushroom_rl/core/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 0e02183..4827cc1 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -212,11 +212,14 @@ class Dataset(Serializable):
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                   policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From da8d6c78ceec464f108996dc52eb5f6dc9850b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 16/73] fix: dataset views select policy states and mask among
 the stored samples, not the whole buffer

---
 mushroom_rl/core/_impl/numpy_dataset.py | 12 ++++++------
 mushroom_rl/core/_impl/torch_dataset.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..8399610 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..33c1bcb 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
-- 
2.43.0


From c635a94f2f98ac54b84a536d18fc40b877012b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 17/73] fix: negative indices of a dataset address the stored
 samples, not the end of the buffer

---
 mushroom_rl/core/_impl/numpy_dataset.py | 4 ++--
 mushroom_rl/core/_impl/torch_dataset.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8399610..ac1db93 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -197,8 +197,8 @@ class NumpyDataset(Serializable):
         return view
 
     def __getitem__(self, index):
-        return self._states[index], self._actions[index], self._rewards[index], self._next_states[index], \
-               self._absorbing[index], self._last[index]
+        return self.state[index], self.action[index], self.reward[index], self.next_state[index], \
+               self.absorbing[index], self.last[index]
 
     def __add__(self, other):
         result = self.create_new_instance(self)
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 33c1bcb..5dd6864 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -197,8 +197,8 @@ class TorchDataset(Serializable):
         return view
 
     def __getitem__(self, index):
-        return self._states[index], self._actions[index], self._rewards[index], self._next_states[index], \
-               self._absorbing[index], self._last[index]
+        return self.state[index], self.action[index], self.reward[index], self.next_state[index], \
+               self.absorbing[index], self.last[index]
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-- 
2.43.0


From 3540800cd406bdf0ad0dbe490a421ea3d7e9786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 18/73] fix: copies of extra info keep the already parsed
 storage

---
 mushroom_rl/core/extra_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..dc335f3 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -210,6 +210,7 @@ class ExtraInfo(Serializable, UserDict):
         info._storage = self._storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
+        info._structured_storage = self._structured_storage.copy()
         info.data = self.data.copy()
             
         return info
-- 
2.43.0


From 5ce6208bdf8a709099179b364036f8d2211e8a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:42 +0000
Subject: [PATCH 19/73] fix: extra info parses steps that introduce new keys
 after a previous parse

---
 mushroom_rl/core/extra_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index dc335f3..d4843c3 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -78,7 +78,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
-- 
2.43.0


From c614aa0fa455799a9fb0ebf1ad8f5f795b16955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 20/73] fix: adding extra infos keeps the steps of the first
 before those of the second

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index d4843c3..8a739c6 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -135,6 +135,9 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        if self._storage and other._structured_storage:
+            self.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage + other._storage
 
-- 
2.43.0


From 0c7eebdd24fe3899cd3e8cdcf04d2998766f0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 21/73] fix: flattening a vectorized dataset does not mark its
 stored samples as last

---
 mushroom_rl/core/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 4827cc1..fe82e84 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -600,7 +600,7 @@ class VectorizedDataset(Dataset):
         next_states = self._array_backend.pack_padded_sequence(self._data.next_state, self._data.mask)
         absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, self._data.mask)
 
-        last_padded = self._data.last
+        last_padded = self._array_backend.copy(self._data.last)
         last_padded[-1, :] = True
         lasts = self._array_backend.pack_padded_sequence(last_padded, self._data.mask)
 
-- 
2.43.0


From cce1a1c2b77aacb788e14a0fffe4f1ef34ba1815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 22/73] fix: flattened vectorized datasets hold one info per
 sample

---
 mushroom_rl/core/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index fe82e84..9155d62 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -626,6 +626,8 @@ class VectorizedDataset(Dataset):
         flat_theta_list = self._flatten_theta_list()
 
         flat_info = self._info.flatten(self.mask)
+        if n_steps_per_fit is not None:
+            flat_info = flat_info.get_view(slice(n_steps_per_fit))
         flat_episode_info = self._episode_info.flatten(self.mask)
 
         return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
-- 
2.43.0


From 369f3c9be985731f556dc93b36be4f2248cb7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:01 +0000
Subject: [PATCH 23/73] fix: list datasets keep policy states and mask in
 clear, views and sums

---
 mushroom_rl/core/_impl/list_dataset.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..5ea1dcb 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
@@ -73,23 +73,28 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
         if isinstance(index, (int, slice)):
             view._dataset = self._dataset[index]
+            view._policy_dataset = self._policy_dataset[index]
         else:
             view._dataset = [self._dataset[i] for i in index]
+            view._policy_dataset = [self._policy_dataset[i] for i in index] if self._is_stateful else list()
 
         if self._mask is not None:
             if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
+                view._mask = self._mask[index]
             else:
                 view._mask = [self._mask[i] for i in index]
 
         if copy:
-            return view.copy()
+            return deepcopy(view)
         else:
             return view
 
@@ -100,8 +105,7 @@ class ListDataset(Serializable):
         result = self.create_new_instance(self)
         last_step = self._dataset[-1]
         modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
-        result._dataset = self._dataset + other._dataset
+        result._dataset = self._dataset[:-1] + [modified_last_step] + other._dataset
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
@@ -132,11 +136,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
@@ -154,9 +158,9 @@ class ListDataset(Serializable):
     def n_episodes(self):
         n_episodes = 0
         for sample in self._dataset:
-            if sample[5] is True:
+            if sample[5]:
                 n_episodes += 1
-        if self._dataset[-1][5] is not True:
+        if not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
-- 
2.43.0


From f22e4b5fae295599eb294687195550254b408ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 24/73] fix: recurrent PPO keeps its truncation length when
 saved and loaded

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 7616c24..1c28c73 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,7 +67,8 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
-            _dim_env_state='primitive'
+            _dim_env_state='primitive',
+            _truncation_length='primitive'
         )
 
     def fit(self, dataset):
-- 
2.43.0


From b85b6aad6f7304f2269911dea1126fec206bc6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 25/73] fix: MORE keeps its features and surrogate models when
 saved and loaded

---
 .../algorithms/policy_search/black_box_optimization/more.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..f6a6fa2 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -54,7 +54,11 @@ class MORE(BlackBoxOptimization):
         self._add_save_attr(
             eps='primitive',
             h0='primitive',
-            kappa='primitive'
+            kappa='primitive',
+            phi_quadratic_='pickle',
+            regressor_quadratic='mushroom',
+            phi_linear_='pickle',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From de9800d41827b03b38790318e51edc38849ffa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 26/73] fix: regressors keep their loss file name when saved
 and loaded

---
 mushroom_rl/approximators/regressor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/regressor.py b/mushroom_rl/approximators/regressor.py
index 1076042..0e0865b 100644
--- a/mushroom_rl/approximators/regressor.py
+++ b/mushroom_rl/approximators/regressor.py
@@ -83,7 +83,8 @@ class Regressor(Serializable):
             n_actions='primitive',
             _n_models='primitive',
             _impl='mushroom',
-            _logger='none'
+            _logger='none',
+            _loss_filename='primitive'
         )
 
     def __call__(self, *z, **predict_params):
-- 
2.43.0


From 239dfff1924c0e5f79e903224101642228cfc7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 27/73] fix: ExtraInfo keeps its number of environments,
 backend and device when saved and loaded

---
 mushroom_rl/core/extra_info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 8a739c6..c742ad0 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -260,7 +260,10 @@ class ExtraInfo(Serializable, UserDict):
             _storage='primitive',
             _structured_storage='primitive',
             _key_mapping='primitive',
-            _shape_mapping='primitive'
+            _shape_mapping='primitive',
+            _n_envs='primitive',
+            _array_backend='primitive',
+            _device='primitive'
         )
 
     def _update_key_mapping(self, template, single_env):
-- 
2.43.0


From c65e2e9937602fb1c04ba7dc86a738d2ef4ef70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 28/73] fix: list and torch datasets keep their mask, torch
 datasets the type of policy states, when saved and loaded

---
 mushroom_rl/core/_impl/list_dataset.py  | 1 +
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 5ea1dcb..45cfa9b 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -169,6 +169,7 @@ class ListDataset(Serializable):
         self._add_save_attr(
             _dataset='pickle',
             _policy_dataset='pickle',
+            _mask='pickle',
             _is_stateful='primitive'
         )
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 5dd6864..9ea7e83 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -282,7 +282,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
-- 
2.43.0


From b1d23d47319baa581335b252f7cd0b4389c173a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 29/73] fix: Adam keeps its epsilon when saved and loaded

---
 mushroom_rl/rl_utils/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..47335f0 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -147,6 +147,7 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
-- 
2.43.0


From ef438c22ff7e07b0fae2a1365fb7ce49b7ca19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 30/73] fix: dataset info keeps its device when saved and
 loaded

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 9155d62..a58a30a 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
-- 
2.43.0


From 90e3350f7e6dd16273f28d8c6569036709a3a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 31/73] fix: quantile loss takes its quantile midpoints from
 the prediction instead of the last created agent

---
 mushroom_rl/algorithms/value/dqn/quantile_dqn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
index 7a96e61..45f1787 100644
--- a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
@@ -11,7 +11,10 @@ from mushroom_rl.approximators.parametric import NumpyTorchApproximator
 
 
 def quantile_huber_loss(input, target):
-    tau = QuantileDQN.tau_hat.repeat(input.shape[0], 1)
+    n_quantiles = input.shape[-1]
+    tau_edges = torch.arange(n_quantiles + 1) / n_quantiles
+    tau = torch.Tensor([(tau_edges[i-1] + tau_edges[i]) / 2 for i in range(1, len(tau_edges))])
+    tau = tau.to(input.device).repeat(input.shape[0], 1)
 
     target = target.t().unsqueeze(-1).repeat(1, 1, tau.shape[-1])
     input = input.repeat(tau.shape[-1], 1, 1)
@@ -88,9 +91,6 @@ class QuantileDQN(AbstractDQN):
 
         self._n_quantiles = n_quantiles
 
-        tau = torch.arange(n_quantiles + 1) / n_quantiles
-        QuantileDQN.tau_hat = torch.Tensor([(tau[i-1] + tau[i]) / 2 for i in range(1, len(tau))])
-
         self._add_save_attr(
             _n_quantiles='primitive'
         )
-- 
2.43.0


From e1ac9188b2f55327236be68651885d4153552052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 32/73] fix: ePPO optimizes the loaded distribution after
 loading

---
 .../algorithms/policy_search/black_box_optimization/eppo.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..6f946a1 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -3,6 +3,7 @@ import torch
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class ePPO(BlackBoxOptimization):
@@ -74,3 +75,7 @@ class ePPO(BlackBoxOptimization):
             context_i = None
 
         return theta_i, context_i, Jep_i, old_dist_i
+
+    def _post_load(self):
+        if self._optimizer is not None:
+            TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
-- 
2.43.0


From 54de49d26ea8f46bcd568d478a3533e0668ac8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:52 +0000
Subject: [PATCH 33/73] fix: COPDAC-Q keeps updating the mean of its policy
 after loading

---
 .../actor_critic/classic_actor_critic/copdac_q.py           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..c6a805e 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -29,6 +29,7 @@ class COPDAC_Q(Agent):
 
         """
         self._mu = mu
+        self._is_policy_mean = getattr(policy, '_approximator', None) is mu
         self._psi = value_function_features
 
         self._alpha_theta = to_parameter(alpha_theta)
@@ -49,6 +50,7 @@ class COPDAC_Q(Agent):
 
         self._add_save_attr(
             _mu='mushroom',
+            _is_policy_mean='primitive',
             _psi='pickle',
             _alpha_theta='mushroom',
             _alpha_omega='mushroom',
@@ -97,3 +99,7 @@ class COPDAC_Q(Agent):
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
+
+    def _post_load(self):
+        if self._is_policy_mean:
+            self._mu = self.policy._approximator
-- 
2.43.0


From d31079cdbcd5bba9985d83ec4868a5e08a70cb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 34/73] fix: min-max preprocessing leaves the given observation
 untouched

---
 mushroom_rl/rl_utils/preprocessors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..2107304 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -128,10 +128,12 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         )
 
     def __call__(self, obs):
-        orig_obs = self._array_backend.copy(obs)
+        orig_obs = obs
 
         if self._run_norm_obs:
             obs = super(MinMaxPreprocessor, self).__call__(obs)
+        else:
+            obs = self._array_backend.copy(obs)
 
         obs[self._obs_mask] = \
             ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
-- 
2.43.0


From 09600349e361533d894602c4c12592bc46347ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 35/73] fix: min-max preprocessing counts the bounded
 observations instead of adding up their indices

---
 mushroom_rl/rl_utils/preprocessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 2107304..97fbe3f 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -109,10 +109,10 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._obs_mask = self._array_backend.concatenate(self._obs_mask)
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
+        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
                                          "you should use StandardizationPreprocessor instead."
 
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
-- 
2.43.0


From 621abaf77975275ebc613b34336decc41b1cd3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 36/73] fix: gradient descent optimizers do not negate the
 gradient of the caller

---
 mushroom_rl/rl_utils/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index 47335f0..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -153,7 +153,7 @@ class AdamOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From aaac78a984871bc96d1527cf7cc392f208201f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 37/73] fix: GPOMDP does not carry rewards of an unfinished
 episode over to the next fit

---
 mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
index bf2acd6..736fd11 100644
--- a/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
+++ b/mushroom_rl/algorithms/policy_search/policy_gradient/gpomdp.py
@@ -99,4 +99,5 @@ class GPOMDP(PolicyGradient):
     def _init_update(self):
         self.sum_d_log_pi = np.zeros(self.policy.weights_size)
         self.list_sum_d_log_pi = list()
+        self.list_reward = list()
         self.step_count = 0
-- 
2.43.0


From 70c2a050587e938b6e2ac49b21919deb08c4a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 38/73] fix: vectorized black box optimization works without
 context and selects contexts once

---
 .../black_box_optimization/black_box_optimization.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..8733444 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,11 +64,13 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
+            context = self._context_builder(initial_states, **episode_info)
+            if context is not None:
+                context = context[start_mask]
 
             if self._deterministic:
                 if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
+                    theta[start_mask] = self.distribution.mean(context)
                 else:
                     theta[start_mask] = self._agent_backend.from_list(
                         [self.distribution.mean() for _ in range(start_mask.sum())])
-- 
2.43.0


From af39890e058188eae92e5e11403b37cf1e1dda66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 39/73] fix: ePPO computes the old log density with the context
 of each sample

---
 .../algorithms/policy_search/black_box_optimization/eppo.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 6f946a1..2d95970 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -47,7 +47,7 @@ class ePPO(BlackBoxOptimization):
 
         Jep = (Jep - J_mean) / (J_std + 1e-8)
 
-        old_dist = self.distribution.log_pdf(theta).detach()
+        old_dist = self.distribution.log_pdf(theta, context).detach()
 
         if self.distribution.is_contextual:
             full_batch = (theta, Jep, old_dist, context)
-- 
2.43.0


From 908310c4f677c003ffe317fbf29cd46d38181892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 40/73] fix: PGPE uses for each sample its own context

---
 .../algorithms/policy_search/black_box_optimization/pgpe.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
index 66054c0..f2f1578 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/pgpe.py
@@ -34,7 +34,9 @@ class PGPE(BlackBoxOptimization):
             J_i = Jep[i]
             theta_i = theta[i]
 
-            diff_log_dist = self.distribution.diff_log(theta_i, context)
+            context_i = context[i] if context is not None else None
+
+            diff_log_dist = self.distribution.diff_log(theta_i, context_i)
             diff_log_dist2 = diff_log_dist**2
 
             diff_log_dist_list.append(diff_log_dist)
-- 
2.43.0


From 0b1d0c886d089e9a3750149822de05c67acd6453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 41/73] fix: inverted pendulum, cart pole and segway do not
 alter the state passed to reset

---
 mushroom_rl/environments/cart_pole.py         | 2 +-
 mushroom_rl/environments/inverted_pendulum.py | 2 +-
 mushroom_rl/environments/segway.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/cart_pole.py b/mushroom_rl/environments/cart_pole.py
index 2111cdd..658782b 100644
--- a/mushroom_rl/environments/cart_pole.py
+++ b/mushroom_rl/environments/cart_pole.py
@@ -59,7 +59,7 @@ class CartPole(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_u = 0
diff --git a/mushroom_rl/environments/inverted_pendulum.py b/mushroom_rl/environments/inverted_pendulum.py
index df060d4..81e67aa 100644
--- a/mushroom_rl/environments/inverted_pendulum.py
+++ b/mushroom_rl/environments/inverted_pendulum.py
@@ -63,7 +63,7 @@ class InvertedPendulum(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
             self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
 
diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..00bdbc5 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -61,7 +61,7 @@ class Segway(Environment):
 
             self._state = np.array([angle, 0., 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_x = 0
-- 
2.43.0


From e917fc45e3ecfc1243e9de7938478f410a8244c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 42/73] fix: segway observation space has ordered bounds

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 00bdbc5..daeea89 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -36,7 +36,7 @@ class Segway(Environment):
 
         self._random = random_start
 
-        high = np.array([-np.pi / 2, 15, 75])
+        high = np.array([np.pi / 2, 15, 75])
 
         # MDP properties
         dt = 1e-2
-- 
2.43.0


From 30247cc51e214d3ccb4d95073f85a9cfdf604804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 43/73] fix: resetting a gym or gymnasium environment to a
 state sets the state of the underlying environment

---
 mushroom_rl/environments/gym_env.py       | 2 +-
 mushroom_rl/environments/gymnasium_env.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..8894d42 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), {}
 
diff --git a/mushroom_rl/environments/gymnasium_env.py b/mushroom_rl/environments/gymnasium_env.py
index ee42945..2d2fc4f 100644
--- a/mushroom_rl/environments/gymnasium_env.py
+++ b/mushroom_rl/environments/gymnasium_env.py
@@ -89,7 +89,7 @@ class Gymnasium(Environment):
             return np.atleast_1d(state), info
         else:
             _, info = self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), info
 
-- 
2.43.0


From d15f8e6edaeeff2420787758e70d6f1b751cc8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 44/73] fix: gymnasium Atari reset after a lost life returns an
 episode info

---
 mushroom_rl/environments/gymnasium_atari.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 8f52b9c..62a2d11 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -102,6 +102,7 @@ class GymnasiumAtari(Environment):
         super().__init__(mdp_info)
 
     def reset(self, state=None):
+        info = {}
         if self._real_reset:
             state, info = self.env.reset()
             self._state = preprocess_frame(state, self._img_size)
-- 
2.43.0


From 659f7192bdcb60ec64b32820645b8b3481bdb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 45/73] fix: frame skipping of gymnasium Atari follows the five
 values step interface

---
 mushroom_rl/environments/gymnasium_atari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 62a2d11..ce175d8 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -22,7 +22,7 @@ class MaxAndSkip(gym.Wrapper):
     def step(self, action):
         total_reward = 0.
         for i in range(self._skip):
-            obs, reward, absorbing, _, info = self.env.step(action)
+            obs, reward, absorbing, truncated, info = self.env.step(action)
             if i == self._skip - 2:
                 self._obs_buffer[0] = obs
             if i == self._skip - 1:
@@ -35,7 +35,7 @@ class MaxAndSkip(gym.Wrapper):
         else:
             frame = self._obs_buffer.mean(axis=0)
 
-        return frame, total_reward, absorbing, info
+        return frame, total_reward, absorbing, truncated, info
 
     def reset(self, **kwargs):
         return self.env.reset(**kwargs)
-- 
2.43.0


From 729c4cb1e4a2349afbc6b4b16c94f91b89fa504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 46/73] fix: workers of the multiprocess environment reset to
 the whole given state

---
 mushroom_rl/core/multiprocess_environment.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..cc09853 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,8 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                init_state = data
+                res = env.reset(init_state)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
-- 
2.43.0


From 10bda20d1377b684a5c8d9360c17d68bba777e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 47/73] fix: grid files without a trailing newline keep their
 last row

---
 mushroom_rl/environments/generators/grid_world.py | 3 +++
 mushroom_rl/environments/generators/taxi.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mushroom_rl/environments/generators/grid_world.py b/mushroom_rl/environments/generators/grid_world.py
index 1f4a2a3..45d4706 100644
--- a/mushroom_rl/environments/generators/grid_world.py
+++ b/mushroom_rl/environments/generators/grid_world.py
@@ -71,6 +71,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list
 
 
diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 2ef85d6..57799dc 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -83,6 +83,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list, passenger_list
 
 
-- 
2.43.0


From f8abc320644bdd761795e3a3a0d1f0355af1f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 48/73] fix: LQR value function gradient accepts batches of
 states

---
 mushroom_rl/solvers/lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/lqr.py b/mushroom_rl/solvers/lqr.py
index ffd0934..16c4798 100644
--- a/mushroom_rl/solvers/lqr.py
+++ b/mushroom_rl/solvers/lqr.py
@@ -170,7 +170,7 @@ def compute_lqr_V_gaussian_policy_gradient_K(s, lqr, K, Sigma):
 
         dPi = vec_dPi.reshape(Q.shape)
 
-        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1, 1) \
+        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1) \
                    + gamma * np.trace(Sigma @ B.T @ dPi @ B) / (1.0 - gamma)
 
     return -dJ
-- 
2.43.0


From f17320d414a4479096044da9df615ad10314982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 49/73] fix: resetting a multi-model MuJoCo environment returns
 the episode info as well

---
 mushroom_rl/environments/mujoco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..e6c494f 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -688,7 +688,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From 39065a83ee97ccc6e3eddb351b2473ca06ffe436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:22 +0000
Subject: [PATCH 50/73] fix: multi-model MuJoCo environments build and compare
 the observation limits of every model

---
 mushroom_rl/environments/mujoco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e6c494f..96b7c70 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -619,7 +619,7 @@ class MultiMuJoCo(MuJoCo):
 
         # Read the observation spec to build a mapping at every step. It is
         # ensured that the values appear in the order they are specified.
-        self.obs_helpers = [ObservationHelper(observation_spec, self._model, self._data,
+        self.obs_helpers = [ObservationHelper(observation_spec, m, d,
                                               max_joint_velocity=max_joint_vel)
                             for m, d in zip(self._models, self._datas)]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
@@ -628,7 +628,7 @@ class MultiMuJoCo(MuJoCo):
 
         # multi envs with different obs limits are now allowed, do sanity check
         for oh in self.obs_helpers:
-            low, high = self.obs_helper.get_obs_limits()
+            low, high = oh.get_obs_limits()
             if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
                 raise ValueError("The provided environments differ in the their observation limits. "
                                  "This is not allowed.")
-- 
2.43.0


From 43f84a7718dc33ac35dfb97262d0953ace204132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:39 +0000
Subject: [PATCH 51/73] fix: the given timestep is set in every model of a
 multi-model MuJoCo environment

---
 mushroom_rl/environments/mujoco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 96b7c70..3634fd7 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -587,7 +587,8 @@ class MultiMuJoCo(MuJoCo):
         self._current_model_idx = 0
         self._model = self._models[self._current_model_idx]
         if timestep is not None:
-            self._model.opt.timestep = timestep
+            for m in self._models:
+                m.opt.timestep = timestep
             self._timestep = timestep
         else:
             self._timestep = self._model.opt.timestep
-- 
2.43.0


From cff58a6b8917e7b3fc75d2e6b7908cfff691d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:15 +0000
Subject: [PATCH 52/73] fix: vectorized evaluation starts every episode from
 its own initial state

---
 mushroom_rl/core/_impl/vectorized_core_logic.py | 15 ++++++++++-----
 mushroom_rl/core/vectorized_core.py             |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 24ec612..eaa6e6b 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -44,11 +44,16 @@ class VectorizedCoreLogic(CoreLogic):
 
         return mask
 
-    def get_initial_state(self, initial_states):
-        if initial_states is None or self._total_episodes_counter >= self._n_episodes:
-            initial_state = None
-        else:
-            initial_state = initial_states[self._total_episodes_counter]  # FIXME
+    def get_initial_state(self, initial_states, reset_mask):
+        if initial_states is None:
+            return None
+
+        running_episodes = (self._running_envs & ~reset_mask).sum().item()
+        start = self._total_episodes_counter + running_episodes
+        end = start + reset_mask.sum().item()
+
+        initial_state = self._array_backend.zeros(self._n_envs, *initial_states.shape[1:], dtype=initial_states.dtype)
+        initial_state[reset_mask] = initial_states[start:end]
 
         return initial_state
 
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 8e89cf6..7d6872c 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -181,7 +181,7 @@ class VectorCore(object):
         """
         reset_mask = last & mask
             
-        initial_state = self._core_logic.get_initial_state(initial_states)
+        initial_state = self._core_logic.get_initial_state(initial_states, reset_mask)
 
         state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
-- 
2.43.0


From aa9fee5a751e18eb0d4a2e267421b95981172d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:21 +0000
Subject: [PATCH 53/73] fix: resetting some vectorized environments leaves the
 preprocessed states of the running ones unchanged

---
 mushroom_rl/core/vectorized_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 7d6872c..db42bfd 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -191,7 +191,10 @@ class VectorCore(object):
         elif reset_mask.any():
             self._policy_state[reset_mask] = policy_state[reset_mask]
 
-        self._state = self._preprocess(state)
+        state = self._preprocess(state)
+        if self._state is not None:
+            state[~reset_mask] = self._state[~reset_mask]
+        self._state = state
         self.agent.next_action = None
 
         if self._episode_steps is None:
-- 
2.43.0


From 892ffcc8397a058638f6d46d6e45824c387b3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:46 +0000
Subject: [PATCH 54/73] fix: vectorized recording gives every recorder the
 frame of its own environment

---
 mushroom_rl/core/vectorized_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index db42bfd..ff8ebfe 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -160,9 +160,10 @@ class VectorCore(object):
             frames = self.env.render_all(mask, record=record)
 
             if record:
+                frames = iter(frames)
                 for i in range(self.env.number):
                     if mask[i]:
-                        self._record[i](frames[i])
+                        self._record[i](next(frames))
 
         last = absorbing | (self._episode_steps >= self.env.info.horizon)
 
-- 
2.43.0


From bf91c0633ec0658cb5896f0f8d74466ac0d24917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:46 +0000
Subject: [PATCH 55/73] fix: Isaac environments are reset also when a single
 one of them ended

---
 mushroom_rl/environments/isaac_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/isaac_env.py b/mushroom_rl/environments/isaac_env.py
index ec94f15..455ba6d 100644
--- a/mushroom_rl/environments/isaac_env.py
+++ b/mushroom_rl/environments/isaac_env.py
@@ -85,8 +85,8 @@ class IsaacEnv(VectorizedEnvironment):
         return set_seed(seed)
 
     def reset_all(self, env_mask, state=None):
-        idxs = torch.argwhere(env_mask).squeeze()  # .cpu().numpy()  # takes torch datatype 
-        if idxs.dim() > 0:  # only resets task for tensor with actual dimension
+        idxs = torch.argwhere(env_mask).squeeze(1)  # .cpu().numpy()  # takes torch datatype
+        if idxs.shape[0] > 0:  # only resets task if there is something to reset
             self._task.reset_idx(idxs)
         # self._world.step(render=self._render) # TODO Check if we can do otherwise
         task_obs = self._task.get_observations()
-- 
2.43.0


From d7eb5492806bda8125dac9eb1c276087df196550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 56/73] fix: dueling networks without averaged advantages
 compute values

---
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 35d7880..b3c58be 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -36,7 +36,7 @@ class DuelingNetwork(nn.Module):
         if self._avg_advantage:
             q -= advantage.mean(1).reshape(-1, 1)
         else:
-            q -= advantage.max(1).reshape(-1, 1)
+            q -= advantage.max(1)[0].reshape(-1, 1)
 
         if action is None:
             return q
-- 
2.43.0


From d4804643716350258c9663b613eb527fa7246d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 57/73] fix: ProMP draws actions from the phase of its policy
 state and leaves that state unchanged

---
 mushroom_rl/policy/promps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..49d5a01 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -46,17 +46,17 @@ class ProMP(ParametricPolicy):
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
+    def __call__(self, state, action, policy_state):
+        z = self._compute_phase(state, policy_state)
         mu = self._approximator(self._phi(z))
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.all(mu == action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
+        z = self._compute_phase(state, policy_state)
 
         mu = self._approximator(self._phi(z))
 
@@ -75,7 +75,7 @@ class ProMP(ParametricPolicy):
             state (np.ndarray): The current state of the system.
 
         """
-        policy_state += 1
+        policy_state = policy_state + 1
 
         if not self._periodic and policy_state >= self._duration:
             policy_state = self._duration
-- 
2.43.0


From a3f11a9cf70072b127de5a4acec749ae4edeedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 58/73] fix: DMP follows the policy interface and returns
 actions that later draws do not change

---
 mushroom_rl/policy/dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..9aefb43 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -12,6 +12,8 @@ class DMP(ParametricPolicy):
 
     """
     def __init__(self, mu, phi, goal, dt, tau, alpha_v, beta_v, alpha_z, beta_z):
+        super().__init__()
+
         self._approximator = mu
         self._phi = phi
 
@@ -48,13 +50,13 @@ class DMP(ParametricPolicy):
             _y='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state=None):
+        return 1.0 if np.allclose(self._y, action) else 0.0
 
-    def draw_action(self, state):
+    def draw_action(self, state, policy_state=None):
         self.update_system(state)
 
-        return self._y
+        return self._y.copy(), None
 
     def set_goal(self, goal):
         self._g = goal
-- 
2.43.0


From be2e44ccdcb9448beb9f33d64a8e385c1690be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 59/73] fix: tensor features work with a single feature

---
 mushroom_rl/features/_implementations/torch_features.py | 2 +-
 mushroom_rl/features/tensors/basis_tensor.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/features/_implementations/torch_features.py b/mushroom_rl/features/_implementations/torch_features.py
index 7129903..5e8de0b 100644
--- a/mushroom_rl/features/_implementations/torch_features.py
+++ b/mushroom_rl/features/_implementations/torch_features.py
@@ -15,7 +15,7 @@ class TorchFeatures(FeaturesImplementation):
         x = TorchUtils.to_float_tensor(np.atleast_2d(x))
 
         y_list = [self._phi[i].forward(x) for i in range(len(self._phi))]
-        y = torch.cat(y_list, 1).squeeze()
+        y = torch.cat(y_list, 1)
 
         y = y.detach().cpu().numpy()
 
diff --git a/mushroom_rl/features/tensors/basis_tensor.py b/mushroom_rl/features/tensors/basis_tensor.py
index 1f72131..5abe711 100644
--- a/mushroom_rl/features/tensors/basis_tensor.py
+++ b/mushroom_rl/features/tensors/basis_tensor.py
@@ -45,9 +45,9 @@ class GenericBasisTensor(nn.Module):
         phi = self._basis_function(delta, self._scale)
 
         if self._normalized:
-            return self._normalize(phi).squeeze(-1)
+            return self._normalize(phi)
         else:
-            return phi.squeeze(-1)
+            return phi
 
     def _basis_function(self, delta, scale):
         raise NotImplementedError
-- 
2.43.0


From 95518004c400ebc30494e5f06aa438e9586898d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 60/73] fix: tiles never return an index beyond the tiling

---
 mushroom_rl/features/tiles/tiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/tiles.py b/mushroom_rl/features/tiles/tiles.py
index ba7b81b..8d2c766 100644
--- a/mushroom_rl/features/tiles/tiles.py
+++ b/mushroom_rl/features/tiles/tiles.py
@@ -53,7 +53,7 @@ class Tiles:
         for i, (r, N) in enumerate(zip(self._range, self._n_tiles)):
             if r[0] <= x[i] < r[1]:
                 width = r[1] - r[0]
-                component_index = int(np.floor(N * (x[i] - r[0]) / width))
+                component_index = min(int(np.floor(N * (x[i] - r[0]) / width)), N - 1)
                 tile_index += component_index * multiplier
                 multiplier *= N
             else:
-- 
2.43.0


From b03bf57d00fda513f5f019d5eb8e8524054f7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 61/73] fix: number of Gaussian Voronoi tilings follows the
 dimension of the space

---
 mushroom_rl/features/tiles/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/voronoi.py b/mushroom_rl/features/tiles/voronoi.py
index 05e4508..b061ca4 100644
--- a/mushroom_rl/features/tiles/voronoi.py
+++ b/mushroom_rl/features/tiles/voronoi.py
@@ -62,7 +62,7 @@ class VoronoiTiles:
         assert n_tilings > 0 or n_tilings == -1
 
         if n_tilings == -1:
-            d = np.size(low)  # space-dim
+            d = np.size(low) if uniform else np.size(mu)  # space-dim
             m = np.max([np.ceil(np.log(4 * d) / np.log(2)),
                         np.ceil(np.log(n_prototypes) / np.log(2))])
             n_tilings = int(m**2)
-- 
2.43.0


From 8991923beb415f0a35776a8d482e88fe86a577a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 62/73] fix: clearing a numpy vectorized dataset keeps only the
 steps beyond the fit

---
 mushroom_rl/core/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index a58a30a..f1775c6 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -577,7 +577,8 @@ class VectorizedDataset(Dataset):
                 residual_data = self._data.get_view(view_size, copy=True)
                 mask = residual_data.mask
                 original_shape = mask.shape
-                mask.flatten()[n_extra_steps:] = False
+                mask = mask.flatten()
+                mask[n_extra_steps:] = False
                 residual_data.mask = mask.reshape(original_shape)
 
                 residual_info = self._info.get_view(view_size, copy=True)
-- 
2.43.0


From c17d3344a85081039f929fc2cb16d0540bf5ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 63/73] fix: appending loggers continue exactly the arrays of
 their own suffix

---
 mushroom_rl/core/logger/data_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..a0dd91f 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -1,4 +1,3 @@
-import re
 import pickle
 import numpy as np
 
@@ -126,6 +125,6 @@ class DataLogger(object):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
                 if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
+                    name = file.stem[:len(file.stem) - len(self._suffix)]
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
-- 
2.43.0


From 1ec4d190fe44c20137849e3e87f48e27f81c0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 64/73] fix: numerical differentiation of a function at integer
 parameters

---
 mushroom_rl/utils/numerical_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/numerical_gradient.py b/mushroom_rl/utils/numerical_gradient.py
index b1d6561..021eccc 100644
--- a/mushroom_rl/utils/numerical_gradient.py
+++ b/mushroom_rl/utils/numerical_gradient.py
@@ -85,7 +85,7 @@ def numerical_diff_function(function, params, eps=1e-6):
 
     """
 
-    g = np.zeros_like(params)
+    g = np.zeros_like(params, dtype=float)
     n_params = len(params)
 
     for i in range(n_params):
-- 
2.43.0


From 29dd38f1fbc5292c38fe44c6d9a9dab8512d241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 65/73] fix: dataset collection can be cleaned before any data
 is collected

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From 6d026569555f21ac48172a950a3b6862e03375b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 66/73] fix: a video recorder can be stopped before any frame
 is recorded

---
 mushroom_rl/utils/record.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/utils/record.py b/mushroom_rl/utils/record.py
index 2ffa000..fd34ae3 100644
--- a/mushroom_rl/utils/record.py
+++ b/mushroom_rl/utils/record.py
@@ -64,6 +64,7 @@ class VideoRecorder(object):
 
     def stop(self):
         cv2.destroyAllWindows()
-        self._video_writer.release()
-        self._video_writer = None
-        self._counter += 1
+        if self._video_writer is not None:
+            self._video_writer.release()
+            self._video_writer = None
+            self._counter += 1
-- 
2.43.0


From f1bf7cae56d97b9cf3fc94524699e62a7b84304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 67/73] fix: air hockey joint position constraints are computed
 from the joint positions

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 27308b0..41b8bfc 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -140,8 +140,8 @@ class AirHockeyDouble(AirHockeyBase):
 
             # joint_pos_constraint: stay within the robots joint position limits
             constraints[key]["joint_pos_constraints"] = np.zeros(6)
-            constraints[key]["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
-            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_vel
+            constraints[key]["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
+            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_pos
 
             # joint_vel_constraint: stay within the robots joint velocity limits
             constraints[key]["joint_vel_constraints"] = np.zeros(6)
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index 5d138a9..a7c4566 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -125,8 +125,8 @@ class AirHockeySingle(AirHockeyBase):
 
         # joint_pos_constraint: stay within the robots joint position limits
         constraints["joint_pos_constraints"] = np.zeros(6)
-        constraints["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1]
-        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_vel
+        constraints["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1]
+        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_pos
 
         # joint_vel_constraint: stay within the robots joint velocity limits
         constraints["joint_vel_constraints"] = np.zeros(6)
-- 
2.43.0


From b4e4f0aba2ec843b56da11cf043c79887b6ba52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 68/73] fix: double air hockey tracks the hits and the end
 effector of its second robot

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 41b8bfc..ddc729a 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -60,9 +60,9 @@ class AirHockeyDouble(AirHockeyBase):
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
-        ee_pos = self._read_data("planar_robot_" + str(robot) + "/ee_pos")
+        ee_pos = self._read_data("robot_" + str(robot) + "/ee_pos")
 
-        ee_vel = self._read_data("planar_robot_" + str(robot) + "/ee_vel")
+        ee_vel = self._read_data("robot_" + str(robot) + "/ee_vel")
 
         return ee_pos, ee_vel
 
@@ -106,7 +106,7 @@ class AirHockeyDouble(AirHockeyBase):
             self.robot_1_hit = self._check_collision("puck", "robot_1/ee")
 
         if not self.robot_2_hit:
-            self.robot_2_hit = self._check_collision("puck", "robot_1/ee")
+            self.robot_2_hit = self._check_collision("puck", "robot_2/ee")
 
         if not self.has_bounce:
             self.has_bounce = self._check_collision("puck", "rim_short_sides")
-- 
2.43.0


From b97cb03cbc011555c4477ed4ac3ff8588e967857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 69/73] fix: air hockey linear puck velocity is the linear part
 of the puck joint velocity

---
 mushroom_rl/environments/mujoco_envs/air_hockey/base.py   | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
index 020f81c..5616ea4 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
@@ -151,8 +151,8 @@ class AirHockeyBase(MuJoCo):
             rot_mat = robot_frame[:3, :3]
 
             vel_lin = np.zeros(3)
-            vel_lin[:2] = puck_in[1:]
+            vel_lin[:2] = puck_in[:2]
 
             vel_target = rot_mat.T @ vel_lin
 
-            puck_in[1:] = vel_target[:2]
+            puck_in[:2] = vel_target[:2]
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index ddc729a..266f56b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -55,8 +55,8 @@ class AirHockeyDouble(AirHockeyBase):
 
     def get_puck(self, obs):
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index a7c4566..5a636d6 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -53,8 +53,8 @@ class AirHockeySingle(AirHockeyBase):
 
         """
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self):
-- 
2.43.0


From 25e833baf162ab91f2f65bec116b0f5d7a1954c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 70/73] fix: bullet air hockey declares the simulated time step

---
 mushroom_rl/environments/pybullet_envs/air_hockey/double.py | 2 +-
 mushroom_rl/environments/pybullet_envs/air_hockey/single.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index 56aac56..e07777f 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -48,7 +48,7 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
         obs_high[11:13] = [1, 0.5]
         observation_space = Box(low=obs_low, high=obs_high)
 
-        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon)
+        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)
 
 
     def _create_observation(self, state):
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index 3e61828..c3546f4 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -45,7 +45,7 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         obs_low[0:2] = [-1, -0.5]
         obs_high[0:2] = [1, 0.5]
         observation_space = Box(low=obs_low, high=obs_high)
-        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon)
+        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)
 
     def _create_observation(self, state):
         puck_pose = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_POS)
-- 
2.43.0


From 89a867f6eef694cabcb05848a29c3758222a24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:35 +0000
Subject: [PATCH 71/73] fix: bullet air hockey noise and delay options work

---
 mushroom_rl/environments/pybullet_envs/air_hockey/base.py  | 2 +-
 .../environments/pybullet_envs/air_hockey/double.py        | 7 +++----
 .../environments/pybullet_envs/air_hockey/single.py        | 5 ++---
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
index dfd7462..3576770 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
@@ -137,7 +137,7 @@ class AirHockeyBaseBullet(PyBullet):
     def _simulation_pre_step(self):
         if self.env_noise:
             force = np.concatenate([np.random.randn(2), [0]]) * 0.0005
-            self._client.applyExternalForce(self._model_map['puck']['id'], -1, force, [0., 0., 0.],
+            self._client.applyExternalForce(self._model_map['puck'], -1, force, [0., 0., 0.],
                                             self._client.WORLD_FRAME)
 
     def is_absorbing(self, state):
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index e07777f..2ccec26 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -64,7 +64,6 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
 
             if self.obs_noise:
                 puck_pose_2d[:2] += np.random.randn(2) * 0.001
-                puck_pose_2d[2] += np.random.randn(1) * 0.001
 
             puck_lin_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)
             puck_ang_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_ANG_VEL)
@@ -78,10 +77,10 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
             robot_vel[2] = self.get_sim_state(state, self.agents[i]['name'] + "/joint_3",
                                               PyBulletObservationType.JOINT_VEL)
 
-            if self.obs_delay:
+            if self.obs_delay and self.obs_prev is not None:
                 alpha = 0.5
-                puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[i][3:6]
-                robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[i][9:12]
+                puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[i * 11 + 2:i * 11 + 5]
+                robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[i * 11 + 8:i * 11 + 11]
 
             obs[i * 11:(i+1) * 11] = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
         self.obs_prev = obs
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index c3546f4..c0dd019 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -58,7 +58,6 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
 
         if self.obs_noise:
             puck_pose_2d[:2] += np.random.randn(2) * 0.001
-            puck_pose_2d[2] += np.random.randn(1) * 0.001
 
         puck_lin_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)
         puck_ang_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_ANG_VEL)
@@ -72,9 +71,9 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         robot_vel[2] = self.get_sim_state(state, self.agents[0]['name'] + "/joint_3",
                                           PyBulletObservationType.JOINT_VEL)
 
-        if self.obs_delay:
+        if self.obs_delay and self.obs_prev is not None:
             alpha = 0.5
-            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:6]
+            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:5]
             robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[8:11]
 
         self.obs_prev = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
-- 
2.43.0


From 77a4eac6d6800dc591b8630c22520941074a5cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:14 +0000
Subject: [PATCH 72/73] fix: the rim collision group of the MuJoCo air hockey
 table contains every rim

---
 mushroom_rl/environments/mujoco_envs/air_hockey/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
index 5616ea4..358ce6b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
@@ -41,7 +41,7 @@ class AirHockeyBase(MuJoCo):
                            ("puck_vel", "puck", ObservationType.JOINT_VEL)]
 
         collision_spec = [("puck", ["puck"]),
-                          ("rim", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_l", "rim_left", "rim_right"]),
+                          ("rim", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_r", "rim_left", "rim_right"]),
                           ("rim_short_sides", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_r"])]
 
         if 1 <= self.n_agents <= 2:
-- 
2.43.0


From f492e3020f944a42ab285a53dafc37e16af7a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:00 +0000
Subject: [PATCH 73/73] fix: adding n-step returns to a replay memory leaves
 the rewards of the given dataset unchanged

---
 mushroom_rl/rl_utils/replay_memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index eeb4145..2b6b94a 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -61,6 +61,7 @@ class ReplayMemory(Serializable):
         assert self._dataset.is_stateful == dataset.is_stateful
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
+        reward = self._dataset.array_backend.copy(reward)
 
         if self._dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
@@ -316,6 +317,7 @@ class SumTree(Serializable):
         assert np.all(np.array(priority) > 0.0)
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
+        reward = self.dataset.array_backend.copy(reward)
 
         if self.dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
-- 
2.43.0


From 800517714057072310596ecd1defe5654db060a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 01/52] fix: keep PrioritizedEpisodicReplayBuffer transitions
 consistent with its episodes

The flat transition list was bounded and formatted independently of the stored
episodes: sample() returned bare dicts, transitions of discarded episodes
stayed available, and the capacity was forgotten after load().
---
 chainerrl/replay_buffers/prioritized_episodic.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/chainerrl/replay_buffers/prioritized_episodic.py b/chainerrl/replay_buffers/prioritized_episodic.py
index e692cb1..3c17db8 100644
--- a/chainerrl/replay_buffers/prioritized_episodic.py
+++ b/chainerrl/replay_buffers/prioritized_episodic.py
@@ -24,8 +24,8 @@ class PrioritizedEpisodicReplayBuffer (
         self.episodic_memory = PrioritizedBuffer(
             capacity=None,
             wait_priority_after_sampling=wait_priority_after_sampling)
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -57,12 +57,13 @@ class PrioritizedEpisodicReplayBuffer (
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
+            for transition in current_episode:
+                self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and \
+                    len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From 04ad1cb541f0ab68c1e4333a8c42c0fa2e2de00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 02/52] fix: draw unique items when uniform and prioritized
 samples are mixed

With wait_priority_after_sampling=False the uniformly drawn items were put back
before the prioritized draw, so one sample() could return an item twice.
---
 chainerrl/misc/prioritized.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/chainerrl/misc/prioritized.py b/chainerrl/misc/prioritized.py
index 33e8cc6..adc47e0 100644
--- a/chainerrl/misc/prioritized.py
+++ b/chainerrl/misc/prioritized.py
@@ -46,8 +46,7 @@ class PrioritizedBuffer (object):
             # Mix uniform samples and prioritized samples
             n_uniform = np.random.binomial(n, uniform_ratio)
             un_indices, un_priorities = \
-                self.priority_sums.uniform_sample(
-                    n_uniform, remove=self.wait_priority_after_sampling)
+                self.priority_sums.uniform_sample(n_uniform, remove=True)
             indices.extend(un_indices)
             priorities.extend(un_priorities)
             n -= n_uniform
@@ -55,10 +54,12 @@ class PrioritizedBuffer (object):
                 + (1 - uniform_ratio) * min_prob
 
         pr_indices, pr_priorities = \
-            self.priority_sums.prioritized_sample(
-                n, remove=self.wait_priority_after_sampling)
+            self.priority_sums.prioritized_sample(n, remove=True)
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
+        if not self.wait_priority_after_sampling:
+            for i, pri in zip(indices, priorities):
+                self.priority_sums[i] = pri
 
         probs = [
             uniform_ratio / len(self)
-- 
2.43.0


From 1fcb757f8ce9da43e1a230d6f3a8218c808693d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 03/52] fix: use the number of episodes in unnormalized
 episodic sample weights

Probabilities are over episodes, so the importance weights (N * p) ** -beta
need N = number of episodes, not the number of transitions.
---
 chainerrl/replay_buffers/prioritized.py          | 7 +++++--
 chainerrl/replay_buffers/prioritized_episodic.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/chainerrl/replay_buffers/prioritized.py b/chainerrl/replay_buffers/prioritized.py
index bdd2ee5..073582e 100644
--- a/chainerrl/replay_buffers/prioritized.py
+++ b/chainerrl/replay_buffers/prioritized.py
@@ -54,7 +54,10 @@ class PriorityWeightError(object):
 
         return [(_clip_error(d) + self.eps) ** self.alpha for d in errors]
 
-    def weights_from_probabilities(self, probabilities, min_probability):
+    def weights_from_probabilities(self, probabilities, min_probability,
+                                   n_items=None):
+        if n_items is None:
+            n_items = len(self.memory)
         if self.normalize_by_max == 'batch':
             # discard global min and compute batch min
             min_probability = np.min(probabilities)
@@ -62,7 +65,7 @@ class PriorityWeightError(object):
             weights = [(p / min_probability) ** -self.beta
                        for p in probabilities]
         else:
-            weights = [(len(self.memory) * p) ** -self.beta
+            weights = [(n_items * p) ** -self.beta
                        for p in probabilities]
         self.beta = min(1.0, self.beta + self.beta_add)
         return weights
diff --git a/chainerrl/replay_buffers/prioritized_episodic.py b/chainerrl/replay_buffers/prioritized_episodic.py
index 3c17db8..ea38c28 100644
--- a/chainerrl/replay_buffers/prioritized_episodic.py
+++ b/chainerrl/replay_buffers/prioritized_episodic.py
@@ -41,7 +41,8 @@ class PrioritizedEpisodicReplayBuffer (
         if max_len is not None:
             episodes = [random_subseq(ep, max_len) for ep in episodes]
         if self.return_sample_weights:
-            weights = self.weights_from_probabilities(probabilities, min_prob)
+            weights = self.weights_from_probabilities(
+                probabilities, min_prob, n_items=len(self.episodic_memory))
             return episodes, weights
         else:
             return episodes
-- 
2.43.0


From b60e2ee9b071f6d77eee291960765df2a8feff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 04/52] fix: use collections.abc.Iterable, removed from
 collections in Python 3.10

Every agent that unchains recurrent states (A3C, ACER, NSQ, PCL) raised
AttributeError at its first update.
---
 chainerrl/recurrent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 997e59e..952fe36 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -1,6 +1,6 @@
 from abc import ABCMeta
 from abc import abstractmethod
-import collections
+import collections.abc
 import contextlib
 
 import chainer
@@ -8,7 +8,7 @@ import chainer
 
 def unchain_backward(state):
     """Call Variable.unchain_backward recursively."""
-    if isinstance(state, collections.Iterable):
+    if isinstance(state, collections.abc.Iterable):
         for s in state:
             unchain_backward(s)
     elif isinstance(state, chainer.Variable):
-- 
2.43.0


From 732914123cd73f5ec31eb4ae90760d9a3526c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 05/52] fix: restore the initial (empty) LSTM state in
 set_state

state_kept and state_reset left the state of the inner computation in place
when the link had not been used before.
---
 chainerrl/recurrent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 952fe36..2d8fd18 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -118,7 +118,9 @@ def set_state(chain, state):
         if isinstance(link, chainer.links.LSTM):
             c, h = s
             # LSTM.set_state doesn't accept None state
-            if c is not None:
+            if c is None:
+                link.reset_state()
+            else:
                 link.set_state(c, h)
         elif isinstance(link, Recurrent):
             link.set_state(s)
-- 
2.43.0


From c5700170d111ed847830349326b1b6a118f6f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 06/52] fix: restore the recurrent state when a state context
 is left by an exception

The saved state stayed on the stack, which is shared by all models, so the next
context of any model restored the wrong state.
---
 chainerrl/recurrent.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 2d8fd18..8ba23c0 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -78,14 +78,18 @@ class Recurrent(object, metaclass=ABCMeta):
     @contextlib.contextmanager
     def state_reset(self):
         self.push_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
     @contextlib.contextmanager
     def state_kept(self):
         self.push_and_keep_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
 
 def get_state(chain):
@@ -188,8 +192,10 @@ def state_kept(link):
     """
     if isinstance(link, Recurrent):
         link.push_and_keep_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
 
@@ -223,7 +229,9 @@ def state_reset(link):
     """
     if isinstance(link, Recurrent):
         link.push_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
-- 
2.43.0


From 756ace141c158e9655fe36d4fb093cd1048ce26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 07/52] fix: discount the DDPG bootstrap value by the length of
 n-step windows

---
 chainerrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 7d8a112..d8cf1de 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -176,6 +176,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch['is_state_terminal']
         batch_state = batch['state']
         batch_actions = batch['action']
+        batch_discount = batch['discount']
         batchsize = len(batch_rewards)
 
         with chainer.no_backprop_mode():
@@ -194,7 +195,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                 self.target_q_function.update_state(
                     batch_next_state, batch_next_actions)
 
-            target_q = batch_rewards + self.gamma * \
+            target_q = batch_rewards + batch_discount * \
                 (1.0 - batch_terminal) * F.reshape(next_q, (batchsize,))
 
         # Estimated Q-function observes s_t and a_t
-- 
2.43.0


From de04a10ff3f3d3d1845df67afe6840b987d59509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 08/52] fix: use the given batch_states function in DDPG, TD3
 and SAC updates

---
 chainerrl/agents/ddpg.py              | 7 +++++--
 chainerrl/agents/soft_actor_critic.py | 4 +++-
 chainerrl/agents/td3.py               | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index d8cf1de..ae6bcfe 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -254,7 +254,9 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.critic_optimizer.update(lambda: self.compute_critic_loss(batch))
         self.actor_optimizer.update(lambda: self.compute_actor_loss(batch))
 
@@ -272,7 +274,8 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                     break
                 transitions.append([ep[i]])
             batch = batch_experiences(
-                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma)
+                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma,
+                batch_states=self.batch_states)
             batches.append(batch)
 
         with self.model.state_reset(), self.target_model.state_reset():
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index b1258f2..bc40c20 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -282,7 +282,9 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 4077e77..83a78e1 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -229,7 +229,9 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         if self.q_func1_optimizer.t % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From 076cd5cc27ff385d1babe78be9b5ba5676c9c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 09/52] fix: honour n_times_update in TD3

---
 chainerrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 83a78e1..f9f544f 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -130,7 +130,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From ffc5e3adb22ffa8cd828d25e1608d7bc3b06f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 10/52] fix: do not end the training episode when an evaluation
 episode is stopped

---
 chainerrl/agents/ddpg.py              | 7 ++++---
 chainerrl/agents/pgt.py               | 7 ++++---
 chainerrl/agents/soft_actor_critic.py | 6 +++---
 chainerrl/agents/td3.py               | 6 +++---
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index ae6bcfe..b9e1ef8 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -456,15 +456,16 @@ class DDPG(AttributeSavingMixin, BatchAgent):
             next_action=self.last_action,
             is_state_terminal=done)
 
-        self.stop_episode()
-
-    def stop_episode(self):
         self.last_state = None
         self.last_action = None
         if isinstance(self.model, Recurrent):
             self.model.reset_state()
         self.replay_buffer.stop_current_episode()
 
+    def stop_episode(self):
+        if isinstance(self.model, Recurrent):
+            self.model.reset_state()
+
     def get_statistics(self):
         return [
             ('average_q', self.average_q),
diff --git a/chainerrl/agents/pgt.py b/chainerrl/agents/pgt.py
index 63e33da..a8866a2 100644
--- a/chainerrl/agents/pgt.py
+++ b/chainerrl/agents/pgt.py
@@ -262,15 +262,16 @@ class PGT(AttributeSavingMixin, Agent):
             next_action=self.last_action,
             is_state_terminal=done)
 
-        self.stop_episode()
-
-    def stop_episode(self):
         self.last_state = None
         self.last_action = None
         if isinstance(self.model, Recurrent):
             self.model.reset_state()
         self.replay_buffer.stop_current_episode()
 
+    def stop_episode(self):
+        if isinstance(self.model, Recurrent):
+            self.model.reset_state()
+
     def select_action(self, state):
         return self.explorer.select_action(
             self.t, lambda: self.act(state))
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index bc40c20..dfb2283 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -400,13 +400,13 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
             next_action=self.last_action,
             is_state_terminal=done)
 
-        self.stop_episode()
-
-    def stop_episode(self):
         self.last_state = None
         self.last_action = None
         self.replay_buffer.stop_current_episode()
 
+    def stop_episode(self):
+        pass
+
     def get_statistics(self):
         return [
             ('average_q1', _mean_or_nan(self.q1_record)),
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index f9f544f..ab4613b 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -352,13 +352,13 @@ class TD3(AttributeSavingMixin, BatchAgent):
             next_action=self.last_action,
             is_state_terminal=done)
 
-        self.stop_episode()
-
-    def stop_episode(self):
         self.last_state = None
         self.last_action = None
         self.replay_buffer.stop_current_episode()
 
+    def stop_episode(self):
+        pass
+
     def get_statistics(self):
         return [
             ('average_q1', _mean_or_nan(self.q1_record)),
-- 
2.43.0


From 9012a34d33e8f2e61256f95cea47ab6c036adc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 11/52] fix: let VectorEnvWrapper.reset accept the mask
 positionally, as the training loop passes it

---
 chainerrl/wrappers/vector_frame_stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/wrappers/vector_frame_stack.py b/chainerrl/wrappers/vector_frame_stack.py
index 7b6f1bb..da65d8c 100644
--- a/chainerrl/wrappers/vector_frame_stack.py
+++ b/chainerrl/wrappers/vector_frame_stack.py
@@ -24,8 +24,8 @@ class VectorEnvWrapper(VectorEnv):
     def step(self, action):
         return self.env.step(action)
 
-    def reset(self, **kwargs):
-        return self.env.reset(**kwargs)
+    def reset(self, *args, **kwargs):
+        return self.env.reset(*args, **kwargs)
 
     def render(self, mode='human', **kwargs):
         return self.env.render(mode, **kwargs)
-- 
2.43.0


From c7c52be4628d6fe28cc661f54fb3418af0f9b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 12/52] fix: SerialVectorEnv.spec is the spec of its members,
 not their observation space

---
 chainerrl/envs/serial_vector_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/envs/serial_vector_env.py b/chainerrl/envs/serial_vector_env.py
index 68fc093..dc7c21e 100644
--- a/chainerrl/envs/serial_vector_env.py
+++ b/chainerrl/envs/serial_vector_env.py
@@ -18,7 +18,7 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+        self.spec = getattr(envs[0], 'spec', None)
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From 9f90b6e590970f0bb397e64a88156b3b1b7286cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 13/52] fix: keep the best score of AsyncEvaluator in double
 precision

---
 chainerrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/evaluator.py b/chainerrl/experiments/evaluator.py
index c333fbc..acb2bc4 100644
--- a/chainerrl/experiments/evaluator.py
+++ b/chainerrl/experiments/evaluator.py
@@ -395,7 +395,7 @@ class AsyncEvaluator(object):
         # Values below are shared among processes
         self.prev_eval_t = mp.Value(
             'l', self.step_offset - self.step_offset % self.eval_interval)
-        self._max_score = mp.Value('f', np.finfo(np.float32).min)
+        self._max_score = mp.Value('d', np.finfo(np.float32).min)
         self.wrote_header = mp.Value('b', False)
 
         # Create scores.txt
-- 
2.43.0


From bbbb3dcb292311beaf83a14991b503727cf3ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 14/52] fix: start counting global steps at step_offset in
 train_agent_async

---
 chainerrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/train_agent_async.py b/chainerrl/experiments/train_agent_async.py
index 9cc89a9..5f49333 100644
--- a/chainerrl/experiments/train_agent_async.py
+++ b/chainerrl/experiments/train_agent_async.py
@@ -173,7 +173,7 @@ def train_agent_async(outdir, processes, make_env,
     # Prevent numpy from using multiple threads
     os.environ['OMP_NUM_THREADS'] = '1'
 
-    counter = mp.Value('l', 0)
+    counter = mp.Value('l', step_offset)
     episodes_counter = mp.Value('l', 0)
     training_done = mp.Value('b', False)  # bool
 
-- 
2.43.0


From 0ca17e014e9aefce135268ca99a64d6ee00613fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 15/52] fix: do not normalize with a cached std after the
 statistics were loaded or shared

---
 chainerrl/links/empirical_normalization.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 789c651..8c6bce9 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -29,9 +29,6 @@ class EmpiricalNormalization(chainer.Link):
         self.register_persistent('_var')
         self.register_persistent('count')
 
-        # cache
-        self._cached_std_inverse = None
-
     @property
     def mean(self):
         return self.xp.squeeze(self._mean, self.batch_axis).copy()
@@ -43,10 +40,8 @@ class EmpiricalNormalization(chainer.Link):
 
     @property
     def _std_inverse(self):
-        if self._cached_std_inverse is None:
-            self._cached_std_inverse = (self._var + self.eps) ** -0.5
-
-        return self._cached_std_inverse
+        # Not cached: _var can also be replaced by loading or sharing it
+        return (self._var + self.eps) ** -0.5
 
     def experience(self, x):
         """Learn input values without computing the output values of them"""
@@ -75,9 +70,6 @@ class EmpiricalNormalization(chainer.Link):
             + delta_mean * (mean_x - self._mean)
         )
 
-        # clear cache
-        self._cached_std_inverse = None
-
     def __call__(self, x, update=True):
         """Normalize mean and variance of values based on emprical values.
 
-- 
2.43.0


From 294a80f2db717af2cf1e02dd5d53d4fd81d7866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 16/52] fix: let EmpiricalNormalization clip Variables

---
 chainerrl/links/empirical_normalization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 8c6bce9..a2dd03a 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -1,4 +1,5 @@
 import chainer
+from chainer import functions as F
 import numpy as np
 
 
@@ -90,7 +91,9 @@ class EmpiricalNormalization(chainer.Link):
 
         normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
-            normalized = xp.clip(
+            clip = (F.clip if isinstance(normalized, chainer.Variable)
+                    else xp.clip)
+            normalized = clip(
                 normalized, -self.clip_threshold, self.clip_threshold)
         return normalized
 
-- 
2.43.0


From aad9efb603c060dd8af9352825a9ece9ddfa2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 17/52] fix: normalize with mean and std of the same data in
 EmpiricalNormalization

---
 chainerrl/links/empirical_normalization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index a2dd03a..158c7fe 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -86,10 +86,12 @@ class EmpiricalNormalization(chainer.Link):
         mean = xp.broadcast_to(self._mean, x.shape)
         std_inv = xp.broadcast_to(self._std_inverse, x.shape)
 
+        normalized = (x - mean) * std_inv
+
         if update:
+            # This changes self._mean, which mean is a view of, in place
             self.experience(x)
 
-        normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
             clip = (F.clip if isinstance(normalized, chainer.Variable)
                     else xp.clip)
-- 
2.43.0


From bc062a7ea959de95bbdb02a8571b6fc3d035c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 18/52] fix: use omega in maximum_entropy_mellowmax and
 MellowmaxDistribution

---
 chainerrl/distribution.py        | 3 ++-
 chainerrl/functions/mellowmax.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 529c79f..4e24ac9 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -238,7 +238,8 @@ class MellowmaxDistribution(CategoricalDistribution):
     @cached_property
     def all_prob(self):
         with chainer.force_backprop_mode():
-            return mellowmax.maximum_entropy_mellowmax(self.values)
+            return mellowmax.maximum_entropy_mellowmax(
+                self.values, omega=self.omega)
 
     @cached_property
     def all_log_prob(self):
diff --git a/chainerrl/functions/mellowmax.py b/chainerrl/functions/mellowmax.py
index c73bec4..a069ac4 100644
--- a/chainerrl/functions/mellowmax.py
+++ b/chainerrl/functions/mellowmax.py
@@ -47,7 +47,7 @@ def maximum_entropy_mellowmax(values, omega=1., beta_min=-10, beta_max=10):
         outputs (Variable)
     """
     xp = chainer.cuda.get_array_module(values)
-    mm = mellowmax(values, axis=1)
+    mm = mellowmax(values, omega=omega, axis=1)
 
     # Advantage: Q - mellowmax(Q)
     batch_adv = values - F.broadcast_to(F.expand_dims(mm, 1), values.shape)
-- 
2.43.0


From 79cb16bdac1af132a9878da8b13c5e1761f5c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 19/52] fix: let evaluate_actions_as_distribution accept
 Variables as documented

---
 chainerrl/action_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/action_value.py b/chainerrl/action_value.py
index 2e6a6b2..c705875 100644
--- a/chainerrl/action_value.py
+++ b/chainerrl/action_value.py
@@ -153,6 +153,8 @@ class DistributionalDiscreteActionValue(ActionValue):
             chainer.Variable: Return distributions. Its shape will be
                 (batch_size, n_atoms).
         """
+        if isinstance(actions, chainer.Variable):
+            actions = actions.array
         return self.q_dist[self.xp.arange(self.q_values.shape[0]), actions]
 
     def compute_advantage(self, actions):
-- 
2.43.0


From f9985332b3453009938ee5277d9fe7798c8ce1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 20/52] fix: make the parameters of copied softmax and
 mellowmax distributions Variables

---
 chainerrl/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 4e24ac9..0ea654b 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -177,7 +177,7 @@ class SoftmaxDistribution(CategoricalDistribution):
     """
 
     def __init__(self, logits, beta=1.0, min_prob=0.0):
-        self.logits = logits
+        self.logits = _wrap_by_variable(logits)
         self.beta = beta
         self.min_prob = min_prob
         self.n = logits.shape[1]
@@ -228,7 +228,7 @@ class MellowmaxDistribution(CategoricalDistribution):
     """
 
     def __init__(self, values, omega=8.):
-        self.values = values
+        self.values = _wrap_by_variable(values)
         self.omega = omega
 
     @property
-- 
2.43.0


From 1975cd7f91fff336fc3f7ea40a0c1dbb5fcc7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 21/52] fix: support no hidden layers in
 FCGaussianPolicyWithStateIndependentCovariance

---
 chainerrl/policies/gaussian_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chainerrl/policies/gaussian_policy.py b/chainerrl/policies/gaussian_policy.py
index 005641e..8fd4660 100644
--- a/chainerrl/policies/gaussian_policy.py
+++ b/chainerrl/policies/gaussian_policy.py
@@ -150,14 +150,14 @@ class FCGaussianPolicyWithStateIndependentCovariance(
         var_size = {'spherical': 1, 'diagonal': action_size}[var_type]
 
         layers = []
-        layers.append(L.Linear(n_input_channels, n_hidden_channels))
-        for _ in range(n_hidden_layers - 1):
+        n_last_channels = n_input_channels
+        for _ in range(n_hidden_layers):
+            layers.append(L.Linear(n_last_channels, n_hidden_channels))
             layers.append(self.nonlinearity)
-            layers.append(L.Linear(n_hidden_channels, n_hidden_channels))
-        layers.append(self.nonlinearity)
+            n_last_channels = n_hidden_channels
         # The last layer is used to compute the mean
         layers.append(
-            L.Linear(n_hidden_channels, action_size,
+            L.Linear(n_last_channels, action_size,
                      initialW=LeCunNormal(mean_wscale)))
 
         if self.bound_mean:
-- 
2.43.0


From dd509557199b6859914c9b5b302dc23944631a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 22/52] fix: convert links to noisy ones in an order that does
 not depend on string hashing

---
 chainerrl/links/noisy_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/links/noisy_chain.py b/chainerrl/links/noisy_chain.py
index bf67480..00f6a22 100644
--- a/chainerrl/links/noisy_chain.py
+++ b/chainerrl/links/noisy_chain.py
@@ -27,7 +27,7 @@ def to_factorized_noisy(link, *args, **kwargs):
 
 def _map_links(func, link):
     if isinstance(link, chainer.Chain):
-        children_names = link._children.copy()
+        children_names = sorted(link._children)
         for name in children_names:
             child = getattr(link, name)
             new_child = func(child)
-- 
2.43.0


From cf377a62dc9077aeb53537d1d9e9e703f8dfa032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 23/52] fix: evaluate A2C, A3C, ACER, NSQ, PCL and REINFORCE
 models in test mode when acting without training

---
 chainerrl/agents/a2c.py       | 4 ++--
 chainerrl/agents/a3c.py       | 2 +-
 chainerrl/agents/acer.py      | 2 +-
 chainerrl/agents/nsq.py       | 9 +++++----
 chainerrl/agents/pcl.py       | 2 +-
 chainerrl/agents/reinforce.py | 2 +-
 6 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index f0f99a3..b1facba 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -245,7 +245,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def batch_act(self, batch_obs):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
             action = pout.sample().array
         return chainer.cuda.to_cpu(action)
@@ -278,7 +278,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         raise RuntimeError('A2C does not support non-batch training')
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/a3c.py b/chainerrl/agents/a3c.py
index 7385c07..dcb49a7 100644
--- a/chainerrl/agents/a3c.py
+++ b/chainerrl/agents/a3c.py
@@ -268,7 +268,7 @@ class A3C(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], np, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index 9256c3f..e25819b 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -650,7 +650,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = np.expand_dims(self.phi(obs), 0)
             action_distrib, _, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/nsq.py b/chainerrl/agents/nsq.py
index 7455244..3021e8a 100644
--- a/chainerrl/agents/nsq.py
+++ b/chainerrl/agents/nsq.py
@@ -157,10 +157,11 @@ class NSQ(AttributeSavingMixin, AsyncAgent):
         return action
 
     def act(self, obs):
-        statevar = self.batch_states([obs], np, self.phi)
-        qout = self.q_function(statevar)
-        self.logger.debug('act action_value: %s', qout)
-        return qout.greedy_actions.array[0]
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
+            statevar = self.batch_states([obs], np, self.phi)
+            qout = self.q_function(statevar)
+            self.logger.debug('act action_value: %s', qout)
+            return qout.greedy_actions.array[0]
 
     def stop_episode_and_train(self, state, reward, done=False):
         self.past_rewards[self.t - 1] = reward
diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index a5aef17..8e02de2 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -430,7 +430,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             action_distrib, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/reinforce.py b/chainerrl/agents/reinforce.py
index 8ca38c4..9fcc14c 100644
--- a/chainerrl/agents/reinforce.py
+++ b/chainerrl/agents/reinforce.py
@@ -93,7 +93,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         return action
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_obs = self.batch_states([obs], self.xp, self.phi)
             action_distrib = self.model(batch_obs)
             if self.act_deterministically:
-- 
2.43.0


From 43be44aebf15173570cb66761eb83ea978e41445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 24/52] fix: let A2C.batch_act honour act_deterministically

---
 chainerrl/agents/a2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index b1facba..88629db 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -247,7 +247,10 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
         with chainer.using_config('train', False), chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
-            action = pout.sample().array
+            if self.act_deterministically:
+                action = pout.most_probable.array
+            else:
+                action = pout.sample().array
         return chainer.cuda.to_cpu(action)
 
     def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
-- 
2.43.0


From 4edb0511e0cb4730d865599f77a6faebaf3ac161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 25/52] fix: support decay_steps=0 in LinearDecayEpsilonGreedy

---
 chainerrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/explorers/epsilon_greedy.py b/chainerrl/explorers/epsilon_greedy.py
index 98bbdbb..9e71c78 100644
--- a/chainerrl/explorers/epsilon_greedy.py
+++ b/chainerrl/explorers/epsilon_greedy.py
@@ -64,7 +64,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 24b2e6a199d84ccfb3012b405c5881dc99f6bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 26/52] fix: visit each function only once when TRPO looks for
 old-style functions

---
 chainerrl/agents/trpo.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 9e88b47..6fd7139 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -74,15 +74,21 @@ def _mean_or_nan(xs):
 def _find_old_style_function(outputs):
     """Find old-style functions in the computational graph."""
     found = []
-    for v in outputs:
+    # Visit each function only once since the number of paths can be
+    # exponential in the depth of the graph.
+    visited = set()
+    stack = list(outputs)
+    while stack:
+        v = stack.pop()
         assert isinstance(v, (chainer.Variable, chainer.variable.VariableNode))
-        if v.creator is None:
+        if v.creator is None or id(v.creator) in visited:
             continue
+        visited.add(id(v.creator))
         if isinstance(v.creator, chainer.Function):
             found.append(v.creator)
         else:
             assert isinstance(v.creator, chainer.FunctionNode)
-        found.extend(_find_old_style_function(v.creator.inputs))
+        stack.extend(v.creator.inputs)
     return found
 
 
-- 
2.43.0


From 828de52b8534776bb64ae3cfc668ffaf79fe6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 27/52] fix: use given batch_states in TRPO updates

---
 chainerrl/agents/trpo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 6fd7139..2a9e68b 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -362,7 +362,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states(
+        states = self.batch_states(
             [b['state'] for b in dataset], self.obs_normalizer.xp, self.phi)
         self.obs_normalizer.experience(states)
 
@@ -382,7 +382,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         while dataset_iter.epoch < self.vf_epochs:
             batch = dataset_iter.__next__()
-            states = batch_states([b['state'] for b in batch], xp, self.phi)
+            states = self.batch_states(
+                [b['state'] for b in batch], xp, self.phi)
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = xp.array(
@@ -410,7 +411,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         # Use full-batch
         xp = self.policy.xp
-        states = batch_states([b['state'] for b in dataset], xp, self.phi)
+        states = self.batch_states([b['state'] for b in dataset], xp, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = xp.array([b['action'] for b in dataset])
-- 
2.43.0


From 79013039c4baaf743533de74efa9375533761f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 28/52] fix: save and load the average model of ACER

---
 chainerrl/agents/acer.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index e25819b..afcd595 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -1,8 +1,10 @@
 import copy
 from logging import getLogger
+import os
 
 import chainer
 from chainer import functions as F
+from chainer import serializers
 import numpy as np
 
 from chainerrl.action_value import SingleActionValue
@@ -696,10 +698,25 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
             self.model.reset_state()
             self.shared_average_model.reset_state()
 
+    def save(self, dirname):
+        super().save(dirname)
+        serializers.save_npz(
+            os.path.join(dirname, 'shared_average_model.npz'),
+            self.shared_average_model)
+
     def load(self, dirname):
         super().load(dirname)
         copy_param.copy_param(target_link=self.shared_model,
                               source_link=self.model)
+        average_model_file = os.path.join(
+            dirname, 'shared_average_model.npz')
+        if os.path.exists(average_model_file):
+            serializers.load_npz(
+                average_model_file, self.shared_average_model)
+        else:
+            # Older snapshots don't contain the average model
+            copy_param.copy_param(target_link=self.shared_average_model,
+                                  source_link=self.model)
 
     def get_statistics(self):
         return [
-- 
2.43.0


From 5017d96e9137b6f94b47d61c691a29f8b09180de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 29/52] fix: load optimizers saved before their first update

---
 chainerrl/agent.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/chainerrl/agent.py b/chainerrl/agent.py
index 9f96915..5ca8ab5 100644
--- a/chainerrl/agent.py
+++ b/chainerrl/agent.py
@@ -9,13 +9,15 @@ import warnings
 
 
 def load_npz_no_strict(filename, obj):
-    try:
-        serializers.load_npz(filename, obj)
-    except KeyError as e:
-        warnings.warn(repr(e))
-        with numpy.load(filename) as f:
-            d = serializers.NpzDeserializer(f, strict=False)
-            d.load(obj)
+    # Strict loading must not be tried first because, for an optimizer saved
+    # before its first update, it fails leaving broken states of update rules.
+    serializers.load_npz(filename, obj, strict=False)
+    expected = serializers.DictionarySerializer()
+    expected.save(obj)
+    with numpy.load(filename) as f:
+        missing = sorted(set(expected.target) - set(f.files))
+    if missing:
+        warnings.warn('{} does not contain {}'.format(filename, missing))
 
 
 class Agent(object, metaclass=ABCMeta):
-- 
2.43.0


From cb15daa2cb3c3ad598855f326ee84f3a1b849735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 30/52] fix: return the observation of the new episode when
 firing ends an episode in FireResetEnv

---
 chainerrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index e6185e9..3790347 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -66,7 +66,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get('needs_reset', False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From 7531cb8f198c2bd199019ca7d7cdc9cac19633f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 31/52] fix: reset the game when the no-op step of
 EpisodicLifeEnv.reset ends it

---
 chainerrl/wrappers/atari_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index 3790347..b3c23a2 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -108,7 +108,9 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get('needs_reset', False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 863b9596f6605dfc34ffc125e464a794d7a37efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 32/52] fix: do not return frames of previous steps when a step
 of MaxAndSkipEnv ends early

---
 chainerrl/wrappers/atari_wrappers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index b3c23a2..9a6f558 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -130,10 +130,12 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
-                self._obs_buffer[1] = obs
+            if i == 0:
+                # Never mix in frames of previous steps, even if this step
+                # ends early
+                self._obs_buffer[:] = obs
+            else:
+                self._obs_buffer[i % 2] = obs
             total_reward += reward
             if done or info.get('needs_reset', False):
                 break
-- 
2.43.0


From cb7991e09a63367be179847dbdd5aab256cc78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 33/52] fix: end episodes of demonstrations at max_episode_len,
 not one step later

---
 chainerrl/experiments/collect_demos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/collect_demos.py b/chainerrl/experiments/collect_demos.py
index 0fd1c42..201cfc0 100644
--- a/chainerrl/experiments/collect_demos.py
+++ b/chainerrl/experiments/collect_demos.py
@@ -52,10 +52,10 @@ def collect_demonstrations(agent,
             # o_t, a_t, r__{t+1}, o_{t+1}
             dataset.write((obs, a, r, new_obs, done, info))
             obs = new_obs
-            reset = (done or episode_len == max_episode_len
-                     or info.get('needs_reset', False))
             timestep += 1
             episode_len += 1
+            reset = (done or episode_len == max_episode_len
+                     or info.get('needs_reset', False))
             episode_r += r
             episode_num = episode_num + 1 if reset else episode_num
             if steps is None:
-- 
2.43.0


From cde7d63b8b1b55c3e9293a5b959b4254bc54cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 34/52] fix: support datasets not divisible by the minibatch
 size in recurrent PPO and TRPO updates

---
 chainerrl/agents/ppo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/ppo.py b/chainerrl/agents/ppo.py
index 6ce29fc..acdc0b4 100644
--- a/chainerrl/agents/ppo.py
+++ b/chainerrl/agents/ppo.py
@@ -151,12 +151,17 @@ def _limit_sequence_length(sequences, max_len):
 
 def _yield_subset_of_sequences_with_fixed_number_of_items(
         sequences, n_items):
+    """Yield subsets of sequences that have n_items items in total.
+
+    The last subset has less items if the number of all the items is not
+    divisible by n_items.
+    """
     assert n_items > 0
     stack = list(reversed(sequences))
     while stack:
         subset = []
         count = 0
-        while count < n_items:
+        while stack and count < n_items:
             sequence = stack.pop()
             subset.append(sequence)
             count += len(sequence)
@@ -167,7 +172,8 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
             assert n_exceeds > 0
             subset[-1] = sequence_to_split[:-n_exceeds]
             stack.append(sequence_to_split[-n_exceeds:])
-        assert sum(len(seq) for seq in subset) == n_items
+            count = n_items
+        assert sum(len(seq) for seq in subset) == count
         yield subset
 
 
-- 
2.43.0


From e9f6179b380e62f162038d491aded2b7ae6f8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 35/52] fix: return zeros from conjugate_gradient for a zero
 right-hand side

---
 chainerrl/misc/conjugate_gradient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainerrl/misc/conjugate_gradient.py b/chainerrl/misc/conjugate_gradient.py
index 994413f..62e2ebb 100644
--- a/chainerrl/misc/conjugate_gradient.py
+++ b/chainerrl/misc/conjugate_gradient.py
@@ -21,6 +21,9 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     xp = chainer.cuda.get_array_module(b)
     x = xp.zeros_like(b)
     r0 = b - A_product_func(x)
+    if xp.linalg.norm(r0) < tol:
+        # Already solved. The iterations below would divide zero by zero.
+        return x
     p = r0
     for _ in range(max_iter):
         a = xp.dot(r0, r0) / xp.dot(A_product_func(p), p)
-- 
2.43.0


From 8047e6d599458e3b8c85a114f8071796e9eda301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 36/52] fix: allow PCL to be used without a replay buffer

---
 chainerrl/agents/pcl.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index 8e02de2..9f91930 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -412,15 +412,16 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             assert self.last_action is not None
             assert self.last_action_distrib is not None
             # Add a transition to the replay buffer
-            self.replay_buffer.append(
-                state=self.last_state,
-                action=self.last_action,
-                reward=reward,
-                next_state=obs,
-                next_action=action,
-                is_state_terminal=False,
-                mu=self.last_action_distrib,
-            )
+            if self.replay_buffer is not None:
+                self.replay_buffer.append(
+                    state=self.last_state,
+                    action=self.last_action,
+                    reward=reward,
+                    next_state=obs,
+                    next_action=action,
+                    is_state_terminal=False,
+                    mu=self.last_action_distrib,
+                )
 
         self.last_state = obs
         self.last_action = action
@@ -457,15 +458,16 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             self.model.reset_state()
 
         # Add a transition to the replay buffer
-        self.replay_buffer.append(
-            state=self.last_state,
-            action=self.last_action,
-            reward=reward,
-            next_state=state,
-            next_action=self.last_action,
-            is_state_terminal=done,
-            mu=self.last_action_distrib)
-        self.replay_buffer.stop_current_episode()
+        if self.replay_buffer is not None:
+            self.replay_buffer.append(
+                state=self.last_state,
+                action=self.last_action,
+                reward=reward,
+                next_state=state,
+                next_action=self.last_action,
+                is_state_terminal=done,
+                mu=self.last_action_distrib)
+            self.replay_buffer.stop_current_episode()
 
         self.last_state = None
         self.last_action = None
-- 
2.43.0


From 455c49ee44e4b40be42154cd7e5769debe9190ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 37/52] fix: give asynchronous processes different random seeds

---
 chainerrl/misc/async_.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index 480e721..65b61a7 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -170,8 +170,12 @@ def run_async(n_process, run_func):
 
     processes = []
 
+    # Forked processes inherit the same random state, so draw the seeds here
+    # to let each process have its own random numbers.
+    seeds = [np.random.randint(0, 2 ** 32) for _ in range(n_process)]
+
     def set_seed_and_run(process_idx, run_func):
-        random_seed.set_random_seed(np.random.randint(0, 2 ** 32))
+        random_seed.set_random_seed(seeds[process_idx])
         run_func(process_idx)
 
     for process_idx in range(n_process):
-- 
2.43.0


From 08a870bf29a6f16a895270fb5a82fdb2e8878af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 38/52] fix: mark a pretrained model as cached only after
 extracting it

---
 chainerrl/misc/pretrained_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/misc/pretrained_models.py b/chainerrl/misc/pretrained_models.py
index 09dd62c..f7b9b6d 100644
--- a/chainerrl/misc/pretrained_models.py
+++ b/chainerrl/misc/pretrained_models.py
@@ -124,9 +124,10 @@ def download_and_store_model(alg, url, env, model_type):
         if not is_cached:
             cache_path = cached_download(posixpath.join(url_basepath,
                                                         file))
-            os.rename(cache_path, path)
-            with zipfile.ZipFile(path, 'r') as zip_ref:
+            with zipfile.ZipFile(cache_path, 'r') as zip_ref:
                 zip_ref.extractall(root)
+            # The existence of this file tells that the model is complete
+            os.rename(cache_path, path)
         return os.path.join(root, model_type), is_cached
 
 
-- 
2.43.0


From 46d879c19b31bbcfc57b0c43fbca49da4877e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 39/52] fix: report the average value, not the value loss, in
 A2C statistics

---
 chainerrl/agents/a2c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index 88629db..a5c03c9 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -211,7 +211,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
             (float(action_loss.array) - self.average_actor_loss))
         self.average_value += (
             (1 - self.average_value_decay) *
-            (float(value_loss.array) - self.average_value))
+            (float(F.mean(values).array) - self.average_value))
         self.average_entropy += (
             (1 - self.average_entropy_decay) *
             (float(dist_entropy.array) - self.average_entropy))
-- 
2.43.0


From 69ca263657dcb52894a057320c8af7c016c31246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 40/52] fix: start a new game when null actions end it in
 ALE.initialize

---
 chainerrl/envs/ale.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainerrl/envs/ale.py b/chainerrl/envs/ale.py
index 61fe383..dc20c7a 100644
--- a/chainerrl/envs/ale.py
+++ b/chainerrl/envs/ale.py
@@ -221,6 +221,9 @@ class ALE(env.Env):
             n_nullops = np.random.randint(0, self.max_start_nullops + 1)
             for _ in range(n_nullops):
                 self.ale.act(0)
+                # Null actions can lose the last life
+                if self.ale.game_over():
+                    self.ale.reset_game()
 
         self._reward = 0
 
-- 
2.43.0


From e3f1ce52600be75f265bdf12732511f6ad024629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 41/52] fix: draw random actions from the seeded generator in
 example programs

---
 examples/atari/train_nsq_ale.py           | 4 ++--
 examples/gym/train_categorical_dqn_gym.py | 3 ++-
 examples/gym/train_dqn_gym.py             | 2 +-
 examples/gym/train_iqn_gym.py             | 3 ++-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/examples/atari/train_nsq_ale.py b/examples/atari/train_nsq_ale.py
index c8a6af2..eb3a157 100644
--- a/examples/atari/train_nsq_ale.py
+++ b/examples/atari/train_nsq_ale.py
@@ -77,10 +77,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, 0.05)
+        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
@@ -117,7 +117,7 @@ def main():
             epsilon_target = 0.5
         explorer = explorers.LinearDecayEpsilonGreedy(
             1, epsilon_target, args.final_exploration_frames,
-            action_space.sample)
+            lambda: np.random.randint(action_space.n))
         # Suppress the explorer logger
         explorer.logger.setLevel(logging.INFO)
         return nsq.NSQ(q_func, opt, t_max=5, gamma=0.99,
diff --git a/examples/gym/train_categorical_dqn_gym.py b/examples/gym/train_categorical_dqn_gym.py
index 97a8a59..a9809db 100644
--- a/examples/gym/train_categorical_dqn_gym.py
+++ b/examples/gym/train_categorical_dqn_gym.py
@@ -12,6 +12,7 @@ import sys
 
 from chainer import optimizers
 import gym
+import numpy as np
 
 import chainerrl
 from chainerrl import experiments
@@ -99,7 +100,7 @@ def main():
     # Use epsilon-greedy for exploration
     explorer = explorers.LinearDecayEpsilonGreedy(
         args.start_epsilon, args.end_epsilon, args.final_exploration_steps,
-        action_space.sample)
+        lambda: np.random.randint(n_actions))
 
     opt = optimizers.Adam(1e-3)
     opt.setup(q_func)
diff --git a/examples/gym/train_dqn_gym.py b/examples/gym/train_dqn_gym.py
index d72f296..4aa5912 100644
--- a/examples/gym/train_dqn_gym.py
+++ b/examples/gym/train_dqn_gym.py
@@ -124,7 +124,7 @@ def main():
         # Use epsilon-greedy for exploration
         explorer = explorers.LinearDecayEpsilonGreedy(
             args.start_epsilon, args.end_epsilon, args.final_exploration_steps,
-            action_space.sample)
+            lambda: np.random.randint(n_actions))
 
     if args.noisy_net_sigma is not None:
         links.to_factorized_noisy(q_func, sigma_scale=args.noisy_net_sigma)
diff --git a/examples/gym/train_iqn_gym.py b/examples/gym/train_iqn_gym.py
index 1c02df7..effd3b2 100644
--- a/examples/gym/train_iqn_gym.py
+++ b/examples/gym/train_iqn_gym.py
@@ -14,6 +14,7 @@ import chainer.functions as F
 import chainer.links as L
 from chainer import optimizers
 import gym
+import numpy as np
 
 import chainerrl
 from chainerrl import experiments
@@ -100,7 +101,7 @@ def main():
     # Use epsilon-greedy for exploration
     explorer = explorers.LinearDecayEpsilonGreedy(
         args.start_epsilon, args.end_epsilon, args.final_exploration_steps,
-        action_space.sample)
+        lambda: np.random.randint(action_space.n))
 
     opt = optimizers.Adam(1e-3)
     opt.setup(q_func)
-- 
2.43.0


From 632f27db38d11e57527fc0d4b661ac4000587e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 42/52] fix: seed the action randomization of evaluation in
 example programs

---
 examples/atari/collect_demos_ale.py                  | 2 +-
 examples/atari/reproduction/dqn/train_dqn.py         | 2 +-
 examples/atari/reproduction/iqn/train_iqn.py         | 2 +-
 examples/atari/reproduction/rainbow/train_rainbow.py | 2 +-
 examples/atari/train_categorical_dqn_ale.py          | 2 +-
 examples/atari/train_double_iqn.py                   | 2 +-
 examples/atari/train_dqn_ale.py                      | 2 +-
 examples/atari/train_drqn_ale.py                     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/examples/atari/collect_demos_ale.py b/examples/atari/collect_demos_ale.py
index d06ad56..dd89ac3 100644
--- a/examples/atari/collect_demos_ale.py
+++ b/examples/atari/collect_demos_ale.py
@@ -53,9 +53,9 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=None),
             episode_life=False,
             clip_rewards=False)
-        env.seed(int(args.seed))
         # Randomize actions like epsilon-greedy
         env = chainerrl.wrappers.RandomizeAction(env, 0.01)
+        env.seed(int(args.seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/reproduction/dqn/train_dqn.py b/examples/atari/reproduction/dqn/train_dqn.py
index 7f9b859..9abf77d 100644
--- a/examples/atari/reproduction/dqn/train_dqn.py
+++ b/examples/atari/reproduction/dqn/train_dqn.py
@@ -72,10 +72,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=None),
             episode_life=not test,
             clip_rewards=not test)
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, 0.05)
+        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/reproduction/iqn/train_iqn.py b/examples/atari/reproduction/iqn/train_iqn.py
index 9327e65..d3330b4 100644
--- a/examples/atari/reproduction/iqn/train_iqn.py
+++ b/examples/atari/reproduction/iqn/train_iqn.py
@@ -81,10 +81,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
+        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/reproduction/rainbow/train_rainbow.py b/examples/atari/reproduction/rainbow/train_rainbow.py
index c56f6c6..6ee6b60 100644
--- a/examples/atari/reproduction/rainbow/train_rainbow.py
+++ b/examples/atari/reproduction/rainbow/train_rainbow.py
@@ -71,10 +71,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
+        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_categorical_dqn_ale.py b/examples/atari/train_categorical_dqn_ale.py
index 22dd25a..bf1d28a 100644
--- a/examples/atari/train_categorical_dqn_ale.py
+++ b/examples/atari/train_categorical_dqn_ale.py
@@ -69,10 +69,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
+        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_double_iqn.py b/examples/atari/train_double_iqn.py
index 817ccce..b8cb9fa 100644
--- a/examples/atari/train_double_iqn.py
+++ b/examples/atari/train_double_iqn.py
@@ -88,10 +88,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
+        env.seed(int(env_seed))
         if args.monitor:
             env = gym.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_dqn_ale.py b/examples/atari/train_dqn_ale.py
index ea6f26c..37da24a 100644
--- a/examples/atari/train_dqn_ale.py
+++ b/examples/atari/train_dqn_ale.py
@@ -151,10 +151,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
+        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_drqn_ale.py b/examples/atari/train_drqn_ale.py
index d34de32..9a8df5b 100644
--- a/examples/atari/train_drqn_ale.py
+++ b/examples/atari/train_drqn_ale.py
@@ -119,10 +119,10 @@ def main():
             flicker=args.flicker,
             frame_stack=not args.no_frame_stack,
         )
-        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
+        env.seed(int(env_seed))
         if args.monitor:
             env = gym.wrappers.Monitor(
                 env, args.outdir,
-- 
2.43.0


From 15800ca56f9035daa4b02917d9736d1bb92276d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 43/52] fix: load the agent given to --load in train_nsq_ale.py

---
 examples/atari/train_nsq_ale.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/atari/train_nsq_ale.py b/examples/atari/train_nsq_ale.py
index eb3a157..a4b8574 100644
--- a/examples/atari/train_nsq_ale.py
+++ b/examples/atari/train_nsq_ale.py
@@ -124,6 +124,10 @@ def main():
                        i_target=40000,
                        explorer=explorer, phi=phi)
 
+    if args.load:
+        # All the agents share q_func and opt
+        make_agent(0).load(args.load)
+
     if args.demo:
         env = make_env(0, True)
         agent = make_agent(0)
-- 
2.43.0


From 9e20b392141f64f6a97b5ff359f25026fe40e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:08 +0000
Subject: [PATCH 44/52] fix: give each environment of train_ppo_ale.py its own
 seed

---
 examples/atari/train_ppo_ale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/atari/train_ppo_ale.py b/examples/atari/train_ppo_ale.py
index 2d8eec4..1e98d69 100644
--- a/examples/atari/train_ppo_ale.py
+++ b/examples/atari/train_ppo_ale.py
@@ -9,6 +9,7 @@ To train PPO using a recurrent model on a flickering Atari env, run:
     python train_ppo_ale.py --recurrent --flicker --no-frame-stack
 """
 import argparse
+import functools
 import os
 
 import chainer
@@ -119,7 +120,7 @@ def main():
 
     def make_batch_env(test):
         return chainerrl.envs.MultiprocessVectorEnv(
-            [(lambda: make_env(idx, test))
+            [functools.partial(make_env, idx, test)
              for idx, env in enumerate(range(args.num_envs))])
 
     sample_env = make_env(0, test=False)
-- 
2.43.0


From bd65d67ead09b6d653de57c082f405037a58bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 45/52] Revert "fix: give each environment of train_ppo_ale.py
 its own seed"

This reverts commit 9e20b392141f64f6a97b5ff359f25026fe40e4f8.
---
 examples/atari/train_ppo_ale.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/atari/train_ppo_ale.py b/examples/atari/train_ppo_ale.py
index 1e98d69..2d8eec4 100644
--- a/examples/atari/train_ppo_ale.py
+++ b/examples/atari/train_ppo_ale.py
@@ -9,7 +9,6 @@ To train PPO using a recurrent model on a flickering Atari env, run:
     python train_ppo_ale.py --recurrent --flicker --no-frame-stack
 """
 import argparse
-import functools
 import os
 
 import chainer
@@ -120,7 +119,7 @@ def main():
 
     def make_batch_env(test):
         return chainerrl.envs.MultiprocessVectorEnv(
-            [functools.partial(make_env, idx, test)
+            [(lambda: make_env(idx, test))
              for idx, env in enumerate(range(args.num_envs))])
 
     sample_env = make_env(0, test=False)
-- 
2.43.0


From b50d6f58de555984a1fd9ce3b8341134d723fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 46/52] Revert "fix: load the agent given to --load in
 train_nsq_ale.py"

This reverts commit 15800ca56f9035daa4b02917d9736d1bb92276d1.
---
 examples/atari/train_nsq_ale.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/examples/atari/train_nsq_ale.py b/examples/atari/train_nsq_ale.py
index a4b8574..eb3a157 100644
--- a/examples/atari/train_nsq_ale.py
+++ b/examples/atari/train_nsq_ale.py
@@ -124,10 +124,6 @@ def main():
                        i_target=40000,
                        explorer=explorer, phi=phi)
 
-    if args.load:
-        # All the agents share q_func and opt
-        make_agent(0).load(args.load)
-
     if args.demo:
         env = make_env(0, True)
         agent = make_agent(0)
-- 
2.43.0


From e118170be1d2e12e27d951b8ceae3e6e346273c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 47/52] Revert "fix: seed the action randomization of
 evaluation in example programs"

This reverts commit 632f27db38d11e57527fc0d4b661ac4000587e22.
---
 examples/atari/collect_demos_ale.py                  | 2 +-
 examples/atari/reproduction/dqn/train_dqn.py         | 2 +-
 examples/atari/reproduction/iqn/train_iqn.py         | 2 +-
 examples/atari/reproduction/rainbow/train_rainbow.py | 2 +-
 examples/atari/train_categorical_dqn_ale.py          | 2 +-
 examples/atari/train_double_iqn.py                   | 2 +-
 examples/atari/train_dqn_ale.py                      | 2 +-
 examples/atari/train_drqn_ale.py                     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/examples/atari/collect_demos_ale.py b/examples/atari/collect_demos_ale.py
index dd89ac3..d06ad56 100644
--- a/examples/atari/collect_demos_ale.py
+++ b/examples/atari/collect_demos_ale.py
@@ -53,9 +53,9 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=None),
             episode_life=False,
             clip_rewards=False)
+        env.seed(int(args.seed))
         # Randomize actions like epsilon-greedy
         env = chainerrl.wrappers.RandomizeAction(env, 0.01)
-        env.seed(int(args.seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/reproduction/dqn/train_dqn.py b/examples/atari/reproduction/dqn/train_dqn.py
index 9abf77d..7f9b859 100644
--- a/examples/atari/reproduction/dqn/train_dqn.py
+++ b/examples/atari/reproduction/dqn/train_dqn.py
@@ -72,10 +72,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=None),
             episode_life=not test,
             clip_rewards=not test)
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, 0.05)
-        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/reproduction/iqn/train_iqn.py b/examples/atari/reproduction/iqn/train_iqn.py
index d3330b4..9327e65 100644
--- a/examples/atari/reproduction/iqn/train_iqn.py
+++ b/examples/atari/reproduction/iqn/train_iqn.py
@@ -81,10 +81,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
-        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/reproduction/rainbow/train_rainbow.py b/examples/atari/reproduction/rainbow/train_rainbow.py
index 6ee6b60..c56f6c6 100644
--- a/examples/atari/reproduction/rainbow/train_rainbow.py
+++ b/examples/atari/reproduction/rainbow/train_rainbow.py
@@ -71,10 +71,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
-        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_categorical_dqn_ale.py b/examples/atari/train_categorical_dqn_ale.py
index bf1d28a..22dd25a 100644
--- a/examples/atari/train_categorical_dqn_ale.py
+++ b/examples/atari/train_categorical_dqn_ale.py
@@ -69,10 +69,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
-        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_double_iqn.py b/examples/atari/train_double_iqn.py
index b8cb9fa..817ccce 100644
--- a/examples/atari/train_double_iqn.py
+++ b/examples/atari/train_double_iqn.py
@@ -88,10 +88,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
-        env.seed(int(env_seed))
         if args.monitor:
             env = gym.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_dqn_ale.py b/examples/atari/train_dqn_ale.py
index 37da24a..ea6f26c 100644
--- a/examples/atari/train_dqn_ale.py
+++ b/examples/atari/train_dqn_ale.py
@@ -151,10 +151,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
-        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
diff --git a/examples/atari/train_drqn_ale.py b/examples/atari/train_drqn_ale.py
index 9a8df5b..d34de32 100644
--- a/examples/atari/train_drqn_ale.py
+++ b/examples/atari/train_drqn_ale.py
@@ -119,10 +119,10 @@ def main():
             flicker=args.flicker,
             frame_stack=not args.no_frame_stack,
         )
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, args.eval_epsilon)
-        env.seed(int(env_seed))
         if args.monitor:
             env = gym.wrappers.Monitor(
                 env, args.outdir,
-- 
2.43.0


From e4a79645654cde9da7df4c251316308f96a9db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 48/52] Revert "fix: draw random actions from the seeded
 generator in example programs"

This reverts commit e3f1ce52600be75f265bdf12732511f6ad024629.
---
 examples/atari/train_nsq_ale.py           | 4 ++--
 examples/gym/train_categorical_dqn_gym.py | 3 +--
 examples/gym/train_dqn_gym.py             | 2 +-
 examples/gym/train_iqn_gym.py             | 3 +--
 4 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/examples/atari/train_nsq_ale.py b/examples/atari/train_nsq_ale.py
index eb3a157..c8a6af2 100644
--- a/examples/atari/train_nsq_ale.py
+++ b/examples/atari/train_nsq_ale.py
@@ -77,10 +77,10 @@ def main():
             atari_wrappers.make_atari(args.env, max_frames=args.max_frames),
             episode_life=not test,
             clip_rewards=not test)
+        env.seed(int(env_seed))
         if test:
             # Randomize actions like epsilon-greedy in evaluation as well
             env = chainerrl.wrappers.RandomizeAction(env, 0.05)
-        env.seed(int(env_seed))
         if args.monitor:
             env = chainerrl.wrappers.Monitor(
                 env, args.outdir,
@@ -117,7 +117,7 @@ def main():
             epsilon_target = 0.5
         explorer = explorers.LinearDecayEpsilonGreedy(
             1, epsilon_target, args.final_exploration_frames,
-            lambda: np.random.randint(action_space.n))
+            action_space.sample)
         # Suppress the explorer logger
         explorer.logger.setLevel(logging.INFO)
         return nsq.NSQ(q_func, opt, t_max=5, gamma=0.99,
diff --git a/examples/gym/train_categorical_dqn_gym.py b/examples/gym/train_categorical_dqn_gym.py
index a9809db..97a8a59 100644
--- a/examples/gym/train_categorical_dqn_gym.py
+++ b/examples/gym/train_categorical_dqn_gym.py
@@ -12,7 +12,6 @@ import sys
 
 from chainer import optimizers
 import gym
-import numpy as np
 
 import chainerrl
 from chainerrl import experiments
@@ -100,7 +99,7 @@ def main():
     # Use epsilon-greedy for exploration
     explorer = explorers.LinearDecayEpsilonGreedy(
         args.start_epsilon, args.end_epsilon, args.final_exploration_steps,
-        lambda: np.random.randint(n_actions))
+        action_space.sample)
 
     opt = optimizers.Adam(1e-3)
     opt.setup(q_func)
diff --git a/examples/gym/train_dqn_gym.py b/examples/gym/train_dqn_gym.py
index 4aa5912..d72f296 100644
--- a/examples/gym/train_dqn_gym.py
+++ b/examples/gym/train_dqn_gym.py
@@ -124,7 +124,7 @@ def main():
         # Use epsilon-greedy for exploration
         explorer = explorers.LinearDecayEpsilonGreedy(
             args.start_epsilon, args.end_epsilon, args.final_exploration_steps,
-            lambda: np.random.randint(n_actions))
+            action_space.sample)
 
     if args.noisy_net_sigma is not None:
         links.to_factorized_noisy(q_func, sigma_scale=args.noisy_net_sigma)
diff --git a/examples/gym/train_iqn_gym.py b/examples/gym/train_iqn_gym.py
index effd3b2..1c02df7 100644
--- a/examples/gym/train_iqn_gym.py
+++ b/examples/gym/train_iqn_gym.py
@@ -14,7 +14,6 @@ import chainer.functions as F
 import chainer.links as L
 from chainer import optimizers
 import gym
-import numpy as np
 
 import chainerrl
 from chainerrl import experiments
@@ -101,7 +100,7 @@ def main():
     # Use epsilon-greedy for exploration
     explorer = explorers.LinearDecayEpsilonGreedy(
         args.start_epsilon, args.end_epsilon, args.final_exploration_steps,
-        lambda: np.random.randint(action_space.n))
+        action_space.sample)
 
     opt = optimizers.Adam(1e-3)
     opt.setup(q_func)
-- 
2.43.0


From bbb503607f769a76ca49307a9dee4d7742184704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 49/52] fix: let the random seed determine the random numbers
 of asynchronous training workers

---
 chainerrl/experiments/train_agent_async.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/chainerrl/experiments/train_agent_async.py b/chainerrl/experiments/train_agent_async.py
index 5f49333..06734cc 100644
--- a/chainerrl/experiments/train_agent_async.py
+++ b/chainerrl/experiments/train_agent_async.py
@@ -4,7 +4,6 @@ import os
 
 from chainerrl.experiments.evaluator import AsyncEvaluator
 from chainerrl.misc import async_
-from chainerrl.misc import random_seed
 
 
 def train_loop(process_idx, env, agent, steps, outdir, counter,
@@ -198,8 +197,6 @@ def train_agent_async(outdir, processes, make_env,
         )
 
     def run_func(process_idx):
-        random_seed.set_random_seed(process_idx)
-
         env = make_env(process_idx, test=False)
         if evaluator is None:
             eval_env = env
-- 
2.43.0


From bb32c42d4a4367a2c361b942b0f31be1a3dff66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 50/52] fix: stop batch training also when the successful
 evaluation score is zero

---
 chainerrl/experiments/train_agent_batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index d9e60f9..c0e2065 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -108,7 +108,7 @@ def train_agent_batch(agent, env, steps, outdir,
                 logger.info('statistics: {}'.format(agent.get_statistics()))
             if evaluator:
                 if evaluator.evaluate_if_necessary(
-                        t=t, episodes=np.sum(episode_idx)):
+                        t=t, episodes=np.sum(episode_idx)) is not None:
                     if (successful_score is not None and
                             evaluator.max_score >= successful_score):
                         break
-- 
2.43.0


From fb9f3298cd0ea0498201f6ce8275e1fff14f92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 51/52] fix: keep importance weights with their episodes in
 PCL's replay updates

---
 chainerrl/agents/pcl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index 9f91930..2575585 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -279,7 +279,11 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             episodes, weights = episodes
         else:
             weights = [1] * len(episodes)
-        sorted_episodes = list(reversed(sorted(episodes, key=len)))
+        # Weights must stay with their episodes
+        order = list(reversed(sorted(
+            range(len(episodes)), key=lambda i: len(episodes[i]))))
+        sorted_episodes = [episodes[i] for i in order]
+        sorted_weights = [weights[i] for i in order]
         max_epi_len = len(sorted_episodes[0])
 
         with state_reset(self.model):
@@ -337,7 +341,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
                     next_values=e_next_values,
                     log_probs=e_log_probs))
             loss = chainerrl.functions.weighted_sum_arrays(
-                losses, weights) / self.batchsize
+                losses, sorted_weights) / self.batchsize
             self.update(loss)
 
     def update_on_policy(self, statevar):
-- 
2.43.0


From 0c319d538b961310c60c5784a30deecafcf26957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 52/52] fix: bound the deviation of NormalizedRewardFilter from
 below, not from above

---
 chainerrl/misc/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/misc/reward_filter.py b/chainerrl/misc/reward_filter.py
index 608ee16..b2e3213 100644
--- a/chainerrl/misc/reward_filter.py
+++ b/chainerrl/misc/reward_filter.py
@@ -14,7 +14,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward ** 2
         var = self.average_reward_squared - self.average_reward ** 2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


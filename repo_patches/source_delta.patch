From 6481cdf5ba0b93e3796b7eee2c15967d5833151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:42 +0000
Subject: [PATCH 01/44] fix: keep transitions and episodes of
 PrioritizedEpisodicReplayBuffer in step

---
 pfrl/replay_buffers/prioritized_episodic.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index e31a748..eaabf5b 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -26,8 +26,8 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         self.episodic_memory = PrioritizedBuffer(
             capacity=None, wait_priority_after_sampling=wait_priority_after_sampling
         )
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -66,12 +66,11 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
+            self.memory.extend([transition] for transition in current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From f11384351bc089b71ae180468e59e76710a0cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:42 +0000
Subject: [PATCH 02/44] fix: return the popped element from
 PersistentRandomAccessQueue.popleft

---
 pfrl/collections/persistent_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 8850977..e7073df 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -304,7 +304,7 @@ class PersistentRandomAccessQueue(object):
         return self.buffer.sample(n)
 
     def popleft(self):
-        self.buffer.popleft()
+        return self.buffer.popleft()
 
     def __len__(self):
         return len(self.buffer)
-- 
2.43.0


From cfd3a4120edba55f846a00d948585455f18ac77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:42 +0000
Subject: [PATCH 03/44] fix: do not lose elements when extending a persistent
 queue by an iterator

---
 pfrl/collections/persistent_collections.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index e7073df..c8f99fb 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -285,8 +285,7 @@ class PersistentRandomAccessQueue(object):
 
     def extend(self, xs):
         for x in xs:
-            self._append(x)
-        self.buffer.extend(xs)
+            self.append(x)
 
     def __iter__(self):
         return iter(self.buffer)
-- 
2.43.0


From 917270fc1beb56c1167f940c7c853c170d95ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:59 +0000
Subject: [PATCH 04/44] fix: load the newest data when a persistent queue has
 several ancestors or no maxlen

---
 pfrl/collections/persistent_collections.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index c8f99fb..3a0c84b 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -382,16 +382,23 @@ class PersistentRandomAccessQueue(object):
                 length += len(list(reader.read_chunk_index(gen)))
                 gen += 1
 
-        if length < num_data_needed and meta["ancestor"] is not None:
-            self._load_ancestor(meta["ancestor"], num_data_needed - length)
+        if meta["ancestor"] is not None:
+            if num_data_needed is None:
+                self._load_ancestor(meta["ancestor"], None)
+            elif length < num_data_needed:
+                self._load_ancestor(meta["ancestor"], num_data_needed - length)
 
+        n_loaded = 0
         for datadir in datadirs:
             reader = _ChunkReader(datadir, self.fs)
             rank_data = []
-            maxlen = num_data_needed - len(self.buffer)
-            if maxlen <= 0:
+            # Data of older ancestors already in the buffer must not prevent
+            # newer data from being loaded: the buffer discards the oldest ones.
+            maxlen = None if num_data_needed is None else num_data_needed - n_loaded
+            if maxlen is not None and maxlen <= 0:
                 break
             _ = reader.read_chunks(maxlen, rank_data)
+            n_loaded += len(rank_data)
             if self.logger:
                 self.logger.info(
                     "%d data loaded to buffer (rank=%d)", len(rank_data), self.comm_rank
-- 
2.43.0


From 23428452df2617068e390c527908c90e73d97942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:19 +0000
Subject: [PATCH 05/44] fix: bound PersistentEpisodicReplayBuffer by whole
 episodes

---
 pfrl/replay_buffers/episodic.py   | 11 +++++++----
 pfrl/replay_buffers/persistent.py | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pfrl/replay_buffers/episodic.py b/pfrl/replay_buffers/episodic.py
index 34ab517..1ba90c4 100644
--- a/pfrl/replay_buffers/episodic.py
+++ b/pfrl/replay_buffers/episodic.py
@@ -91,8 +91,11 @@ class EpisodicReplayBuffer(AbstractEpisodicReplayBuffer):
             for transition in current_episode:
                 self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity is not None and len(self.memory) > self.capacity:
-                discarded_episode = self.episodic_memory.popleft()
-                for _ in range(len(discarded_episode)):
-                    self.memory.popleft()
+            self._discard_old_episodes()
         assert not self.current_episode[env_id]
+
+    def _discard_old_episodes(self):
+        while self.capacity is not None and len(self.memory) > self.capacity:
+            discarded_episode = self.episodic_memory.popleft()
+            for _ in range(len(discarded_episode)):
+                self.memory.popleft()
diff --git a/pfrl/replay_buffers/persistent.py b/pfrl/replay_buffers/persistent.py
index 19342df..94535cf 100644
--- a/pfrl/replay_buffers/persistent.py
+++ b/pfrl/replay_buffers/persistent.py
@@ -122,11 +122,13 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
         self.episodic_memory_dir = os.path.join(dirname, "episodic_memory")
 
         if not distributed:
+            # The queues are not bounded by themselves since whole episodes
+            # must be discarded from both of them at the same time.
             self.memory = PersistentRandomAccessQueue(
-                self.memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.memory_dir, None, ancestor=ancestor, logger=logger
             )
             self.episodic_memory = PersistentRandomAccessQueue(
-                self.episodic_memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.episodic_memory_dir, None, ancestor=ancestor, logger=logger
             )
         else:
             try:
@@ -135,14 +137,14 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
 
                 self.memory = mn_coll.PersistentRandomAccessQueue(
                     self.memory_dir,
-                    capacity,
+                    None,
                     ancestor=ancestor,
                     logger=logger,
                     group=group,
                 )
                 self.episodic_memory = mn_coll.PersistentRandomAccessQueue(
                     self.episodic_memory_dir,
-                    capacity,
+                    None,
                     ancestor=ancestor,
                     logger=logger,
                     group=group,
@@ -155,6 +157,7 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
                     "to enable distributed execution support "
                     "of PersistentEpisodicReplayBuffer."
                 )
+        self._discard_old_episodes()
 
     def save(self, _):
         pass
-- 
2.43.0


From 6d76ada0fa4dc32325052ceaf64aaa0a417b25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:13 +0000
Subject: [PATCH 06/44] fix: unnormalized weights of sampled episodes are
 relative to the number of episodes

---
 pfrl/replay_buffers/prioritized.py          | 6 ++++--
 pfrl/replay_buffers/prioritized_episodic.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pfrl/replay_buffers/prioritized.py b/pfrl/replay_buffers/prioritized.py
index 5814d2e..3c5db93 100644
--- a/pfrl/replay_buffers/prioritized.py
+++ b/pfrl/replay_buffers/prioritized.py
@@ -54,14 +54,16 @@ class PriorityWeightError(object):
 
         return [(_clip_error(d) + self.eps) ** self.alpha for d in errors]
 
-    def weights_from_probabilities(self, probabilities, min_probability):
+    def weights_from_probabilities(self, probabilities, min_probability, size=None):
         if self.normalize_by_max == "batch":
             # discard global min and compute batch min
             min_probability = np.min(probabilities)
         if self.normalize_by_max:
             weights = [(p / min_probability) ** -self.beta for p in probabilities]
         else:
-            weights = [(len(self.memory) * p) ** -self.beta for p in probabilities]
+            if size is None:
+                size = len(self.memory)
+            weights = [(size * p) ** -self.beta for p in probabilities]
         self.beta = min(1.0, self.beta + self.beta_add)
         return weights
 
diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index eaabf5b..91fbfd4 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -51,7 +51,9 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         if max_len is not None:
             episodes = [random_subseq(ep, max_len) for ep in episodes]
         if self.return_sample_weights:
-            weights = self.weights_from_probabilities(probabilities, min_prob)
+            weights = self.weights_from_probabilities(
+                probabilities, min_prob, size=len(self.episodic_memory)
+            )
             return episodes, weights
         else:
             return episodes
-- 
2.43.0


From 63507350fbc67159251e2438be0de65b06d64515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:16 +0000
Subject: [PATCH 07/44] fix: a crash while creating a persistent queue must not
 make it unreadable

---
 pfrl/collections/persistent_collections.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 3a0c84b..cc0cb7f 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -9,7 +9,7 @@ from pfrl.collections.random_access_queue import RandomAccessQueue
 
 # code for future extension. `_VanillaFS` is a dummy of chainerio's
 # FIleSystem class.
-_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs")
+_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs rename")
 _chainerio_available = False
 
 
@@ -260,8 +260,11 @@ class PersistentRandomAccessQueue(object):
             # the import success, e.g. installing the lacking
             # library correctly.
             self.fs.makedirs(self.basedir, exist_ok=True)
-            with self.fs.open(self.meta_file, "wb") as fp:
+            # Never leave a partially written meta file at its final path
+            tmp_meta_file = self.meta_file + ".tmp"
+            with self.fs.open(tmp_meta_file, "wb") as fp:
                 pickle.dump(self.meta, fp)
+            self.fs.rename(tmp_meta_file, self.meta_file)
 
     def close(self):
         self.tail.close()
@@ -340,7 +343,10 @@ class PersistentRandomAccessQueue(object):
             else:
                 # When chainerio is not installed
                 self.fs = _VanillaFS(
-                    open=open, exists=os.path.exists, makedirs=os.makedirs
+                    open=open,
+                    exists=os.path.exists,
+                    makedirs=os.makedirs,
+                    rename=os.replace,
                 )
         else:
             self.fs = fs
-- 
2.43.0


From 4cdd4386d0af4a183884cdefc53d2bb9e63ab493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:13 +0000
Subject: [PATCH 08/44] fix: bootstrap n-step targets of DDPG with the n-step
 discount

---
 pfrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 9319f54..2513b17 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -153,13 +153,14 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch["is_state_terminal"]
         batch_state = batch["state"]
         batch_actions = batch["action"]
+        batch_discount = batch["discount"]
         batchsize = len(batch_rewards)
 
         with torch.no_grad():
             assert not self.recurrent
             next_actions = self.target_policy(batch_next_state).sample()
             next_q = self.target_q_function((batch_next_state, next_actions))
-            target_q = batch_rewards + self.gamma * (
+            target_q = batch_rewards + batch_discount * (
                 1.0 - batch_terminal
             ) * next_q.reshape((batchsize,))
 
-- 
2.43.0


From a7bc3596d347ac669a580c353275c5e5e5ba4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:13 +0000
Subject: [PATCH 09/44] fix: TD3 respects n_times_update

---
 pfrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index e70e7e9..9a35cb1 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -128,7 +128,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From cde3f3e83db6333d0001b880328b5f628b615a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:13 +0000
Subject: [PATCH 10/44] fix: DDPG, TD3 and SAC use the given batch_states in
 updates, too

---
 pfrl/agents/ddpg.py              | 8 +++++++-
 pfrl/agents/soft_actor_critic.py | 8 +++++++-
 pfrl/agents/td3.py               | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 2513b17..ba6a093 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -190,7 +190,13 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
 
         self.critic_optimizer.zero_grad()
         self.compute_critic_loss(batch).backward()
diff --git a/pfrl/agents/soft_actor_critic.py b/pfrl/agents/soft_actor_critic.py
index 57f76ae..791862a 100644
--- a/pfrl/agents/soft_actor_critic.py
+++ b/pfrl/agents/soft_actor_critic.py
@@ -309,7 +309,13 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
 
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index 9a35cb1..3e5c78c 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -252,7 +252,13 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         if self.q_func_n_updates % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From 1eb7c5be9250134d56971a6a586a778701cae45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:28 +0000
Subject: [PATCH 11/44] fix: TRPO uses the given batch_states in updates, too

---
 pfrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/trpo.py b/pfrl/agents/trpo.py
index 312185b..dd057a3 100644
--- a/pfrl/agents/trpo.py
+++ b/pfrl/agents/trpo.py
@@ -381,7 +381,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         self.obs_normalizer.experience(states)
 
     def _update_vf(self, dataset):
@@ -396,7 +396,9 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         for batch in _yield_minibatches(
             dataset, minibatch_size=self.vf_batch_size, num_epochs=self.vf_epochs
         ):
-            states = batch_states([b["state"] for b in batch], self.device, self.phi)
+            states = self.batch_states(
+                [b["state"] for b in batch], self.device, self.phi
+            )
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = torch.as_tensor(
@@ -430,7 +432,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         assert "adv" in dataset[0]
 
         # Use full-batch
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = torch.as_tensor([b["action"] for b in dataset], device=self.device)
-- 
2.43.0


From 873cf42dcad12ab4ed3c06de2f7bf15313e4540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:28 +0000
Subject: [PATCH 12/44] fix: conjugate_gradient solves Ax=0 instead of
 returning NaN

---
 pfrl/utils/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfrl/utils/conjugate_gradient.py b/pfrl/utils/conjugate_gradient.py
index 6ea0049..e675965 100644
--- a/pfrl/utils/conjugate_gradient.py
+++ b/pfrl/utils/conjugate_gradient.py
@@ -20,6 +20,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     """
     x = torch.zeros_like(b)
     r0 = b - A_product_func(x)
+    if torch.norm(r0) < tol:
+        return x
     p = r0
     for _ in range(max_iter):
         a = torch.matmul(r0, r0) / torch.matmul(A_product_func(p), p)
-- 
2.43.0


From 637f8b11f70dbe14f5edd2a60e50964f3def4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:03 +0000
Subject: [PATCH 13/44] fix: REINFORCE weighs each step by the rewards that
 follow it

The last reward was appended twice and the first one skipped, so the return of
every step left out its own reward and counted the last reward twice.
---
 pfrl/agents/reinforce.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index c34baeb..cfb3d70 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -140,7 +140,6 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
                 self.log_prob_sequences[-1] = []
                 self.entropy_sequences[-1] = []
             elif done:
-                self.reward_sequences[-1].append(reward)
                 if self.backward_separately:
                     self.accumulate_grad()
                     if self.n_backward == self.batchsize:
@@ -181,9 +180,9 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         for r_seq, log_prob_seq, ent_seq in zip(
             self.reward_sequences, self.log_prob_sequences, self.entropy_sequences
         ):
-            assert len(r_seq) - 1 == len(log_prob_seq) == len(ent_seq)
+            assert len(r_seq) == len(log_prob_seq) == len(ent_seq)
             # Convert rewards into returns (=sum of future rewards)
-            R_seq = np.cumsum(list(reversed(r_seq[1:])))[::-1]
+            R_seq = np.cumsum(list(reversed(r_seq)))[::-1]
             for R, log_prob, entropy in zip(R_seq, log_prob_seq, ent_seq):
                 loss = -R * log_prob - self.beta * entropy
                 losses.append(loss)
-- 
2.43.0


From 88f351a21b46ddc4de055149ac601b9caaf7fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:48 +0000
Subject: [PATCH 14/44] fix: A2C can start from a non-zero step, as when
 training is resumed

---
 pfrl/agents/a2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index d0768f6..9fdc095 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -101,6 +101,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         self.t = 0
         self.t_start = 0
+        self.states = None
 
         # Stats
         self.average_actor_loss = 0
@@ -227,11 +228,13 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
         statevar = self.batch_states(batch_obs, self.device, self.phi)
 
-        if self.t == 0:
+        if self.states is None:
             with torch.no_grad():
                 pout, _ = self.model(statevar)
                 action = pout.sample()
             self._flush_storage(statevar.shape, action)
+            # self.t may not start from zero when training is resumed
+            self.t_start = self.t
 
         self.states[self.t - self.t_start] = statevar
 
-- 
2.43.0


From ed4c45e7640ede2df87f91f2d68c4bf9ba2dacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:48 +0000
Subject: [PATCH 15/44] fix: ACER saves and loads its average model

---
 pfrl/agents/acer.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 5654ed6..1070cab 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -1,4 +1,5 @@
 import copy
+import os
 from logging import getLogger
 
 import numpy as np
@@ -818,9 +819,26 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
         if done or reset:
             self.test_recurrent_states = None
 
+    def save(self, dirname):
+        super().save(dirname)
+        torch.save(
+            self.shared_average_model.state_dict(),
+            os.path.join(dirname, "shared_average_model.pt"),
+        )
+
     def load(self, dirname):
         super().load(dirname)
         copy_param.copy_param(target_link=self.shared_model, source_link=self.model)
+        filename = os.path.join(dirname, "shared_average_model.pt")
+        if os.path.exists(filename):
+            self.shared_average_model.load_state_dict(
+                torch.load(filename, torch.device("cpu"))
+            )
+        else:
+            # Saved without the average model
+            copy_param.copy_param(
+                target_link=self.shared_average_model, source_link=self.model
+            )
 
     def get_statistics(self):
         return [
-- 
2.43.0


From 2a2811f0e2ab1cec7383e38cd42aea539af5bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:48 +0000
Subject: [PATCH 16/44] fix: EmpiricalNormalization uses the loaded or copied
 variance, not a stale cache

---
 pfrl/nn/empirical_normalization.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pfrl/nn/empirical_normalization.py b/pfrl/nn/empirical_normalization.py
index a49560e..527a84b 100644
--- a/pfrl/nn/empirical_normalization.py
+++ b/pfrl/nn/empirical_normalization.py
@@ -40,9 +40,6 @@ class EmpiricalNormalization(nn.Module):
         )
         self.register_buffer("count", torch.tensor(0))
 
-        # cache
-        self._cached_std_inverse = None
-
     @property
     def mean(self):
         return torch.squeeze(self._mean, self.batch_axis).clone()
@@ -53,10 +50,8 @@ class EmpiricalNormalization(nn.Module):
 
     @property
     def _std_inverse(self):
-        if self._cached_std_inverse is None:
-            self._cached_std_inverse = (self._var + self.eps) ** -0.5
-
-        return self._cached_std_inverse
+        # Not cached because loading or copying states changes self._var
+        return (self._var + self.eps) ** -0.5
 
     def experience(self, x):
         """Learn input values without computing the output values of them"""
@@ -80,9 +75,6 @@ class EmpiricalNormalization(nn.Module):
         self._mean += rate * delta_mean
         self._var += rate * (var_x - self._var + delta_mean * (mean_x - self._mean))
 
-        # clear cache
-        self._cached_std_inverse = None
-
     def forward(self, x, update=True):
         """Normalize mean and variance of values based on emprical values.
 
-- 
2.43.0


From 286bb836b4f2dfd521f6ea2b60aea07b7e4082c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:30 +0000
Subject: [PATCH 17/44] fix: an evaluation that ends with its steps tells the
 agent to reset its state

---
 pfrl/experiments/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index 7569178..d5eb750 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -40,7 +40,6 @@ def _run_episodes(
         episode_len += 1
         timestep += 1
         reset = done or episode_len == max_episode_len or info.get("needs_reset", False)
-        agent.observe(obs, r, done, reset)
         if reset:
             logger.info(
                 "evaluation episode %s length:%s R:%s", len(scores), episode_len, test_r
@@ -53,6 +52,8 @@ def _run_episodes(
             terminate = len(scores) >= n_episodes
         else:
             terminate = timestep >= n_steps
+        # If this is the last step, make sure the agent observes reset=True
+        agent.observe(obs, r, done, reset or terminate)
     # If all steps were used for a single unfinished episode
     if len(scores) == 0:
         scores.append(float(test_r))
-- 
2.43.0


From 99b7f2053f79f64dde2a9f612db29fc2d5490ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:30 +0000
Subject: [PATCH 18/44] fix: batch training restarts its episodes after an
 evaluation on the training env

---
 pfrl/experiments/train_agent_batch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pfrl/experiments/train_agent_batch.py b/pfrl/experiments/train_agent_batch.py
index add7cda..d874da6 100644
--- a/pfrl/experiments/train_agent_batch.py
+++ b/pfrl/experiments/train_agent_batch.py
@@ -78,6 +78,13 @@ def train_agent_batch(
             resets = np.logical_or(
                 resets, [info.get("needs_reset", False) for info in infos]
             )
+            # An evaluation on the training env interrupts all of its episodes
+            if (
+                evaluator
+                and evaluator.env is env
+                and t + num_envs >= evaluator.prev_eval_t + evaluator.eval_interval
+            ):
+                resets = np.ones(num_envs, dtype=bool)
             # Agent observes the consequences
             agent.batch_observe(obss, rs, dones, resets)
 
-- 
2.43.0


From f737f89177499b6f7d7f15dcb192c22020065410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:30 +0000
Subject: [PATCH 19/44] fix: an interrupted batch training closes an env shared
 with the evaluator only once

---
 pfrl/experiments/train_agent_batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_batch.py b/pfrl/experiments/train_agent_batch.py
index d874da6..22654d9 100644
--- a/pfrl/experiments/train_agent_batch.py
+++ b/pfrl/experiments/train_agent_batch.py
@@ -151,7 +151,7 @@ def train_agent_batch(
         # Save the current model before being killed
         save_agent(agent, t, outdir, logger, suffix="_except")
         env.close()
-        if evaluator:
+        if evaluator and evaluator.env is not env:
             evaluator.env.close()
         raise
     else:
-- 
2.43.0


From 263d0d144f5574f72b92b01467bcaeeb06949018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 20/44] fix: set_random_seed accepts numpy integers, as
 train_agent_async uses them

---
 pfrl/utils/random_seed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfrl/utils/random_seed.py b/pfrl/utils/random_seed.py
index 726c22f..adcecb6 100644
--- a/pfrl/utils/random_seed.py
+++ b/pfrl/utils/random_seed.py
@@ -14,6 +14,8 @@ def set_random_seed(seed):
     Args:
         seed (int): Random seed [0, 2 ** 32).
     """
+    # random.seed does not accept numpy integers
+    seed = int(seed)
     # PFRL depends on random
     random.seed(seed)
     # PFRL depends on numpy.random
-- 
2.43.0


From 94847b7d49cebed79f8a7ae1bbea6da9a5e94722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 21/44] fix: asynchronous training counts its steps from
 step_offset

---
 pfrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index d8b3b40..38a9f44 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -222,7 +222,7 @@ def train_agent_async(
     # Prevent numpy from using multiple threads
     os.environ["OMP_NUM_THREADS"] = "1"
 
-    counter = mp.Value("l", 0)
+    counter = mp.Value("l", step_offset)
     episodes_counter = mp.Value("l", 0)
 
     if stop_event is None:
-- 
2.43.0


From 914d6491d96eb7f603db3a93677aaef3a296888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 22/44] fix: asynchronous evaluation does not round the best
 score to float32

---
 pfrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index d5eb750..e22a13d 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -572,7 +572,7 @@ class AsyncEvaluator(object):
         self.prev_eval_t = mp.Value(
             "l", self.step_offset - self.step_offset % self.eval_interval
         )
-        self._max_score = mp.Value("f", np.finfo(np.float32).min)
+        self._max_score = mp.Value("d", np.finfo(np.float32).min)
         self.wrote_header = mp.Value("b", False)
 
         # Create scores.txt
-- 
2.43.0


From b515e02e597b2524b33a336919403ff993adab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 23/44] fix: the spec of SerialVectorEnv is that of its envs

---
 pfrl/envs/serial_vector_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/envs/serial_vector_env.py b/pfrl/envs/serial_vector_env.py
index 73104ad..d0a201d 100644
--- a/pfrl/envs/serial_vector_env.py
+++ b/pfrl/envs/serial_vector_env.py
@@ -18,7 +18,7 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+        self.spec = getattr(envs[0], "spec", None)
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From 44a5aa8fb3e4d1a99a6729bd7a768fb756c9435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 24/44] fix: VectorEnvWrapper.reset takes a mask like
 VectorEnv.reset

---
 pfrl/wrappers/vector_frame_stack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pfrl/wrappers/vector_frame_stack.py b/pfrl/wrappers/vector_frame_stack.py
index 5596f5b..87a7553 100644
--- a/pfrl/wrappers/vector_frame_stack.py
+++ b/pfrl/wrappers/vector_frame_stack.py
@@ -25,8 +25,8 @@ class VectorEnvWrapper(VectorEnv):
     def step(self, action):
         return self.env.step(action)
 
-    def reset(self, **kwargs):
-        return self.env.reset(**kwargs)
+    def reset(self, mask=None):
+        return self.env.reset(mask=mask)
 
     def render(self, mode="human", **kwargs):
         return self.env.render(mode, **kwargs)
-- 
2.43.0


From 1b3baa805b5a383a35e188ca9f0608fafc004dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 25/44] fix: FireResetEnv returns the first observation of the
 new episode, not the last of the old

---
 pfrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2a49779..97b0669 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -68,7 +68,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get("needs_reset", False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From a77962ae073732010082caa917a82465783e07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 26/44] fix: EpisodicLifeEnv resets a game that ends by the
 no-op step of its reset

---
 pfrl/wrappers/atari_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 97b0669..2281c44 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -110,7 +110,10 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            # the no-op step may end the game
+            if done or info.get("needs_reset", False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 8b80519f586dabd06d9bd0bcc8af831c293f8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 27/44] fix: MaxAndSkipEnv does not return frames of earlier
 steps when an episode is cut

---
 pfrl/wrappers/atari_wrappers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2281c44..05357d0 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -132,10 +132,11 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
-                self._obs_buffer[1] = obs
+            # keep the last two observations, even if the episode is cut short
+            if i == 0:
+                self._obs_buffer[:] = obs
+            else:
+                self._obs_buffer[i % 2] = obs
             total_reward += reward
             if done or info.get("needs_reset", False):
                 break
-- 
2.43.0


From 3001d18410df65748400b37571fa4de31ef865a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 28/44] fix: repeated actions do not go on when the env needs a
 reset

---
 pfrl/utils/env_modifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/env_modifiers.py b/pfrl/utils/env_modifiers.py
index a605b7b..3b3cd42 100644
--- a/pfrl/utils/env_modifiers.py
+++ b/pfrl/utils/env_modifiers.py
@@ -75,7 +75,7 @@ def make_action_repeated(env, n_times):
         for _ in range(n_times):
             obs, r, done, info = old_step(action)
             r_total += r
-            if done:
+            if done or info.get("needs_reset", False):
                 break
         return obs, r_total, done, info
 
-- 
2.43.0


From b1b017a0e4bab1e8503bcf3fcab9281f69da67d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:07 +0000
Subject: [PATCH 29/44] fix: LinearDecayEpsilonGreedy with decay_steps=0
 divided by zero at step 0

---
 pfrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/explorers/epsilon_greedy.py b/pfrl/explorers/epsilon_greedy.py
index c034d6a..6d82c50 100644
--- a/pfrl/explorers/epsilon_greedy.py
+++ b/pfrl/explorers/epsilon_greedy.py
@@ -69,7 +69,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 66983bf583a78ccb65e2bdf1ce6ffd92e99b5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 30/44] fix: SingleModelStateActionQFunction could not be
 constructed

---
 pfrl/q_functions/state_action_q_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/q_functions/state_action_q_functions.py b/pfrl/q_functions/state_action_q_functions.py
index be540f1..36a102e 100644
--- a/pfrl/q_functions/state_action_q_functions.py
+++ b/pfrl/q_functions/state_action_q_functions.py
@@ -17,7 +17,8 @@ class SingleModelStateActionQFunction(nn.Module, StateActionQFunction):
     """
 
     def __init__(self, model):
-        super().__init__(model=model)
+        super().__init__()
+        self.model = model
 
     def forward(self, x, a):
         h = self.model(x, a)
-- 
2.43.0


From 88dcf07ef38bcdec056d9a87e939d5b494d5013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:57 +0000
Subject: [PATCH 31/44] fix: evaluating() did not restore submodules that were
 in evaluation mode

---
 pfrl/utils/contexts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pfrl/utils/contexts.py b/pfrl/utils/contexts.py
index e5cd867..1acd082 100644
--- a/pfrl/utils/contexts.py
+++ b/pfrl/utils/contexts.py
@@ -4,10 +4,11 @@ from contextlib import contextmanager
 @contextmanager
 def evaluating(net):
     """Temporarily switch to evaluation mode."""
-    istrain = net.training
+    # Submodules can be in different modes, so each of them needs to be restored
+    modes = [(module, module.training) for module in net.modules()]
     try:
         net.eval()
         yield net
     finally:
-        if istrain:
-            net.train()
+        for module, istrain in modes:
+            module.training = istrain
-- 
2.43.0


From 40f90347a4e3f4c05db72fcc515823a718b7c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:40 +0000
Subject: [PATCH 32/44] fix: soft_copy_param did not copy integer buffers to
 the target module

---
 pfrl/utils/copy_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index c6887a9..eb7e93f 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -19,7 +19,7 @@ def soft_copy_param(target_link, source_link, tau):
         else:
             # Scalar type
             # Some modules such as BN has scalar value `num_batches_tracked`
-            target_dict[k] = source_value
+            target_value.copy_(source_value)
 
 
 def copy_grad(target_link, source_link):
-- 
2.43.0


From ebb79d37e231d554b659b27a3dfcf4d0a95144c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:03 +0000
Subject: [PATCH 33/44] fix: soft_copy_param moved tensors registered under two
 names twice

---
 pfrl/utils/copy_param.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index eb7e93f..adf62e8 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -10,7 +10,13 @@ def soft_copy_param(target_link, source_link, tau):
     """Soft-copy parameters of a link to another link."""
     target_dict = target_link.state_dict()
     source_dict = source_link.state_dict()
+    updated = set()
     for k, target_value in target_dict.items():
+        # The same tensor can be registered under multiple names
+        tensor_id = (target_value.data_ptr(), target_value.shape)
+        if tensor_id in updated:
+            continue
+        updated.add(tensor_id)
         source_value = source_dict[k]
         if source_value.dtype in [torch.float32, torch.float64, torch.float16]:
             assert target_value.shape == source_value.shape
-- 
2.43.0


From 286ad1f7e4fd114c17e4e3508b1b91c22812c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:59 +0000
Subject: [PATCH 34/44] fix: NormalizedRewardFilter used eps as an upper
 instead of a lower bound of the variance

---
 pfrl/utils/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/reward_filter.py b/pfrl/utils/reward_filter.py
index 9df735f..0720e46 100644
--- a/pfrl/utils/reward_filter.py
+++ b/pfrl/utils/reward_filter.py
@@ -12,7 +12,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward**2
         var = self.average_reward_squared - self.average_reward**2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From a7cdeac47e7a97fe03acab9cca2bcd1b40014e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:53 +0000
Subject: [PATCH 35/44] fix: Delta distribution did not accept a float location

---
 pfrl/distributions/delta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/distributions/delta.py b/pfrl/distributions/delta.py
index d0324df..2b92b7d 100644
--- a/pfrl/distributions/delta.py
+++ b/pfrl/distributions/delta.py
@@ -2,6 +2,7 @@ from numbers import Number
 
 import torch
 from torch.distributions import Distribution, constraints
+from torch.distributions.utils import broadcast_all
 
 
 class Delta(Distribution):
@@ -32,7 +33,7 @@ class Delta(Distribution):
         return torch.zeros_like(self.loc)
 
     def __init__(self, loc, validate_args=None):
-        self.loc = loc
+        (self.loc,) = broadcast_all(loc)
         if isinstance(loc, Number):
             batch_shape = torch.Size()
         else:
-- 
2.43.0


From 81c54b3b5742da40187432ecd2543d0752d57043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:03 +0000
Subject: [PATCH 36/44] fix: lower_triangular_matrix only accepted float32
 inputs

---
 pfrl/functions/lower_triangular_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/functions/lower_triangular_matrix.py b/pfrl/functions/lower_triangular_matrix.py
index 76b898d..6595b01 100644
--- a/pfrl/functions/lower_triangular_matrix.py
+++ b/pfrl/functions/lower_triangular_matrix.py
@@ -21,7 +21,7 @@ def lower_triangular_matrix(diag, non_diag):
     assert isinstance(non_diag, torch.Tensor)
     batch_size = diag.shape[0]
     n = diag.shape[1]
-    y = torch.zeros((batch_size, n, n), dtype=torch.float32)
+    y = torch.zeros((batch_size, n, n), dtype=diag.dtype)
     y = y.to(diag.device)
     set_batch_non_diagonal(y, non_diag)
     set_batch_diagonal(y, diag)
-- 
2.43.0


From 4f4687f7ae8dbbea17d87871b1c6c0bfd77b985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:02 +0000
Subject: [PATCH 37/44] fix: REINFORCE, ACER and A2C acted in evaluation with
 networks in training mode

---
 pfrl/agents/a2c.py       | 4 ++--
 pfrl/agents/acer.py      | 4 ++--
 pfrl/agents/reinforce.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index 9fdc095..7a04d87 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -4,7 +4,7 @@ from logging import getLogger
 import torch
 
 from pfrl import agent
-from pfrl.utils import clip_l2_grad_norm_
+from pfrl.utils import clip_l2_grad_norm_, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 
@@ -253,7 +253,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
     def _batch_act_eval(self, batch_obs):
         assert not self.training
         statevar = self.batch_states(batch_obs, self.device, self.phi)
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             pout, _ = self.model(statevar)
             if self.act_deterministically:
                 action = mode_of_distribution(pout)
diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 1070cab..e703a01 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -8,7 +8,7 @@ from torch import nn
 
 from pfrl import agent
 from pfrl.action_value import SingleActionValue
-from pfrl.utils import clip_l2_grad_norm_, copy_param
+from pfrl.utils import clip_l2_grad_norm_, copy_param, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 from pfrl.utils.recurrent import detach_recurrent_state, one_step_forward
@@ -759,7 +759,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def _act_eval(self, obs):
         # Use the process-local model for acting
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             statevar = batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 (action_distrib, _, _), self.test_recurrent_states = one_step_forward(
diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index cfb3d70..8f77405 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -155,7 +155,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
             self.train_recurrent_states = None
 
     def _act_eval(self, obs):
-        with torch.no_grad():
+        with torch.no_grad(), pfrl.utils.evaluating(self.model):
             batch_obs = self.batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 action_distrib, self.test_recurrent_states = one_step_forward(
-- 
2.43.0


From e1b44061c44599dbdc315105848895c0b84b7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:54 +0000
Subject: [PATCH 38/44] fix: assign errors to the sampled transitions when
 actors add to a prioritized replay buffer during an update

---
 pfrl/agents/dqn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index a05ea5a..160c13b 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -677,10 +677,15 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                         )
                     self.update_from_episodes(episodes)
                 else:
+                    # Errors must be assigned to the sampled transitions
+                    # before the poller changes a prioritized replay buffer.
+                    keeps_lock = isinstance(self.replay_buffer, PrioritizedReplayBuffer)
                     with replay_buffer_lock:
                         transitions = self.replay_buffer.sample(self.minibatch_size)
-
-                    self.update(transitions)
+                        if keeps_lock:
+                            self.update(transitions)
+                    if not keeps_lock:
+                        self.update(transitions)
 
                 # Update the shared model. This can be expensive if GPU is used
                 # since this is a DtoH copy, so it is updated only at regular
-- 
2.43.0


From 5358fc330407d038b9d8eb169135d2237c08965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:54 +0000
Subject: [PATCH 39/44] fix: check again that enough episodes are stored before
 the learner samples them

---
 pfrl/agents/dqn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 160c13b..6e19cfd 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -672,6 +672,9 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                 if self.recurrent:
                     assert isinstance(self.replay_buffer, AbstractEpisodicReplayBuffer)
                     with replay_buffer_lock:
+                        # Old episodes may have been discarded meanwhile
+                        if not self._can_start_replay():
+                            continue
                         episodes = self.replay_buffer.sample_episodes(
                             self.minibatch_size, self.episodic_update_len
                         )
-- 
2.43.0


From 4b5799e7d97e17174b95d74c9ee6ed6611e8823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 40/44] fix: prepare_output_dir did not use the given argv for
 the generated experiment id

---
 pfrl/experiments/prepare_output_dir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/prepare_output_dir.py b/pfrl/experiments/prepare_output_dir.py
index 0c2387a..127f6f4 100644
--- a/pfrl/experiments/prepare_output_dir.py
+++ b/pfrl/experiments/prepare_output_dir.py
@@ -115,7 +115,7 @@ def prepare_output_dir(
 
     if exp_id is None:
         if is_under_git_control():
-            exp_id = generate_exp_id()
+            exp_id = generate_exp_id(argv=sys.argv if argv is None else argv)
         else:
             exp_id = timestamp
 
-- 
2.43.0


From a4947d120838b59aee5b4ccfa58e05d38adf4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:59 +0000
Subject: [PATCH 41/44] fix: extract a downloaded model before it counts as
 cached

---
 pfrl/utils/pretrained_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pfrl/utils/pretrained_models.py b/pfrl/utils/pretrained_models.py
index 3c7e64d..b75dc65 100644
--- a/pfrl/utils/pretrained_models.py
+++ b/pfrl/utils/pretrained_models.py
@@ -151,9 +151,10 @@ def download_and_store_model(alg, url, env, model_type):
         is_cached = os.path.exists(path)
         if not is_cached:
             cache_path = cached_download(posixpath.join(url_basepath, file))
-            os.rename(cache_path, path)
-            with zipfile.ZipFile(path, "r") as zip_ref:
+            with zipfile.ZipFile(cache_path, "r") as zip_ref:
                 zip_ref.extractall(root)
+            # The file at path says that the model has been extracted
+            os.rename(cache_path, path)
         return os.path.join(root, model_type), is_cached
 
 
-- 
2.43.0


From f96bf5376d1d00d963e29babb1a12b32af6981d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:38 +0000
Subject: [PATCH 42/44] fix: A2C reported the average value loss as
 average_value

---
 pfrl/agents/a2c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index 7a04d87..1fe9072 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -207,7 +207,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
             float(action_loss) - self.average_actor_loss
         )
         self.average_value += (1 - self.average_value_decay) * (
-            float(value_loss) - self.average_value
+            float(values.mean()) - self.average_value
         )
         self.average_entropy += (1 - self.average_entropy_decay) * (
             float(dist_entropy) - self.average_entropy
-- 
2.43.0


From 78112c448d26010d70f4e7953dc6c66ad7ba2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:44 +0000
Subject: [PATCH 43/44] fix: train_agent_async loses tensorboard records when a
 worker stops training early

---
 pfrl/experiments/train_agent_async.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index 38a9f44..9a9a2f9 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -264,7 +264,10 @@ def train_agent_async(
             logger=logger,
         )
         if use_tensorboard:
-            evaluator.start_tensorboard_writer(outdir, stop_event)
+            # Workers can set stop_event while evaluation results are still on
+            # their way, so the writer needs its own event
+            tb_stop_event = mp.Event()
+            evaluator.start_tensorboard_writer(outdir, tb_stop_event)
 
     if random_seeds is None:
         random_seeds = np.arange(processes)
@@ -323,6 +326,7 @@ def train_agent_async(
     stop_event.set()
 
     if evaluator is not None and use_tensorboard:
+        tb_stop_event.set()
         evaluator.join_tensorboard_writer()
 
     return agent
-- 
2.43.0


From a960f657c083cd13d3bf1323c480ea1ef63e127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:04 +0000
Subject: [PATCH 44/44] fix: PersistentEpisodicReplayBuffer could not be opened
 on an ancestor

---
 pfrl/replay_buffers/persistent.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pfrl/replay_buffers/persistent.py b/pfrl/replay_buffers/persistent.py
index 94535cf..d00752a 100644
--- a/pfrl/replay_buffers/persistent.py
+++ b/pfrl/replay_buffers/persistent.py
@@ -120,15 +120,24 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
 
         self.memory_dir = os.path.join(dirname, "memory")
         self.episodic_memory_dir = os.path.join(dirname, "episodic_memory")
+        if ancestor is not None:
+            memory_ancestor = os.path.join(ancestor, "memory")
+            episodic_memory_ancestor = os.path.join(ancestor, "episodic_memory")
+        else:
+            memory_ancestor = None
+            episodic_memory_ancestor = None
 
         if not distributed:
             # The queues are not bounded by themselves since whole episodes
             # must be discarded from both of them at the same time.
             self.memory = PersistentRandomAccessQueue(
-                self.memory_dir, None, ancestor=ancestor, logger=logger
+                self.memory_dir, None, ancestor=memory_ancestor, logger=logger
             )
             self.episodic_memory = PersistentRandomAccessQueue(
-                self.episodic_memory_dir, None, ancestor=ancestor, logger=logger
+                self.episodic_memory_dir,
+                None,
+                ancestor=episodic_memory_ancestor,
+                logger=logger,
             )
         else:
             try:
@@ -138,14 +147,14 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
                 self.memory = mn_coll.PersistentRandomAccessQueue(
                     self.memory_dir,
                     None,
-                    ancestor=ancestor,
+                    ancestor=memory_ancestor,
                     logger=logger,
                     group=group,
                 )
                 self.episodic_memory = mn_coll.PersistentRandomAccessQueue(
                     self.episodic_memory_dir,
                     None,
-                    ancestor=ancestor,
+                    ancestor=episodic_memory_ancestor,
                     logger=logger,
                     group=group,
                 )
-- 
2.43.0


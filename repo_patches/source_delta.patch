From d77613fd4aaaffcbe3dc96ca8bd05ee8b61b83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:57 +0000
Subject: [PATCH 01/25] fix: write the persistent queue's meta file atomically

A process that died while creating a persistent queue left an empty or
truncated meta.pkl, after which the directory could never be opened again.
---
 pfrl/collections/persistent_collections.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 8850977..d1e145c 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -9,7 +9,7 @@ from pfrl.collections.random_access_queue import RandomAccessQueue
 
 # code for future extension. `_VanillaFS` is a dummy of chainerio's
 # FIleSystem class.
-_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs")
+_VanillaFS = collections.namedtuple("_VanillaFS", "exists open makedirs replace")
 _chainerio_available = False
 
 
@@ -260,8 +260,12 @@ class PersistentRandomAccessQueue(object):
             # the import success, e.g. installing the lacking
             # library correctly.
             self.fs.makedirs(self.basedir, exist_ok=True)
-            with self.fs.open(self.meta_file, "wb") as fp:
+            # Never leave a partially written meta file behind: it would make
+            # the directory impossible to reopen.
+            tmp_meta_file = self.meta_file + ".tmp"
+            with self.fs.open(tmp_meta_file, "wb") as fp:
                 pickle.dump(self.meta, fp)
+            self.fs.replace(tmp_meta_file, self.meta_file)
 
     def close(self):
         self.tail.close()
@@ -341,7 +345,10 @@ class PersistentRandomAccessQueue(object):
             else:
                 # When chainerio is not installed
                 self.fs = _VanillaFS(
-                    open=open, exists=os.path.exists, makedirs=os.makedirs
+                    open=open,
+                    exists=os.path.exists,
+                    makedirs=os.makedirs,
+                    replace=os.replace,
                 )
         else:
             self.fs = fs
-- 
2.43.0


From 140b9ef83ed15f67c5e89525edaf30dfa5e9a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:17 +0000
Subject: [PATCH 02/25] fix: keep index offsets right after a failed append to
 the persistent queue

After a disk error during append, the recorded offsets no longer matched the
data file, so reopening failed on a CRC assertion and all data was lost.
---
 pfrl/collections/persistent_collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index d1e145c..80c81d7 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -136,6 +136,9 @@ class _ChunkWriter(object):
         if self.do_pickle:
             data = pickle.dumps(data)
 
+        # A previous append may have failed halfway (e.g. no space left on the
+        # device), so ask the file where this record is going to be.
+        self.offset = self.dfp.tell()
         self.dfp.write(data)
         self.dfp.flush()
         crc = binascii.crc32(data)
-- 
2.43.0


From e2e6fc04e71456d2a80d8c4a5f6012d6dd9b1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:29 +0000
Subject: [PATCH 03/25] fix: load exactly the most recent data of a persistent
 queue's lineage

With an unbounded queue, loading an ancestor raised TypeError; with a bounded
one, a large chunk of a grandparent could displace the parent's newer data.
---
 pfrl/collections/persistent_collections.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 80c81d7..3dabc8d 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -393,16 +393,24 @@ class PersistentRandomAccessQueue(object):
                 length += len(list(reader.read_chunk_index(gen)))
                 gen += 1
 
-        if length < num_data_needed and meta["ancestor"] is not None:
-            self._load_ancestor(meta["ancestor"], num_data_needed - length)
+        if meta["ancestor"] is not None:
+            if num_data_needed is None:
+                self._load_ancestor(meta["ancestor"], None)
+            elif length < num_data_needed:
+                self._load_ancestor(meta["ancestor"], num_data_needed - length)
 
+        maxlen = num_data_needed
         for datadir in datadirs:
             reader = _ChunkReader(datadir, self.fs)
             rank_data = []
-            maxlen = num_data_needed - len(self.buffer)
-            if maxlen <= 0:
+            if maxlen is not None and maxlen <= 0:
                 break
             _ = reader.read_chunks(maxlen, rank_data)
+            if maxlen is not None:
+                # Chunks are read as a whole. Keep only what is needed so that
+                # an older ancestor never takes the place of a newer one.
+                rank_data = rank_data[-maxlen:]
+                maxlen -= len(rank_data)
             if self.logger:
                 self.logger.info(
                     "%d data loaded to buffer (rank=%d)", len(rank_data), self.comm_rank
-- 
2.43.0


From e22fc4645053124f1411e92f8133e301954e8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:05 +0000
Subject: [PATCH 04/25] fix: let PersistentEpisodicReplayBuffer load an
 ancestor

The ancestor directory itself was passed to both underlying queues, which live
in its memory/ and episodic_memory/ subdirectories, so loading always failed.
---
 pfrl/replay_buffers/persistent.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pfrl/replay_buffers/persistent.py b/pfrl/replay_buffers/persistent.py
index 19342df..db4b80a 100644
--- a/pfrl/replay_buffers/persistent.py
+++ b/pfrl/replay_buffers/persistent.py
@@ -121,12 +121,22 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
         self.memory_dir = os.path.join(dirname, "memory")
         self.episodic_memory_dir = os.path.join(dirname, "episodic_memory")
 
+        if ancestor is None:
+            memory_ancestor = None
+            episodic_memory_ancestor = None
+        else:
+            memory_ancestor = os.path.join(ancestor, "memory")
+            episodic_memory_ancestor = os.path.join(ancestor, "episodic_memory")
+
         if not distributed:
             self.memory = PersistentRandomAccessQueue(
-                self.memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.memory_dir, capacity, ancestor=memory_ancestor, logger=logger
             )
             self.episodic_memory = PersistentRandomAccessQueue(
-                self.episodic_memory_dir, capacity, ancestor=ancestor, logger=logger
+                self.episodic_memory_dir,
+                capacity,
+                ancestor=episodic_memory_ancestor,
+                logger=logger,
             )
         else:
             try:
@@ -136,14 +146,14 @@ class PersistentEpisodicReplayBuffer(EpisodicReplayBuffer):
                 self.memory = mn_coll.PersistentRandomAccessQueue(
                     self.memory_dir,
                     capacity,
-                    ancestor=ancestor,
+                    ancestor=memory_ancestor,
                     logger=logger,
                     group=group,
                 )
                 self.episodic_memory = mn_coll.PersistentRandomAccessQueue(
                     self.episodic_memory_dir,
                     capacity,
-                    ancestor=ancestor,
+                    ancestor=episodic_memory_ancestor,
                     logger=logger,
                     group=group,
                 )
-- 
2.43.0


From dac773bc45979d4f19a464cb1587d6d96a372280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 05/25] fix: enforce the capacity of
 PrioritizedEpisodicReplayBuffer after load

load() did not account for the loaded episodes, so the buffer could grow to
twice its capacity.
---
 pfrl/replay_buffers/prioritized_episodic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index e31a748..ebf6811 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -27,6 +27,7 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
             capacity=None, wait_priority_after_sampling=wait_priority_after_sampling
         )
         self.memory = RandomAccessQueue(maxlen=capacity)
+        self.capacity = capacity
         self.capacity_left = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
@@ -59,6 +60,14 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
     def update_errors(self, errors):
         self.episodic_memory.set_last_priority(self.priority_from_errors(errors))
 
+    def load(self, filename):
+        super().load(filename)
+        if self.capacity is not None:
+            # Loaded episodes occupy the capacity as well
+            self.capacity_left = self.capacity - sum(
+                len(episode) for episode in self.episodic_memory.data
+            )
+
     def stop_current_episode(self, env_id=0):
         current_episode = self.current_episode[env_id]
         if current_episode:
-- 
2.43.0


From 7fb98f69b1fc091f357d79a4724f4a134d4b3190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:51 +0000
Subject: [PATCH 06/25] fix: report priorities to the sampled entries even if
 older ones were evicted

Appending to a full PrioritizedBuffer between sample and set_last_priority
shifts the data, but the indices of the sampled data were kept, so the new
priorities went to other entries and the sampled ones kept priority zero.
---
 pfrl/collections/prioritized.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pfrl/collections/prioritized.py b/pfrl/collections/prioritized.py
index a6d6909..d40edee 100644
--- a/pfrl/collections/prioritized.py
+++ b/pfrl/collections/prioritized.py
@@ -51,6 +51,9 @@ class PrioritizedBuffer(Generic[T]):
         assert len(self) > 0
         self.priority_sums.popleft()
         self.priority_mins.popleft()
+        if self.flag_wait_priority:
+            # Keep pointing at the data sampled last, which are now shifted
+            self.sampled_indices = [i - 1 for i in self.sampled_indices]
         return self.data.popleft()
 
     def _sample_indices_and_probabilities(
@@ -109,8 +112,9 @@ class PrioritizedBuffer(Generic[T]):
         assert all([p > 0.0 for p in priority])
         assert len(self.sampled_indices) == len(priority)
         for i, p in zip(self.sampled_indices, priority):
-            self.priority_sums[i] = p
-            self.priority_mins[i] = p
+            if i >= 0:  # Otherwise it is already discarded
+                self.priority_sums[i] = p
+                self.priority_mins[i] = p
             self.max_priority = max(self.max_priority, p)
         self.flag_wait_priority = False
         self.sampled_indices = []
-- 
2.43.0


From e5a2e7365e01e789961bb4488c543f687c546513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:26 +0000
Subject: [PATCH 07/25] fix: scale unnormalised weights of prioritised episodes
 by the number of episodes

Probabilities are distributed over the episodes, but the importance weights
were computed with the number of transitions.
---
 pfrl/replay_buffers/prioritized.py          | 7 ++++++-
 pfrl/replay_buffers/prioritized_episodic.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pfrl/replay_buffers/prioritized.py b/pfrl/replay_buffers/prioritized.py
index 5814d2e..5a96443 100644
--- a/pfrl/replay_buffers/prioritized.py
+++ b/pfrl/replay_buffers/prioritized.py
@@ -54,6 +54,10 @@ class PriorityWeightError(object):
 
         return [(_clip_error(d) + self.eps) ** self.alpha for d in errors]
 
+    def _n_prioritized(self):
+        # Number of the data among which the probabilities are distributed
+        return len(self.memory)
+
     def weights_from_probabilities(self, probabilities, min_probability):
         if self.normalize_by_max == "batch":
             # discard global min and compute batch min
@@ -61,7 +65,8 @@ class PriorityWeightError(object):
         if self.normalize_by_max:
             weights = [(p / min_probability) ** -self.beta for p in probabilities]
         else:
-            weights = [(len(self.memory) * p) ** -self.beta for p in probabilities]
+            n = self._n_prioritized()
+            weights = [(n * p) ** -self.beta for p in probabilities]
         self.beta = min(1.0, self.beta + self.beta_add)
         return weights
 
diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index ebf6811..59f005e 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -57,6 +57,9 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         else:
             return episodes
 
+    def _n_prioritized(self):
+        return len(self.episodic_memory)
+
     def update_errors(self, errors):
         self.episodic_memory.set_last_priority(self.priority_from_errors(errors))
 
-- 
2.43.0


From 5bd593c161c84cfb8c14e385d29d83b9a7664166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:05 +0000
Subject: [PATCH 08/25] fix: report priorities under the replay buffer lock in
 actor-learner training

The learner thread updated the priorities of a PrioritizedReplayBuffer while
the poller thread appended to it.
---
 pfrl/agents/dqn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index a05ea5a..2c4432a 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -1,4 +1,5 @@
 import collections
+import contextlib
 import copy
 import ctypes
 import multiprocessing as mp
@@ -259,6 +260,10 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         self._cumulative_steps = 0
         self.target_model = make_target_model_as_copy(self.model)
 
+        # Held while reporting errors to the replay buffer. It is replaced by an
+        # actual lock in actor-learner training.
+        self._replay_buffer_lock: Any = contextlib.nullcontext()
+
         # Statistics
         self.q_record: collections.deque = collections.deque(maxlen=1000)
         self.loss_record: collections.deque = collections.deque(maxlen=100)
@@ -353,7 +358,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         loss = self._compute_loss(exp_batch, errors_out=errors_out)
         if has_weight:
             assert isinstance(self.replay_buffer, PrioritizedReplayBuffer)
-            self.replay_buffer.update_errors(errors_out)
+            with self._replay_buffer_lock:
+                self.replay_buffer.update_errors(errors_out)
 
         self.loss_record.append(float(loss.detach().cpu().numpy()))
 
@@ -755,6 +761,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
             )
 
         replay_buffer_lock = mp.Lock()
+        self._replay_buffer_lock = replay_buffer_lock
 
         poller_stop_event = mp.Event()
         poller = pfrl.utils.StoppableThread(
-- 
2.43.0


From 4b512060bcaf1caed24663d8553b1f69892b74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:49 +0000
Subject: [PATCH 09/25] fix: keep serving actors after a failure in
 actor-learner training

When the learner failed, the poller stopped as well, so the first actor, which
is to save the agent and stop the others on a failure, waited forever for the
reply to its request to save.
---
 pfrl/agents/dqn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 2c4432a..e1247b7 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -617,7 +617,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         if pipe.closed:
             return
         try:
-            while pipe.poll() and not exception_event.is_set():
+            while pipe.poll():
                 cmd, data = pipe.recv()
                 if cmd == "get_statistics":
                     assert data is None
@@ -725,8 +725,9 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         stop_event: mp.synchronize.Event,
         exception_event: mp.synchronize.Event,
     ) -> None:
-        # To stop this loop, call stop_event.set()
-        while not stop_event.is_set() and not exception_event.is_set():
+        # To stop this loop, call stop_event.set(). Even after a failure actors
+        # still wait for replies, e.g., to save the agent, so keep polling.
+        while not stop_event.is_set():
             time.sleep(1e-6)
             # Poll actors for messages
             for i, pipe in enumerate(pipes):
-- 
2.43.0


From d642496489f289ed4798a5516f20633d0a9fd6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:17 +0000
Subject: [PATCH 10/25] fix: tell the agent that the last evaluation episode is
 over

When an evaluation for a number of steps ended in the middle of an episode, a
recurrent agent kept its recurrent state for the next evaluation. The batch
version already reports reset=True at the last step.
---
 pfrl/experiments/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index 7569178..d5eb750 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -40,7 +40,6 @@ def _run_episodes(
         episode_len += 1
         timestep += 1
         reset = done or episode_len == max_episode_len or info.get("needs_reset", False)
-        agent.observe(obs, r, done, reset)
         if reset:
             logger.info(
                 "evaluation episode %s length:%s R:%s", len(scores), episode_len, test_r
@@ -53,6 +52,8 @@ def _run_episodes(
             terminate = len(scores) >= n_episodes
         else:
             terminate = timestep >= n_steps
+        # If this is the last step, make sure the agent observes reset=True
+        agent.observe(obs, r, done, reset or terminate)
     # If all steps were used for a single unfinished episode
     if len(scores) == 0:
         scores.append(float(test_r))
-- 
2.43.0


From 4b052c938dce35f32da0aa4d8978fa13162d3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:53 +0000
Subject: [PATCH 11/25] fix: accept numpy integers as random seeds

train_agent_async seeds its workers with elements of a numpy array, which
random.seed rejects since Python 3.11, so every worker died at its start.
---
 pfrl/utils/random_seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/random_seed.py b/pfrl/utils/random_seed.py
index 726c22f..1fda841 100644
--- a/pfrl/utils/random_seed.py
+++ b/pfrl/utils/random_seed.py
@@ -15,7 +15,7 @@ def set_random_seed(seed):
         seed (int): Random seed [0, 2 ** 32).
     """
     # PFRL depends on random
-    random.seed(seed)
+    random.seed(int(seed))  # It does not accept numpy integers
     # PFRL depends on numpy.random
     np.random.seed(seed)
     # torch.manual_seed is enough for the CPU and GPU
-- 
2.43.0


From eec456048d09a918945b54e74316658ed595181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 12/25] fix: keep the best score of asynchronous evaluations in
 double precision

In single precision a score could exceed or fall short of itself, so the best
agent was overwritten on a tie or a better one was not saved.
---
 pfrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/evaluator.py b/pfrl/experiments/evaluator.py
index d5eb750..e22a13d 100644
--- a/pfrl/experiments/evaluator.py
+++ b/pfrl/experiments/evaluator.py
@@ -572,7 +572,7 @@ class AsyncEvaluator(object):
         self.prev_eval_t = mp.Value(
             "l", self.step_offset - self.step_offset % self.eval_interval
         )
-        self._max_score = mp.Value("f", np.finfo(np.float32).min)
+        self._max_score = mp.Value("d", np.finfo(np.float32).min)
         self.wrote_header = mp.Value("b", False)
 
         # Create scores.txt
-- 
2.43.0


From 3411de73a866f8e8e16e4451014edc5ed8f5a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:36 +0000
Subject: [PATCH 13/25] fix: let MultiprocessVectorEnv.close() end workers that
 still have replies to send

---
 pfrl/envs/multiprocess_vector_env.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pfrl/envs/multiprocess_vector_env.py b/pfrl/envs/multiprocess_vector_env.py
index a993e19..4984c06 100644
--- a/pfrl/envs/multiprocess_vector_env.py
+++ b/pfrl/envs/multiprocess_vector_env.py
@@ -106,8 +106,13 @@ See https://github.com/numpy/numpy/issues/12793 for details.
         self.closed = True
         for remote in self.remotes:
             remote.send(("close", None))
-        for p in self.ps:
-            p.join()
+        for p, remote in zip(self.ps, self.remotes):
+            # Discard replies left behind by an interrupted call, which could
+            # otherwise block the worker forever.
+            while p.is_alive():
+                while remote.poll():
+                    remote.recv()
+                p.join(0.1)
 
     def seed(self, seeds=None):
         self._assert_not_closed()
-- 
2.43.0


From f64c1b8c8b9c161d626e2117336d627e0471cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:36 +0000
Subject: [PATCH 14/25] fix: SerialVectorEnv.spec is the spec of its
 environments

---
 pfrl/envs/serial_vector_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/envs/serial_vector_env.py b/pfrl/envs/serial_vector_env.py
index 73104ad..d0a201d 100644
--- a/pfrl/envs/serial_vector_env.py
+++ b/pfrl/envs/serial_vector_env.py
@@ -18,7 +18,7 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+        self.spec = getattr(envs[0], "spec", None)
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From a1ecf6a95b7ac8f099344f26c21842c03309e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 15/25] fix: do not take a partially extracted pretrained model
 for a complete one

---
 pfrl/utils/pretrained_models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pfrl/utils/pretrained_models.py b/pfrl/utils/pretrained_models.py
index 3c7e64d..214be25 100644
--- a/pfrl/utils/pretrained_models.py
+++ b/pfrl/utils/pretrained_models.py
@@ -151,9 +151,15 @@ def download_and_store_model(alg, url, env, model_type):
         is_cached = os.path.exists(path)
         if not is_cached:
             cache_path = cached_download(posixpath.join(url_basepath, file))
+            try:
+                with zipfile.ZipFile(cache_path, "r") as zip_ref:
+                    zip_ref.extractall(root)
+            except zipfile.BadZipFile:
+                # Never use the incomplete download again
+                os.remove(cache_path)
+                raise
+            # The existence of this file means that the model is complete
             os.rename(cache_path, path)
-            with zipfile.ZipFile(path, "r") as zip_ref:
-                zip_ref.extractall(root)
         return os.path.join(root, model_type), is_cached
 
 
-- 
2.43.0


From f43900d283ba5841fe8d6401a1b1ad040a865d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:40 +0000
Subject: [PATCH 16/25] fix: save and load the average model of ACER

The trust region of a loaded agent was computed from the random initial
parameters of shared_average_model.
---
 pfrl/agents/acer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 5654ed6..4704042 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -302,7 +302,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
     """
 
     process_idx = None
-    saved_attributes = ("model", "optimizer")
+    saved_attributes = ("model", "shared_average_model", "optimizer")
 
     def __init__(
         self,
-- 
2.43.0


From e4bc4607e73840b0937bb8ccee1c40821f068e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:40 +0000
Subject: [PATCH 17/25] fix: EmpiricalNormalization uses the loaded variance
 after load_state_dict

The cached inverse of the standard deviation survived the load.
---
 pfrl/nn/empirical_normalization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pfrl/nn/empirical_normalization.py b/pfrl/nn/empirical_normalization.py
index a49560e..f820cc6 100644
--- a/pfrl/nn/empirical_normalization.py
+++ b/pfrl/nn/empirical_normalization.py
@@ -43,6 +43,12 @@ class EmpiricalNormalization(nn.Module):
         # cache
         self._cached_std_inverse = None
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        super()._load_from_state_dict(*args, **kwargs)
+
+        # clear cache
+        self._cached_std_inverse = None
+
     @property
     def mean(self):
         return torch.squeeze(self._mean, self.batch_axis).clone()
-- 
2.43.0


From e702bf25c09c366c35186cd0033fac2cdf3d83f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:40 +0000
Subject: [PATCH 18/25] fix: REINFORCE credits each action with the rewards
 that follow it

The reward of the action itself was left out and the last reward of the
episode was counted twice.
---
 pfrl/agents/reinforce.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index c34baeb..cfb3d70 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -140,7 +140,6 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
                 self.log_prob_sequences[-1] = []
                 self.entropy_sequences[-1] = []
             elif done:
-                self.reward_sequences[-1].append(reward)
                 if self.backward_separately:
                     self.accumulate_grad()
                     if self.n_backward == self.batchsize:
@@ -181,9 +180,9 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         for r_seq, log_prob_seq, ent_seq in zip(
             self.reward_sequences, self.log_prob_sequences, self.entropy_sequences
         ):
-            assert len(r_seq) - 1 == len(log_prob_seq) == len(ent_seq)
+            assert len(r_seq) == len(log_prob_seq) == len(ent_seq)
             # Convert rewards into returns (=sum of future rewards)
-            R_seq = np.cumsum(list(reversed(r_seq[1:])))[::-1]
+            R_seq = np.cumsum(list(reversed(r_seq)))[::-1]
             for R, log_prob, entropy in zip(R_seq, log_prob_seq, ent_seq):
                 loss = -R * log_prob - self.beta * entropy
                 losses.append(loss)
-- 
2.43.0


From 315a6d66895f8c9a375002ff05ddc8cc16a0f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:52 +0000
Subject: [PATCH 19/25] fix: A2C, ACER and REINFORCE act in evaluation mode
 when evaluating

Evaluation episodes updated the running statistics of the trained model
and applied dropout.
---
 pfrl/agents/a2c.py       | 4 ++--
 pfrl/agents/acer.py      | 4 ++--
 pfrl/agents/reinforce.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pfrl/agents/a2c.py b/pfrl/agents/a2c.py
index d0768f6..9eebe44 100644
--- a/pfrl/agents/a2c.py
+++ b/pfrl/agents/a2c.py
@@ -4,7 +4,7 @@ from logging import getLogger
 import torch
 
 from pfrl import agent
-from pfrl.utils import clip_l2_grad_norm_
+from pfrl.utils import clip_l2_grad_norm_, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 
@@ -250,7 +250,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
     def _batch_act_eval(self, batch_obs):
         assert not self.training
         statevar = self.batch_states(batch_obs, self.device, self.phi)
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             pout, _ = self.model(statevar)
             if self.act_deterministically:
                 action = mode_of_distribution(pout)
diff --git a/pfrl/agents/acer.py b/pfrl/agents/acer.py
index 4704042..56c5681 100644
--- a/pfrl/agents/acer.py
+++ b/pfrl/agents/acer.py
@@ -7,7 +7,7 @@ from torch import nn
 
 from pfrl import agent
 from pfrl.action_value import SingleActionValue
-from pfrl.utils import clip_l2_grad_norm_, copy_param
+from pfrl.utils import clip_l2_grad_norm_, copy_param, evaluating
 from pfrl.utils.batch_states import batch_states
 from pfrl.utils.mode_of_distribution import mode_of_distribution
 from pfrl.utils.recurrent import detach_recurrent_state, one_step_forward
@@ -758,7 +758,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def _act_eval(self, obs):
         # Use the process-local model for acting
-        with torch.no_grad():
+        with torch.no_grad(), evaluating(self.model):
             statevar = batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 (action_distrib, _, _), self.test_recurrent_states = one_step_forward(
diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index cfb3d70..8f77405 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -155,7 +155,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
             self.train_recurrent_states = None
 
     def _act_eval(self, obs):
-        with torch.no_grad():
+        with torch.no_grad(), pfrl.utils.evaluating(self.model):
             batch_obs = self.batch_states([obs], self.device, self.phi)
             if self.recurrent:
                 action_distrib, self.test_recurrent_states = one_step_forward(
-- 
2.43.0


From 12cc566c00f70107a7bb9df46dc1a2b0e1558986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:52 +0000
Subject: [PATCH 20/25] fix: DDPG discounts the value after an N-step
 transition by gamma**N

With a replay buffer of num_steps > 1 the bootstrapped value was discounted
by a single gamma, unlike in TD3, SAC and DQN.
---
 pfrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 9319f54..2513b17 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -153,13 +153,14 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch["is_state_terminal"]
         batch_state = batch["state"]
         batch_actions = batch["action"]
+        batch_discount = batch["discount"]
         batchsize = len(batch_rewards)
 
         with torch.no_grad():
             assert not self.recurrent
             next_actions = self.target_policy(batch_next_state).sample()
             next_q = self.target_q_function((batch_next_state, next_actions))
-            target_q = batch_rewards + self.gamma * (
+            target_q = batch_rewards + batch_discount * (
                 1.0 - batch_terminal
             ) * next_q.reshape((batchsize,))
 
-- 
2.43.0


From 9dad39c7a5522275407c291612e272d1ce0c6216 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 05:00:03 +0000
Subject: [PATCH 21/25] fix: train_agent_async writes the records of
 evaluations that finish after stop_event is set

---
 pfrl/experiments/train_agent_async.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index d8b3b40..1ea6369 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -264,7 +264,10 @@ def train_agent_async(
             logger=logger,
         )
         if use_tensorboard:
-            evaluator.start_tensorboard_writer(outdir, stop_event)
+            # stop_event can be set while workers are still evaluating, so the
+            # writer needs another event that is set after all of them ended.
+            writer_stop_event = mp.Event()
+            evaluator.start_tensorboard_writer(outdir, writer_stop_event)
 
     if random_seeds is None:
         random_seeds = np.arange(processes)
@@ -323,6 +326,7 @@ def train_agent_async(
     stop_event.set()
 
     if evaluator is not None and use_tensorboard:
+        writer_stop_event.set()
         evaluator.join_tensorboard_writer()
 
     return agent
-- 
2.43.0


From b2c41c4939509383df49eafa33d44dbd0743cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:31 +0000
Subject: [PATCH 22/25] fix: FireResetEnv returns the observation of the new
 episode when the second action ends the first one

---
 pfrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2a49779..97b0669 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -68,7 +68,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get("needs_reset", False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From b05828c1ff40243f57a1161491dbd2041f1b1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:31 +0000
Subject: [PATCH 23/25] fix: EpisodicLifeEnv.reset starts a new game when its
 no-op step ends the old one

---
 pfrl/wrappers/atari_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 97b0669..3bc1c16 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -110,7 +110,10 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get("needs_reset", False):
+                # the game ended during the no-op step
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 732f0de05bab9ff8902aa5c6a458c50da84cf30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:31 +0000
Subject: [PATCH 24/25] fix: MaxAndSkipEnv does not return frames of an earlier
 step when the episode is cut within the skip

---
 pfrl/wrappers/atari_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 3bc1c16..1aa8def 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -138,6 +138,9 @@ class MaxAndSkipEnv(gym.Wrapper):
                 self._obs_buffer[1] = obs
             total_reward += reward
             if done or info.get("needs_reset", False):
+                if i < self._skip - 1:
+                    # The frames to be max-pooled are not available
+                    self._obs_buffer[:] = obs
                 break
         # Note that the observation on the done=True frame
         # doesn't matter
-- 
2.43.0


From 5cc749ce3a5e4558369c767a81df3eb948c2fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:31 +0000
Subject: [PATCH 25/25] fix: make_action_repeated stops repeating when the env
 needs a reset

---
 pfrl/utils/env_modifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/env_modifiers.py b/pfrl/utils/env_modifiers.py
index a605b7b..3b3cd42 100644
--- a/pfrl/utils/env_modifiers.py
+++ b/pfrl/utils/env_modifiers.py
@@ -75,7 +75,7 @@ def make_action_repeated(env, n_times):
         for _ in range(n_times):
             obs, r, done, info = old_step(action)
             r_total += r
-            if done:
+            if done or info.get("needs_reset", False):
                 break
         return obs, r_total, done, info
 
-- 
2.43.0


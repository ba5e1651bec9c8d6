From 39ab6492d961c1e6d9c42fe4c8669923809f7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:19 +0000
Subject: [PATCH 01/39] fix: ExpectedSarsa takes the expectation over actions,
 also for type-1 and transformed q-functions

For a type-1 q-function the target evaluated q at the vector of action probabilities instead of
averaging the q-values of the actions, and with a value transform the average was taken in the
transformed space.
---
 coax/td_learning/_expectedsarsa.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coax/td_learning/_expectedsarsa.py b/coax/td_learning/_expectedsarsa.py
index de2a064..94ae53e 100644
--- a/coax/td_learning/_expectedsarsa.py
+++ b/coax/td_learning/_expectedsarsa.py
@@ -1,5 +1,6 @@
 import gymnasium
 import jax
+import jax.numpy as jnp
 import haiku as hk
 
 from ..utils import is_stochastic
@@ -113,6 +114,8 @@ class ExpectedSarsa(BaseTDLearningQWithTargetPolicy):
         if is_stochastic(self.q):
             return self._get_target_dist_params(params, state, next(rngs), transition_batch, A_next)
 
-        Q_sa_next, _ = self.q_targ.function_type1(params, state, next(rngs), S_next, A_next, False)
+        # take the expectation over actions (not the value of the expected one-hot encoded action)
+        Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-        return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
+        Q_sa_next = jax.vmap(jnp.dot)(A_next, f_inv(Q_s_next))
+        return f(transition_batch.Rn + transition_batch.In * Q_sa_next)
-- 
2.43.0


From 5db12b93acbfbdbbf376bf1ccd46bd91a7c2488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:02 +0000
Subject: [PATCH 02/39] fix: SoftQLearning applies the soft maximum to the
 untransformed q-values

---
 coax/td_learning/_softqlearning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/td_learning/_softqlearning.py b/coax/td_learning/_softqlearning.py
index 777bc25..dd96f13 100644
--- a/coax/td_learning/_softqlearning.py
+++ b/coax/td_learning/_softqlearning.py
@@ -99,8 +99,8 @@ class SoftQLearning(BaseTDLearningQ):
         Q_s_next, _ = self.q_targ.function_type2(params, state, next(rngs), S_next, False)
         assert Q_s_next.ndim == 2
         assert Q_s_next.shape[1] == self.q.action_space.n
-        Q_sa_next = self.temperature * logsumexp(Q_s_next / self.temperature, axis=-1)
+        f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
+        Q_sa_next = self.temperature * logsumexp(f_inv(Q_s_next) / self.temperature, axis=-1)
         assert Q_sa_next.ndim == 1
 
-        f, f_inv = self.q.value_transform.transform_func, self.q_targ.value_transform.inverse_func
-        return f(transition_batch.Rn + transition_batch.In * f_inv(Q_sa_next))
+        return f(transition_batch.Rn + transition_batch.In * Q_sa_next)
-- 
2.43.0


From 043703fb93c1c13cca2dd5581d1ab90b55fa81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 03/39] fix: ConnectFourEnv.set_state used a non-existing numpy
 function

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 29fb9b1..e2cee96 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -254,7 +254,7 @@ class ConnectFourEnv(Env):
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np._base_repr(int(state_id[3:], 16), 3)
+        s = np.base_repr(int(state_id[3:], 16), 3)
         z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
         z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
-- 
2.43.0


From c051e9e35422f3839c7341eb870633a5a513483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 04/39] fix: RandomPolicy log-propensity on discrete action
 spaces (AttributeError)

---
 coax/_core/random_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index 28e019f..ebbe197 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -42,7 +42,7 @@ class RandomPolicy:
             return a
 
         if isinstance(self.action_space, gymnasium.spaces.Discrete):
-            logp = -onp.log(self.num_actions)
+            logp = -onp.log(self.action_space.n)
             return a, logp
 
         if isinstance(self.action_space, gymnasium.spaces.Box):
-- 
2.43.0


From 112c922b44cbe32dd41044da633ce91cacfde674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 05/39] fix: PolicyObjective.optimizer setter referred to a
 missing attribute

---
 coax/policy_objectives/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index ff31a6b..02ba750 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -107,7 +107,7 @@ class PolicyObjective:
     @optimizer.setter
     def optimizer(self, new_optimizer):
         new_optimizer_state_structure = jax.tree_util.tree_structure(
-            new_optimizer.init(self._f.params))
+            new_optimizer.init(self._pi.params))
         if new_optimizer_state_structure != jax.tree_util.tree_structure(self.optimizer_state):
             raise AttributeError("cannot set optimizer attr: mismatch in optimizer_state structure")
         self._optimizer = new_optimizer
-- 
2.43.0


From 71ca9f70f655d09aaa9f58d22de303b774a2ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:36 +0000
Subject: [PATCH 06/39] fix: MetaPolicyEnv.step used inspect.getargspec, which
 no longer exists

---
 coax/wrappers/_meta_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index 02a9cc6..b91fcbf 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -43,7 +43,7 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         assert self._s is not None, "please call env.reset() first"
 
         pi = self.arms[a_meta]
-        if 'return_logp' in inspect.getargspec(pi).args:
+        if 'return_logp' in inspect.signature(pi).parameters:
             a, logp = pi(self._s, return_logp=True)
         else:
             a, logp = pi(self._s), 0.
-- 
2.43.0


From 79bd024dc8c5d490384bf08a5b02dae79c6edaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 07/39] fix: render_episode uses the gymnasium reset/step API

---
 coax/utils/_misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index ec77de3..0583e9f 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -342,17 +342,17 @@ def render_episode(env, policy=None, step_delay_ms=0):
     if isinstance(env, TrainMonitor):
         env = env.env  # unwrap to strip off TrainMonitor
 
-    s = env.reset()
+    s, info = env.reset()
     env.render()
 
     for t in range(int(1e9)):
         a = env.action_space.sample() if policy is None else policy(s)
-        s_next, r, done, info = env.step(a)
+        s_next, r, done, truncated, info = env.step(a)
 
         env.render()
         time.sleep(step_delay_ms / 1e3)
 
-        if done:
+        if done or truncated:
             break
 
         s = s_next
-- 
2.43.0


From eb5ed409a5d4afde9e1d670e0a0a14a1b357d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 08/39] fix: SegmentTree.partial_reduce rejects empty and
 out-of-range ranges

The modulo made the empty ranges (0, 0) and (capacity, capacity) wrap around
to the full range, and out-of-range indices were silently wrapped.
---
 coax/utils/_segment_tree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 61a4c79..b6f39fa 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -262,8 +262,11 @@ class SegmentTree:
         i = level_offset + start % level_size
         j = level_offset + (stop - 1) % level_size
 
-        # check consistency of ranges
-        if not onp.all((i >= level_offset) & (j < level_offset + level_size) & (i <= j)):
+        # check consistency of ranges (note: 'stop' is exclusive, so stop=0 is an empty range)
+        if not onp.all(
+                (start >= -level_size) & (start < level_size)
+                & (stop > -level_size) & (stop <= level_size) & (stop != 0)
+                & (i <= j)):
             raise IndexError(
                 f"inconsistent ranges detected from (start, stop) = ({start_orig}, {stop_orig})")
 
-- 
2.43.0


From c0922f0c1ef604726305b80c78269026d394e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 09/39] fix: SquashedNormalDist.log_proba for spaces other than
 [-1, 1]^n

The samples are scaled and shifted to the space, but log_proba did not undo
this; also the default clip_logvar=None raised a TypeError.
---
 coax/proba_dists/_squashed_normal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index 6c66a64..a7666f0 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -35,7 +35,10 @@ class SquashedNormalDist(BaseProbaDist):
     def __init__(self, space, clip_logvar=None):
         super().__init__(space)
 
-        self._normal_dist = NormalDist(space=space, clip_logvar=clip_logvar)
+        if clip_logvar is None:
+            self._normal_dist = NormalDist(space=space)
+        else:
+            self._normal_dist = NormalDist(space=space, clip_logvar=clip_logvar)
         self._scale = (space.high - space.low) / 2.0
         self._offset = (space.high + space.low) / 2.0
 
@@ -53,9 +56,11 @@ class SquashedNormalDist(BaseProbaDist):
         arctanh_eps = 1e-7  # avoid arctanh(1) = acrtanh(-1) = inf
 
         def log_proba(dist_params, X):
+            X = (X - self._offset) / self._scale  # undo the affine map done in 'sample'
             X = jnp.arctanh(jnp.clip(X, a_min=-1.0 + arctanh_eps, a_max=1.0 - arctanh_eps))
             logp = self._normal_dist.log_proba(dist_params, X)
-            return logp - jnp.sum(2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))), axis=-1)
+            logdet = 2 * (jnp.log(2) - X - jnp.log(1 + jnp.exp(-2 * X))) + jnp.log(self._scale)
+            return logp - jnp.sum(jnp.reshape(logdet, (X.shape[0], -1)), axis=-1)
 
         self._sample_func = jax.jit(sample)
         self._mean_func = jax.jit(mean)
-- 
2.43.0


From dea20157872c9317ab8ba89bc57db7c23ce313ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 10/39] fix: Regularizer.batch_eval raised TypeError for type-1
 stochastic functions

---
 coax/regularizers/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/regularizers/_base.py b/coax/regularizers/_base.py
index 28cf0d9..e5f7955 100644
--- a/coax/regularizers/_base.py
+++ b/coax/regularizers/_base.py
@@ -75,7 +75,7 @@ class Regularizer:
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     A = self.f.action_preprocessor(next(rngs), transition_batch.A)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, A, False)
-                if isinstance(self.f, BaseStochasticFuncType2):
+                elif isinstance(self.f, BaseStochasticFuncType2):
                     S = self.f.observation_preprocessor(next(rngs), transition_batch.S)
                     dist_params, _ = self.f.function(params, state, next(rngs), S, False)
                 else:
-- 
2.43.0


From 071eea7c5a6dc47bfcacabf4107297083205a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 11/39] fix: NormalDist.affine_transform scales the mean

The transform is X' = scale * X + shift, so the mean must be scaled as well.
---
 coax/proba_dists/_normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 8ae101f..174c987 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -165,7 +165,7 @@ class NormalDist(BaseProbaDist):
             mu = check_shape(dist_params['mu'], name='mu', flatten=False)
             logvar = check_shape(dist_params['logvar'], name='logvar', flatten=False)
             var_new = f(f_inv(jnp.exp(logvar)) * jnp.square(scale))
-            return {'mu': f(f_inv(mu) + shift), 'logvar': jnp.log(var_new)}
+            return {'mu': f(f_inv(mu) * scale + shift), 'logvar': jnp.log(var_new)}
 
         self._sample_func = jit(sample)
         self._mean_func = jit(mean)
-- 
2.43.0


From 230a0d90f2171b9f8c1624f3c9aa08bf3638f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:10 +0000
Subject: [PATCH 12/39] fix: params setter of the value-based policies rejected
 their own params

---
 coax/_core/value_based_policy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index dd1b9da..9f307ff 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -202,7 +202,7 @@ class EpsilonGreedy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict({'epsilon': self.epsilon, 'q': self.q.params})
+        return {'epsilon': self.epsilon, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
@@ -261,8 +261,7 @@ class BoltzmannPolicy(BaseValueBasedPolicy):
     @property
     @docstring(Q.params)
     def params(self):
-        return hk.data_structures.to_immutable_dict(
-            {'temperature': self.temperature, 'q': self.q.params})
+        return {'temperature': self.temperature, 'q': self.q.params}
 
     @params.setter
     def params(self, new_params):
-- 
2.43.0


From bf14fd90535e0cd70277a5cce8854c96d160c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:33 +0000
Subject: [PATCH 13/39] fix: NStepEntropyRegularizer counted states beyond the
 end of the episode

---
 coax/regularizers/_nstep_entropy.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index c7eff80..085eecd 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -55,7 +55,7 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._gammas = jnp.take(jnp.power(self.gamma, jnp.arange(self.n[-1] + 1)), self._n)
 
         def entropy(dist_params, dones):
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
             vf = jax.vmap(lambda p, v, gamma: gamma * self.f.proba_dist.entropy(p) * v)
             return jnp.sum(vf(dist_params, valid, self._gammas), axis=0)
 
@@ -65,11 +65,11 @@ class NStepEntropyRegularizer(EntropyRegularizer):
 
         def metrics(dist_params, dones, beta):
             assert len(dist_params) == 2
-            valid = self.valid_from_done(dones)
+            valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
             return {
                 'EntropyRegularizer/beta': beta,
                 'EntropyRegularizer/entropy': jnp.mean(entropy(dist_params, dones) /
-                                                       jnp.sum(valid, axis=0))
+                                                       jnp.clip(jnp.sum(valid, axis=0), 1))
             }
 
         self._function = jit(function)
@@ -100,7 +100,6 @@ class NStepEntropyRegularizer(EntropyRegularizer):
                     raise TypeError(
                         "f must be derived from BaseStochasticFuncType2")
                 dones = jnp.stack(transition_batch.extra_info['dones'])
-                dones = jnp.take(dones, self._n, axis=0)
 
                 return self.function(dist_params,
                                      dones,
-- 
2.43.0


From 0d4a6c304085318a0f5e6ed12446496293f92b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:35 +0000
Subject: [PATCH 14/39] fix: StochasticRewardFunction ignored most of its
 constructor arguments

---
 coax/_core/stochastic_reward_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/_core/stochastic_reward_function.py b/coax/_core/stochastic_reward_function.py
index 32fb972..6631687 100644
--- a/coax/_core/stochastic_reward_function.py
+++ b/coax/_core/stochastic_reward_function.py
@@ -70,6 +70,7 @@ class StochasticRewardFunction(StochasticQ):
             action_preprocessor=None, value_transform=None, random_seed=None):
 
         super().__init__(
-            func, env, value_range=(value_range or env.reward_range), num_bins=51,
-            observation_preprocessor=None, action_preprocessor=None, value_transform=None,
-            random_seed=None)
+            func, env, value_range=(value_range or env.reward_range), num_bins=num_bins,
+            observation_preprocessor=observation_preprocessor,
+            action_preprocessor=action_preprocessor, value_transform=value_transform,
+            random_seed=random_seed)
-- 
2.43.0


From 1c99a63528ca038eead3701be41bf7631246b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 15/39] fix: SuccessorStateQ could not be built from a
 stochastic transition model

---
 coax/_core/successor_state_q.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index cadd2ba..c2bfb8c 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -63,7 +63,9 @@ class SuccessorStateQ:
         self.action_space = self.p.action_space
         self.action_preprocessor = self.p.action_preprocessor
         self.observation_preprocessor = self.p.observation_preprocessor
-        self.observation_postprocessor = self.p.observation_postprocessor
+        self.observation_postprocessor = (
+            self.p.proba_dist.postprocess_variate if is_stochastic(self.p)
+            else self.p.observation_postprocessor)
         self.value_transform = self.v.value_transform
 
         if not check_preprocessors(
-- 
2.43.0


From 16bb22b5a6e7773fcfe68ad18818c35918ec4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:42 +0000
Subject: [PATCH 16/39] fix: PrioritizedReplayBuffer.update let a stale index
 undo a fresh update of the same slot

---
 coax/experience_replay/_prioritized.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 7806e15..1d54138 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -199,11 +199,9 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = idx % self.capacity  # wrap around
-        new_values = onp.where(
-            _get_transition_batch_idx(self._storage[idx_lookup]) == idx,  # only update if ids match
-            onp.power(onp.abs(Adv) + self.epsilon, self.alpha),
-            self._sumtree.values[idx_lookup])
-        self._sumtree.set_values(idx_lookup, new_values)
+        mask = _get_transition_batch_idx(self._storage[idx_lookup]) == idx  # only update if ids match
+        new_values = onp.power(onp.abs(Adv) + self.epsilon, self.alpha)
+        self._sumtree.set_values(idx_lookup[mask], new_values[mask])
 
     def clear(self):
         r""" Clear the experience replay buffer. """
-- 
2.43.0


From c87065b262b40b1654283f7db059c6259880ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:30 +0000
Subject: [PATCH 17/39] fix: SegmentTree.partial_reduce raised IndexError for a
 batch of ranges containing the last leaf

---
 coax/utils/_segment_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index b6f39fa..b376838 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -171,7 +171,7 @@ class SegmentTree:
                 return self.reducer(a, b)
 
             # only accumulate right-child value if 'i' was a left child of 'i_parent'
-            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + 1]), a)
+            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + i % 2]), a)
 
             # only accumulate left-child value if 'j' was a right child of 'j_parent'
             b = onp.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
-- 
2.43.0


From 80e65c8622186a8774c9e5bb783153fdd2ae7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:59 +0000
Subject: [PATCH 18/39] fix: SumTree.inverse_cdf returned an index without any
 mass for u = 1

---
 coax/utils/_segment_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index b376838..3b138cf 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -393,6 +393,7 @@ class SumTree(SegmentTree):
             # update (idx, values, level_offset_parent)
             left_child_values = self._arr[left_child_idx]
             pick_left_child = left_child_values > values
+            pick_left_child |= self._arr[right_child_idx] <= 0  # never enter an empty subtree
             idx = onp.where(pick_left_child, left_child_idx, right_child_idx)
             values = onp.where(pick_left_child, values, values - left_child_values)
             level_offset_parent = level_offset
-- 
2.43.0


From 590262106d0ded67eff11aad7ff4aabdd3d6ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:29 +0000
Subject: [PATCH 19/39] fix: TrainMonitor counters obtained by get_counters
 kept changing with the monitor

The nested containers (periods, metrics, actions) were handed out by reference, so that restoring
a snapshot in the same process did not restore them.
---
 coax/wrappers/_train_monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 884da73..a756805 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -3,6 +3,7 @@ import re
 import datetime
 import logging
 import time
+from copy import deepcopy
 from collections import deque
 from typing import Mapping
 
@@ -367,7 +368,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
             The dict that contains the counters.
 
         """
-        return {k: getattr(self, k) for k in self._COUNTER_ATTRS}
+        return {k: deepcopy(getattr(self, k)) for k in self._COUNTER_ATTRS}
 
     def set_counters(self, counters):
         r"""
@@ -383,7 +384,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         """
         if not (isinstance(counters, dict) and set(counters) == set(self._COUNTER_ATTRS)):
             raise TypeError(f"invalid counters dict: {counters}")
-        self.__setstate__(counters)
+        self.__setstate__(deepcopy(counters))
 
     def save_counters(self, filepath):
         r"""
-- 
2.43.0


From 93981a490c3fbf2d601bbc3385a26ed6973af695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:30 +0000
Subject: [PATCH 20/39] fix: BoxActionsToDiscrete passed on actions of the
 wrong dtype, which are not in the action space

---
 coax/wrappers/_box_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 4ebd4c0..c971e81 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -92,7 +92,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
         a_rescaled = lo + a_reshaped * (hi - lo)
-        return a_rescaled
+        return a_rescaled.astype(self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
         self._size = onp.prod(self.env.action_space.shape)
-- 
2.43.0


From f20c5110ccb68d129e8228a0f5d33f4557e2a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:30 +0000
Subject: [PATCH 21/39] fix: the original action was lost if the wrapped
 environment returns info=None

---
 coax/_base/mixins/_add_orig_to_info.py | 4 ++++
 coax/wrappers/_box_spaces.py           | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/coax/_base/mixins/_add_orig_to_info.py b/coax/_base/mixins/_add_orig_to_info.py
index c0f5211..529e112 100644
--- a/coax/_base/mixins/_add_orig_to_info.py
+++ b/coax/_base/mixins/_add_orig_to_info.py
@@ -19,6 +19,8 @@ class AddOrigToInfoDictMixin:
 
         self._s_orig = self._s_next_orig
 
+        return info
+
     def _add_a_orig_to_info_dict(self, info):
         if not isinstance(info, Mapping):
             assert info is None, "unexpected type for 'info' Mapping"
@@ -28,3 +30,5 @@ class AddOrigToInfoDictMixin:
             info['a_orig'].append(self._a_orig)
         else:
             info['a_orig'] = [self._a_orig]
+
+        return info
diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index c971e81..0938cb6 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -43,7 +43,7 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         assert self.action_space.contains(a)
         self._a_orig = self._compactify(a)
         s_next, r, done, truncated, info = super().step(self._a_orig)
-        self._add_a_orig_to_info_dict(info)
+        info = self._add_a_orig_to_info_dict(info)
         return s_next, r, done, truncated, info
 
     def _compactify(self, action):
@@ -84,7 +84,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         assert self.action_space.contains(a)
         self._a_orig = self._discrete_to_box(a)
         s_next, r, done, truncated, info = super().step(self._a_orig)
-        self._add_a_orig_to_info_dict(info)
+        info = self._add_a_orig_to_info_dict(info)
         return s_next, r, done, truncated, info
 
     def _discrete_to_box(self, a_discrete):
-- 
2.43.0


From 74d5afdfac45a9e581ae4e0b82ba13ac4fa31425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:30 +0000
Subject: [PATCH 22/39] fix: OrnsteinUhlenbeckNoise clipped the noise instead
 of the output action

---
 coax/utils/_action_noise.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coax/utils/_action_noise.py b/coax/utils/_action_noise.py
index 909e413..aa4b01b 100644
--- a/coax/utils/_action_noise.py
+++ b/coax/utils/_action_noise.py
@@ -106,5 +106,4 @@ class OrnsteinUhlenbeckNoise:
 
         white_noise = onp.asarray(self.rnd.randn(*a.shape), dtype=a.dtype)
         self._noise += self.theta * (self.mu - self._noise) + self.sigma * white_noise
-        self._noise = onp.clip(self._noise, self.min_value, self.max_value)
-        return a + self._noise
+        return onp.clip(a + self._noise, self.min_value, self.max_value)
-- 
2.43.0


From 48675e21bb86120295b0e9f05335799501ad3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:30 +0000
Subject: [PATCH 23/39] fix: ConnectFourEnv observations were those of the
 player who moved last, not of the player to move

The documentation (observation, alignment of the reward) and render() take players[0] to be the
player whose turn it is.
---
 coax/envs/_connect_four.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index e2cee96..b35cff9 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -176,15 +176,16 @@ class ConnectFourEnv(Env):
         if a not in self.available_actions:
             raise UnavailableActionError("action is not available")
 
-        # swap players
-        self._players = np.roll(self._players, -1)
-
         # update state
         self._state[self._levels[a], a] = self._players[0]
         self._prev_action = a
 
         # run logic
         self.done, reward = self._done_reward(a)
+
+        # swap players
+        self._players = np.roll(self._players, -1)
+
         return self.state, reward, self.done, {'state_id': self.state_id}
 
     def render(self, *args, **kwargs):
-- 
2.43.0


From 326ec3ad94ad18cf2ca0f8cff2fe94a9b81db7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:28 +0000
Subject: [PATCH 24/39] fix: safe_sample returned values outside of (bounded,
 non-float64) Box spaces

---
 coax/utils/_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index e52626a..69c96bd 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -806,7 +806,8 @@ def _safe_sample(space, rnd):
         low = onp.clip(space.low, -1e9, 1e9)
         high = onp.clip(space.high, -1e9, 1e9)
         x = low + rnd.rand(*space.shape) * (high - low)
-        return onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        x = onp.sign(x) * onp.log(1. + onp.abs(x))  # log transform to avoid very large numbers
+        return onp.clip(x, space.low, space.high).astype(space.dtype)
 
     if isinstance(space, gymnasium.spaces.Tuple):
         return tuple(_safe_sample(sp, rnd) for sp in space.spaces)
-- 
2.43.0


From 05066870b2d1e9436d63deb9025a70542a4f4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:28 +0000
Subject: [PATCH 25/39] fix: tree_sample ignored its axis argument

---
 coax/utils/_array.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index 69c96bd..0799461 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -1004,9 +1004,9 @@ def tree_sample(pytree, rng, n=1, replace=False, axis=0, p=None):
         A single flat array.
 
     """
-    batch_size = _check_leaf_batch_size(pytree)
+    batch_size = _check_leaf_batch_size(pytree, axis=axis)
     ix = jax.random.choice(rng, batch_size, shape=(n,), replace=replace, p=p)
-    return jax.tree_map(lambda x: jnp.take(x, ix, axis=0), pytree)
+    return jax.tree_map(lambda x: jnp.take(x, ix, axis=axis), pytree)
 
 
 def unvectorize(f, in_axes=0, out_axes=0):
@@ -1112,20 +1112,20 @@ def unvectorize(f, in_axes=0, out_axes=0):
     return f_single
 
 
-def _check_leaf_batch_size(pytree):
+def _check_leaf_batch_size(pytree, axis=0):
     """ some boilerplate to extract the batch size with some consistency checks """
     leaf, *leaves = jax.tree_util.tree_leaves(pytree)
     if not isinstance(leaf, (onp.ndarray, jnp.ndarray)) and leaf.ndim >= 1:
         raise TypeError(f"all leaves must be arrays; got type: {type(leaf)}")
     if leaf.ndim < 1:
         raise TypeError("all leaves must be at least 1d, i.e. (batch_size, ...)")
-    batch_size = leaf.shape[0]
+    batch_size = leaf.shape[axis]
     for leaf in leaves:
         if not isinstance(leaf, (onp.ndarray, jnp.ndarray)) and leaf.ndim >= 1:
             raise TypeError(f"all leaves must be arrays; got type: {type(leaf)}")
         if leaf.ndim < 1:
             raise TypeError("all leaves must be at least 1d, i.e. (batch_size, ...)")
-        if leaf.shape[0] != batch_size:
+        if leaf.shape[axis] != batch_size:
             raise TypeError("all leaves must have the same batch_size")
     return batch_size
 
-- 
2.43.0


From b3974feec6f505b185cf1f5a3d4653b72c3ae2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:21 +0000
Subject: [PATCH 26/39] fix: StochasticV and StochasticQ could not be created
 with both a value range and a value transform

---
 coax/_core/stochastic_q.py | 2 +-
 coax/_core/stochastic_v.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index bf24020..31e2882 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -244,7 +244,7 @@ class StochasticQ(BaseStochasticFuncType1):
         if value_range is not None:
             if value_transform is not None:
                 f, _ = value_transform
-                value_range = f(value_range[0]), f(value_range[1])
+                value_range = float(f(value_range[0])), float(f(value_range[1]))
             reward_space = Box(*value_range, shape=())
             return DiscretizedIntervalDist(reward_space, num_bins)
         else:
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index 370f4d5..e7dd32a 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -204,7 +204,7 @@ class StochasticV(BaseStochasticFuncType2):
     def _get_proba_dist(value_range, value_transform, num_bins):
         if value_transform is not None:
             f, _ = value_transform
-            value_range = f(value_range[0]), f(value_range[1])
+            value_range = float(f(value_range[0])), float(f(value_range[1]))
         reward_space = Box(*value_range, shape=())
         return DiscretizedIntervalDist(reward_space, num_bins)
 
-- 
2.43.0


From 018b9f83fc44fe4379a3557face8dd26a063f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:24 +0000
Subject: [PATCH 27/39] fix: DiscretizedIntervalDist.preprocess_variate
 rejected real values and lost the upper bound of the interval

---
 coax/proba_dists/_discretized_interval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/proba_dists/_discretized_interval.py b/coax/proba_dists/_discretized_interval.py
index 1d3152e..e96d45f 100644
--- a/coax/proba_dists/_discretized_interval.py
+++ b/coax/proba_dists/_discretized_interval.py
@@ -143,9 +143,10 @@ class DiscretizedIntervalDist(CategoricalDist):
     def preprocess_variate(self, rng, X):
         X = jnp.asarray(X)
         assert X.ndim <= 1, f"unexpected X.shape: {X.shape}"
-        assert jnp.issubdtype(X.dtype, jnp.integer), f"expected an integer dtype, got {X.dtype}"
         low, high = float(self.space_orig.low), float(self.space_orig.high)
-        return jax.nn.one_hot(jnp.floor((X - low) * self.num_bins / (high - low)), self.num_bins)
+        bins = jnp.floor((X - low) * self.num_bins / (high - low))
+        bins = jnp.clip(bins, 0, self.num_bins - 1)  # the right-most bin includes its upper bound
+        return jax.nn.one_hot(bins, self.num_bins).reshape(-1, self.num_bins)
 
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         # map almost-one-hot vectors to bin-indices (ints)
-- 
2.43.0


From 806d61e43bcc6eff1389a95b43049d03c8abf4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 28/39] fix: Q and TransitionModel build their example data
 with the observation_preprocessor they were given

---
 coax/_core/q.py                | 1 +
 coax/_core/transition_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/_core/q.py b/coax/_core/q.py
index 5b21cee..8cca881 100644
--- a/coax/_core/q.py
+++ b/coax/_core/q.py
@@ -269,6 +269,7 @@ class Q(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
diff --git a/coax/_core/transition_model.py b/coax/_core/transition_model.py
index d3784d9..064fda2 100644
--- a/coax/_core/transition_model.py
+++ b/coax/_core/transition_model.py
@@ -284,6 +284,7 @@ class TransitionModel(BaseFunc):
         Env = namedtuple('Env', ('observation_space', 'action_space'))
         example_data_per_modeltype = self.example_data(
             env=Env(self.observation_space, self.action_space),
+            observation_preprocessor=self.observation_preprocessor,
             action_preprocessor=self.action_preprocessor,
             batch_size=1,
             random_seed=self.random_seed)
-- 
2.43.0


From b6ee9d2c418e760596b85f8d0ae4d4fea26fdcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:40 +0000
Subject: [PATCH 29/39] fix: NStepEntropyRegularizer discounts by the power of
 each time index, also when the indices are not sorted

---
 coax/regularizers/_nstep_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/regularizers/_nstep_entropy.py b/coax/regularizers/_nstep_entropy.py
index 085eecd..b186532 100644
--- a/coax/regularizers/_nstep_entropy.py
+++ b/coax/regularizers/_nstep_entropy.py
@@ -52,7 +52,7 @@ class NStepEntropyRegularizer(EntropyRegularizer):
         self._n = jnp.array(n)
         self.beta = beta
         self.gamma = gamma
-        self._gammas = jnp.take(jnp.power(self.gamma, jnp.arange(self.n[-1] + 1)), self._n)
+        self._gammas = jnp.power(self.gamma, self._n)
 
         def entropy(dist_params, dones):
             valid = jnp.take(self.valid_from_done(dones), self._n, axis=0)
-- 
2.43.0


From 3f3340203762fb6fba48ef75136fea6aaf2ccce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:46 +0000
Subject: [PATCH 30/39] fix: BoxActionsToReals never hands an action outside of
 the box to the environment (rounding of lo + (hi - lo))

---
 coax/wrappers/_box_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 0938cb6..b0d0ae6 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -50,7 +50,7 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         action = onp.clip(action, -1e15, 1e15)
         action = onp.reshape(action, self.env.action_space.shape)
-        return lo + (hi - lo) * sigmoid(action)
+        return onp.clip(lo + (hi - lo) * sigmoid(action), lo, hi)  # clip rounding errors
 
 
 class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
-- 
2.43.0


From de6d269452cc805425f603750e5c8495399116ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:11 +0000
Subject: [PATCH 31/39] fix: actions sampled from (squashed) normal
 distributions never lie outside of their box (rounding of low + (high - low))

---
 coax/proba_dists/_normal.py          | 1 +
 coax/proba_dists/_squashed_normal.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coax/proba_dists/_normal.py b/coax/proba_dists/_normal.py
index 174c987..f41e2ee 100644
--- a/coax/proba_dists/_normal.py
+++ b/coax/proba_dists/_normal.py
@@ -193,6 +193,7 @@ class NormalDist(BaseProbaDist):
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
         X = jnp.clip(X, *self.clip_reals)                             # clip for stability
         X = self._low + (self._high - self._low) * jax.nn.sigmoid(X)  # reals->closed interval
+        X = jnp.clip(X, self._low, self._high)                        # clip rounding errors
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
diff --git a/coax/proba_dists/_squashed_normal.py b/coax/proba_dists/_squashed_normal.py
index a7666f0..75bde9b 100644
--- a/coax/proba_dists/_squashed_normal.py
+++ b/coax/proba_dists/_squashed_normal.py
@@ -80,6 +80,7 @@ class SquashedNormalDist(BaseProbaDist):
     def postprocess_variate(self, rng, X, index=0, batch_mode=False):
         X = jnp.asarray(X, dtype=self.space.dtype)                    # ensure ndarray
         X = jnp.reshape(X, (-1, *self.space.shape))                   # ensure correct shape
+        X = jnp.clip(X, self.space.low, self.space.high)              # clip rounding errors
         return X if batch_mode else onp.asanyarray(X[index])
 
     @property
-- 
2.43.0


From c67d2750f916a4d2ae657ea37a5bd5f19fb8982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 32/39] fix: SuccessorStateQ undoes the value transform of its
 reward function

---
 coax/_core/successor_state_q.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/successor_state_q.py b/coax/_core/successor_state_q.py
index c2bfb8c..0cdb254 100644
--- a/coax/_core/successor_state_q.py
+++ b/coax/_core/successor_state_q.py
@@ -129,6 +129,7 @@ class SuccessorStateQ:
                 else:
                     R, new_state['r'] = self.r.function_type1(
                         params['r'], state['r'], next(rngs), S, A, is_training)
+                R = self.r.value_transform.inverse_func(R)
 
                 # v(s')
                 if is_stochastic(self.v):
@@ -185,6 +186,7 @@ class SuccessorStateQ:
                     R_rep, new_state['r'] = self.r.function_type2(
                         params['r'], state['r'], next(rngs), S, is_training)
                     R_rep = jax.tree_map(self._reshape_to_replicas, R_rep)
+                R_rep = self.r.value_transform.inverse_func(R_rep)
 
                 # v(s')  # note: since the input S_next is replicated, so is the output V
                 if is_stochastic(self.v):
-- 
2.43.0


From 54b5fa9bb8b75335ed0fe1b10272b55f05fb7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 33/39] fix: StochasticV and StochasticQ undo their value
 transform when called

---
 coax/_core/stochastic_q.py | 9 ++++++---
 coax/_core/stochastic_v.py | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/coax/_core/stochastic_q.py b/coax/_core/stochastic_q.py
index 31e2882..a292dd3 100644
--- a/coax/_core/stochastic_q.py
+++ b/coax/_core/stochastic_q.py
@@ -1,3 +1,4 @@
+import jax
 from gymnasium.spaces import Box
 
 from ..utils import default_preprocessor
@@ -162,7 +163,9 @@ class StochasticQ(BaseStochasticFuncType1):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, a=a, return_logp=return_logp)
+        x, logp = super().__call__(s, a=a, return_logp=True)
+        x = jax.tree_map(self.value_transform.inverse_func, x)
+        return (x, logp) if return_logp else x
 
     def mean(self, s, a=None):
         r"""
@@ -187,7 +190,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mean(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mean(s, a=a))
 
     def mode(self, s, a=None):
         r"""
@@ -212,7 +215,7 @@ class StochasticQ(BaseStochasticFuncType1):
             of :math:`n` values, one for each discrete action.
 
         """
-        return super().mode(s, a=a)
+        return jax.tree_map(self.value_transform.inverse_func, super().mode(s, a=a))
 
     def dist_params(self, s, a=None):
         r"""
diff --git a/coax/_core/stochastic_v.py b/coax/_core/stochastic_v.py
index e7dd32a..7fbeae8 100644
--- a/coax/_core/stochastic_v.py
+++ b/coax/_core/stochastic_v.py
@@ -137,7 +137,9 @@ class StochasticV(BaseStochasticFuncType2):
             single float or a list of :math:`n` floats, one for each discrete action.
 
         """
-        return super().__call__(s, return_logp=return_logp)
+        x, logp = super().__call__(s, return_logp=True)
+        x = self.value_transform.inverse_func(x)
+        return (x, logp) if return_logp else x
 
     def mean(self, s):
         r"""
@@ -157,7 +159,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mean(s)
+        return self.value_transform.inverse_func(super().mean(s))
 
     def mode(self, s):
         r"""
@@ -177,7 +179,7 @@ class StochasticV(BaseStochasticFuncType2):
             A single value associated with the state observation :math:`s`.
 
         """
-        return super().mode(s)
+        return self.value_transform.inverse_func(super().mode(s))
 
     def dist_params(self, s):
         r"""
-- 
2.43.0


From fc7ae38db5eb28a7d7a159dd54aaf45ee91a758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 34/39] fix: PrioritizedReplayBuffer.update ignores ids of
 empty slots and accepts no ids at all

---
 coax/experience_replay/_prioritized.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 1d54138..96c5865 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -1,3 +1,5 @@
+from functools import partial
+
 import jax
 import numpy as onp
 import chex
@@ -199,7 +201,8 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = idx % self.capacity  # wrap around
-        mask = _get_transition_batch_idx(self._storage[idx_lookup]) == idx  # only update if ids match
+        # only update if ids match (ids are non-negative; the id of an empty slot is -1)
+        mask = (idx >= 0) & (_get_transition_batch_idx(self._storage[idx_lookup]) == idx)
         new_values = onp.power(onp.abs(Adv) + self.epsilon, self.alpha)
         self._sumtree.set_values(idx_lookup[mask], new_values[mask])
 
@@ -223,6 +226,6 @@ def _concatenate_leaves(pytrees):
     return jax.tree_map(lambda *leaves: onp.concatenate(leaves, axis=0), *pytrees)
 
 
-@onp.vectorize
+@partial(onp.vectorize, otypes=['int'])
 def _get_transition_batch_idx(transition):
-    return transition.idx
+    return -1 if transition is None else transition.idx
-- 
2.43.0


From 0eac7118d344f7b7e3227205ae7de8afc4822b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 35/39] fix: PrioritizedReplayBuffer.alpha setter doesn't
 distort small priorities

---
 coax/experience_replay/_prioritized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 96c5865..153394f 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -101,7 +101,7 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
             return  # noop if new value is too close to old value (not worth the computation cost)
         new_values = onp.where(
             self._sumtree.values <= 0, 0.,  # only change exponents for positive values
-            onp.exp(onp.log(onp.maximum(self._sumtree.values, 1e-15)) * (new_alpha / self._alpha)))
+            onp.power(self._sumtree.values, new_alpha / self._alpha))
         self._sumtree.set_values(..., new_values)
         self._alpha = float(new_alpha)
 
-- 
2.43.0


From 7ee2f039aa955ca9f9f922783929ffe8d1f8169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 36/39] fix: PrioritizedReplayBuffer.sample works with
 integer-valued weights

---
 coax/experience_replay/_prioritized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 153394f..9991f92 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -176,7 +176,7 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         W /= W.max()  # for stability, ensure only down-weighting (see sec. 3.4 of arxiv:1511.05952)
         transition_batch = _concatenate_leaves(self._storage[idx])
         chex.assert_equal_shape([transition_batch.W, W])
-        transition_batch.W *= W
+        transition_batch.W = transition_batch.W * W  # not in-place, because W may be integer-valued
         return transition_batch
 
     def update(self, idx, Adv):
-- 
2.43.0


From 1972860401ee40eb29a3d040c611c7d5e5c44f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 37/39] fix: TransitionBatch.to_singles yields a copy for
 batches of size one

---
 coax/reward_tracing/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 3d5a764..c02504f 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -202,7 +202,7 @@ class TransitionBatch(CopyMixin):
 
         """
         if self.batch_size == 1:
-            yield self
+            yield TransitionBatch(*self)  # a copy: callers may set attributes (e.g. idx) on it
             return  # break out of generator
 
         def lookup(i, pytree):
-- 
2.43.0


From 350c6783b2dae4a5d1e14d8334444e012a00144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 38/39] fix: BoxActionsToDiscrete doesn't leave the box by
 rounding

---
 coax/wrappers/_box_spaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index b0d0ae6..169ea1e 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -92,7 +92,8 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
         a_rescaled = lo + a_reshaped * (hi - lo)
-        return a_rescaled.astype(self.env.action_space.dtype)
+        a_rescaled = a_rescaled.astype(self.env.action_space.dtype)
+        return onp.clip(a_rescaled, lo, hi)  # clip rounding errors
 
     def _init_action_space(self, num_bins):
         self._size = onp.prod(self.env.action_space.shape)
-- 
2.43.0


From b9edcf04f1f63a2e9ab72308f6524f68264bc890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:07 +0000
Subject: [PATCH 39/39] fix: argmin for unsigned integers, booleans and lists

---
 coax/utils/_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_array.py b/coax/utils/_array.py
index 0799461..2b8c943 100644
--- a/coax/utils/_array.py
+++ b/coax/utils/_array.py
@@ -110,7 +110,10 @@ def argmin(rng, arr, axis=-1):
         with the dimension along `axis` removed.
 
     """
-    return argmax(rng, -arr, axis=axis)
+    if not isinstance(arr, jnp.ndarray):
+        arr = jnp.asarray(arr)
+    # don't negate arr, because that isn't well-defined for e.g. unsigned integers or booleans
+    return argmax(rng, arr == jnp.min(arr, axis=axis, keepdims=True), axis=axis)
 
 
 def batch_to_single(pytree, index=0):
-- 
2.43.0


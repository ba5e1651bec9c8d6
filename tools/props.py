NOT_APPLICABLE = {}
TDF = ['coax/td_learning/_base.py', 'coax/td_learning/_simple_td.py', 'coax/td_learning/_sarsa.py', 'coax/td_learning/_expectedsarsa.py', 'coax/td_learning/_qlearning.py',
       'coax/td_learning/_doubleqlearning.py', 'coax/td_learning/_clippeddoubleqlearning.py', 'coax/td_learning/_softqlearning.py']

prop('C10', 'TD targets equal the documented Bellman targets',
     'For every batch of transitions and every value function, target function and policy, the TD error reported by each value-based updater is the documented one: the '
     'transformed n-step return R_n + I_n * (back-transformed bootstrap value) minus the prediction. The bootstrap value is v(s\'), q(s\',a\'), the expectation under the target policy, the '
     'greedy maximum, the double-Q selection, the minimum over target functions, or the soft (log-sum-exp) maximum, depending on the updater, always taken from the target network. A bootstrap '
     'factor of zero removes the bootstrap term entirely, and the result is the same for both ways of parametrising a q-function.',
     ['inputs', 'configurations'], 'all transition batches of any size, all parameter values and network functions, both q-function conventions, discrete and continuous actions, with and without value transform',
     'Unit tests only run updates on one fixed batch and check that parameters change; they never compare targets with the Bellman equations.',
     TDF, [('target construction', c) for c in TDF[1:]], A_TECH, A_NOTE, ['updater.td_error(batch)'])

prop('C11', 'Distributional TD targets and losses',
     'For distributional value functions, the target distribution is the distribution of R_n + I_n * Z\' where Z\' is the next-step value distribution chosen by the updater\'s rule (sampled next '
     'action, greedy action by mean, or the smaller-mean of several targets). The loss is the cross-entropy against the projected target for binned distributions and the quantile Huber loss for '
     'quantile distributions, and the TD error is the negative derivative documented for it.',
     ['inputs', 'configurations'], 'all batches, parameters, network outputs',
     'Tests run one update per class and only look at whether parameters change.',
     TDF + ['coax/utils/_quantile_funcs.py'], [('distributional branches of loss_func / target_func', 'coax/td_learning/_base.py')], A_TECH, A_NOTE, ['updater.td_error(batch)', 'updater.grads_and_metrics(batch)'])

prop('C12', 'A TD update is one gradient step on the weighted loss and nothing else',
     'Updating a value function moves its parameters by exactly the optimizer step for the importance-weighted loss (weights clipped to [0.1, 10]) with the target held constant, and stores the new '
     'function state of the training-mode evaluation. Target functions, policies and regularized policies are left untouched, and the reported loss and TD errors are those of the parameters before '
     'the step. If a gradient is NaN the update raises and changes nothing.',
     ['inputs', 'configurations'], 'all batches, weights, losses, parameters; every updater, with and without target network and policy regularizer',
     'Tests check only that parameters and state differ after one update.', TDF,
     [('grads_and_metrics / apply_grads / update', 'coax/td_learning/_base.py')], A_TECH, A_NOTE, ['q.params', 'q.function_state', 'metrics', 'td_error'])

prop('C13', 'Value losses are the documented weighted means',
     'Each value loss equals the mean over the batch of the documented per-sample loss (squared, Huber with threshold delta, log-loss, sign log-loss, quantile Huber), each sample multiplied by its '
     'weight when weights are given. Weighting never mixes samples, also for multi-column predictions, and the gradient with respect to the prediction is the derivative of that formula.',
     ['inputs'], 'all targets, predictions, weights, thresholds, any batch size', 'Tests evaluate a couple of fixed vectors.',
     ['coax/value_losses/_losses.py'], [('loss functions', 'coax/value_losses/_losses.py')], A_TECH, A_NOTE, ['coax.value_losses.*'])

prop('C14', 'Value transforms are mutually inverse and monotone',
     'For every real x and every valid scale, applying a value transform and then its inverse (and vice versa) gives x back, the transform is odd and strictly increasing, and equals '
     'the documented formula. ', ['inputs'], 'all reals, all scales', 'Tests sample a few points of one scale.',
     ['coax/value_transforms/_log_transform.py'], [('LogTransform', 'coax/value_transforms/_log_transform.py')], A_TECH, A_NOTE, ['transform_func', 'inverse_func'])

prop('C15', 'Categorical and composite distributions compute the documented quantities',
     'For all logits, the categorical distribution\'s probabilities, log-probabilities, entropy, cross-entropy and KL divergence are the documented ones, its mode and samples are the tempered '
     'soft versions of the arg-max and of a Gumbel draw, and actions (numbered from zero) convert to one-hot and back without loss. Composite action spaces add log-probabilities, entropies and divergences over their '
     'components, each component using its own parameters and independent randomness.',
     ['inputs', 'configurations'], 'all logits, variates, temperature values, nested space structures', 'Tests compare sampled histograms for fixed logits.',
     ['coax/proba_dists/_categorical.py', 'coax/proba_dists/_composite.py'], [('CategoricalDist', 'coax/proba_dists/_categorical.py'), ('ProbaDist', 'coax/proba_dists/_composite.py')],
     A_TECH, A_NOTE, ['dist.sample / mean / mode / log_proba / entropy / cross_entropy / kl_divergence'])

prop('C16', 'Normal distribution computes the documented quantities',
     'For all means and log-variances, sampling returns mean + standard deviation * noise, and log-density, entropy, cross-entropy and KL divergence equal the closed forms for a diagonal Gaussian, '
     'summed over all dimensions. Log-variances are clipped to the configured range first, and an affine transform of the distribution has the transformed mean and variance.',
     ['inputs', 'configurations'], 'all parameters and variates, several event shapes', 'Tests compare to fixed numbers for one shape.',
     ['coax/proba_dists/_normal.py'], [('NormalDist', 'coax/proba_dists/_normal.py')], A_TECH, A_NOTE, ['dist.*'])

prop('C17', 'Bounded continuous actions: squashed normals and box transforms are consistent',
     'Actions sampled from a squashed normal always lie inside the action box, and its log-density is the Gaussian log-density corrected by the exact change-of-variables term, for any box. '
     'Pre- and post-processing of box-valued variates are inverse to each other within the numerically stable range and always land inside the box.',
     ['inputs', 'configurations'], 'all parameters, boxes, variates', 'Tests use one symmetric box.',
     ['coax/proba_dists/_squashed_normal.py', 'coax/proba_dists/_normal.py'], [('SquashedNormalDist', 'coax/proba_dists/_squashed_normal.py')], A_TECH, A_NOTE, ['dist.*'])

prop('C18', 'Binned value distributions: atoms, mean, and projection',
     'A binned value distribution has equally spaced atoms at the bin midpoints of its range, its mean is the probability-weighted atom average, and scalars map to and from the atoms consistently. '
     'The affine projection used in distributional learning yields non-negative weights summing to one, keeps the mass of every atom within the range between its two neighbouring bins, preserves the mean when nothing is clipped, and '
     'clips to the end bins otherwise.',
     ['inputs', 'configurations'], 'all logits, scales, shifts, ranges', 'Tests check a couple of fixed projections.',
     ['coax/proba_dists/_discretized_interval.py'], [('DiscretizedIntervalDist', 'coax/proba_dists/_discretized_interval.py')], A_TECH, A_NOTE, ['dist.*'])

prop('C19', 'Value-based and random policies follow their documented distributions',
     'An epsilon-greedy policy gives every action probability epsilon/n and spreads the remaining 1-epsilon uniformly over the actions with maximal value; a Boltzmann policy has log-odds equal to '
     'value differences (of the transformed values, if the q-function has a value transform) divided by the temperature; both always use the current q-function and current epsilon or temperature, also after these are reassigned. The reported log-propensity is the one of the drawn variate, and a random '
     'policy returns actions of the action space with uniform log-propensity.',
     ['inputs', 'configurations'], 'all q-functions (both conventions, distributional or not), states, epsilon, temperature', 'Tests evaluate one q-function at one state.',
     ['coax/_core/value_based_policy.py', 'coax/_core/random_policy.py', 'coax/_core/base_stochastic_func_type2.py'],
     [('EpsilonGreedy / BoltzmannPolicy', 'coax/_core/value_based_policy.py'), ('RandomPolicy', 'coax/_core/random_policy.py')], A_TECH, A_NOTE, ['pi(s, return_logp=True)', 'pi.dist_params(s)'])

prop('C20', 'Policy-objective updates follow the documented gradient',
     'Each policy objective ascends exactly its documented quantity: weighted advantage times log-probability, the clipped-ratio surrogate, the value of the policy\'s mode, or the minimum over several q-functions at a sampled action, '
     'with importance weights clipped to [0.1, 10] and any regularization term added. One update is one optimizer step on that objective, leaves q-functions untouched, stores the training-mode function '
     'state and reports the loss. NaN gradients raise and change nothing.',
     ['inputs', 'configurations'], 'all batches, advantages, behaviour propensities, policies, clipping parameters', 'Tests check that some gradient is non-zero and that parameters change.',
     ['coax/policy_objectives/_base.py', 'coax/policy_objectives/_vanilla_pg.py', 'coax/policy_objectives/_ppo_clip.py', 'coax/policy_objectives/_deterministic_pg.py', 'coax/policy_objectives/_soft_pg.py'],
     [('objective_func', 'coax/policy_objectives/_vanilla_pg.py'), ('loss_func', 'coax/policy_objectives/_base.py')], A_TECH, A_NOTE, ['pi.params', 'metrics'])

prop('C21', 'Regularization terms are the documented entropies and divergences',
     'The entropy regularizer contributes minus beta times the entropy, the KL regularizer beta times the divergence from the prior, evaluated at the batch\'s states in inference mode with the current beta. The n-step entropy '
     'regularizer sums the discounted entropies over exactly the requested steps, counting only states up to the end of the episode.',
     ['inputs', 'configurations'], 'all policies, states, priors, coefficients, episode ends', 'There are no tests of the values.',
     ['coax/regularizers/_base.py', 'coax/regularizers/_entropy.py', 'coax/regularizers/_kl_div.py', 'coax/regularizers/_nstep_entropy.py'], [('batch_eval', 'coax/regularizers/_base.py')], A_TECH, A_NOTE,
     ['regularizer.batch_eval'])

prop('C22', 'Soft updates and copies of function approximators',
     'A soft update replaces every parameter and every function-state entry by (1-tau)*own + tau*other and leaves the other function untouched; repeated updates compose accordingly. Copies start equal and are '
     'independent of their origin, assignments of differently structured parameters or state and soft updates between different classes are rejected without effect, and random streams are determined by the seed.',
     ['inputs', 'histories'], 'all parameter values, all tau, all function-approximator classes', 'Tests exercise one class with one tau.',
     ['coax/_core/base_func.py', 'coax/_base/mixins/_copy.py', 'coax/_base/mixins/_random_state.py'], [('soft_update', 'coax/_core/base_func.py')], A_TECH, A_NOTE, ['f.params', 'f.function_state'])

prop('C23', 'Evaluating all actions at once agrees with evaluating one action',
     'For q-functions, reward functions and transition models, deterministic or stochastic, f(s)[a] and f(s, a) agree for every state and discrete action (numbered from zero), whichever way the underlying function is parametrised. The same holds for '
     'means, modes and distribution parameters, sampled outcomes come with their own log-probability, and evaluation never changes the stored state.',
     ['inputs', 'configurations'], 'all functions of either convention, states, actions', 'Tests check output shapes for one function.',
     ['coax/_core/q.py', 'coax/_core/base_stochastic_func_type1.py', 'coax/_core/transition_model.py'], [('function_type1 / function_type2', 'coax/_core/q.py')], A_TECH, A_NOTE, ['q(s)', 'q(s, a)'])

prop('C29', 'Model updates are one gradient step on the weighted prediction loss',
     'Updating a transition model or reward function moves its parameters by exactly the optimizer step for the importance-weighted loss between its prediction (a reparametrised sample if stochastic) and the observed next state '
     'or transformed reward, plus any regularization term. NaN gradients raise and change nothing.',
     ['inputs', 'configurations'], 'all batches, weights, losses, models', 'Tests check that parameters change.',
     ['coax/model_updaters/_model_updater.py'], [('loss_func', 'coax/model_updaters/_model_updater.py')], A_TECH, A_NOTE, ['model.params', 'metrics'])

prop('C30', 'Model-based action values compose reward, transition and value functions',
     'The successor-state q-function satisfies q(s,a) = f(r(s,a) + gamma * f^-1(v(s\'))) with s\' the (mean) predicted next state, for one action and for all actions at once, always with the current parameters of its components and the current '
     'gamma.', ['inputs', 'configurations'], 'all component functions (both conventions, deterministic or stochastic), states, actions, gamma', 'No test evaluates it.',
     ['coax/_core/successor_state_q.py'], [('function_type1 / function_type2', 'coax/_core/successor_state_q.py')], A_TECH, A_NOTE, ['q(s)', 'q(s, a)'])

prop('C01', 'n-step reward tracing emits every transition exactly once, with the right return',
     'For every episode fed to an n-step tracer, exactly one transition per step comes out, in order: its state, action, log-propensity and weight are those of the step, its return is the discounted sum of the next n rewards (fewer at '
     'the end of the episode), and its next state, next action and bootstrap factor gamma^n are those n steps later. Transitions within n steps of a terminal state carry bootstrap factor zero; nothing leaks from one episode into the next, '
     'popping is refused while nothing is due, and adding to a finished, unflushed episode is refused.',
     ['inputs', 'histories'], 'all rewards, states, actions, discounts, n, episode lengths and interleavings of add, pop, flush and reset', 'Tests trace one short episode with fixed numbers for a couple of n.',
     ['coax/reward_tracing/_nstep.py', 'coax/reward_tracing/_base.py'], [('NStep.add / pop', 'coax/reward_tracing/_nstep.py')], B_TECH, B_NOTE, ['tracer.pop()', 'tracer.flush()'],
     [('_deque_s, _deque_r', 'pending steps and rewards', 'coax/reward_tracing/_nstep.py')])

prop('C02', 'Monte-Carlo reward tracing yields the discounted returns of the episode',
     'After an episode is complete, a Monte-Carlo tracer yields one transition per step whose return is the discounted sum of all rewards from that step to the end of the episode, with bootstrap factor zero and the step\'s own state, action, '
     'log-propensity and weight. Nothing can be popped before the episode is complete, a flushed or reset tracer starts afresh, and episodes never mix.',
     ['inputs', 'histories'], 'all rewards, discounts, episode lengths, interleavings of add, pop, flush and reset', 'Tests trace one episode with fixed numbers.',
     ['coax/reward_tracing/_montecarlo.py', 'coax/reward_tracing/_base.py'], [('MonteCarlo.add / pop', 'coax/reward_tracing/_montecarlo.py')], B_TECH, B_NOTE, ['tracer.pop()', 'tracer.flush()'])

prop('C03', 'Transition batches represent their transitions faithfully',
     'A batch built from single transitions or by concatenation has exactly their rows in order, splits back into the same rows, and keeps per-row identity of every column including nested states, weights, indices and extra info. Building a single '
     'transition applies the documented defaults: bootstrap factor gamma (zero if terminal), weight one, log-propensity zero, next action only if available.',
     ['inputs'], 'all column values, batch sizes, nested observation structures, missing optional columns', 'Tests build a few fixed batches.',
     ['coax/reward_tracing/_transition.py', 'coax/utils/_array.py'], [('TransitionBatch.from_single / to_singles / copy', 'coax/reward_tracing/_transition.py')], B_TECH, B_NOTE, ['TransitionBatch'])

prop('C04', 'Uniform replay buffer keeps exactly the most recent transitions',
     'After any history of additions, a replay buffer holds exactly the most recent transitions up to its capacity, oldest first, with all columns unchanged; its length is their number. A sample consists of the requested number of distinct stored '
     'transitions, is determined by seed and history, does not modify the buffer, and iteration and clearing behave as documented.',
     ['inputs', 'histories'], 'all capacities, histories of batches of any size, seeds', 'Tests add a fixed number of transitions to one capacity.',
     ['coax/experience_replay/_simple.py', 'coax/experience_replay/_base.py'], [('add / sample', 'coax/experience_replay/_simple.py')], B_TECH, B_NOTE, ['len(buffer)', 'buffer.sample()', 'iter(buffer)'])

prop('C05', 'Prioritized replay: storage, indices and priorities stay aligned',
     'A prioritized buffer stores the most recent transitions in ring-buffer order, each with a unique, increasing index, and assigns to every slot the priority (|advantage| + epsilon)^alpha of the transition it currently holds. Updating priorities by index '
     'touches only slots that still hold those transitions, later entries winning, and changing alpha rescales all existing priorities consistently.',
     ['inputs', 'histories'], 'all capacities, advantages, alpha, epsilon, histories of add, update, clear and alpha changes', 'Tests use one capacity and do not look at stale indices.',
     ['coax/experience_replay/_prioritized.py'], [('add / update / alpha', 'coax/experience_replay/_prioritized.py')], B_TECH, B_NOTE, ['buffer._sumtree.values', 'buffer.sample()'],
     [('_storage, _sumtree, _index', 'ring buffer, priorities, running index', 'coax/experience_replay/_prioritized.py')])

prop('C06', 'Prioritized sampling: proportional probabilities and importance weights',
     'A prioritized sample draws stored transitions with probability proportional to their priority, with every sampled row being the stored one. Its importance weights are (stored weight) * (probability * length)^-beta, normalised by the largest '
     'correction in the batch; sampling leaves the stored transitions and priorities unchanged, so that repeated sampling never accumulates corrections, and is determined by the seed.',
     ['inputs', 'histories'], 'all contents, priorities, alpha, beta, epsilon, batch sizes, seeds', 'Tests check shapes of one sample.',
     ['coax/experience_replay/_prioritized.py', 'coax/utils/_segment_tree.py'], [('sample', 'coax/experience_replay/_prioritized.py')], B_TECH, B_NOTE, ['buffer.sample().W'])

prop('C07', 'Segment trees stay consistent under every update',
     'After any sequence of updates, a segment tree holds in each leaf the last value written to it and in every internal node the reduction of its two children, so the root is the reduction of all leaves. Out-of-range indices are rejected without '
     'effect, negative indices count from the end, and the tree has the least height that fits its capacity.',
     ['inputs', 'histories'], 'all capacities, reducers, indices, values, update histories', 'Tests update a few trees of small capacity.',
     ['coax/utils/_segment_tree.py'], [('set_values', 'coax/utils/_segment_tree.py')], B_TECH, B_NOTE, ['tree.values', 'tree.root_value', 'tree[level]'])

prop('C08', 'Partial reductions equal the reduction over the requested range',
     'For every non-empty range of leaves, the partial reduction equals the reduction of exactly the leaves start..stop-1, for single ranges and for batches of ranges, with negative positions counting from the end and an omitted stop meaning the capacity. '
     'Empty or out-of-range requests are rejected.',
     ['inputs'], 'all capacities, contents, ranges, batches of ranges', 'Tests check a few ranges on one tree.', ['coax/utils/_segment_tree.py'], [('partial_reduce', 'coax/utils/_segment_tree.py')], B_TECH, B_NOTE, ['tree.partial_reduce'])

prop('C09', 'Sum-tree sampling inverts the cumulative distribution',
     'For every quantile u in [0, 1), the inverse cdf returns the unique leaf x with positive mass for which cdf(x) <= u < cdf(x+1), and for u = 1 the last leaf with any mass; u outside the unit interval and trees without mass are rejected. Sampling applies '
     'this to independent uniform draws of the tree\'s own seeded generator.',
     ['inputs'], 'all capacities, non-negative contents, quantiles, seeds', 'Tests compare a few quantiles on one tree.', ['coax/utils/_segment_tree.py'], [('inverse_cdf / sample', 'coax/utils/_segment_tree.py')], B_TECH, B_NOTE, ['tree.inverse_cdf', 'tree.sample'])

C_NOTE = B_NOTE + ' Parts that need whole-library runs (native libraries, file formats, training runs) are bounded native contracts and are labelled so.'

prop('C24', 'Training monitor counts steps, episodes, returns and periods exactly',
     'Over any history of resets and steps, the monitor\'s global step and episode counters, within-episode time, return and averages are exactly those of the wrapped environment\'s transitions, which it passes on unchanged. A period fires exactly once per '
     'elapsed interval, counters taken by get_counters are a snapshot that set_counters restores exactly, and recorded metrics are accumulated per episode and reported, together with the episode\'s numbers, once: when the next episode starts, at the step at which it ended.',
     ['inputs', 'histories'], 'all observations, rewards, termination flags, histories of reset, step, record_metrics and period checks', 'Tests follow one short deterministic history.',
     ['coax/wrappers/_train_monitor.py', 'coax/_base/mixins/_logger.py'], [('step / reset / period / get_counters', 'coax/wrappers/_train_monitor.py')], B_TECH, B_NOTE, ['env.T', 'env.ep', 'env.t', 'env.G', 'env.avg_G', 'env.period', 'env.get_counters()'],
     [('T, ep, t, G, avg_G, _periods, _ep_metrics', 'counters of the training run', 'coax/wrappers/_train_monitor.py')])

prop('C25', 'Environment wrappers transform observations and actions as documented',
     'Frame stacking always returns the most recent frames, oldest first, repeating the first observation after a reset. Box actions given as reals are squashed into the box by the logistic map and box actions given as bins land inside exactly the chosen bin of the original box; '
     'meta-policy environments act by the chosen policy at the latest observation. Rewards, termination flags and info pass through, with the original action recorded in info.',
     ['inputs', 'histories'], 'all boxes, bin counts, actions, frame counts, wrapped environments', 'Tests wrap one environment and check shapes.',
     ['coax/wrappers/_frame_stacking.py', 'coax/wrappers/_box_spaces.py', 'coax/wrappers/_meta_policy.py', 'coax/_base/mixins/_add_orig_to_info.py'],
     [('FrameStacking', 'coax/wrappers/_frame_stacking.py'), ('BoxActionsToReals / BoxActionsToDiscrete', 'coax/wrappers/_box_spaces.py'), ('MetaPolicyEnv', 'coax/wrappers/_meta_policy.py')], B_TECH, B_NOTE, ['env.step(a)', 'env.reset()'])

prop('C26', 'Schedules, running averages and action noise follow their formulas',
     'A stepwise linear function interpolates exactly between its steps and is constant outside of them. The rolling average equals the mean of the last n values (of all values while there are fewer) and the exponential average moves by 1/min(count, n) of the difference, after any history, and the '
     'Ornstein-Uhlenbeck noise follows its recursion, returning actions within the configured bounds.',
     ['inputs', 'histories'], 'all steps, timesteps, window sizes, value histories, noise parameters', 'Tests compare a handful of values.',
     ['coax/utils/_array.py', 'coax/utils/_rolling.py', 'coax/utils/_action_noise.py'], [('StepwiseLinearFunction', 'coax/utils/_array.py'), ('RollingAverage / ExponentialAverage', 'coax/utils/_rolling.py'), ('OrnsteinUhlenbeckNoise', 'coax/utils/_action_noise.py')],
     B_TECH, B_NOTE, ['f(t)', 'average.value', 'noise(a)'])

prop('C27', 'ConnectFour environment implements the rules of the game',
     'For every board position and legal column, a move drops the current player\'s disc on the lowest free cell of that column and changes nothing else; the game ends exactly when the mover has four in a row in any direction (reward 1) or the board is full '
     '(reward 0). Full columns and moves after the end are rejected as documented, observations show the board from the perspective of the player to move together with the legal columns, and a state identifier restores exactly the position it was taken from.',
     ['inputs', 'histories'], 'all boards reachable by legal moves, all columns', 'Tests play a few fixed games.', ['coax/envs/_connect_four.py'],
     [('step / _check_win / set_state', 'coax/envs/_connect_four.py')], B_TECH, B_NOTE, ['env.step(a)', 'env.available_actions', 'env.state', 'env.set_state'])

prop('C28', 'Array, tree and space utilities compute what they document',
     'Tie-breaking arg-max and arg-min always select an extremal entry along the given axis, for every number type; default preprocessors one-hot encode discrete values and clip and reshape box values, componentwise for composite spaces; shared parameters are synchronised to their weighted '
     'average; frame differences, double-relu and clipped logit equal their formulas; quantile fractions are equally spaced, or random and increasing to one. Batches split into power-of-two chunks, sampled trees, stacked trees and (un)batched values keep every row intact, and safe samples are always elements of their space (discrete spaces numbered from zero).',
     ['inputs', 'configurations'], 'all array contents, keys, spaces, trees, weights, batch sizes', 'Tests check one or two fixed arrays per utility.', ['coax/utils/_array.py', 'coax/utils/_misc.py'],
     [('argmax, default_preprocessor, sync_shared_params, chunks_pow2, safe_sample', 'coax/utils/_array.py'), ('render_episode, is_*, get_env_attr', 'coax/utils/_misc.py')],
     'deductive: contracts on the real code, traced JAX computations and symbolically executed Python (exact algebra, z3)', C_NOTE, ['coax.utils.*'])

prop('C31', 'Whatever is saved is restored: dump/load and compiled functions round-trip',
     'Loading a saved value gives the value back, with its structure and shared references, from memory or from any file path, and saving again replaces the previous content. Compiled functions compute the wrapped function and survive saving with their '
     'static-argument options; restored function approximators, updaters, buffers and tracers continue exactly as the originals would have, independently of them.',
     ['inputs', 'histories'], 'all values, paths, points of interruption', 'Tests save one function and compare one parameter.', ['coax/utils/_misc.py', 'coax/utils/_jit.py', 'coax/_core/base_func.py', 'coax/experience_replay/_prioritized.py'],
     [('dump / load / dumps / loads', 'coax/utils/_misc.py'), ('JittedFunc', 'coax/utils/_jit.py')], B_TECH, C_NOTE, ['coax.utils.load(path)', 'coax.utils.loads(s)', 'coax.utils.jit(f)'])

prop('C32', 'Distributed workers: complete traces, fresh parameters, everything in the store',
     "A rollout resets the environment, then repeats: act on the current observation, step, trace (s, a, r, terminated-or-truncated, log-propensity) exactly once, until the episode ends or the step limit is reached. rollout_loop pulls the store's "
     "state before each rollout, advances the store's step counter by the steps taken, and stops exactly when the steps are used up or the reward threshold is reached; learn_loop pulls the state, learns from one sampled batch, and pushes the "
     "result and the metrics, until the steps are used up. Buffer, state, metrics and attribute operations of a worker act on its parameter store (in-process or remote), never on its own copy, and have taken effect on return; "
     "a batch is sampled only once the buffer holds max(warmup, batch_size) transitions.",
     ['inputs', 'histories', 'schedules'], 'all episodes, step limits, thresholds, interleaved changes of the store by other workers', 'Tests do not cover workers at all.', ['coax/_core/worker.py'],
     [('Worker.rollout / rollout_loop / learn_loop', 'coax/_core/worker.py'), ('Worker.buffer_*, pull_*, push_*', 'coax/_core/worker.py')], B_TECH, B_NOTE, ['Worker.rollout()', 'Worker.rollout_loop(T)', 'Worker.learn_loop(T)', 'Worker.buffer_sample(n)'])

prop('C33', 'Single-observation calls agree with the network, preprocessors and distribution',
     'For every value function, policy, transition model and reward function, and every user-supplied network, observation or action preprocessor and probability distribution: calling it on a single state (or state and action) evaluates the '
     'network in inference mode on the preprocessed input, undoes the value transform if the approximator has one (given as an object or as a pair of functions), and changes neither parameters nor function state. Stochastic approximators return a '
     'postprocessed (and back-transformed) draw from the distribution with exactly these parameters, together with the log-probability of that draw if and only if it is asked for; mean, mode and distribution parameters belong to the same distribution, for one action or listed '
     'for all of them. The network is validated at construction on the same preprocessed inputs it will later receive: a function with another signature or output structure is rejected, and so are parameters of another structure.',
     ['inputs', 'configurations'], 'all networks, parameters, states, actions, preprocessors, distributions, value transforms', 'Tests call each class on one observation and look at the shape of the result.',
     ['coax/_core/policy.py', 'coax/_core/v.py', 'coax/_core/q.py', 'coax/_core/stochastic_v.py', 'coax/_core/stochastic_q.py', 'coax/_core/stochastic_reward_function.py', 'coax/_core/stochastic_transition_model.py', 'coax/_core/transition_model.py',
      'coax/_core/base_func.py', 'coax/_core/base_stochastic_func_type1.py', 'coax/_core/base_stochastic_func_type2.py'],
     [('__call__', 'coax/_core/v.py'), ('__call__', 'coax/_core/q.py'), ('__call__ / mean / mode / dist_params / sample_func', 'coax/_core/base_stochastic_func_type2.py'),
      ('__call__ / mean / mode / dist_params', 'coax/_core/base_stochastic_func_type1.py'), ('__init__', 'coax/_core/base_func.py')], A_TECH, A_NOTE, ['pi(s, return_logp=True)', 'v(s)', 'q(s, a)', 'p.mean(s)', 'pi.dist_params(s)'])

#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (both are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
H, I, C, S, F, K = ("histories", "inputs", "configurations", "schedules",
                    "fault_sequences", "crash_points")


def P(id, title, statement, over, qtext, why, files, mech, observe, technique,
      note, level="exploration"):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None),
        technique=technique, note=" ".join(note.split()), level=level))


P("P01", "Replay buffers hold exactly the n-step windows of each env's history",
  """For every interleaving of appended transitions, episode ends and interruptions from any
  number of environments, a (plain, prioritized or persistent) transition replay buffer contains,
  for each transition, exactly one window starting at it and spanning at most N consecutive
  transitions of the same episode of the same environment, with every recorded field unchanged.
  A window is complete or cut only by the end of its episode, the buffer's length is the number of
  windows, and a bounded buffer keeps exactly the newest windows up to its capacity.
  Sampling k elements returns k different stored windows, each equally likely for the plain buffer.""",
  [H, C], "all append/stop/sample histories over any number of envs, all capacities, all N",
  """Tests append a handful of transitions from one or two envs with fixed episode lengths; the
  property is over all interleavings, capacities and N.""",
  ["pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/prioritized.py",
   "pfrl/replay_buffers/persistent.py", "pfrl/collections/random_access_queue.py",
   "pfrl/utils/random.py"],
  [("per-env last-n deque flushed on terminal / stop", "ReplayBuffer.append, stop_current_episode"),
   ("bounded FIFO queue", "RandomAccessQueue, PrioritizedBuffer")],
  ["buffer.sample(len(buffer))", "len(buffer)"],
  "model-based PBT of buffer histories",
  """Hypothesis op sequences against a reference list model; sampling uniformity by chi-square-like
  bounds.""")

P("P02", "Episodic replay buffers hold whole episodes and sub-episodes faithfully",
  """For every interleaving of appends, terminations and interruptions over several environments, an
  episodic replay buffer (plain, prioritized or persistent) contains exactly the finished episodes,
  each in order and unmixed, and its transition count and transition sampling cover exactly the
  transitions of those episodes. When a capacity is exceeded, whole oldest episodes are dropped
  until the rest fits. Sampling n episodes gives n different stored episodes, or, with a maximum
  length, a contiguous part of each of exactly that length (the whole episode when shorter).""",
  [H, C], "all append/stop/sample histories, capacities and maximum lengths",
  "Tests use a few fixed episodes, mostly unbounded buffers.",
  ["pfrl/replay_buffers/episodic.py", "pfrl/replay_buffers/prioritized_episodic.py",
   "pfrl/replay_buffers/persistent.py", "pfrl/replay_buffer.py"],
  [("whole-episode eviction", "EpisodicReplayBuffer.stop_current_episode"),
   ("random contiguous sub-sequence", "replay_buffer.random_subseq")],
  ["buffer.sample_episodes(n, max_len)", "buffer.n_episodes", "len(buffer)"],
  "model-based PBT of episodic buffer histories",
  "Op sequences against a list-of-episodes model.")

P("P03", "Prioritized sampling follows the priorities and its weights correct for it",
  """In every reachable state of a prioritized buffer, an element's chance of being drawn is
  proportional to its current priority (new elements get the largest priority seen, updated elements
  the clipped error plus a constant raised to alpha, a stated fraction of draws being uniform), and
  draws in one batch are distinct. The reported probabilities are exactly those, and the
  importance weights equal the probability relative to the chosen normalizer (batch minimum, memory
  minimum or buffer size) to the power minus beta, with beta rising linearly to one.""",
  [H, C], "all histories of append/evict/sample/update and all hyper-parameters",
  """Tests check a few fixed histories; tree shape, eviction offsets and the mix of removal and
  re-insertion depend on the whole history.""",
  ["pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py",
   "pfrl/replay_buffers/prioritized_episodic.py"],
  [("sum/min tree over a sliding index range", "TreeQueue, SumTreeQueue, MinTreeQueue"),
   ("weights", "PriorityWeightError")],
  ["PrioritizedBuffer.sample / set_last_priority", "PrioritizedReplayBuffer.sample -> weight"],
  "model-based PBT + inverse-CDF and frequency oracle",
  "Naive priority-list model; exact probabilities and weights; frequency tests with 1e-9 bounds.")

P("P04", "Random-access queues behave like a bounded list under every operation sequence",
  """Under any sequence of append, extend, pop from the left, indexed read and write (negative
  indices included), iteration, length and sampling, the in-memory queue, the persistent queue and
  the priority-tree queue agree with a plain list that drops its oldest elements beyond the maximum
  length, including which operations are rejected as out of range. Sampling k of n indices gives k
  distinct in-range indices, all equally likely, for every k up to n.""",
  [H, C], "all operation sequences and maximum lengths",
  "Tests use a few sequences; two-stack internals depend on history.",
  ["pfrl/collections/random_access_queue.py", "pfrl/collections/persistent_collections.py",
   "pfrl/collections/prioritized.py", "pfrl/utils/random.py"],
  [("two-stack queue", "RandomAccessQueue"), ("binary tree over moving bounds", "TreeQueue")],
  ["queue API"],
  "stateful PBT against a list model",
  "List model compared after every operation.")

P("P05", "A persistent queue survives restarts and crashes without loss or invention",
  """Reopening the directory of a persistent queue gives, in order, the newest elements appended over
  all its earlier sessions, up to its maximum length; a queue (or replay buffer) opened on an ancestor directory starts
  with the ancestor's newest elements and never changes the ancestor's files. If a process dies in
  the middle of a write, every element whose append had returned is recovered, nothing that was
  never appended appears, and the queue is usable.""",
  [H, K, F], "all session/append/reopen/ancestor histories and all crash points within a write",
  "Tests reopen once or twice after clean closes and never crash.",
  ["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
  [("append-only chunk data + checksummed index written after the data", "_VariableLengthStore / _ChunkedStore"),
   ("ancestor list in meta file", "PersistentRandomAccessQueue")],
  ["PersistentRandomAccessQueue(basedir, maxlen, ancestor=...)", "files on disk"],
  "stateful PBT with enumerated torn-write crash points",
  """Histories of sessions; crash = truncation of the last write at every byte boundary of data and
  index files (elements larger than 1500 bytes: a selection of boundaries, including those of the
  write buffer).""", level="fault_enumeration")

P("P06", "Saving and loading restores buffers and agents exactly",
  """Saving a replay buffer or an agent and loading it into a freshly built equal one restores its
  observable state: the buffer's contents, order of eviction, capacity and priorities; the agent's
  greedy behaviour; and all learned parameters, target parameters, optimizer state and trained
  temperature or normalization. An agent resumed from saved files then makes the same updates from the same experiences as the
  agent that was never stopped, and saving never changes the agent or buffer being saved.""",
  [H, C], "all histories before the save and all agent and buffer types",
  "Tests check that save/load does not crash and that a value survives, for one short history.",
  ["pfrl/agent.py", "pfrl/replay_buffers/", "pfrl/agents/"],
  [("recursive attribute saving", "AttributeSavingMixin.save/load/__save/__load"),
   ("pickle of memory", "ReplayBuffer.save/load")],
  ["agent.save(dir), agent.load(dir)", "buffer.save(f), buffer.load(f)"],
  "round-trip + differential resume PBT",
  "Random histories; original vs restored agent driven with the same experiences.")

P("P07", "Minibatches carry exact n-step returns, discounts and terminal flags",
  """For every list of sampled experiences, the assembled minibatch holds the first state and action,
  the discounted sum of the window's rewards, the state and action reached after the window, a
  terminal flag set iff the window reached a terminal state, and the discount to the power of the
  window's actual length. For sampled episodes the flattened time-major batch pairs every
  transition's action, reward, discount and terminal flag with the state sequence of its own
  episode and the recurrent state stored at its start.""",
  [I, C], "all window lengths, rewards, discounts, terminal positions, preprocessing functions",
  "Tests cover fixed 1- to 3-step experiences.",
  ["pfrl/replay_buffer.py", "pfrl/utils/batch_states.py", "pfrl/utils/recurrent.py"],
  [("vectorization", "batch_experiences, batch_recurrent_experiences")],
  ["batch_experiences(...)", "batch_recurrent_experiences(...)"],
  "PBT against a scalar reference",
  "Plain Python recomputation of every field.")

P("P08", "Off-policy agents update exactly on their configured schedule",
  """In every interaction history, single-env or batched, an off-policy agent performs a model update
  at exactly those steps that are multiples of the update interval once the buffer holds the start
  size, the configured number of times, each on a batch of the configured size sampled from its own
  buffer; nothing is learned in evaluation mode. Target networks are synchronised (hard at every
  multiple of the target interval, soft with coefficient tau) at exactly the configured moments, and
  delayed policy updates happen every configured number of critic updates.""",
  [H, C], "all interaction histories, env counts, start sizes, intervals, batch sizes, repeat counts",
  "Tests train toy problems; they do not observe when updates happen.",
  ["pfrl/replay_buffer.py", "pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py",
   "pfrl/agents/soft_actor_critic.py", "pfrl/utils/copy_param.py"],
  [("schedule", "ReplayUpdater.update_if_necessary"), ("target sync", "DQN.sync_target_network, soft updates")],
  ["calls of the optimizer and parameter changes seen after every observe"],
  "history PBT with instrumented buffers/optimizers vs schedule model",
  "Counts samples and optimizer steps after each observe; compares with arithmetic model.")

P("P09", "Value-based agents regress to their algorithm's target",
  """For any batch of experiences, network values and terminal flags, one update of each value-based
  agent (Q-learning, double, advantage-learning and its persistent and double variants, dynamic policy programming)
  moves the parameters by exactly the gradient of its documented loss: the squared or Huber
  temporal-difference error of the chosen action against that algorithm's target, computed with the
  target network, no bootstrapping past terminal states and the n-step discount. Importance weights
  multiply per-sample losses, accumulation by sum or mean is respected, and the
  errors fed back as priorities are the absolute temporal-difference errors.""",
  [I, C], "all batches, network outputs, gammas, n-step lengths, weights and loss options",
  "Tests check learning on a toy chain, where many wrong targets still learn.",
  ["pfrl/agents/dqn.py", "pfrl/agents/double_dqn.py", "pfrl/agents/al.py", "pfrl/agents/pal.py",
   "pfrl/agents/double_pal.py", "pfrl/agents/dpp.py"],
  [("target value", "_compute_target_values / _compute_y_and_t"), ("loss", "compute_value_loss, compute_weighted_value_loss")],
  ["parameters before/after agent.update(experiences)", "replay buffer's update_errors"],
  "differential PBT vs numpy/autograd reference",
  "SGD step compared with an independent scalar implementation of each target.")

P("P10", "Distributional agents project and regress distributions correctly",
  """For any batch, support and probabilities, the categorical agents train towards the exact
  projection of the shifted, discounted target distribution onto the fixed support (mass conserved,
  clipped at both ends, terminal states collapse to the reward), using the online network's greedy
  action in the double variant. The quantile agent minimises the asymmetric Huber loss over every
  pair of sampled and target quantiles averaged over targets, and greedy actions maximise the
  distribution's mean. The per-sample losses are what is fed back as errors to a prioritized buffer.""",
  [I, C], "all batches, supports, atoms, probabilities, rewards incl. values off or on atoms",
  "Tests check one or two hand-computed projections and toy learning.",
  ["pfrl/agents/categorical_dqn.py", "pfrl/agents/categorical_double_dqn.py", "pfrl/agents/iqn.py"],
  [("projection", "_apply_categorical_projection"), ("quantile Huber loss", "compute_eltwise_huber_quantile_loss")],
  ["parameters before/after update", "action values"],
  "differential PBT vs exact rational/naive projection",
  "Naive per-atom projection in float64, pairwise quantile loss.")

P("P11", "Deterministic and soft actor-critic updates implement their objectives",
  """For any batch of (possibly n-step) experiences, one update of the deterministic, twin-delayed and
  soft actor-critic agents moves critics, actor and temperature by exactly the gradient of their
  documented objectives: the critic target uses the target networks (the smaller of the two where
  there are twins, minus the entropy term where soft), the window's discount, and no bootstrapping
  past terminal states. The actor objective changes only the actor's parameters and the critic
  objective only the critics'.""",
  [I, C], "all batches, networks, discounts, window lengths, temperatures, delays",
  "Tests check toy learning only.",
  ["pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py"],
  [("critic/actor losses", "DDPG.compute_*_loss, TD3.update_q_func/update_policy, SoftActorCritic.update_*")],
  ["parameters before/after agent.update(experiences)"],
  "differential PBT vs autograd reference",
  "SGD step compared with an independently written loss.")

P("P12", "PPO estimates advantages by GAE and optimises the clipped surrogate",
  """From any multi-env interaction history, the advantages and value targets PPO trains on are the
  generalized advantage estimates of each environment's own episode segment, bootstrapping from the
  value of the last state exactly when the episode was interrupted and not terminated. Epochs draw
  transitions without repetition in minibatches of exactly the configured size (stateless models visiting every
  collected transition in every epoch), and each step follows the clipped policy ratio, optional clipped value loss and entropy bonus with respect to the
  pre-update policy.""",
  [H, C], "all histories of steps/dones/resets over envs; all hyper-parameters",
  "Tests check GAE on fixed episodes and toy learning.",
  ["pfrl/agents/ppo.py"],
  [("GAE", "_add_advantage_and_value_target_to_episode"), ("loss", "PPO._lossfun"),
   ("minibatches", "_yield_minibatches")],
  ["parameters before/after the observe that triggers an update", "states fed to the model"],
  "differential history PBT vs reference GAE/loss",
  "Black-box: act/observe histories, one full-batch SGD step vs reference.")

P("P13", "TRPO never leaves its trust region and never worsens its surrogate",
  """After every policy update of the trust-region agent, the mean divergence between the policies before
  and after on the collected states is at most the configured limit (up to the accepted tolerance) and the
  surrogate objective has not decreased; when no step satisfies both, the policy parameters are
  exactly unchanged. The conjugate-gradient solver returns the solution of any symmetric positive
  definite system within as many iterations as its dimension, and Hessian-vector products match the true second
  derivative.""",
  [I, H, C], "all rollouts, network parameters, limits, SPD systems",
  "Tests check toy learning and one CG system.",
  ["pfrl/agents/trpo.py", "pfrl/utils/conjugate_gradient.py"],
  [("line search with KL and improvement check", "TRPO._line_search"), ("solver", "conjugate_gradient")],
  ["policy parameters before/after update"],
  "invariant PBT on randomized rollouts",
  "Black-box rollouts, oracle recomputes surrogate and KL from observed parameters.")

P("P14", "On-policy policy-gradient agents use correct returns and gradients",
  """For every multi-step interaction history, the batched and asynchronous advantage actor-critic agents and the
  episodic policy-gradient agent move parameters by exactly the gradient of policy, value and
  entropy terms in which each step's return is the discounted sum of the rewards that follow it in
  its own episode (plus the discounted bootstrap value when the segment is cut before a terminal
  state, or generalized advantage estimation when enabled). Rewards never leak across terminations, interruptions or environments.""",
  [H, C], "all histories of rewards/dones/resets, rollout lengths, env counts, coefficients",
  "Tests check toy learning.",
  ["pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/reinforce.py"],
  [("returns", "A2C._compute_returns, A3C.update, REINFORCE.accumulate_grad")],
  ["parameters before/after update"],
  "differential history PBT vs reference returns + autograd",
  "Fixed table policies whose log-probs and values are known; SGD step compared.")

P("P15", "ACER's off-policy corrections match the algorithm",
  """For any trajectory, behaviour policy and current policy, the actor-critic with experience replay
  learns from retrace targets computed backwards with truncated importance ratios and a bootstrap
  exactly when the trajectory is cut before a terminal state. The policy gradient is the truncated-ratio term plus bias
  correction, projected so that the linearised divergence to the average policy stays
  within the trust-region bound, and the average policy tracks the policy with its stated decay.""",
  [I, H, C], "all trajectories, policies, truncation thresholds, trust-region limits",
  "Tests check a few estimator identities and toy learning.",
  ["pfrl/agents/acer.py"],
  [("retrace", "ACER.update"), ("trust region projection", "compute_policy_gradient_loss / get_params...")],
  ["parameters before/after update"],
  "differential PBT vs numpy reference",
  "Discrete (and continuous) tabular policies, one SGD step vs reference.")

P("P16", "Agents record exactly the transitions they lived through",
  """Whatever the order of act and observe calls over environments, episode ends and resets, every
  learning agent stores or trains on each transition exactly once: the observation it acted on, the
  action it returned, and the reward, next observation and terminal flag it then observed, in order
  and per environment. A non-terminal reset ends an episode without marking it terminal, a batch of
  one behaves like the single-environment interface, and evaluation-mode interaction records nothing.""",
  [H, C], "all act/observe histories over envs, dones, resets and mode switches",
  "Tests drive well-behaved training loops on one env and check scores.",
  ["pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py",
   "pfrl/agents/soft_actor_critic.py", "pfrl/agents/ppo.py", "pfrl/agents/trpo.py",
   "pfrl/agent.py"],
  [("batch_last_obs/action bookkeeping", "_batch_observe_train")],
  ["contents of the agent's replay buffer; inputs of the model during updates"],
  "history PBT with transition log oracle",
  "Recording buffer / recorder model compared with the harness's own log.")

P("P17", "Recurrent models treat packed batches like step-by-step runs",
  """For any set of variable-length sequences and initial states, running a recurrent model on the packed
  batch gives for every sequence the same outputs and final state as running it alone one step at a
  time, through any nesting of the library's sequential and branched containers. Per-environment recurrent states
  are kept apart, reset to zero exactly when that environment's episode ends, kept separately for training
  and evaluation, and the states stored with
  experience are those that were in effect at that step.""",
  [I, H, C], "all sequence lengths, nestings, masks and act/observe histories",
  "Tests cover a few lengths and containers.",
  ["pfrl/nn/recurrent_sequential.py", "pfrl/nn/recurrent_branched.py", "pfrl/nn/recurrent.py",
   "pfrl/utils/recurrent.py", "pfrl/agents/"],
  [("pack / unpack / mask helpers", "pfrl/utils/recurrent.py")],
  ["model outputs, recurrent states"],
  "differential PBT packed vs step-by-step",
  "Random nestings; per-sequence step-by-step oracle; agents compared with lone-env runs.")

P("P18", "Training loops follow the environment protocol and stop on time",
  """For every environment behaviour (done and reset-request patterns) and limit setting, the
  single and batched training loops feed each environment's every observation and reward to the agent exactly once,
  reset exactly the environments whose episode is done, asked for, or has reached the length limit, never step a finished
  episode, and perform exactly the requested number of steps.
  Step hooks run at every step with the true step number, checkpoints are saved at the configured
  multiples, the agent is saved when training ends or is interrupted by an error, and the progress logged names the true step, episode count and returns.""",
  [H, C, F], "all env behaviours, episode limits, step counts, env counts, fault points",
  "Tests use a few scripted mocks.",
  ["pfrl/experiments/train_agent.py", "pfrl/experiments/train_agent_batch.py"],
  [("loops", "train_agent, train_agent_batch"), ("save on exception", "save_agent(.., '_except')")],
  ["calls recorded by scripted env, agent and hooks"],
  "history PBT with recording env/agent + fault injection",
  "Scripted envs/agents record protocol; reference loop model; exception at random step.")

P("P19", "Evaluation measures whole episodes, on schedule, without touching training",
  """Every evaluation runs the agent in evaluation mode over exactly the requested number of complete
  episodes (or steps) and reports the returns, lengths and statistics of exactly those episodes, for single and batched
  environments alike; the agent is told when the last one is cut, and is back in its former mode afterwards, even after
  an error. Evaluations happen once, at the first opportunity after each crossing of the configured interval; each adds
  one correct row to the score log (and, if asked for, the same figures to tensorboard), is passed to the hooks and returned in the history, stops training when the
  successful score is reached, and saves the best agent exactly when the mean score exceeds all earlier ones.
  An evaluation on the training environment leaves no half-finished training episode behind.""",
  [H, C], "all reward/length patterns, env counts, episode and step limits, score sequences",
  "Tests use a few scripted envs.",
  ["pfrl/experiments/evaluator.py", "pfrl/experiments/train_agent.py",
   "pfrl/experiments/train_agent_batch.py"],
  [("episode collection", "_run_episodes / _batch_run_episodes"), ("schedule", "Evaluator.evaluate_if_necessary")],
  ["returned scores, scores.txt, saved directories"],
  "history PBT with scripted envs vs reference",
  "Scripted episode tables; scores recomputed.")

P("P20", "Asynchronous training counts global steps once and shares one model",
  """For any number of workers, schedules and episode shapes, asynchronous training ends with every worker
  finished and the environment steps of all workers counted exactly once each, starting from the step offset and reaching
  the requested number, with at most one evaluation per crossed interval (each of them in the score log and, if asked
  for, in tensorboard) and the final agent saved once.
  All workers train the same shared parameters, each worker's environment and random numbers have their own seed, hooks see
  every global step once, and the failure of a worker is reported while the others go on; a failure reported by the
  exception event makes the first worker save the agent and end the program.""",
  [S, H, C], "all worker counts, episode shapes, step limits, intervals, worker faults",
  "Tests run toy problems with 1-2 workers (and their async tests do not run on this Python).",
  ["pfrl/experiments/train_agent_async.py", "pfrl/utils/async_.py", "pfrl/experiments/evaluator.py",
   "pfrl/utils/random_seed.py", "pfrl/agents/a3c.py", "pfrl/utils/copy_param.py"],
  [("shared counters with locks", "train_loop, AsyncEvaluator"), ("abnormal exit detection", "async_.run_async")],
  ["per-worker logs and files"],
  "generated schedules and worker histories against a sequential model",
  "Workers run one at a time under a generated schedule that switches at every shared access; some cases use real processes.")

P("P21", "Vector environments are indistinguishable from their parts",
  """For every history of steps, masked resets and seeds, a vector environment (serial or in
  subprocesses, and under frame stacking) returns for each member exactly the observation, reward, done and info that member
  would return if run alone with the same actions, in the members' order. A masked reset touches
  exactly the finished members, closing releases every worker, and stacked
  observations hold exactly the last k frames of that member's current episode.""",
  [H, C], "all action/mask histories, env counts, frame counts",
  "Tests run short loops with 2 envs.",
  ["pfrl/envs/serial_vector_env.py", "pfrl/envs/multiprocess_vector_env.py",
   "pfrl/wrappers/vector_frame_stack.py", "pfrl/env.py"],
  [("worker command protocol", "multiprocess_vector_env.worker"), ("frame deques", "VectorFrameStack")],
  ["step/reset results"],
  "differential PBT: vector env vs independent members",
  "Deterministic counter envs with per-env signatures.")

P("P22", "Environment wrappers change only what they document",
  """For every environment behaviour and action history, each wrapper transforms the stream exactly as documented
  and passes everything else through unchanged: time limits request a reset without faking termination, no-op/fire/skip/life-loss/frame
  wrappers keep rewards, frames and episode ends consistent with the wrapped environment,
  reward scaling, observation casting, action normalization and action randomization apply their
  formula only, and nested stacks compose. Reading a lazily stacked observation gives
  the same frames however often and whenever it is read.""",
  [H, I, C], "all env scripts, action histories and wrapper parameters",
  "Tests run a few steps on fixed toy envs.",
  ["pfrl/wrappers/", "pfrl/utils/env_modifiers.py"],
  [("wrappers", "pfrl/wrappers/*.py")],
  ["reset/step results vs the wrapped env's log"],
  "history PBT with scripted envs vs reference wrapper models",
  "Scripted env with unique frames; list-based models of each wrapper.")

P("P23", "Exploration follows the configured schedule and distribution",
  """At every step number, epsilon-greedy exploration picks a random action with exactly the scheduled
  probability (linear or exponential decay between the configured endpoints, never outside them, constant where constant)
  and the greedy action otherwise; soft-max exploration draws actions from the soft-max of the values at its
  temperature, and additive noise explorers add noise of the configured law and stay in bounds.
  The greedy action is only computed or altered as documented, and the input action is never modified. Agents ask their
  explorer once per environment and training step and never in evaluation; agents with a stochastic policy draw every environment's
  training action independently from the current policy (after burn-in, where configured), and in evaluation take its mode
  if told to act deterministically and a draw otherwise.""",
  [I, H, C], "all steps, schedules, value vectors, noise settings, agents and histories",
  "Tests sample a few settings with loose bounds.",
  ["pfrl/explorers/", "pfrl/agents/"],
  [("schedules", "compute_epsilon"), ("selection", "select_action_epsilon_greedily, Boltzmann, AdditiveGaussian, AdditiveOU")],
  ["select_action results"],
  "PBT with analytic schedule and frequency oracle",
  "Exact schedule; frequencies bounded with 1e-9 tails.")

P("P24", "Action-value objects agree with their definition of value and greed",
  """For any values, the greedy action of an action-value object attains the maximum it reports, evaluating any action
  gives that action's value, and the advantage is value minus maximum, batch element by batch element,
  for discrete, distributional, quantile, quadratic and single-action forms; greedy actions of bounded continuous forms lie
  inside the bounds. Q-function heads (dueling, distributional, state-action and quadratic) produce exactly the
  values their definition gives from their layers, so that the discrete and the state-action interfaces agree.""",
  [I, C], "all value tensors, batch sizes, actions, bounds",
  "Tests use small fixed or a few random tensors.",
  ["pfrl/action_value.py", "pfrl/q_functions/"],
  [("action value classes", "pfrl/action_value.py")],
  ["properties of action-value objects"],
  "PBT vs naive per-element reference",
  "Element-wise numpy oracle.")

P("P25", "Parameter copying, gradient and optimizer utilities are exact",
  """For any pair of equally shaped modules, hard copying makes every parameter and buffer equal and soft copying moves
  every floating-point tensor by exactly the fraction tau (once, under however many names it is registered) and copies the
  others, without aliasing the source or touching gradients or parameter objects; gradient copying and
  norm clipping transfer or rescale exactly the gradients and skip parameters without any.
  The RMSprop optimizers with eps inside the root follow their recurrence for all options and across saved and restored states, and the
  evaluation-mode context switches every submodule to evaluation and restores each one's mode however it is left.""",
  [I, H, C], "all modules, tau, gradients incl. missing ones, optimizer options and step counts",
  "Tests cover one MLP and default options.",
  ["pfrl/utils/copy_param.py", "pfrl/utils/clip_l2_grad_norm.py",
   "pfrl/optimizers/rmsprop_eps_inside_sqrt.py", "pfrl/utils/contexts.py", "pfrl/utils/async_.py"],
  [("copy", "copy_param, soft_copy_param, copy_grad"), ("RMSprop with eps inside sqrt", "SharedRMSpropEpsInsideSqrt")],
  ["parameters, buffers, grads"],
  "PBT vs scalar reference recurrence",
  "Random module trees with buffers; numpy recurrence.")

P("P26", "Running normalization equals whole-history statistics",
  """After any sequence of batches, however they are split, the empirical normalizer's mean and variance are those of
  all observations seen until its limit (in batches, then frozen), its output is the clipped
  standardized input, inverse undoes it, non-updating calls change nothing, and saved state restores the same
  normalization. Agents with normalizers see observations normalized with statistics from their training observations only,
  each learned exactly once. Reward filters subtract the exponential running average and divide by the running deviation, floored by eps.""",
  [H, I, C], "all batch splits, limits, shapes, clips",
  "Tests use one fixed stream.",
  ["pfrl/nn/empirical_normalization.py", "pfrl/utils/reward_filter.py", "pfrl/agents/ppo.py", "pfrl/agents/trpo.py"],
  [("streaming update", "EmpiricalNormalization.experience")],
  ["mean, std, output"],
  "PBT: streaming vs whole-batch statistics",
  "float64 numpy over concatenated history.")

P("P27", "Policy heads and distributions produce the documented distributions",
  """For any input, policy heads yield distributions with the documented mean and scale
  (fixed, state-independent spherical or diagonal, state-dependent, deterministic or soft-max); their samples, log-probabilities,
  entropies and parameter gradients are consistent with them,
  and the mode used for greedy behaviour is the most probable value (for transformed distributions the image of the base's mode). Network
  building blocks (noisy linear layers and their conversion, lower-triangular assembly, tanh bounding, multi-layer perceptrons, branches,
  initializers) compute their defining formula for every shape.""",
  [I, C], "all inputs, shapes, bounds",
  "Tests use fixed shapes.",
  ["pfrl/policies/", "pfrl/distributions/delta.py", "pfrl/utils/mode_of_distribution.py", "pfrl/nn/", "pfrl/functions/"],
  [("heads", "pfrl/policies/gaussian_policy.py, softmax_policy.py, deterministic_policy.py")],
  ["distribution parameters, module outputs"],
  "PBT vs defining formula",
  "numpy reference for each head/layer.")

P("P28", "Equal seeds give equal runs, and agents do not share hidden state",
  """Running any agent with the same seeds, networks and environment twice gives identical actions, losses and
  parameters, and running another agent, an evaluation or a save in between with the random state restored changes nothing;
  acting in evaluation mode runs the networks in evaluation mode and leaves every submodule in the mode it was in. The
  single-environment interface gives the same run as a batch of one.
  Training an agent never modifies the observations, actions or rewards handed to it, nor other agents or the modules it was not given.""",
  [H, C], "all agents, histories and interleavings of two agents",
  "Tests set seeds but never compare runs.",
  ["pfrl/agents/", "pfrl/utils/random_seed.py", "pfrl/explorers/"],
  [("seeding", "set_random_seed")],
  ["action sequences and parameters"],
  "metamorphic PBT: run twice / interleave",
  "Differential runs.")

P("P29", "Actor-learner training neither loses nor mixes experience",
  """When a Q-learning agent is trained by actors that send experience to a learner, then for every number of actors, history and
  schedule of actors, poller and learner: each actor's transitions are stored exactly once, in order, never joined with
  those of another actor or across an episode end, with the recurrent states the actor had, and evaluation steps are not stored;
  errors fed back to a prioritized buffer set the priorities of the elements that were sampled. Actors act by one shared model,
  which equals the learner's model as of its last multiple of actor_update_interval updates, as counted by the update counter. The target
  network and the hooks follow the number of updates, the learner makes n_updates updates and stops, and requests for
  statistics, saving and loading are answered with the learner's state. A failure in the learner is reported by the exception event and
  both threads end; nothing else sets it.""",
  [S, H, C], "all agents, buffers, actor histories, schedules and failing updates",
  "Tests start real threads and look only at whether training finishes.",
  ["pfrl/agents/dqn.py", "pfrl/agents/state_q_function_actor.py", "pfrl/utils/stoppable_thread.py",
   "pfrl/replay_buffers/", "pfrl/collections/prioritized.py"],
  [("replay buffer lock", "_learner_loop, _poll_pipe"), ("shared model copy", "_learner_loop")],
  ["contents and priorities of the buffer, parameters of the shared and target models, hook calls"],
  "generated schedules and actor histories against the actors' own logs",
  "Threads run one at a time under a generated schedule that switches at every pipe, lock, event and counter access.")

P("P30", "Preparing an output directory records the run and loses no earlier one",
  """For any sequence of calls of prepare_output_dir, among result files written into the directories it made, the returned directory
  exists at the base directory under the given identifier, else under one that is a function of (and tells apart) the
  Git commit, the uncommitted changes and the command line, else under the current time. It holds the given arguments, the
  environment, the command line and, under Git, the state of the repository as of this call, and one more start time than before. A
  directory that existed keeps every other file unchanged, and unless told otherwise its former contents are copied
  whole to a backup next to it. Nothing else in the file system changes.""",
  [H, C], "all sequences of calls, identifiers, base directories, arguments, command lines and file contents",
  "Tests call it once in an empty directory.",
  ["pfrl/experiments/prepare_output_dir.py", "pfrl/utils/is_return_code_zero.py"],
  [("backup", "prepare_output_dir"), ("generated id", "generate_exp_id")],
  ["the whole file tree before and after each call"],
  "stateful PBT against a model of the file tree",
  "Scratch directories with their own Git repository.")

P("P31", "Hooks and the built-in environment behave as documented in training",
  """A linear interpolation hook sets, at every step of training, the value on the straight line from the start value at step 1
  to the stop value at total_steps, and the stop value from then on. A training function refuses, before anything runs, every
  evaluation hook that does not declare support for it, and calls the others in order after each evaluation; the pruning hook reports
  each evaluation's mean score at its step to the trial and stops training exactly when the trial says so. The built-in
  environment follows its documented dynamics: one-hot observations (shifted for whole episodes if partially observable), progress on
  the right action only, reward 1 exactly at the goal, termination or restart as configured, continuous actions as clipped logits.""",
  [H, C, I], "all schedules, values, flags, scripts, sizes and action histories",
  "Tests check single values and play the optimal policy.",
  ["pfrl/experiments/hooks.py", "pfrl/experiments/evaluation_hooks.py", "pfrl/envs/abc.py", "pfrl/experiments/train_agent.py",
   "pfrl/experiments/train_agent_batch.py", "pfrl/experiments/train_agent_async.py"],
  [("interpolation", "LinearInterpolationHook"), ("support flags", "train_agent_with_evaluation"), ("dynamics", "ABC.step")],
  ["values set, calls of hooks, observations and rewards"],
  "history PBT against a model",
  "Scripted environments and recording agents; optuna is replaced by a stand-in.")

P("P32", "Pretrained models are downloaded once and completely, whatever fails",
  """For any history of download_model calls, some failing at any point of the download, killed before any operation on the file
  system, or made by several processes at the same time: a call that returns gives the directory of that algorithm, environment (without
  the frame-skip suffix) and type under the models root, holding exactly the files of the server's archive. A call that is not disturbed
  returns, whatever happened before; a model that has been returned is never downloaded again or damaged, is reported as cached, and
  processes calling at the same time download it once. Unknown algorithms and types are refused without a download.""",
  [H, F, K, S], "all call histories, archives, download failures, crash points and concurrent callers",
  "Tests need the network and are skipped; they see neither failures nor crashes.",
  ["pfrl/utils/pretrained_models.py"],
  [("cache of archives", "cached_download"), ("store of models", "download_and_store_model")],
  ["file trees of the returned directories, requests at the server"],
  "stateful PBT with injected faults and crashes against a stand-in server",
  "Every call in a process of its own over a scratch models root.")

P("P33", "The statistics agents report describe what they did",
  """At every point of any training history, interleaved with evaluation (which changes none), get_statistics of every agent agrees with
  what the agent really did: counts of updates are counts of optimizer steps, cumulative_steps counts the training transitions and
  rlen the stored ones; averages of losses and of Q-values are means over the last 100 losses that were differentiated and the last 1000
  predictions for sampled actions (NaN before any); averages of values and entropies of PPO and TRPO are means, over the configured
  windows, of what the model gave when it acted, as are PPO's value and policy losses and TRPO's KL divergences
  and step sizes (zero when rejected) for updates; those of A2C (per update), A3C, ACER and REINFORCE (per step) decay at the configured
  rates from zero; explained_variance is that of the last batch, temperature the present one.""",
  [H, C], "all agents, settings, training histories and points of reading",
  "Tests only look at the names of statistics.",
  ["pfrl/agents/"],
  [("statistics", "get_statistics of each agent"), ("records", "update methods")],
  ["get_statistics, losses as differentiated, optimizer steps, network outputs"],
  "differential PBT against an outside observer",
  "Losses are watched at torch.autograd.backward, minibatches at the buffer, outputs at the networks.")


def main():
    claimed = set()
    pd = os.path.join(ROOT, "pbt", "props")
    for p in PROPS:
        if os.path.exists(os.path.join(pd, p["id"].lower() + ".py")):
            claimed.add(p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                   "why_tests_cant", "anchors")}
            assert len(q["title"]) <= 80, (p["id"], len(q["title"]))
            f.write(json.dumps(q) + "\n")
    man = dict(
        version=1,
        setup_cmd="./setup.sh",
        checks=[dict(property=p["id"],
                     quick_cmd="./check %s --tier quick" % p["id"],
                     thorough_cmd="./check %s --tier thorough" % p["id"],
                     evidence_file="evidence/%s.json" % p["id"],
                     technique=p["technique"], level=p["level"], level_note=p["note"])
                for p in PROPS if p["id"] in claimed],
        not_applicable=[dict(property=p["id"], reason="check not built yet")
                        for p in PROPS if p["id"] not in claimed],
        notes="Hypothesis-based; see DESIGN.md. No hooks in /repo.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if "--dump" in sys.argv:
    print(json.dumps(PROPS))
else:
    main()

prop('C06', 'Q-learning agents regress on exactly the documented bootstrapped target',
     'For every batch of stored windows, each value-based agent (DQN, double, '
     'advantage learning, persistent advantage learning and its double form, '
     'dynamic policy programming variants, residual, SARSA, categorical and '
     'its double form, implicit quantile and its double form) minimises '
     'exactly its documented loss: the target is the discounted sum of the '
     'window rewards plus gamma to the window length times the bootstrap '
     'value from the target network, and the bootstrap is cut if and only if '
     'the window ends in a true terminal state, not when an episode was merely '
     'truncated. Importance weights and mean/sum accumulation scale the loss '
     'as configured, the errors reported for prioritization are the absolute '
     'differences of prediction and target (the per-example loss for the '
     'distributional agents), and no gradient flows through the target except '
     'where the algorithm says so.',
     ['inputs', 'configurations'],
     'All batches (rewards, terminals, window lengths 1..n, weights), networks '
     'and discount factors, for every listed agent.',
     'Tests train toy environments and accept any rewards above a threshold, '
     'or check one loss function on one array; wrong discount powers, '
     'terminal handling or weights pass them.',
     ['chainerrl/agents/dqn.py', 'chainerrl/agents/double_dqn.py',
      'chainerrl/agents/al.py', 'chainerrl/agents/pal.py',
      'chainerrl/agents/double_pal.py', 'chainerrl/agents/dpp.py',
      'chainerrl/agents/residual_dqn.py', 'chainerrl/agents/sarsa.py',
      'chainerrl/agents/categorical_dqn.py',
      'chainerrl/agents/categorical_double_dqn.py', 'chainerrl/agents/iqn.py',
      'chainerrl/agents/double_iqn.py', 'chainerrl/replay_buffer.py'],
     [('batching of windows', 'replay_buffer.batch_experiences'),
      ('target and loss', 'agents/*: _compute_target_values, _compute_y_and_t,'
       ' _compute_loss')],
     observe=['parameter change after one update with plain SGD',
              'errors handed to the replay buffer'])

prop('C07', 'Deterministic and soft actor-critic updates follow their definitions',
     'For every batch of stored windows, the off-policy actor-critic agents '
     '(DDPG, PGT, TD3, SAC) change critic, actor, temperature and target '
     'parameters exactly as their definitions prescribe: critic targets use '
     'the discounted window reward plus the window-length power of gamma '
     'times the target networks\' value (minimum of the twin critics and '
     'clipped smoothing noise or entropy bonus where applicable), cut only at '
     'true terminals; actor steps ascend the critic evaluated at the policy\'s '
     'action; target networks move by the configured hard or soft rule.',
     ['inputs', 'configurations'],
     'All batches, network parameters, discount factors, window lengths and '
     'schedules.',
     'Tests only check that training on a toy environment does not crash or '
     'reaches a reward.',
     ['chainerrl/agents/ddpg.py', 'chainerrl/agents/pgt.py',
      'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py'],
     [('critic/actor losses', 'compute_critic_loss / compute_actor_loss, '
       'update_q_func / update_policy'),
      ('target synchronisation', 'sync_target_network')],
     observe=['parameter change after one update with plain SGD'])

prop('C08', 'Replay agents record every experienced transition exactly once, as it was',
     'For every history of interaction through the single-environment or the '
     'batch interface, each replay-based agent hands its replay buffer every '
     'transition exactly once and in order per environment: the observation '
     'acted on, the action it returned, the reward and next observation it '
     'was then shown, flagged terminal if and only if the environment really '
     'ended. Time-limit resets end the stored episode without being recorded '
     'as terminal, nothing connects two episodes or two environments, and '
     'acting for evaluation records nothing.',
     ['histories', 'configurations'],
     'All sequences of observations, rewards, done/reset flags and numbers of '
     'environments, for every replay-based agent.',
     'Tests train on toy environments and never inspect what was stored.',
     ['chainerrl/agents/dqn.py', 'chainerrl/agents/sarsa.py',
      'chainerrl/agents/ddpg.py', 'chainerrl/agents/pgt.py',
      'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py'],
     [('act_and_train / stop_episode_and_train', 'agents/*'),
      ('batch_act_and_train / batch_observe_and_train', 'agents/*')],
     observe=['calls on the replay buffer', 'buffer content'])

prop('C09', 'Updates and target syncs happen exactly on the configured schedule',
     'For every configuration, a replay-based agent performs updates exactly '
     'at the environment steps that are multiples of the update interval once '
     'the buffer holds the configured start size (and enough episodes for '
     'recurrent updates), the configured number of times each, on batches of '
     'the configured size drawn from the buffer. Target networks change only '
     'at their configured interval and then exactly by the configured hard or '
     'soft rule, and stay unchanged between synchronisations; policy delays '
     'are honoured, and burn-in actions are used exactly until the first '
     'update.',
     ['histories', 'configurations'],
     'All start sizes, intervals, repetition counts, episode structures, '
     'number of environments.',
     'Tests use one configuration per agent and only look at learning success.',
     ['chainerrl/replay_buffer.py', 'chainerrl/agents/dqn.py',
      'chainerrl/agents/ddpg.py', 'chainerrl/agents/pgt.py',
      'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py',
      'chainerrl/misc/copy_param.py'],
     [('ReplayUpdater.update_if_necessary', 'chainerrl/replay_buffer.py'),
      ('sync_target_network', 'agents/*')],
     observe=['optimizer update counts', 'target parameters over time'])

prop('C10', 'Evaluation never influences training',
     'Inserting any number of evaluation episodes (acting without training, '
     'single or batched, including stopping them) at any point between two '
     'training steps leaves every subsequent training step unchanged: same '
     'actions, same stored experience, same parameters, same schedules, up to '
     'the random numbers consumed. In particular evaluation neither changes '
     'parameters, optimizer state, normalisation statistics (batch '
     'normalisation included) or training recurrent states, nor truncates the '
     'training episodes under way. (Agents whose recurrent model keeps its '
     'state inside the model, which acting necessarily advances, give the '
     'guarantee for evaluation between training episodes.)',
     ['schedules', 'histories', 'configurations'],
     'All points of insertion, lengths of evaluation, agents, single and '
     'batch interfaces.',
     'No test interleaves evaluation with training and compares the outcome.',
     ['chainerrl/agents', 'chainerrl/experiments/evaluator.py'],
     [('act / batch_act / batch_observe / stop_episode', 'agents/*'),
      ('separate train/test recurrent states', 'agents/dqn.py, ppo.py, '
       'trpo.py')],
     observe=['two runs with and without inserted evaluation'])

prop('C11', 'The training loop drives environment and agent by the protocol',
     'For every environment behaviour (episode lengths, terminal states, '
     'forced resets) and configuration, the single-environment training loop '
     'executes exactly the requested number of environment steps, never steps '
     'an environment whose episode has ended, resets it exactly once per new '
     'episode, and tells the agent about each step and each episode end '
     'exactly once with the right reward and terminal flag (true terminal '
     'versus length limit or forced reset). Step hooks run once per step with '
     'the right step number, checkpoints are saved at the configured steps, '
     'training stops early exactly when the best evaluated score reaches the '
     'success score, and the agent is saved at the end and also when training '
     'is aborted by an exception or interrupt at any step.',
     ['histories', 'fault_sequences', 'configurations'],
     'All environment behaviours, step budgets, offsets, episode limits, '
     'and aborts at every call.',
     'Tests use one mocked environment with a fixed done pattern.',
     ['chainerrl/experiments/train_agent.py'],
     [('train_agent loop', 'experiments/train_agent.py'),
      ('save on exception', 'experiments/train_agent.py')],
     observe=['event log of environment, agent and hook calls'])

prop('C12', 'The batch training loop drives every environment by the protocol',
     'For every combination of environment behaviours, the vectorised training '
     'loop performs the requested number of total steps (rounded up to whole '
     'batches), resets exactly the environments whose episode ended '
     '(terminal, forced reset or length limit) before acting on them again, '
     'and passes the agent, once per step and in environment order, the '
     'observations produced by its actions with the right reward, terminal and '
     'reset flags. Hooks and checkpoints fire for every step number exactly '
     'once, evaluation happens when due, the returned or logged recent '
     'returns are those of finished episodes, training stops early exactly '
     'when the best evaluated score reaches the success score, and the agent '
     'is saved at the end and when training is aborted.',
     ['histories', 'fault_sequences', 'configurations'],
     'All per-environment done/reset patterns, numbers of environments, step '
     'budgets, episode limits and abort points.',
     'Tests use one mocked vector environment with a fixed pattern.',
     ['chainerrl/experiments/train_agent_batch.py'],
     [('train_agent_batch loop', 'experiments/train_agent_batch.py')],
     observe=['event log of vector environment, agent and hook calls'])

prop('C13', 'Evaluation scores, schedules and best-model saving are exact',
     'For every environment behaviour, an evaluation run returns the '
     'undiscounted returns of exactly the requested number of complete '
     'episodes (or those fitting in the requested steps), serially or over a '
     'vector environment without favouring short episodes, and never trains '
     'the agent. The evaluator runs once each time training crosses its '
     'interval, appends one consistent row of statistics per evaluation to the '
     'score file, and keeps as the best saved model exactly the one that '
     'first achieved the highest mean so far.',
     ['histories', 'configurations', 'schedules'],
     'All episode length/return patterns, intervals, step sequences, numbers '
     'of environments; concurrent evaluators in asynchronous training.',
     'Tests cover a few deterministic patterns.',
     ['chainerrl/experiments/evaluator.py'],
     [('run_evaluation_episodes / batch_run_evaluation_episodes',
       'experiments/evaluator.py'),
      ('Evaluator / AsyncEvaluator', 'experiments/evaluator.py')],
     observe=['returned scores', 'scores.txt', 'saved best model'])

prop('C14', 'Asynchronous training counts, shares and saves exactly once',
     'For every interleaving of worker processes, asynchronous training counts '
     'every environment step exactly once in the global step counter, runs '
     'hooks with distinct consecutive global steps, stops all workers at the '
     'step budget, and saves the final agent exactly once; worker agents train '
     'one truly shared set of parameters and optimizer statistics. A worker '
     'failure or interrupt is not silently lost: the remaining training state '
     'is still saved or an error or warning is reported.',
     ['schedules', 'fault_sequences', 'configurations'],
     'All interleavings, numbers of processes, episode structures and worker '
     'failures.',
     'Tests run two processes for a few steps and check only that it ends.',
     ['chainerrl/experiments/train_agent_async.py',
      'chainerrl/misc/async_.py'],
     [('shared counter with lock', 'train_agent_async.train_loop'),
      ('shared parameter arrays', 'misc/async_.py'),
      ('process supervision', 'misc/async_.py run_async')],
     observe=['event records of all workers', 'shared arrays'])

prop('C15', 'Saving and loading an agent restores everything it has learned',
     'For every agent and every point of training, saving to a directory and '
     'loading into an agent constructed the same way yields identical actions '
     'and identical values for all observations, and an identical result of '
     'any further update on the same data: all networks including target '
     'networks, optimizer statistics and counters, normalisation statistics '
     'and learned temperature survive. Saving does not alter the saved agent.',
     ['crash_points', 'histories', 'configurations'],
     'All agents, all save points, all continuations.',
     'Tests check that one attribute of some agents survives, or that loading '
     'runs.',
     ['chainerrl/agent.py', 'chainerrl/agents',
      'chainerrl/links/empirical_normalization.py',
      'chainerrl/optimizers', 'chainerrl/misc/namedpersistent.py'],
     [('saved attributes, recursive serialization',
       'agent.AttributeSavingMixin'),
      ('persistent values', 'links/empirical_normalization.py')],
     observe=['actions, parameters after identical further updates'])

prop('C16', 'Recurrent models give the same results however they are driven',
     'For every recurrent model built from the provided stateless containers '
     'and every set of variable-length sequences, processing whole sequences '
     'at once, stepping one input at a time and stepping a batch give the '
     'same outputs and final states, in the right order; masking, extracting '
     'and concatenating recurrent states act on exactly the selected batch '
     'entries. For stateful chains, temporarily keeping or resetting the state '
     'always restores the exact previous state, including the initial empty '
     'one and after errors.',
     ['inputs', 'programs', 'histories'],
     'All model compositions, sequence lengths, batch sizes and state '
     'operations.',
     'Tests cover a few fixed compositions and lengths.',
     ['chainerrl/links/stateless_recurrent.py',
      'chainerrl/links/stateless_recurrent_sequential.py',
      'chainerrl/links/stateless_recurrent_branched.py',
      'chainerrl/recurrent.py'],
     [('n_step_forward, recurrent state helpers',
       'links/stateless_recurrent.py'),
      ('state_kept / state_reset', 'recurrent.py')],
     observe=['outputs and states'])

prop('C17', 'Vector environments behave like their member environments',
     'For every set of member environments and every history of steps, resets '
     'with masks and seeds, the serial and the multiprocess vector environment '
     'return exactly what stepping each member alone would: results in member '
     'order, only unmasked members reset, untouched members keep their last '
     'observation. Spaces and specification are those of the members, frame '
     'stacking yields for each member exactly the last k frames of its own '
     'episode, and closing ends all workers.',
     ['histories', 'schedules', 'configurations'],
     'All histories of step/reset(mask)/seed/close, member speeds and counts.',
     'Tests compare a few steps of one environment type.',
     ['chainerrl/envs/serial_vector_env.py',
      'chainerrl/envs/multiprocess_vector_env.py',
      'chainerrl/wrappers/vector_frame_stack.py', 'chainerrl/env.py'],
     [('worker command protocol', 'envs/multiprocess_vector_env.py'),
      ('frame deques per member', 'wrappers/vector_frame_stack.py')],
     observe=['results compared with members stepped alone'])

prop('C18', 'Environment wrappers change only what they promise',
     'For every environment behaviour, each wrapper (time limit for '
     'continuing training, reward scaling, observation casting, action '
     'normalisation and randomisation, the Atari preprocessing chain, '
     'monitoring, environment modifiers) passes observations, rewards, '
     'terminal flags and infos through unchanged except for its documented '
     'transformation, which holds on every step of every episode. Episode '
     'boundaries are respected: no state of one episode leaks into the next, '
     'finished environments are not stepped, and length limits request a '
     'reset without claiming a terminal state.',
     ['histories', 'inputs', 'configurations'],
     'All environment behaviours (episode lengths, rewards, lives, forced '
     'resets) and wrapper parameters.',
     'Tests drive each wrapper on one environment for a few steps.',
     ['chainerrl/wrappers', 'chainerrl/misc/env_modifiers.py'],
     [('wrapper step/reset', 'chainerrl/wrappers/*.py'),
      ('modifiers', 'misc/env_modifiers.py')],
     observe=['wrapper results versus scripted inner environment'])

prop('C19', 'Distributions agree with their mathematical definitions',
     'For all parameters, every action distribution reports log-probabilities, '
     'probabilities, entropies and KL divergences equal to the mathematical '
     'ones, gradients included, and its samples follow exactly the '
     'distribution whose log-probability it reports. The most probable action '
     'maximises the reported probability (for the squashed Gaussian: is the '
     'image of the mode of the underlying Gaussian), and copying or indexing a '
     'distribution preserves parameters per element.',
     ['inputs', 'configurations'],
     'All parameters, batch sizes, shapes and distribution types.',
     'Tests sample a few parameters with loose tolerances.',
     ['chainerrl/distribution.py', 'chainerrl/policies'],
     [('closed forms', 'distribution.py')],
     observe=['values against scipy references', 'sample statistics'])

prop('C20', 'Action-value objects and distributional projections are exact',
     'For all parameters, action-value objects report greedy actions that '
     'maximise the value they report (for quadratic values with action bounds: '
     'the maximiser clipped to the bounds), values of given actions, advantages and '
     'maxima consistent with each other, and slicing selects the matching '
     'batch entries. The categorical projection onto a fixed support is a '
     'probability distribution that preserves total mass, preserves the mean '
     'for targets inside the support and clamps targets outside it; quantile '
     'values average to the reported Q-values.',
     ['inputs', 'configurations'],
     'All parameters, supports, reward/discount combinations and batch sizes.',
     'Tests check a few arrays.',
     ['chainerrl/action_value.py', 'chainerrl/agents/categorical_dqn.py',
      'chainerrl/agents/iqn.py', 'chainerrl/q_functions'],
     [('max/greedy_actions/evaluate_actions', 'action_value.py'),
      ('projection', 'agents/categorical_dqn.py')],
     observe=['values against numpy references'])

prop('C21', 'On-policy agents learn from every collected transition, correctly credited',
     'For every history of episodes over one or several environments, PPO and '
     'TRPO compute for every collected transition the advantage and value '
     'target defined by generalised advantage estimation within its own '
     'episode, bootstrapping at truncation but not at true terminals, and PPO '
     'uses each transition of a full dataset the configured number of epochs '
     '(more only where needed to fill up the last minibatch) and each dataset '
     'once; A2C likewise uses every transition of '
     'its fixed-length rollouts with correctly cut returns. Advantage '
     'standardisation, ratio clipping, value clipping, entropy and value '
     'coefficients enter the loss exactly as documented.',
     ['histories', 'inputs', 'configurations'],
     'All episode structures, numbers of environments, dataset and minibatch '
     'sizes, discount and trace parameters, recurrent or not.',
     'Tests check learning success on a toy environment and a few fixed '
     'arrays.',
     ['chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py',
      'chainerrl/agents/a2c.py'],
     [('advantage computation', 'ppo.py _add_advantage_and_value_target...'),
      ('dataset assembly and minibatches', 'ppo.py, trpo.py'),
      ('rollout storage', 'a2c.py')],
     observe=['minibatches reaching the model', 'parameter change'])

prop('C22', 'A TRPO policy step respects the trust region and never worsens it',
     'For every policy, batch and configuration, a TRPO update either leaves '
     'the policy parameters exactly unchanged or ends with a mean KL '
     'divergence from the previous policy within the configured bound and a '
     'surrogate objective not below the one before. The step direction solves '
     'the damped Fisher system to the accuracy of the configured number of '
     'conjugate gradient iterations.',
     ['inputs', 'configurations'],
     'All policies (discrete, continuous, recurrent), batches and step-size '
     'settings.',
     'Tests check learning success and one conjugate-gradient example.',
     ['chainerrl/agents/trpo.py', 'chainerrl/misc/conjugate_gradient.py'],
     [('line search', 'trpo.py _line_search'),
      ('Fisher-vector products', 'trpo.py _compute_kl_constrained_step')],
     observe=['policy parameters before and after each update'])

prop('C23', 'Rollout-based agents apply exactly the gradients of their objectives',
     'For every rollout, A3C, n-step Q-learning, ACER, PCL and REINFORCE '
     'change their parameters by exactly the gradient of the documented '
     'objective on that rollout: n-step returns with the bootstrap value of '
     'the last state at truncation and none at a terminal, entropy and value '
     'coefficients as configured, and the algorithm-specific corrections '
     '(truncated importance weights with bias correction and trust region, '
     'path consistency, whole-episode returns). Every transition is used '
     'exactly once on-policy and rollouts never span an episode boundary.',
     ['inputs', 'histories', 'configurations'],
     'All rollouts, lengths, terminal patterns, coefficients, discrete and '
     'continuous actions.',
     'Tests check learning success on toy environments (which currently do '
     'not even run on recent Python) or a few formulas.',
     ['chainerrl/agents/a3c.py', 'chainerrl/agents/nsq.py',
      'chainerrl/agents/acer.py', 'chainerrl/agents/pcl.py',
      'chainerrl/agents/reinforce.py'],
     [('update()', 'agents/*')],
     observe=['parameter change after one update with plain SGD'])

prop('C24', 'Explorers follow their schedules, ranges and distributions',
     'For every step number and configuration, the epsilon-greedy explorers '
     'take the greedy action with probability one minus the scheduled epsilon '
     'and otherwise a draw of the given random action function, where the '
     'schedule is constant or linear, reaching its final value at the '
     'configured step and staying there. Boltzmann exploration draws actions with '
     'softmax probabilities at the configured temperature, additive noise '
     'explorers add noise of the configured stationary law clipped to the '
     'given bounds, and greedy exploration returns the greedy action. Agents '
     'acting for evaluation choose the greedy or most probable action where so '
     'configured and otherwise draw from their policy.',
     ['inputs', 'configurations', 'histories'],
     'All step numbers, schedules, temperatures, bounds and action values.',
     'Tests check a few steps of one schedule.',
     ['chainerrl/explorers'],
     [('epsilon schedules', 'explorers/epsilon_greedy.py'),
      ('noise processes', 'explorers/additive_ou.py, additive_gaussian.py'),
      ('Boltzmann', 'explorers/boltzmann.py')],
     observe=['action statistics'])

prop('C25', 'Running normalisation equals whole-data statistics',
     'After any sequence of batches, the empirical normaliser holds the mean '
     'and variance of all data seen so far regardless of how it was split into '
     'batches, stops changing once its limit of samples is reached, and leaves '
     'statistics untouched when only normalising. Normalising maps data by '
     'those statistics with the configured epsilon and clipping, the inverse '
     'undoes it, and saving and loading preserves the behaviour exactly. '
     'Reward filters subtract the running mean of the rewards and, where they '
     'normalise, divide by their running standard deviation, bounded below so '
     'that the result is finite for every sequence of rewards.',
     ['inputs', 'histories'],
     'All splits of all data into batches, shapes, limits, and save points.',
     'Tests use one large Gaussian data set.',
     ['chainerrl/links/empirical_normalization.py',
      'chainerrl/misc/reward_filter.py'],
     [('Chan et al. running update',
       'EmpiricalNormalization.experience')],
     observe=['mean, std, normalised outputs'])

prop('C26', 'With fixed seeds, training is reproducible',
     'Running the same training program twice with the same seed (set through '
     'the provided seeding helper) in the same configuration gives identical '
     'actions, stored experience, parameters and scores, for every agent and '
     'for serial and vectorised training; different seeds give different '
     'runs, and asynchronous workers draw from different random streams that '
     'the seed determines. Nothing in the library depends on object '
     'addresses, hash order or time.',
     ['programs', 'configurations'],
     'All agents, environments and configurations of serial and vectorised '
     'training.',
     'No test compares two complete runs.',
     ['chainerrl/misc/random_seed.py', 'chainerrl/agents',
      'chainerrl/experiments'],
     [('set_random_seed', 'misc/random_seed.py'),
      ('worker seeds', 'misc/async_.py run_async')],
     observe=['traces of two processes with different hash seeds'])

prop('C27', 'Copying, mixing and sharing parameters is exact and complete',
     'For every pair of structurally equal models, hard copying makes all '
     'parameters and batch normalisation statistics equal, soft copying forms exactly the '
     'weighted mixture, and copying gradients transfers all of them, without '
     'aliasing source and destination. Making a link or optimizer state '
     'shared keeps values unchanged and makes every process see every update, '
     'and the asynchronous optimizer applies its documented update rule.',
     ['inputs', 'programs', 'schedules'],
     'All model structures, tau values, gradients and process interleavings.',
     'Tests copy one small chain.',
     ['chainerrl/misc/copy_param.py', 'chainerrl/misc/async_.py',
      'chainerrl/optimizers'],
     [('copy_param, soft_copy_param, copy_grad', 'misc/copy_param.py'),
      ('share_params_as_shared_arrays', 'misc/async_.py'),
      ('RMSpropAsync, NonbiasWeightDecay', 'chainerrl/optimizers')],
     observe=['parameter arrays, in several processes'])

prop('C28', 'Recorded outputs are complete: demonstrations and experiment directories',
     'Collected demonstrations contain exactly the transitions the agent '
     'experienced in the requested number of steps or episodes, in order, with '
     'correct boundaries, and can be read back unchanged. Preparing an output '
     'directory always yields a fresh or the requested directory, never '
     'destroys existing results, and records arguments, environment, command '
     'and version-control state so that they can be read back. A drawn '
     'computational graph contains everything that the given outputs were '
     'computed from.',
     ['histories', 'configurations', 'schedules'],
     'All environment behaviours and budgets; concurrent preparation by '
     'several processes.',
     'Tests check one deterministic environment and one directory.',
     ['chainerrl/experiments/collect_demos.py',
      'chainerrl/experiments/prepare_output_dir.py',
      'chainerrl/misc/draw_computational_graph.py'],
     [('collect_demonstrations', 'experiments/collect_demos.py'),
      ('prepare_output_dir', 'experiments/prepare_output_dir.py')],
     observe=['files written'])

prop('C29', 'Differentiable building blocks compute their definitions',
     'For all inputs, the provided functions and links (triangular and '
     'quadratic parameterisations, mellowmax, bounding and gradient inversion, '
     'weighted sums, noisy layers, dueling and normalised-advantage heads, '
     'bounded and normalised outputs, policies and value networks) compute '
     'their documented values and gradients, stay within documented bounds, '
     'and give per-example results independent of the rest of the batch. '
     'Optimizer hooks and initialisers act exactly as documented.',
     ['inputs', 'configurations'],
     'All inputs, shapes, batch sizes and configurations.',
     'Tests check shapes and a few values.',
     ['chainerrl/functions', 'chainerrl/links', 'chainerrl/policies',
      'chainerrl/q_functions', 'chainerrl/initializers',
      'chainerrl/optimizers', 'chainerrl/v_functions'],
     [('forward/backward', 'chainerrl/functions/*.py'),
      ('links', 'chainerrl/links/*.py')],
     observe=['values against numpy references, numerical gradients'])

prop('C30', 'Bundled environments honour the environment contract',
     'For every action sequence and configuration, the bundled Atari and toy '
     'environments return observations of the declared shape and type, follow '
     'their documented rewards and episode ends, reject use only where '
     'documented and are deterministic given their seed. The Atari '
     'environment repeats actions, sums rewards and composes the max of '
     'frames over the documented frames, treats life loss as configured, and '
     'its lives and score agree with the emulator.',
     ['inputs', 'histories', 'configurations'],
     'All action sequences, seeds and options.',
     'Tests play a few random steps of one game.',
     ['chainerrl/envs/ale.py', 'chainerrl/envs/abc.py'],
     [('frame skip, max, stacking', 'envs/ale.py'),
      ('ABC state machine', 'envs/abc.py')],
     observe=['trace against a reference emulator run'])

prop('C31', 'Pretrained models are downloaded once and never half installed',
     'For every mix of concurrent callers on one machine, every point at which '
     'a caller is killed or interrupted and every failing download: whenever '
     'download_model returns a path, the complete content of the published '
     'archive is there. Each model is requested from the server once and '
     'exactly one successful caller is told that it was not cached yet; '
     'afterwards it is available without a server and left untouched. Failed '
     'or truncated downloads are reported, are not kept, and can be retried; '
     'unknown algorithms and model types are refused without any request. '
     'Game names with and without the NoFrameskip-v4 suffix are the same '
     'model.',
     ['schedules', 'crash points', 'inputs'],
     'All process schedules, all crash points of a client, all server failures.',
     'The tests need the network and fetch each model once.',
     ['chainerrl/misc/pretrained_models.py'],
     [('download_model', 'misc/pretrained_models.py'),
      ('cached_download', 'misc/pretrained_models.py')],
     observe=['requests reaching a local server, files below the data root'])

prop('C32', 'Reported statistics and interpolated schedules are what they claim',
     'At every point of every training history, the statistics an agent '
     'reports equal their definitions: decayed averages use exactly their own '
     'configured decay over all acts or updates so far (values and entropies '
     'of the states acted on, the losses that were differentiated), windowed '
     'averages are means over at most the configured number of most recent '
     'records, update counters equal the updates performed, and the explained '
     'variance compares value predictions with the value targets of the last '
     'dataset. The linear interpolation hook hands its setter, once per step, '
     'the value on the line from the start value at step 1 to the stop value '
     'at the last step, and the stop value ever after.',
     ['histories', 'configurations'],
     'All histories of acting and updating, decays, windows and schedules.',
     'Tests check statistics for being present, if at all, and a mocked '
     'schedule at a few steps.',
     ['chainerrl/agents', 'chainerrl/experiments/hooks.py'],
     [('get_statistics', 'agents/*.py'),
      ('LinearInterpolationHook', 'experiments/hooks.py')],
     observe=['get_statistics after every step, values given to setters'])

prop('C33', 'Shipped training programs run, report and save what they say',
     'Every training program under examples/, for every combination of its '
     'options, ends cleanly; its environments are the ones the seed names, '
     'one seed each; its agent is shown exactly what the environments give '
     'and the environments get exactly what the agent answers; evaluations '
     'do not train and the scores written are the ones the evaluation '
     'environment paid; the final agent, the best agent and the recorded '
     'options on disk are complete and equal to the live ones. With one '
     'process, running it again with the same seed gives bit-identical '
     'scores and saved agents whatever the process, hash seed and output '
     'directory, and another seed gives other agents. Loading a saved agent '
     'restores it bit for bit; demonstrating it is repeatable, and neither '
     'demonstrating nor collecting demonstrations changes what is stored.',
     ['inputs', 'configurations', 'histories'],
     'All option combinations, seeds and run lengths of about thirty '
     'programs.',
     'The example tests only run each program once and look at its exit '
     'code.',
     ['examples', 'chainerrl/experiments', 'chainerrl/agent.py',
      'chainerrl/misc/random_seed.py', 'chainerrl/wrappers'],
     [('train_agent_with_evaluation', 'experiments/train_agent.py'),
      ('train_agent_batch_with_evaluation', 'experiments/train_agent_batch.py'),
      ('train_agent_async', 'experiments/train_agent_async.py'),
      ('set_random_seed', 'misc/random_seed.py')],
     observe=['calls between program, agent and environments; seeds given '
              'to emulators; files written'])

TECH_VG = 'abstract interpretation to value graphs / effect trees, role-based queries'
TECH_REF = 'refinement of abstract value graphs against specification programs (normal-form equality)'
NOTE = 'Every path of the analysed functions is covered symbolically (loops as recurrences); obligations the analysis cannot decide are reported in the evidence as undecided and never raise an alarm.'

prop('C01', 'Every recorded transition is exactly what the environment step produced',
     'Each sample handed to the learning agent and to the returned dataset holds the (preprocessed) observation the policy acted on, the action sent to the environment, and the reward, next observation, absorbing flag and info returned by that same environment step, with the last flag set exactly when the episode ends (absorbing or horizon reached). The next observation of a sample is the state of the following sample of the same episode, and policy states recorded are those before and after that action.',
     ['inputs', 'histories', 'configurations'], 'all agents, environments, preprocessors, episode lengths and horizons, sequential and vectorized cores',
     'Tests run a few fixed environments and compare final weights; they never relate every recorded field to the step that produced it.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/_impl/core_logic.py', 'mushroom_rl/core/agent.py'],
     [('sequential step and run loop', 'core/core.py Core._run/_step'), ('vectorized step and run loop', 'core/vectorized_core.py'), ('agent draw_action with preprocessors', 'core/agent.py')],
     technique=TECH_VG, note=NOTE)

prop('C02', 'Episode lifecycle: reset, start and stop notifications exactly once per episode',
     'An episode begins with exactly one environment reset, the policy state and episode-step counter being reset with it, and one episode-start notification to the agent; its first acted-on observation is the preprocessed reset observation. A new episode begins exactly when the previous sample was marked last, agents get a stop notification at the end of each run, and in vectorized runs only the environments whose episode ended are reset. When initial states are given, the k-th episode started begins from the k-th of them.',
     ['inputs', 'histories', 'schedules'], 'all environments, horizons, numbers of parallel environments, and interleavings of episode ends between them',
     'Tests sample a few episodes; notification order over every end-of-episode pattern is never observed.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/agent.py', 'mushroom_rl/core/_impl/vectorized_core_logic.py'],
     [('reset path', 'core/core.py Core._reset'), ('masked vectorized reset', 'core/vectorized_core.py'), ('episode_start hooks', 'core/agent.py')],
     technique=TECH_VG, note=NOTE)

prop('C03', 'Fit runs when due, on exactly the data collected, never while evaluating',
     'A learning run calls the agent\'s fit exactly when the requested number of steps or episodes since the previous fit has been collected, with exactly the samples collected since then, each sample being used by one fit. Runs last exactly the requested number of steps or episodes, and evaluation never calls fit, never changes the learning counters used by a later run and returns every sample it collected.',
     ['inputs', 'histories', 'schedules', 'configurations'], 'all combinations of step/episode budgets, fit frequencies, sequences of learn and evaluate calls, vectorized or not',
     'Tests use one or two budgets; off-by-one or leftover-counter errors in other budgets or call sequences go unseen.',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/_impl/core_logic.py', 'mushroom_rl/core/_impl/vectorized_core_logic.py'],
     [('fit/move conditions', 'core/_impl/core_logic.py'), ('episode budget across environments', 'core/_impl/vectorized_core_logic.py')],
     technique=TECH_VG, note=NOTE)

prop('C04', 'No value is bootstrapped from an absorbing next state',
     'In every learning algorithm and advantage estimator, the learning target computed for a transition flagged absorbing does not depend on any value estimate of its next state; it is the reward alone (plus terms not involving the next state).',
     ['inputs', 'histories', 'programs'], 'all algorithms and all transitions, batches and approximators',
     'Tests compare weights after a short run in environments that seldom reach an absorbing state within the tested steps.',
     ['mushroom_rl/algorithms/value', 'mushroom_rl/algorithms/actor_critic', 'mushroom_rl/rl_utils/value_functions.py'],
     [('masking by absorbing', 'every fit')],
     technique='non-interference on abstract value graphs (next-state values vs. targets under absorbing)', note=NOTE)

prop('C05', 'Temporal-difference algorithms apply their published update rule',
     'One learning step of every tabular or linear temporal-difference algorithm changes exactly the visited entry (or, with traces, the traced entries) of its value estimates by step size times the temporal-difference error of that algorithm, evaluated with the pre-update estimates. Step-size schedules are consulted once per visit, auxiliary estimates follow their own recursion, and on-policy methods bootstrap from the action they will actually execute next.',
     ['inputs', 'histories'], 'all states, actions, rewards, discount factors, step-size schedules and histories of updates, for all thirteen algorithms',
     'Tests compare one table after a short seeded run; a wrong index, estimate or step size that coincides there is invisible.',
     ['mushroom_rl/algorithms/value/td'], [('update rules', 'algorithms/value/td/*.py'), ('traces', 'rl_utils/eligibility_trace.py')],
     technique=TECH_REF, note=NOTE)

prop('C06', 'Deep value-based agents regress the taken action on their published target',
     'Each update of DQN, Double, Averaged, Maxmin, Dueling, Noisy, Prioritized, Categorical, Quantile and Rainbow DQN draws one batch and regresses the value (or return distribution) of the action taken in the sampled state on that variant\'s target: reward plus gamma (to the n-th power where n-step samples are used) times the variant\'s target-network estimate of the next state, zero if absorbing. Prioritized variants weight by the importance weights and update exactly the drawn priorities with the absolute TD error. Rewards are clipped only if asked, and learning starts only once the memory is initialized. The dueling, noisy, categorical, quantile and rainbow networks compute the head they are named after.',
     ['inputs', 'histories', 'configurations'], 'all batches, rewards, absorbing patterns, network outputs and constructor options of the ten variants',
     'Tests compare weights after a short seeded run with tiny networks; wrong selection, projection or weighting that coincides there is invisible.',
     ['mushroom_rl/algorithms/value/dqn'], [('batch target and fit', 'algorithms/value/dqn/dqn.py and variants'), ('distributional projection', 'categorical_dqn.py, rainbow.py, quantile_dqn.py')],
     technique=TECH_REF, note=NOTE)

prop('C07', 'Actor-critic agents optimise their published actor and critic objectives',
     'Each update of DDPG, TD3, SAC, A2C, TRPO, PPO (and its recurrent version), COPDAC-Q and stochastic actor-critic uses that algorithm\'s critic target and actor loss: the minimum of the target critics where prescribed, the target policy\'s (smoothed) next action, the entropy temperature, the clipped likelihood ratio against the old policy, advantages held constant, delayed policy updates at the configured period, and line search accepting only steps within the KL limit. Samples come from the current batch only and training is skipped until enough samples are stored.',
     ['inputs', 'histories', 'configurations'], 'all batches, network outputs, noise draws and constructor options of the actor-critic algorithms',
     'Tests compare weights after one seeded run with default options; branches, clips and delays that do not bind there are never exercised.',
     ['mushroom_rl/algorithms/actor_critic'], [('deep actor-critic', 'algorithms/actor_critic/deep_actor_critic'), ('classic actor-critic', 'algorithms/actor_critic/classic_actor_critic')],
     technique=TECH_REF, note=NOTE)

prop('C08', 'Target networks start equal to the online ones and follow the update schedule',
     'Every target network or target policy holds the online weights right after construction, changes only at its prescribed updates (every target-update-frequency fits for hard copies; every update with theta_target = tau*theta + (1-tau)*theta_target for soft ones; one member at a time for Averaged and Maxmin DQN), copies from the online network of the same role, and the action-value estimate exposed to the policy is always the online one.',
     ['inputs', 'histories', 'configurations'], 'all numbers of updates, frequencies, tau values and weights, for all agents owning target approximators',
     'Tests run few updates so off-by-one schedules, a wrong source network or swapped tau are hard to see in final weights.',
     ['mushroom_rl/algorithms/value/dqn', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic'], [('hard update', 'dqn.py _update_target'), ('soft update', 'deep_actor_critic.py'), ('construction', 'constructors of deep agents')],
     technique='typestate on target approximators plus refinement of abstract value graphs', note=NOTE)

prop('C09', 'Replay memory keeps exactly the most recent transitions, each as it was added',
     'After any sequence of additions the replay memory contains the last max_size added transitions and nothing else, each with all its fields as added (with n-step returns, the discounted reward sum up to the horizon or the end of the episode, and the matching last next-state and absorbing flag). Its size, fullness and initialization tests report that content exactly, a batch consists of stored transitions drawn uniformly with all fields from the same transition, and reset empties it.',
     ['inputs', 'histories'], 'all capacities, addition batches, episode patterns, n-step horizons and sampling sizes',
     'Tests add a few hundred samples to one memory; wrap-around and episode-boundary combinations are not enumerated.',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('ring buffer', 'ReplayMemory.add/get/size/initialized/reset'), ('n-step accumulation', 'ReplayMemory.add')],
     technique=TECH_REF, note=NOTE)

prop('C10', 'Prioritized replay: the sum tree is consistent and sampling is proportional',
     'Every internal node of the sum tree equals the sum of its children after any sequence of additions and priority updates, descent by an offset returns the leaf whose cumulative priority interval contains it together with the transition stored for that leaf, batches draw one offset per equal slice of the total priority, importance weights are (size * probability)^-beta normalised by their maximum, and new or updated priorities are (error + epsilon)^alpha.',
     ['inputs', 'histories'], 'all priorities, capacities, wrap-around patterns, alpha, beta and epsilon',
     'Tests compare network weights after a short run; a wrong ancestor or leaf offset hardly moves them.',
     ['mushroom_rl/rl_utils/replay_memory.py'], [('sum tree', 'SumTree'), ('prioritized sampling', 'PrioritizedReplayMemory')],
     technique=TECH_REF, note=NOTE)

prop('C11', 'Sampled sequences are contiguous, in one episode and correctly padded',
     'Every sequence given to a recurrent learner (from the sequence replay memory or from the recurrent PPO batch builder) consists of consecutive transitions of one episode ending at the drawn transition, truncated to the configured length, never crosses an episode end or the write position of the ring, is padded with zeros beyond its reported length, and carries the state, action, previous action, reward, next state, flags and policy state of those same transitions.',
     ['inputs', 'histories'], 'all episode patterns, fill levels, truncation lengths and sampled positions',
     'Tests do not look inside sequences; boundary positions (start of memory, wrap-around, episode ends) are rarely drawn.',
     ['mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py'], [('sequence memory', 'SequenceReplayMemory.get'), ('recurrent PPO sequences', 'PPO_BPTT.transform_to_sequences')],
     technique=TECH_REF, note=NOTE)

prop('C12', 'Returns and advantage estimators follow their recursions within each episode',
     'Monte Carlo, one-step TD and generalised (lambda) advantage estimates and value targets equal their defining recursions over the dataset: accumulation stops at absorbing transitions and, for the lambda estimator, restarts at the end of each episode; the bootstrap term uses the value of that sample\'s own next state (zero if absorbing), lambda and gamma weight the next advantage, and every output row refers to the input row of the same index.',
     ['inputs', 'histories'], 'all datasets, episode patterns, value functions, gamma and lambda',
     'Tests check a few fixed short datasets; episode boundary combinations are not enumerated.',
     ['mushroom_rl/rl_utils/value_functions.py'], [('estimators', 'rl_utils/value_functions.py')],
     technique=TECH_REF, note=NOTE)

prop('C13', 'Datasets hold, combine and split samples without mixing fields or episodes',
     'For every storage backend and for vectorized collection, a dataset gives back each appended sample field unchanged, in order and under its own name; concatenating, viewing (by index, slice, mask, number of steps or of episodes) and flattening keep every sample together with its flags, policy states and extra information, flattening a vectorized dataset yields the environments\' trajectories one after another without interleaving; episode counts, initial states, (discounted and undiscounted) returns and episode lengths equal their definitions over the stored samples.',
     ['inputs', 'histories', 'configurations'], 'all sample sequences, episode patterns, backends (numpy, torch, list), masks, slices and numbers of parallel environments',
     'Tests build a few small datasets; combinations of view, sum, flatten, mask and policy state are not enumerated.',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/extra_info.py', 'mushroom_rl/core/_impl'], [('sample containers', 'core/_impl/*_dataset.py'), ('dataset operations', 'core/dataset.py'), ('extra information', 'core/extra_info.py')],
     technique=TECH_REF, note=NOTE)

prop('C14', 'Value tables and eligibility traces address exactly the visited entries',
     'Reading, writing and fitting a table touch exactly the entry (or the row of action values) of the given state and action; a table ensemble combines its members as configured (mean, sum, max, min or one member) and addresses one member when asked; predictions on batches equal the single predictions. Replacing traces set and accumulating traces increment the visited entry only, and traces are cleared at the start of an episode.',
     ['inputs', 'histories'], 'all tables, states, actions, batches, ensembles and visit histories',
     'Tests read a few entries of small tables.',
     ['mushroom_rl/approximators/table.py', 'mushroom_rl/approximators/ensemble_table.py', 'mushroom_rl/rl_utils/eligibility_trace.py'], [('tables', 'Table, EnsembleTable'), ('traces', 'ReplacingTrace, AccumulatingTrace')],
     technique=TECH_REF, note=NOTE)

prop('C15', 'Discrete policies draw from the distribution they declare',
     'Epsilon-greedy, Boltzmann and mellowmax policies return as probability of an action exactly their definition on the current action values (ties shared uniformly among the greedy actions, exploration spread uniformly, softmax at the current inverse temperature, which mellowmax solves once per state), draw actions with those same probabilities, and consult and advance their schedules for the visited state as documented.',
     ['inputs', 'histories'], 'all action values, ties, states, schedules and numbers of actions',
     'Tests compare a few seeded draws; the relation between declared probabilities and draws is not observed.',
     ['mushroom_rl/policy/td_policy.py'], [('policies', 'EpsGreedy, Boltzmann, Mellowmax')],
     technique=TECH_REF, note=NOTE)

prop('C16', 'Parametric policies: draws, densities, gradients and weights agree',
     'For every Gaussian-family, torch, recurrent, noise and deterministic policy, draw_action samples (or computes) from the same distribution whose density, log-likelihood, log-gradient and entropy the policy reports; the policy state it returns is that of its own recursion; set_weights followed by get_weights is the identity and addresses the same parameters as the gradient; the squashed Gaussian of SAC reports the log-density of the action it returns; movement primitives follow their phase and basis recursion from the given weights; the vectorized wrapper applies the wrapped policy environment by environment.',
     ['inputs', 'histories', 'configurations'], 'all states, actions, weights, covariances, noise parameters and numbers of environments',
     'Tests check a handful of points of some of these policies.',
     ['mushroom_rl/policy', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py'], [('numpy Gaussian family', 'policy/gaussian_policy.py'), ('torch policies', 'policy/torch_policy.py, recurrent_torch_policy.py'), ('noise and deterministic', 'policy/noise_policy.py, deterministic_policy.py'), ('movement primitives', 'policy/dmp.py, promps.py'), ('squashed Gaussian', 'sac.py SACPolicy')],
     technique=TECH_REF, note=NOTE)

prop('C19', 'Array backends implement one common semantics; conversions keep the data',
     'Every operation of the numpy, torch and list array backends performs the operation its name states on all of its arguments (axes, types, shapes, device included), so code written against the backend interface computes the same on each; conversions between backends keep values, shape and order, return one array for one and a tuple for several, and the requested backend is the one used.',
     ['inputs', 'configurations'], 'all arrays, shapes, argument combinations and pairs of backends',
     'Tests exercise only the operations their small runs touch and mostly the numpy backend.',
     ['mushroom_rl/core/array_backend.py'], [('backends', 'NumpyBackend, TorchBackend, ListBackend'), ('conversion', 'ArrayBackend.convert and from/to')],
     technique=TECH_REF, note=NOTE)

prop('C20', 'Parameter schedules take the documented value at every visit',
     'Step-size, exploration and other scheduled parameters return, at the k-th visit of a (state, action) entry (or of the shared counter when they have no table), the value of their schedule at that count - constant, linear between initial and threshold value over the given steps, polynomial decay, or the variance-based formula - clipped at the threshold; reading a value without updating changes nothing and each visit advances exactly the visited counter once.',
     ['inputs', 'histories'], 'all schedules, thresholds, visit histories and table sizes',
     'Tests check a few values of single-entry schedules.',
     ['mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/rl_utils/variance_parameters.py'], [('schedules', 'rl_utils/parameters.py'), ('variance based', 'rl_utils/variance_parameters.py')],
     technique=TECH_REF, note=NOTE)

prop('C27', 'Regressors address the model of the given action and fit what they were given',
     'A Q, action or generic regressor hands each sample to the model (or output) of its own action, in one batch per action; predictions return one value per (state, action) pair or all actions in order; linear and tile-coding approximators predict the inner product of weights and features and the gradient matches it; torch approximators make one optimisation step per batch on the given loss, weights and targets and predict in evaluation form; flat weight vectors are read and written in one fixed order over all models; ensembles fit, predict and combine member by member.',
     ['inputs', 'histories', 'configurations'], 'all batches, actions, numbers of models, features and constructor options',
     'Tests fit a few models and compare a few predictions.',
     ['mushroom_rl/approximators'], [('dispatch', 'approximators/_implementations'), ('linear and tile coding', 'approximators/parametric/linear.py, cmac.py'), ('torch', 'approximators/parametric/torch_approximator.py'), ('ensembles', 'approximators/ensemble.py')],
     technique=TECH_REF, note=NOTE)

prop('C18', 'Saving and loading an object restores what its behaviour depends on',
     'Every saveable object (agent, policy, approximator, distribution, schedule, replay memory, dataset, environment information) that is saved and loaded again behaves as the saved one: each attribute that its constructor sets and that its methods use is stored or re-established on load, with a storage method that restores a value of its kind, at the level (always / only on full save) documented; nested objects and lists of objects are stored under their own names, optional parts that were not stored come back as None or freshly initialised together with their counters; links between parts of an agent (policy, approximators, optimiser parameters) hold again after loading.',
     ['inputs', 'histories', 'configurations'], 'all saveable classes, constructor options, histories before saving, full and partial saves',
     'Tests save and load a part of the agents right after a short run and compare attribute by attribute the registered attributes only, so an attribute that is not registered is never looked at.',
     ['mushroom_rl/core/serialization.py', 'mushroom_rl/rl_utils', 'mushroom_rl/algorithms', 'mushroom_rl/policy', 'mushroom_rl/approximators', 'mushroom_rl/distributions'], [('archive protocol', 'Serializable.save_zip, load_zip'), ('registrations', '_add_save_attr calls of every saveable class'), ('links after load', '_post_load of every saveable class')],
     technique='effect analysis of constructors, registrations and _post_load by abstract interpretation; refinement of the archive protocol', note=NOTE)

prop('C23', 'Black-box search pairs each episode with the parameters and context it used',
     'A black-box optimisation agent draws one parameter vector from its distribution at the start of every episode (the mean if set deterministic; with the context of that episode if the distribution is contextual), gives exactly that vector to the policy and records it, per environment in vectorized runs (only the environments whose episode starts get new parameters); fitting pairs the discounted return of episode i with the parameters and context of episode i; each algorithm (RWR, REPS, constrained REPS, PGPE, MORE, episodic PPO) updates the distribution by its published rule on those pairs.',
     ['inputs', 'histories', 'configurations'], 'all distributions, policies, contexts, returns, episode counts, start masks and numbers of environments',
     'Tests run each algorithm once with a seed and compare final numbers; contextual and vectorized paths and the pairing of returns with parameters are not observed.',
     ['mushroom_rl/algorithms/policy_search/black_box_optimization'], [('episode parameters', 'BlackBoxOptimization.episode_start, episode_start_vectorized, fit'), ('update rules', 'RWR, REPS, ConstrainedREPS, PGPE, MORE, ePPO')],
     technique=TECH_REF, note=NOTE)

prop('C24', 'Running statistics and observation preprocessors compute their definitions',
     'Running mean and deviation follow the online (Welford) recursion with the given minimum rate, the exponentially weighted average and the fixed-size window follow theirs, for every sequence of values and after reset; the standardising preprocessor returns the clipped standardised observation, the min-max preprocessor scales exactly the bounded components to [-1, 1] and standardises the others; preprocessing does not alter the given observation, and only update changes the statistics.',
     ['inputs', 'histories', 'configurations'], 'all value sequences, shapes, backends, rates, windows and observation bounds',
     'Tests follow one environment for a few steps.',
     ['mushroom_rl/rl_utils/running_stats.py', 'mushroom_rl/rl_utils/preprocessors.py'], [('statistics', 'rl_utils/running_stats.py'), ('preprocessors', 'rl_utils/preprocessors.py')],
     technique=TECH_REF, note=NOTE)

prop('C25', 'Policy-gradient estimators and optimisers follow their formulas per episode',
     'REINFORCE, GPOMDP and eNAC accumulate the log-likelihood gradients, (discounted) rewards and baselines of each episode separately, start afresh at every episode and fit, ignore the unfinished last episode, use the variance-minimising baseline with undefined entries set to zero, and hand the resulting gradient and the current weights to the optimiser, whose result becomes the policy weights; the SGD, Adam and adaptive optimisers compute their documented step (ascent by default, descent on request) from the step size schedule and their moments without altering the given gradient.',
     ['inputs', 'histories', 'configurations'], 'all datasets, episode patterns, policies, gradients and optimiser settings',
     'Tests compare final weights of one seeded run per algorithm.',
     ['mushroom_rl/algorithms/policy_search/policy_gradient', 'mushroom_rl/rl_utils/optimizers.py'], [('episode accumulation', 'PolicyGradient.fit'), ('estimators', 'REINFORCE, GPOMDP, eNAC'), ('optimisers', 'rl_utils/optimizers.py')],
     technique=TECH_REF, note=NOTE)

prop('C26', 'Distributions: samples, densities, gradients, estimates and parameters agree',
     'For every (numpy and torch) Gaussian distribution the sampled law, density, log-density, mean, entropy and log-density gradient are those of the same parameters; weighted and constrained maximum-likelihood updates follow their closed forms with the given weights; set_parameters followed by get_parameters is the identity, in the order used by the gradient, and parameters_size is the length of that vector.',
     ['inputs', 'configurations'], 'all parameters, points, weights, dimensions and contexts',
     'Tests evaluate a few points and estimates.',
     ['mushroom_rl/distributions'], [('numpy distributions', 'distributions/gaussian.py'), ('torch distributions', 'distributions/torch_distribution.py')],
     technique=TECH_REF, note=NOTE)

prop('C21', 'Environments implement their documented dynamics, bounds, rewards and ends',
     'For every state and action, the bundled environments and wrappers compute the successor, reward, absorbing flag and info of their documented model: the action is clipped or decoded as documented before it acts, reset to a given state starts exactly there and leaves that array untouched, observations lie within and are laid out as the announced spaces (one component per declared variable, in order, with the limits of that variable), wrappers pass the wrapped library\'s observation, reward and termination through unchanged (frame skipping adds up the rewards and stops at the end, frame stacking keeps the last frames in order), and the declared time step and horizon are the ones simulated.',
     ['inputs', 'histories', 'configurations'], 'all states, actions, constructor options, observation specifications and wrapped libraries\' answers',
     'Tests follow one seeded trajectory of part of the environments; resets to a given state, state bounds, unusual observation specifications and uninstalled wrapped libraries are never run.',
     ['mushroom_rl/environments', 'mushroom_rl/utils/mujoco', 'mushroom_rl/utils/pybullet', 'mushroom_rl/rl_utils/spaces.py', 'mushroom_rl/utils/angles.py'], [('dynamics', 'environments/*.py: reset, step, _dynamics, _reward'), ('observation layout', 'utils/mujoco/observation_helper.py, utils/pybullet/observation.py, index_map.py'), ('library wrappers', 'gym_env.py, gymnasium_env.py, atari.py, dm_control_env.py'), ('spaces', 'rl_utils/spaces.py')],
     technique=TECH_REF, note=NOTE)

prop('C22', 'Vectorized environments behave as independent environments, selected by the mask',
     'A vectorized environment keeps one state, reward, absorbing flag and info per environment; a step or reset addresses exactly the environments selected by the mask, each with its own action or start state, and leaves the stored results of the others unchanged; each worker answers every request with exactly one answer, answers are read from the same workers the requests were sent to, in the same order, and land in the slot of that environment; single-environment calls are the one-environment case; render, seed and stop reach every worker.',
     ['inputs', 'schedules', 'configurations'], 'all numbers of environments, masks, start states, actions and interleavings of the workers',
     'Tests run one small multi-process environment with one pattern of episode ends.',
     ['mushroom_rl/core/vectorized_env.py', 'mushroom_rl/core/multiprocess_environment.py'], [('masked interface', 'VectorizedEnvironment.reset, step, reset_all, step_all'), ('worker protocol', 'MultiprocessEnvironment.*, _env_worker')],
     technique=TECH_REF, note=NOTE)

prop('C28', 'Planning solvers and problem generators compute their definitions',
     'Value and policy iteration on a tabular model return the fixed point computed by their Bellman sweeps with the given tolerance (policy iteration improves greedily until no action changes); the LQR helpers compute the Riccati gain, the state, action and value functions and their derivatives of the linear-quadratic problem given; the car-on-hill solver returns the discounted value of the shortest successful plan within the horizon; the grid-world, chain and taxi generators build transition probabilities, rewards and start distributions in which every state has its own index, moves lead to the neighbouring free cell (or stay), failed moves have the stated probability, and goals and passengers give the stated reward.',
     ['inputs', 'configurations'], 'all tabular models, tolerances, LQR problems, grids, chain lengths, probabilities and goal sets',
     'Tests solve one or two small models per solver and build one instance per generator.',
     ['mushroom_rl/solvers', 'mushroom_rl/environments/generators'], [('dynamic programming', 'solvers/dynamic_programming.py'), ('LQR', 'solvers/lqr.py'), ('car on hill', 'solvers/car_on_hill.py'), ('generators', 'environments/generators/*.py')],
     technique=TECH_REF, note=NOTE)

prop('C29', 'Features and basis functions compute their formulas for every input',
     'Fourier, polynomial, radial, von Mises, random-Fourier and tensor bases evaluate their formula on the selected dimensions of each input; tiles and Voronoi tiles return the index of the cell containing the point (none outside the range), below their size; generators place centres, exponents, tilings and prototypes over the given range as documented; feature vectors concatenate the values in the given order, one row per input for batches and a vector for one input, their size is the reported one, tile features are one in exactly the active cells, and action features put the state features in the block of the given action and zero elsewhere.',
     ['inputs', 'configurations'], 'all inputs, batch sizes, numbers of bases, tilings and dimensions',
     'Tests evaluate each kind of feature at a few points with one configuration.',
     ['mushroom_rl/features'], [('bases', 'features/basis'), ('tiles', 'features/tiles'), ('tensors', 'features/tensors'), ('feature vectors', 'features/_implementations, features/features.py')],
     technique=TECH_REF, note=NOTE)

prop('C30', 'Callbacks, loggers, recorders and numerical checks report what happened',
     'Data-collecting callbacks append exactly one value per call (the whole dataset, the maximum or full table of values, or the parameter value at the given index) as it was at that moment, return all of them in order and forget them on clean; the data logger appends each logged quantity under its own name, keeps previous content only when asked to append, stores the agent per epoch or only when it improves, and the console prints what it is given; the video recorder writes every frame it is given to one file per recording; numerical gradients are the difference quotients of the policy, distribution or function at the given point and leave the parameters as they were; means and confidence intervals are those of the data.',
     ['inputs', 'histories', 'configurations'], 'all sequences of calls, values, names and options',
     'Tests call each of them a few times in one configuration.',
     ['mushroom_rl/utils/callbacks', 'mushroom_rl/core/logger', 'mushroom_rl/utils/record.py', 'mushroom_rl/utils/numerical_gradient.py', 'mushroom_rl/utils/plot.py', 'mushroom_rl/utils/plots'], [('callbacks', 'utils/callbacks'), ('loggers', 'core/logger'), ('recorder', 'utils/record.py'), ('numerical gradients', 'utils/numerical_gradient.py')],
     technique=TECH_REF, note=NOTE)

"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
N = 'neuro_shooting/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [os.path.normpath(N + f) for f in files], 'state': state or [], 'mechanism': [{'name': a, 'where': os.path.normpath(N + b)} for a, b in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


p('C01', 'Flattening to the solver vector and back is lossless',
  'State, costate and data dictionaries (blocks of named tensors) flattened into the one vector the ODE solver works on are recovered exactly: same blocks, names, shapes, types and values, nothing added, lost or exchanged. This also holds when the solver puts a leading time dimension in front (time slice i is the unpacking of vector i), for the conversions between dictionaries and the tuples handed to autograd, and the round trip is differentiable (its derivative is the identity). Unsupported leading dimensions and a missing layout are refused.',
  ['inputs', 'configurations'], 'every set of blocks, names, tensor shapes and number of time points',
  'tests use one or two fixed dictionaries; a layout mix-up shows only for particular combinations of names and shapes',
  ['state_costate_and_data_dictionary_utils.py', 'shooting_integrands.py'],
  [('assemble_tensor/disassemble_tensor and tuple conversions', 'state_costate_and_data_dictionary_utils.py')],
  ['assemble_tensor', 'disassemble_tensor', 'extract_*_from_tuple_*', 'compute_tuple_from_*'])

p('C02', 'Merging, concatenating and splitting dictionaries is exact',
  'Adding a block to a dictionary of blocks yields exactly the union, leaves the inputs unchanged, and is refused when the block name is already taken. Concatenating blocks key by key along a dimension puts every block\'s entries one after the other in block order, splitting along the same dimension with the same blocks as template is its inverse, and shapes or key sets that do not fit are refused. Zero data created for new states has the data\'s shape except for the concatenation dimension, which is taken from the state; that dimension is the state\'s, shifted by the number of extra leading data dimensions.',
  ['inputs', 'configurations'], 'every block/key/shape combination and every concatenation dimension 0..4',
  'tests touch only dimension 1 and 2 and a single block pair',
  ['state_costate_and_data_dictionary_utils.py'], [('merge / concatenate / deconcatenate / zero padding helpers', 'state_costate_and_data_dictionary_utils.py')])

p('C03', 'States and costates evolve by the optimal-control shooting equations',
  'At every time and for every particle configuration the time derivative the integrand reports is the one of the model: the states move with the model\'s right-hand side under the current parameters, and the costate of every particle moves with minus the transposed Jacobian of that right-hand side applied to the costates. This holds for every model (first-order, second-order, up-down variants, universal, periodic, symmetrised, damped, convolutional), nonlinearity, number of particles, dimension and parameter weight.',
  ['inputs', 'configurations'], 'all particle values, all models, nonlinearities, particle counts and dimensions',
  'tests only check that a forward pass runs (or compare analytic and autodiff at one random point for some models)',
  ['shooting_integrands.py', 'shooting_models.py'],
  [('costate evolution as gradient of the reduced Lagrangian', 'shooting_integrands.py'), ('rhs_advect_state of the models', 'shooting_models.py')],
  ['calling the integrand with (t, vector)'])

p('C04', 'Parameters are the stationary point determined by the particles',
  'In the particle-based modes the parameters used at a given time are, for every layer entry, the derivative of the particle-averaged pairing of costates and state velocities with respect to that entry, divided by the weight of that entry (1 if none is set), i.e. the stationary point of weighted kinetic energy minus potential energy. They depend only on the current states and costates, not on the layers\' random initial values, on the data, or on earlier evaluations.',
  ['inputs', 'configurations', 'histories'], 'all particle values, weights, models and preceding evaluations',
  'tests never compare the computed parameters with the optimality condition, and use unit weights',
  ['shooting_integrands.py', 'shooting_models.py', 'overwrite_classes.py'],
  [('compute_parameters', 'shooting_integrands.py'), ('parameter weights', 'overwrite_classes.py')], ['parameter objects passed to the gradient hook'])

p('C05', 'Analytic and automatic-differentiation evolution agree',
  'For every model that offers analytic shooting equations, switching them on changes neither the state, costate and data derivatives, nor the parameters, nor the result of a forward pass (up to rounding), for every nonlinearity, weight, particle and data value.',
  ['inputs', 'configurations'], 'all models with analytic equations x nonlinearities x weights x values',
  'one test compares one model at one random point with one nonlinearity',
  ['shooting_models.py', 'shooting_integrands.py'], [('optional_*_analytic overrides', 'shooting_models.py')])

p('C06', 'Every nonlinearity comes with its true derivative',
  'For each supported nonlinearity name (in any letter case, or none for the identity) the returned pair is the named function and its derivative at every input where the function is differentiable, applied entry by entry and keeping the shape and type of the input; unknown names are refused.',
  ['inputs'], 'all real inputs, all supported names', 'tests only use tanh',
  ['activation_functions_and_derivatives.py'], [('get_nonlinearity', 'activation_functions_and_derivatives.py')])

p('C07', 'Data follows the particles\' flow and never influences it',
  'Transported data obeys the same state equation as the particles: data that starts where a particle starts ends where the particle ends. Each data sample is transported on its own (its result does not depend on the other samples of the batch or on its position in it), and the final states, costates and parameters do not depend on the data at all.',
  ['inputs', 'configurations'], 'all batches, models, integrators and times',
  'tests use one batch and never vary it', ['shooting_integrands.py', 'shooting_blocks.py', 'shooting_models.py'],
  [('rhs_advect_data_dict_of_dicts', 'shooting_integrands.py'), ('get_initial_data_dict_from_data_tensor', 'shooting_models.py')])

p('C08', 'Integration times are honoured, and every requested time is answered',
  'By default a block integrates from 0 to 1 or to the configured maximum; setting an end time integrates from 0 to it and returns the final values; setting a time vector returns one value per requested time, in order, the first being the initial condition and each later one equal to what integrating up to that time alone gives. The setting made last is the one in force, also when end times and vectors alternate, and converting or moving the block keeps it.',
  ['inputs', 'histories', 'configurations'], 'every sequence of time settings, conversions and forward passes',
  'no test changes the time setting of a block between forward passes',
  ['shooting_blocks.py'], [('set_integration_time / set_integration_time_vector / forward', 'shooting_blocks.py')],
  state=[{'name': 'integration_time / integration_time_vector', 'meaning': 'time setting in force', 'where': 'ShootingBlockBase'}])

p('C09', 'Checkpointed integration is transparent',
  'With checkpoints (by number or by time interval) the integration interval is split into consecutive pieces that share end points, cover it exactly, contain every checkpoint, and mark every requested time exactly once and nothing else. The checkpointed solution therefore has one value per requested time, in order, equal to the solution without checkpoints for steps that fit the pieces, with the same gradients. Setting both kinds of checkpoints, none, or giving fewer than two times is refused.',
  ['inputs', 'configurations'], 'every increasing time vector, checkpoint count and checkpoint interval, in single and double precision',
  'tests never use checkpoints', ['generic_integrator.py'],
  [('create_integration_time_intervals', 'generic_integrator.py'), ('_integrate_checkpointed', 'generic_integrator.py')])

p('C10', 'Integrator settings are validated, honoured and not shared',
  'Unknown libraries and methods are refused; the method and step size asked for are the ones used (fixed-step methods take the configured steps, an explicitly given option wins over the default, adaptive methods get no step size). Creating an integrator neither changes the options object the caller passed nor any other integrator, and adjoint integration gives the same values as direct integration.',
  ['configurations', 'histories'], 'every combination of library, method, options and step size, and every order of creating integrators',
  'tests use a single rk4 integrator', ['generic_integrator.py'], [('GenericIntegrator.__init__ / integrate', 'generic_integrator.py')])

p('C11', 'Time-dependent direct parameters are found by time, not by history',
  'In the particle-free time-dependent mode the interval from start to end time is divided into the configured number of equal pieces with one parameter set each, and asking for the parameters at a time returns the set of the piece that contains it (the first set before the start, the last one from the start of the last piece on). The answer depends only on the time asked for, not on the times asked for before.',
  ['inputs', 'histories'], 'every number of steps, every sequence of query times', 'no test queries it; the cached last position makes the answer history dependent when wrong',
  ['shooting_blocks.py'], [('ParticleFreeParameterFunc.get_parameters_at_time', 'shooting_blocks.py')],
  state=[{'name': 'last used position', 'meaning': 'search cache', 'where': 'ParticleFreeParameterFunc'}])

p('C12', 'Frozen parameters: computed once per forward pass or managed by the block',
  'In frozen-parameter (RNN) mode the parameters are computed from the particles at the beginning of a forward pass, stay the same for that entire pass, and are computed anew for the next one. In the particle-free modes the parameters are the trainable layer parameters of the block itself (one set, or one per time piece), states and costates of the particles do not influence the data\'s path, and gradients reach every one of these parameters.',
  ['histories', 'configurations'], 'every sequence of forward passes, parameter updates and mode settings', 'no test uses these modes',
  ['shooting_integrands.py', 'shooting_blocks.py'], [('reset and the frozen-parameter branch of compute_gradients_*', 'shooting_integrands.py'), ('particle-free registration', 'shooting_blocks.py')])

p('C13', 'The norm penalty is the kinetic energy of the latest forward pass',
  'After a forward pass that starts at time zero the reported norm penalty is half the weighted sum of squares of the parameters at time zero of that very pass (averaged over the parameter sets in the time-dependent particle-free mode). It never carries over from an earlier pass, and it is differentiable with respect to the block\'s trainable parameters.',
  ['inputs', 'histories'], 'every sequence of forward passes and parameter values', 'tests never read the penalty',
  ['shooting_integrands.py', 'shooting_blocks.py'], [('compute_kinetic_energy and current_norm_penalty', 'shooting_integrands.py')])

p('C14', 'A block\'s trainable parameters are complete, unique and stable',
  'A block refuses to list its parameters before its first forward pass and lists them from then on. The list then holds every initial state and costate (costates only, if states are kept at zero), every enlargement parameter of every pass-through block, and every layer parameter of the model itself, each exactly once and under a stable name; further forward passes neither create nor replace any. Every one of them receives a gradient from the block\'s outputs, and a forward pass with unchanged parameters and input gives the same result again.',
  ['histories', 'configurations'], 'every sequence of forward passes, parameter listings and pass-through structures', 'tests call parameters() once after one forward pass',
  ['shooting_blocks.py', 'shooting_models.py'], [('register_* and the first-forward guard', 'shooting_blocks.py')],
  state=[{'name': 'forward executed flag', 'meaning': 'whether parameters exist', 'where': 'ShootingBlockBase'}])

p('C15', 'Enlargement embeds pass-through states centrally and completely',
  'When a block\'s own particles are larger than the ones passed through (in number or in spatial size), every passed-through state and costate is enlarged to the same size: the original values sit unchanged in the centre (with one less on the leading side when the difference is odd), and every other entry is exactly one enlargement parameter, each used exactly once. Channels never change, nothing happens when sizes agree, and a pass-through state larger than the block\'s own is refused.',
  ['inputs', 'configurations'], 'all particle counts, channel counts and spatial sizes', 'tests enlarge one fixed size', ['shooting_blocks.py'],
  [('_create_*_enlargement_parameters / _enlarge_tensor', 'shooting_blocks.py')])

p('C16', 'Striding subsamples all three dictionaries consistently',
  'A striding block keeps of every strided dimension of length n every s-th element, floor(n/s) of them, starting at position n mod s (none if n < s), and leaves all other dimensions, names and values alone. State, costate and data are treated alike, the data\'s dimensions being counted from the same end when it has extra leading dimensions. Striding of the batch or channel dimension, of dimensions that do not exist, and mismatching stride specifications are refused.',
  ['inputs', 'configurations'], 'all sizes, strides, dimension lists and dictionary structures', 'tests stride one size by 2',
  ['striding_block.py'], [('_stride_tensor_single_dimension', 'striding_block.py')])

p('C17', 'Chained blocks compose: pass-through, zero padding, names',
  'A block that receives states, costates and data of earlier blocks integrates them jointly with its own particles: the passed-through tensors come first or last in the concatenated output according to block name order, its own new data channels start at zero, and the output is one block under its own name whose channel count is the sum. A pure pass-through block continues the integration: two blocks in a row give what one block over the combined time gives. A name used twice, states without costates, data given twice, or no input at all are refused.',
  ['inputs', 'configurations', 'histories'], 'all chains of blocks, channel counts and names', 'tests chain one fixed pair',
  ['shooting_blocks.py', 'state_costate_and_data_dictionary_utils.py'], [('forward, _get_initial_conditions_from_data_dict_of_dicts', 'shooting_blocks.py')])

p('C18', 'The residual network keeps its channel and size bookkeeping',
  'For every choice of increasing layer channels, blocks per layer, particle sizes (large enough to hold the strided ones of the layer before) and stride, after layer i the data carries exactly layer_channels[i] channels and the image size divided (rounding down) by the stride once per earlier layer; the output has one row per image and one column per class. The result depends on every block: the class scores come from the data after the last shooting block.',
  ['configurations', 'inputs'], 'all layer configurations', 'tests use one two-layer configuration', ['res_net.py', 'striding_block.py', 'shooting_blocks.py'],
  [('_create_shooting_layers / forward', 'res_net.py')])

p('C19', 'Hooks see every evaluation, in order, and change nothing',
  'Every registered gradient hook is called exactly once per evaluation of the right-hand side, in registration order, with the time, the current states, costates and data, their derivatives as returned to the solver, the parameters in use and the latest custom data; a removed hook is never called again. Results and gradients are the same with and without hooks. The supplied recording hook appends exactly one entry per evaluation to every series it keeps.',
  ['histories', 'configurations'], 'every sequence of registering, removing, setting custom data and evaluating', 'tests register no hook or only look at its plot',
  ['shooting_integrands.py', 'shooting_hooks.py'], [('register_lagrangian_gradient_hook / compute_gradients', 'shooting_integrands.py'), ('parameter_evolution_hook', 'shooting_hooks.py')])

p('C20', 'Parameter-free layers apply exactly the parameters in their dictionary',
  'A layer of the shooting models (linear, damped linear, 2-D convolution, group normalisation) has no trainable parameters of its own; its output is the standard layer\'s output for the tensors currently in its parameter dictionary, so replacing an entry changes the output accordingly and gradients flow to the entry. Weights given for the whole layer or for single entries are the ones reported, an unknown entry name is refused, and type conversion converts the entries.',
  ['inputs', 'configurations', 'histories'], 'all layer shapes and options, all sequences of replacements, weightings and conversions', 'tests only instantiate layers',
  ['overwrite_classes.py'], [('RemoveParameters and the SNN_* forward methods', 'overwrite_classes.py')])

p('C21', 'Initialisers create what is asked for',
  'Every initialiser creates trainable tensors of exactly the requested shape (particles x dimension x size, like a given tensor, or of a given size): zero when zero is requested, the constant when a constant is requested, otherwise noise of the configured magnitude (around the sample batch if one is used), each call drawing fresh independent noise that is reproducible from the random seed. Zero and constant together, and malformed particle sizes, are refused.',
  ['inputs', 'configurations'], 'all shapes, magnitudes and modes', 'tests call one initialiser', ['parameter_initialization.py'], [('create_parameters*', 'parameter_initialization.py')])

p('C22', 'Freezing and parameter counts are exact',
  'Freezing makes exactly the named parameters non-trainable and unfreezing makes exactly the named ones trainable, whatever was frozen before; the values do not change, and unknown names are refused. The reported counts of fixed, optimised and all parameters are the numbers of scalar entries that are currently non-trainable, trainable, and their sum.',
  ['histories', 'configurations'], 'every sequence of freeze, unfreeze and count calls', 'tests count once', ['utils.py'], [('freeze_parameters / unfreeze_parameters / compute_number_of_parameters', 'utils.py')])

p('C23', 'The plateau scheduler follows its documented rule',
  'For every sequence of metric values the scheduler reduces the learning rate of each group by the factor (never below its minimum) exactly when more than `patience` consecutive non-improving values outside the cooldown have been seen, improvement being judged against the best value since the last effective reduction by the configured mode and threshold. A reduction of more than eps restarts the search for the best value and the cooldown; when the rate of a group can no longer be reduced it reports convergence from then on, and never before. Saving and restoring its state continues identically.',
  ['histories', 'configurations'], 'every metric sequence and every configuration', 'no test imports it', ['custom_lr_scheduler.py'], [('step / _reduce_lr', 'custom_lr_scheduler.py')],
  state=[{'name': 'best, num_bad_epochs, cooldown_counter, convergence_reached', 'meaning': 'plateau state', 'where': 'CustomReduceLROnPlateau'}])

p('C24', 'A parameter sweep is exactly the cartesian product, every time',
  'Sweeping a table of parameter values yields every combination exactly once, each with all keys in table order, the first key varying slowest; the table is not modified, the combinations are independent objects, and the result does not depend on earlier sweeps.',
  ['inputs', 'histories'], 'all tables and all sequences of sweeps in one process', 'no test sweeps', ['command_line_execution_tools.py'], [('recursively_sweep_parameters', 'command_line_execution_tools.py')])

p('C25', 'Experiment sweeps run every missing combination exactly once',
  'A sweep runs, for every seed of the requested range and every combination, exactly one command, in its own output directory whose name identifies seed, function, model and combination, unless that directory already holds a result file and recomputation is not forced. The command carries the template arguments overridden by the combination (true flags as bare options, false flags omitted), the output directory and the seed; it is executed with the requested interpreter, sees the requested GPU only, and what it prints is kept in a log in that directory; template and table are not changed. This holds for repeated sweeps, after failed runs and after a sweep was killed.',
  ['inputs', 'histories', 'configurations'], 'all tables, seed ranges and pre-existing results, all sequences of sweeps', 'no test runs it', ['experiment_utils.py', 'command_line_execution_tools.py'],
  [('sweep_parameters / merge_args', 'experiment_utils.py'), ('_make_arg_list', 'command_line_execution_tools.py')])

p('C26', 'Recorded norms and complexity measures are the true ones',
  'The norms recorded for the parameters are the squared Frobenius, nuclear and spectral norms of every non-bias matrix, and their sums over all of them; the complexity measures are the time integrals of the base-2 logarithm of the trapezoid-averaged sums, with time steps that go backwards counting as zero.',
  ['inputs', 'histories'], 'all parameter matrices and recorded time series', 'tests never look at them', ['shooting_hooks.py', 'validation_measures.py'],
  [('compute_parameter_norms', 'shooting_hooks.py'), ('compute_complexity_measures', 'validation_measures.py')])

p('C27', 'Text produced for shells, configurations and LaTeX is escaped exactly',
  'Escaping text for LaTeX replaces each special character by its escape and nothing else, position by position. Argument lists, key=value strings and combined configuration strings contain every given item exactly once and in order, with semicolons between items (and inside added items) escaped. An executed command receives exactly its arguments; output of a called script is shown without its comment lines; log names identify directory, stage and process.',
  ['inputs'], 'all strings and dictionaries', 'no test calls these', ['figure_utils.py', 'command_line_execution_tools.py'],
  [('escape_latex_special_characters', 'figure_utils.py'), ('create_kv_string / add_to_config_string / _make_arg_list / execute_command / call_python_script / get_stage_log_filename', 'command_line_execution_tools.py')])

p('C28', 'Gradients are the true derivatives of what a block returns',
  'The gradients autograd delivers for the outputs of a block (data, states and costates at every requested time) and for its norm penalty, with respect to every trainable parameter and to the input data, are the derivatives of the forward pass, for every model, nonlinearity, mode (particles, analytic equations, frozen, particle-free, time-dependent), weight and number of particles. This holds for direct and checkpointed integration exactly and for adjoint integration up to solver accuracy, through chains with pass-through, enlargement and striding, and through the residual network, in the first and in every later pass.',
  ['inputs', 'histories'], 'all parameter and data values, all models and modes', 'existing tests compare the two gradient implementations of the right-hand side, never the gradient of the result', ['shooting_integrands.py', 'shooting_blocks.py', 'shooting_models.py', 'generic_integrator.py', 'res_net.py'],
  [('compute_gradients / compute_parameters / compute_gradients_autodiff', 'shooting_integrands.py'), ('forward', 'shooting_blocks.py'), ('integrate', 'generic_integrator.py')])

p('C29', 'Seeding makes everything random repeatable',
  'After setting a seed, everything drawn from then on (Python, numpy and torch numbers, initial particles, layers, enlargement parameters, whole blocks and networks, and the course of their training) is determined by the seed and by what was drawn since, whatever was drawn before and in whatever process; other seeds give other values, and repeated draws under one seed give fresh ones. The seed -1 leaves the generators as they are.',
  ['histories'], 'all seeds and orders of draws', 'no test seeds twice and compares', ['utils.py', 'parameter_initialization.py', 'shooting_blocks.py', 'shooting_models.py', 'res_net.py'],
  [('setup_random_seed', 'utils.py'), ('create_random_parameters / create_random_parameters_like', 'parameter_initialization.py')])

p('C30', 'Copied, saved and reloaded models are the same model, and independent',
  'A block, chain or residual network that is deep-copied, pickled or saved and loaded, at any time before or after forward passes and training, has the same trainable parameters under the same names, the same integration times and the same results, penalty and gradients as the original had at that moment, and continues training identically; afterwards neither is affected by what happens to the other. Loading a state dictionary into a model of the same construction that has made its first pass gives the results of the model it came from.',
  ['histories'], 'all histories of copying, saving, loading, training and passes', 'no test copies or saves a model', ['shooting_blocks.py', 'shooting_integrands.py', 'shooting_models.py', 'overwrite_classes.py', 'generic_integrator.py'],
  [('__getstate__', 'shooting_integrands.py'), ('named_parameters / register parameters', 'shooting_blocks.py')])

p('C31', 'The flow conserves its energy and respects its symmetries',
  'Along an undamped flow with particles, the weighted squared norm of the parameters is the same at all times, and starting from where a pass ended with the signs of all costates reversed leads back to where it began. The result of a forward pass depends on the particles as a set: reordering them reorders their final states, and using every particle several times changes nothing else. Multiplying all costates by a factor and dividing time and step by it, multiplying all regularisation weights and the time by a factor, starting at another time, permuting the features of a state (with signs for odd nonlinearities) and mirroring pictures transform the result in the same way. This holds for all models, nonlinearities, modes and numbers of particles.',
  ['inputs', 'configurations'], 'all particle systems, weights, times and transformations', 'no test compares a pass with a transformed one or looks at the energy', ['shooting_integrands.py', 'shooting_models.py', 'shooting_blocks.py', 'generic_integrator.py'],
  [('compute_gradients / compute_parameters', 'shooting_integrands.py'), ('forward', 'shooting_blocks.py'), ('integrate', 'generic_integrator.py')])

p('C32', 'Data loaders hand out every sample of the right split',
  'For every supported data set the three loaders behave as documented by their names: the training loader hands out the training split in full batches of the training batch size, in an order drawn anew in every pass and no sample twice in a pass; the evaluation and test loaders hand out the training and the test split in their own order in full batches of the test batch size, the same in every pass; only an incomplete rest is left out. Every picture comes with its own label, whole, at the size of the data set and scaled to the unit interval. With augmentation only the training pictures are moved, randomly and by at most four pixels; evaluation pictures never are. The number of classes is that of the data set, other data sets are refused, and iterators over the same loaders do not disturb each other.',
  ['histories', 'configurations'], 'all data sets, batch sizes, augmentation settings and interleavings of iterators', 'no test uses the loaders', ['data_loaders.py'],
  [('get_data_loaders', 'data_loaders.py')])

p('C33', 'Figures show what was recorded, and leave plotting as it was',
  'Drawing the recorded course of a pass gives one figure for the energy and for each recorded quantity that is not a derivative, with the recorded values over the recorded times, whatever the block is called; drawing a state shows trajectories, positions and momenta as they are (higher-order states with more than two components in a projection onto a plane that keeps their distances as far as possible); drawing an evolution gives one figure per time, with the particles of that time and the data up to it, in order, on screen at most the given number. Figures are shown, saved, both or neither as asked for, saved ones in all formats under names that tell them apart. After a call the plotting settings and the backend are the ones of before, saving leaves no figure open, and the recorded data are untouched. This holds for all models.',
  ['histories', 'inputs'], 'all recorded passes, block names, models and sequences of calls', 'no test draws a figure', ['vector_visualization.py', 'figure_settings.py', 'figure_utils.py'],
  [('plot_temporal_data / basic_visualize / visualize_time_evolution / plot_higher_order_state', 'vector_visualization.py'), ('setup_pgf_plotting / reset_pgf_plotting', 'figure_settings.py'), ('save_all_formats', 'figure_utils.py')])

p('C34', 'Demonstrations cut, sample and predict their data faithfully',
  'Cutting a time line into pieces covers every time, in order, each piece starting with the last time of the one before, for every length for which that is possible (others are refused). A prediction made piecewise starts every piece where the last one ended and returns one value for every requested time and the penalty of the first piece. Training windows are consecutive stretches of the trajectory beginning at their start value, sampled in proportion to the distance covered when asked for; training samples are drawn anew while evaluation samples stay the same. The loss is the weighted mean distance in the chosen norm plus the weighted penalty. Function data are the values of the function at points of the given range. Masked autoencoders keep the asked number of times, in order and without the one held out, and decode one picture per time. Ring data have the stated radii and labels, and samples of them are balanced.',
  ['inputs', 'configurations'], 'all numbers of times, lengths of pieces, windows, batches and masks', 'no test runs the demonstrations', ['../demos/neurips20/spiral.py', '../demos/neurips20/autoencoder.py', '../demos/neurips20/simple_functional_mapping_example.py', '../demos/neurips20/utils.py'],
  [('get_time_chunks / compute_validation_data / get_batch / create_uniform_distance_selection_array / get_function_data_loaders / compute_loss', '../demos/neurips20/spiral.py'), ('ShootingAE / ShootingAEMasked', '../demos/neurips20/autoencoder.py'), ('FunctionDataset / get_function_data_loaders', '../demos/neurips20/simple_functional_mapping_example.py'), ('ConcentricSphere / sample / dataset_to_numpy', '../demos/neurips20/utils.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        fh.write(json.dumps(x) + '\n')
print(len(P), 'properties')

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
MU='lom/_numba/matrix_updates_numba.py';LU='lom/_numba/lambda_updates_numba.py';LO='lom/_numba/lom_outputs.py';LF='lom/_numba/lom_outputs_fuzzy.py'
PS='lom/_numba/posterior_score_fcts.py';MM='lom/_numba/max_machine_sampler.py';AX='lom/auxiliary_functions.py';EX='lom/experiments.py';MA='lom/machine.py'
MW='lom/matrix_update_wrappers.py';LW='lom/lambda_update_wrappers.py'
p('C01','Logical products follow their operators\' truth tables',
 "For every pair of outer and inner operators out of AND, NAND, OR, NOR, XOR, NXOR (XOR meaning 'exactly one is true'), the product of two or three factor matrices over {-1,1} is, in every cell, the outer operator over latent dimensions of the inner operator over the factors, returned in {-1,1}. The fast product, the general product, the scalar product functions and the plain Boolean tensor product all agree with that, for any number of rows and any latent dimension, and none of them changes its inputs.",
 ['inputs','configurations'],'all 36 operator pairs, 2 and 3 factors, any factor values in {-1,1}, any (unequal) row counts >=1, any latent size >=1 including large ones',
 'test_all_scalar_output draws ten random L=3 vectors per model in 2D only; 3D kernels, large L, degenerate shapes and the general fallback are never compared with a truth table.',
 [LO,LU,AX],[('scalar products','%s: *_product, *_product_3d'%LO),('matrix/tensor loops','%s: make_output_function_2d/3d'%LU),('general product','%s: lom_generate_data, lom_generate_data_fast, get_lop, boolean_tensor_product, generate_orm_product'%AX)],
 ['aux.lom_generate_data','aux.lom_generate_data_fast','aux.boolean_tensor_product','lambda_updates_numba.get_scalar_output_function_2d/3d'])
p('C02','Probabilistic products are exact expectations of the logical ones',
 "When factor entries are probabilities in [0,1] of being on, independently, the fuzzy product of two or three factors under each of the eight implemented models is exactly the probability that the logical product is on. It therefore lies in [0,1], coincides with the logical product when all probabilities are 0 or 1, and the fast, general and scalar fuzzy computations agree.",
 ['inputs','configurations'],'the eight implemented models (and all 36 operator pairs for the general fuzzy product), 2 and 3 factors, any probabilities in [0,1] including 0 and 1, any shapes and latent size',
 'test_all_scalar_output_fuzzy compares two formulas of the library with each other on three random 2D vectors of length 3; 3D fuzzy products have no test at all.',
 [LF,LU,AX],[('fuzzy scalar products','%s: *_product_fuzzy, *_product_fuzzy_3d, p_XOR_fuzzy_3d'%LF),('fuzzy dispatch','%s: lom_generate_data_fast(fuzzy=True), lom_generate_data_fuzzy, get_fuzzy_lop'%AX),('loops','%s: make_output_function_2d_fuzzy/3d_fuzzy'%LU)],
 ['aux.lom_generate_data_fast(fuzzy=True)','aux.lom_generate_data_fuzzy','lambda_updates_numba.get_scalar_output_function_2d/3d(fuzzy=True)'])
p('C03','Factor entries are flipped according to the exact posterior odds',
 "In a single-layer machine with any of the eight logical models, for 2D or 3D data, an update of one factor entry given everything else flips it with probability min(1, posterior odds of the flipped against the current value), where the log-odds are the layer's dispersion times the difference in agreement between data and product plus the log-odds of the factor's Bernoulli prior. Unobserved (0) data contribute nothing, the factor's current prior and dispersion are the ones used, and this holds for every factor of the layer, whichever data axis it belongs to.",
 ['inputs','configurations','histories'],'all eight models x 2D/3D x every factor axis x any data in {-1,0,1} x any factor state x any Bernoulli prior x any dispersion x position of the entry, on first and on repeated inference',
 'The matrix-update tests check one 2x2 OR-AND matrix, a no-change case and a some-change case; the machine tests start at the ground truth of noise-free data and only ask for >98% accuracy, so wrong odds, priors or axes survive.',
 [PS,MU,MW],[('score functions','%s: posterior_score_*'%PS),('flip rule','%s: flip_metropolised_gibbs_numba, make_sampling_fct_onechild'%MU),('argument order, transposition, prior','%s: get_sampling_fct'%MW)],
 ['trace of a factor after Machine.infer(burn_in_max=0, no_samples=k)','factor.val after infer'],
 [dict(name='bernoulli_prior',meaning='prior probability that an entry is on',where=MA),dict(name='lbda',meaning='dispersion (log-odds of agreement)',where=MA)])
p('C04','Sweeps of inference leave the exact posterior invariant',
 "With dispersions held fixed, a complete sweep of inference over all entries of all free matrices of a machine maps the exact joint posterior distribution of those matrices (logical likelihood with missing data, times Bernoulli priors; MAX-AND with flat priors; the counting model with its thresholds and their Poisson prior) to itself. Consequently states drawn from the posterior remain distributed as the posterior after any number of sweeps, for logical models, MAX-AND, the counting model and two-layer hierarchies, 2D and 3D.",
 ['inputs','configurations','histories'],'small machines of every model, any data, priors, partially fixed factors, any number of sweeps and any random update order',
 'No test looks at the distribution of samples; only reconstruction accuracy of the posterior mean is asserted.',
 [MA,MU,MW,MM],[('sweep','%s: Machine.infer, Machine.burn_in'%MA),('within-row sequential updates','%s: make_sampling_fct_*'%MU),('MAX-AND sweep','%s: draw_MAX_AND_2D'%MM)],
 ['factor values after Machine.infer started from an exact posterior draw'])
p('C05','Matrices inside a hierarchy combine child and parent evidence',
 "A matrix that is itself the output of one or two parent layers (one, if it is a factor of a 3D layer) is updated with log-odds equal to its own layer's data term (if it has a child) plus, for each parent layer, that parent's dispersion times that parent's own logical product at the entry, plus the prior log-odds. Each parent contributes with its own model, factors and dispersion; a non-fixed matrix without a child is sampled from parents and prior alone; parents attached after an earlier inference count from then on; more parents than supported are rejected, never ignored.",
 ['inputs','configurations','histories'],'all pairs of models for child layer and parent layers, 0/1 children, 1/2 parents, 2D (and 3D child with one parent), any factor states, dispersions, priors, fixed entries; layers added before or after a first inference',
 'No test builds a machine with more than one layer or samples a non-fixed data matrix.',
 [MU,MW,MA],[('kernels','%s: make_sampling_fct_onechild_oneparent, _nochild_oneparent, _nochild_twoparents, _onechild_twoparents, get_parent_score_fct'%MU),('dispatch','%s: get_sampling_fct, get_relatives_models'%MW),('family bookkeeping','%s: MachineLayer.__init__, Machine.members'%MA)],
 ['values/traces of the middle matrix after Machine.infer'])
p('C06','The dispersion is the posterior-mean accuracy on observed data',
 "After every dispersion update of a logical-model layer (any of the eight models, 2D or 3D), the layer's dispersion equals max(0, logit((P+a)/(n+a+b))), where n counts the observed (non-zero) data entries, P counts those equal to the logical product of the current factors and (a,b) is the layer's beta prior. It is finite and non-negative for any data, including fully missing and perfectly reconstructed data, and each layer of a hierarchy uses its own child and factors.",
 ['inputs','configurations'],'all models, 2D/3D, any factors and data in {-1,0,1}, any beta prior with positive parameters, any layer of a hierarchy',
 'One test checks OR-AND with perfect 2D reconstruction and the default prior.',
 [LU,LW],[('counters','%s: make_correct_predictions_counter'%LU),('update','%s: make_lbda_update_fct'%LU),('dispatch','%s: get_update_fct'%LW)],
 ['layer.lbda.val / layer.lbda.trace after Machine.infer'])
p('C07','MAX-AND follows its max-probability noise model',
 "In a MAX-AND layer a cell is on with probability equal to the largest dispersion among latent dimensions active in both factors, or the clamped last dispersion when none is; every entry update uses exactly these log-odds with the dispersions in force, whatever their order. The dispersion update assigns, greedily by remaining predictive rate with Laplace smoothing, (true positives+1)/(predictions+2) over observed data not yet explained, the last dispersion never exceeding any other; reported outputs are these probabilities, always within [0,1], and factor means give their expectation.",
 ['inputs','configurations','histories'],'any factors, data in {-1,0,1}, dispersion vectors in any order including ties, user-set dispersions, output techniques',
 'test_maxmachine runs one dataset with non-overlapping codes from the ground truth and asks for 80% accuracy; order, overlap and ties never matter there.',
 [MM,LO,LF,MA],[('scores','%s: posterior_score_MAX_AND_2D, draw_MAX_AND_2D, compute_lbda_ratios'%MM),('dispersion','%s: lbda_MAX_AND'%MM),('outputs','%s: MAX_AND_product_2d; %s: MAX_AND_product_fuzzy'%(LO,LF))],
 ['factor and lbda values/traces after Machine.infer','layer.output'])
p('C08','What is fixed never changes, and the caller\'s data is not modified',
 "Throughout burn-in, annealing, sampling and repeated inference, matrices flagged as fixed, entries marked in a factor's fixed-entries mask and dispersions flagged as fixed keep exactly the values they had, in every model (eight logical models, MAX-AND, qL-AND), dimensionality and place in a hierarchy, while free neighbours are still updated. Arrays passed in as fixed data are never modified, also when the model calls for inverted data.",
 ['inputs','configurations','histories'],'any mask pattern, any combination of fixed matrices/entries/dispersions, all models incl. hierarchies, any sequence of inference calls, latent-dimension resetting or removal in between',
 'Tests fix only the data matrix and never use fixed entries or compare the data afterwards.',
 [MU,MW,MM,MA,AX],[('mask checks','%s: Z_fixed tests in every sampling function; %s'%(MU,MM)),('selection of free members','%s: Machine.infer'%MA),('inversion','%s: canonise_model'%AX),('clean-up','%s: remove_dimension, reset_dimension'%AX)],
 ['matrix values, traces and caller arrays before/after every API call'])
p('C09','Missing entries carry no information',
 "A data entry of 0 has no influence: updates of factors and dispersions for data containing missing entries are the same as if those entries did not exist, so adding entirely missing rows, columns or slices leaves the law of all other quantities unchanged. A latent row seen only through missing data is drawn from its prior (and parents) alone, in every model and dimensionality.",
 ['inputs','configurations'],'any pattern of zeros, from none to everything, eight logical models, MAX-AND and qL-AND, 2D and 3D',
 'No test has missing data.',
 [PS,LU,MM,MU],[('scores multiply by the data value','%s'%PS),('effective count','%s: make_lbda_update_fct'%LU),('MAX-AND counts','%s: lbda_MAX_AND, posterior_score_MAX_AND_2D'%MM)],
 ['factor and lbda values after infer on padded/unpadded data pairs'])
p('C10','Every operator pair is fitted as an equivalent canonical model',
 "Adding a layer with any of the 36 outer-inner operator pairs yields one of the eight implemented models plus two indications (data inverted, factors inverted) such that, for all factor values and 2 or 3 factors, the requested product equals the implemented one after applying exactly those inversions. The layer's data is negated exactly when the data indication is set (missing entries stay missing), special models are kept as they are, and an unknown model is rejected with an error rather than fitted as something else.",
 ['inputs','configurations'],'all 36 pairs and the special models, data given as a matrix or only as a shape, any factor values, 2 and 3 factors, data in {-1,0,1}',
 'The machine tests iterate over the eight implemented models only, where canonisation is the identity.',
 [AX,MA],[('translation','%s: canonise_model, replace_equivalent_model, canonical_loms, implemented_loms'%AX),('use','%s: Machine.add_layer'%MA)],
 ['layer.model, layer.invert_data, layer.invert_factors, layer.child() after add_layer'])
p('C11','Inference runs exactly the promised schedule',
 "One inference performs at least the requested minimum and at most the maximum of burn-in sweeps (the minimum wins if larger), then exactly the requested number of sampling sweeps; every sweep updates each free matrix exactly once, in random order, and afterwards each free dispersion once. Burn-in ends early only at the end of a complete convergence window (of at least two sweeps), counted after the minimum phase, in which for every free dispersion the means of the first and second half of the recorded values differ by less than the tolerance on the probability scale, and it does end at the first such window. During the minimum phase dispersions stay put for the requested initial iterations or, when annealing, rise linearly from zero to exactly their target value.",
 ['histories','configurations','schedules'],'any settings of window, tolerance, minimum, maximum, frozen iterations, number of samples, annealing; any trajectories of the dispersions; several layers; repeated inference',
 'Tests call infer with a few settings and look only at final accuracy; number and order of updates, stopping and annealing are never observed.',
 [MA,AX],[('schedule','%s: Machine.infer, Machine.burn_in'%MA),('convergence','%s: Trace.check_convergence; %s: check_convergence_single_trace'%(MA,AX))],
 ['sequence of calls to the matrices\' and dispersions\' assigned update functions'])
p('C12','Traces are the faithful record of the states visited while sampling',
 "After an inference with n samples, the trace of every free matrix and dispersion holds exactly n entries and entry t is bit-for-bit (dispersions: to single precision) the state after sampling sweep t, so the last entry is the current state. Factor states and traces contain only -1 and 1 with unchanged shape and integer type, means are the averages over the trace, set-to-MAP takes the sign of the mean, and a further inference replaces the traces completely.",
 ['histories','configurations'],'all models, 2D/3D, hierarchies, any number of samples, repeated inference with different numbers of samples',
 'No test reads a trace.',
 [MA],[('allocation and recording','%s: Trace.allocate_trace_arrays, update_trace, mean; Machine.infer'%MA),('MAP','%s: MachineMatrix.set_to_map'%MA)],
 ['trace arrays vs. states recorded at the boundary of every update'])
p('C13','Outputs summarise the posterior samples as documented',
 "For every supported model, the layer output is a matrix of probabilities in [0,1] with the data's shape: for a point estimate the logical product of the current factors, for factor-MAP that of the thresholded trace means, for factor-mean (both implementations of it) the probabilistic product of the trace means, for MC the average over samples of the per-sample products; noisy emission mixes it with the mean accuracy of the dispersion (MAX-AND reports its model's cell probabilities, which include the noise, in place of the product; qL-AND the prediction of its current state), and without mapping to probabilities it is rescaled to [-1,1]. Fixed factors and fixed dispersions take part with their constant values, lazily requested output is the previously computed one, an unknown technique is refused, and computing or refusing an output changes no state, trace or model.",
 ['inputs','configurations','histories'],'eight logical models 2D/3D, MAX-AND, qL-AND, IBP, hierarchies, every technique and flag combination, before and after inference, with free or fixed factors and dispersions',
 'Tests threshold factor_mean/factor_map at .5 right after inference from the truth; values, other techniques, flags and purity are not checked.',
 [MA,AX,LO,LF],[('output','%s: MachineLayer.output'%MA),('products','%s: lom_generate_data_fast'%AX)],
 ['return value of layer.output against traces'])
p('C14','Inference is reproducible and machines do not interfere',
 "Given the same seed of numpy's global generator, the same inputs and the same settings, building a machine and running inference produces identical states, traces and outputs, in the same or a fresh process, whatever other machines were built or run before and whatever memory contents happen to be. Nothing read during inference is uninitialised memory, and runs with different seeds are different runs, however long.",
 ['histories','configurations','schedules'],'all models and options, any earlier activity in the process, any contents of freshly allocated memory',
 'Tests seed at most once and never compare two runs.',
 [MA,MU,MW,LU,AX],[('only numpy global RNG','%s, %s'%(MU,MA)),('trace allocation','%s: Trace.allocate_trace_arrays (np.empty) and burn_in convergence window'%MA),('per-machine closures','%s: get_sampling_fct'%MW)],
 ['full state/trace/output digest of two runs under poisoned fresh memory'])
p('C15','Cleaning latent dimensions keeps the layer consistent',
 "Removing useless latent dimensions leaves all factors of the layer, their fixed-entry masks and (MAX-AND) the dispersions with the same remaining dimensions, in original order and with unchanged contents, and in a hierarchy take exactly the corresponding rows from the factors of the layers above, whose other contents stay; afterwards no dimension is switched off in a whole factor and no two dimensions share an identical column in a factor, only such dimensions were removed, and the return value tells whether anything was done. Resetting switches such dimensions off without touching fixed entries, and inference with automatic cleaning or resetting continues and finishes with consistent shapes and traces; sampling never starts with such dimensions left, in any layer of the machine for which this was asked, when burn-in converged or automatic resetting was on.",
 ['inputs','histories','configurations'],'any pattern of inactive/duplicate (also adjacent) dimensions, any mask, 2D/3D logical models and MAX-AND, direct calls and automatic cleaning inside inference',
 'No test uses clean-up.',
 [AX,MA],[('clean-up','%s: clean_up_codes, remove_dimension, reset_dimension'%AX),('call site','%s: Machine.burn_in'%MA)],
 ['factors, fixed_entries, lbda before/after aux.clean_up_codes; infer with auto_clean/auto_reset'])
p('C16','Synthetic data, noise and hold-out splits do only what they say',
 "Noise functions return a copy in which every (eligible) entry is flipped independently with the stated probability, missing entries stay missing and a given seed determines the result; hold-out splits return a copy equal to the data except that the held-out, previously observed entries are 0, together with exactly that mask (balanced splits hold out equally many of each sign). Random tensors are the Boolean product of the returned factors, whose expected density is the requested one, plus noise, random Boolean products have fair factors in which no column contains another, and none of these functions changes its input; the area under the curve is computed on exactly the held-out entries that were observed in the first place.",
 ['inputs','configurations'],'any shapes, densities, missingness, probabilities including 0 and 1, seeds, split fractions',
 'The splitting function is called once without looking at its result (and fails to run here); noise is only used to make data.',
 [AX,EX],[('noise','%s: add_bernoulli_noise, add_bernoulli_noise_2d, add_bernoulli_noise_2d_biased'%AX),('splits','%s: split_train_test, split_tensor_train_test_old; %s: split_test_train, get_roc_auc'%(EX,AX)),('generator','%s: generate_random_tensor'%EX)],
 ['return values and inputs of these functions'])
p('C17','Expected densities are exact',
 "For each of the 36 operator pairs, any latent dimension, any number of factors and any factor density f in [0,1], the expected density function returns exactly the probability that a cell of the product is on when factor entries are independently on with probability f. Where it reports success, inverting it to find the factor density for a wanted data density returns a density in [0,1] attaining it.",
 ['inputs','configurations'],'all 36 operator pairs, L>=1, K>=2 factors, f in [0,1]',
 'test_densities compares one f, L, K on random data within 5% and swallows the failure of the comparison.',
 [AX],[('formula','%s: expected_density, get_lom_class'%AX),('inverse','%s: factor_density'%AX)],
 ['aux.expected_density, aux.factor_density'])
p('C18','The counting model (qL-AND) follows its threshold noise model',
 "In a qL-AND layer a cell of column d is predicted on when at least q_d latent dimensions are active in both factors; entries of both factors flip with the posterior odds of that likelihood under the current dispersion, each column threshold is redrawn from its conditional given the observed data and its Poisson prior over the supported thresholds 1 to 5, and the dispersion is the posterior-mean accuracy of these predictions on observed data.",
 ['inputs','configurations'],'any factors, thresholds, data in {-1,0,1}, dispersion, threshold prior parameter',
 'No test touches this model.',
 [MU,LU,LO,MW],[('kernels','%s: sample_qL_q, posterior_score_fct_qL_Z/U, sample_qL_factors_Z/U'%MU),('counter','%s: make_correct_predictions_counter, make_lbda_update_fct'%LU),('product','%s: qL_AND_product'%LO)],
 ['factor, threshold and lbda values after Machine.infer'])
p('C19','Growing-dimension (IBP) inference keeps the machine consistent',
 "With the OR-AND-IBP model inference runs to completion for any data, and after every sweep both factors have the same number of latent columns and contain only -1 and 1; every latent column is used by at least one row right after the row factor was updated, each row's entries in columns used by m of the other N-1 rows are redrawn with the odds of the OR-AND likelihood times m/(N-m), entries of the second factor in new columns with the likelihood odds, a row that no shared column explains opens zero, one or two new columns with Poisson(alpha/N) prior weights times the likelihood of its cells with the new columns' entries averaged over fair coins, and traces record each state with absent columns marked as off. The output has the data's shape, lies in [0,1] and reproduces the OR-AND product of the current factors for a point estimate.",
 ['inputs','histories','configurations'],'any data, dispersion, concentration, number of sweeps, initial latent size',
 'The only test of this model crashes on the unchanged tree.',
 [MU,MW,MA],[('IBP sweep','%s: sample_2d_IBP'%MU),('hand-over of resized arrays','%s: get_sampling_fct'%MW),('traces','%s: allocate_trace_arrays_IBP, update_trace_IBP'%MA)],
 ['factor shapes/values after every update, traces, layer.output'])
p('C20','Prediction experiments report honest held-out accuracy',
 "The predictive experiment fits only the training data it is given and returns the fraction of held-out entries whose thresholded prediction matches the truth, with the truth inverted exactly when the model inverts its data; its arguments are unchanged so that running it again or for further models on the same split means the same. The tensor experiment accepts data coded 0/1, True/False or -1/1 alike and returns reconstruction, factor means and MAP reconstruction of one and the same fitted layer.",
 ['inputs','configurations','histories'],'all 36 operator pairs, data with any pattern of held-out and missing entries, 2D and 3D, any coding, with and without annealing',
 'No test calls the experiment functions.',
 [EX,AX,MA],[('prediction','%s: LOM_predictive'%EX),('tensor','%s: tensorm_reconstruct'%EX)],
 ['return values of LOM_predictive, tensorm_reconstruct vs. the layer they fitted'])
p('C21','Equivalences between operator pairs are genuine',
 "Whenever one of the 36 operator pairs is replaced by its equivalent (or by the partner in a caller's own table), both pairs have the same product for all factor values and for two and three factors; implemented models are never replaced and replacing twice changes nothing more. The class and the outer, hidden and inner inversions reported for a pair reproduce that pair exactly when applied to the class's product. The eight listed implemented models together with their complements are sixteen different functions, the second half of each list of families complementing the first half in order, such that each of the 36 pairs equals exactly one of them up to inversion of the factors.",
 ['inputs','configurations'],'all 36 operator pairs, two and three factors, any latent size and factor values, both lists of representatives',
 'No test compares these tables with truth tables; the lists are only iterated over.',
 [AX],[('equivalent pairs','%s: replace_equivalent_model'%AX),('classes and inversions','%s: get_lom_class'%AX),('representatives','%s: canonical_loms, implemented_loms'%AX)],
 ['return values of aux.replace_equivalent_model, get_lom_class, canonical_loms, implemented_loms'])
p('C22','Building a machine wires exactly the described network',
 "After any sequence of added matrices and layers (any operator pair or special model, two- or three-dimensional, several levels, several parents, by value or by shape), each layer has one factor per axis of its child, in order, with as many rows as that axis and the requested number of latent columns, and the lists of layers, members, dispersions, parents and siblings name exactly the objects added, each once and in order. New factors are free, with flat prior, random in {-1,1} with both values equally likely, mutually independent and without fixed entries; stored data equal the given values whatever their numeric type, and nothing else in this or another machine is changed by an addition, apart from the stated inversion of the layer's data. New dispersions are free and valid for their model, and a layer given neither data nor shape is rejected.",
 ['programs','inputs','configurations'],'any sequence of construction calls, all operator pairs and special models, 2D/3D, any shapes and latent sizes, any numeric type of the data, several machines side by side',
 'Tests build four or five fixed shapes of machines and never look at the family structure.',
 [MA],[('construction','%s: Machine.add_layer, Machine.add_matrix, MachineLayer, MachineMatrix'%MA),('family','%s: members, lbdas, siblings, parents'%MA)],
 ['attributes of Machine, MachineLayer, MachineMatrix and MachineParameter after every construction call'])
p('C23','Parts of a machine combine and affect each other only through the model',
 "Any machine assembled from supported parts (layers side by side or stacked, one or two parents, 2D and 3D, logical models mixed with MAX-AND, counting and growing models, free or fixed members, priors, masks, annealing, automatic cleaning or resetting) can be fitted repeatedly with any settings without error, leaving every matrix in {-1,1} with shapes that fit its relatives, dispersions valid for their model and equal to those of the current state, traces that end in the current state, and outputs that are probabilities with the data's shape. An update changes only the member it is for (in a growing model both factors), and its outcome depends only on that member, the other members and data of its layer, the dispersions and factors of its parent layers and its own prior and fixed entries, not on anything else in the machine. Combinations without an implementation (special layers above other members, layers above members of special layers, three parents, free or doubly parented tensors, lone matrices) are refused with an error before any state is changed",
 ['programs','inputs','configurations','histories'],'any assembly of supported layers in one machine, any settings, repeated inference; any replacement of the members outside the Markov blanket',
 'Tests fit one layer, or a fixed two-layer stack, per machine and look only at accuracy.',
 [MA,MW,MU,LU,AX],[('combination','%s: Machine.infer, burn_in, members'%MA),('relatives','%s: get_sampling_fct, get_relatives_models'%MW)],
 ['all members before and after every call of their assigned update functions, layer.output'])
p('C24','What is drawn and reported is what was inferred',
 "show() of a matrix draws, upright and on a fixed scale from 0 (light) to 1 (dark), the posterior probabilities of its entries ('mean'), their most probable values ('map', on exactly where the probability exceeds one half) or the current state mapped to 0 and 1 ('state'), and plot_matrix draws probabilities unchanged and matrices over -1..1 mapped to probabilities; other techniques are refused, and drawing changes nothing. During inference every print_step-th iteration of each phase (before convergence is checked, while it is checked, sampling) is reported with its true number and the values the free dispersions have at that time (probability of agreement to three digits, for MAX-AND each dispersion in percent), the recorded number of burn-in iterations counts all of them, and the outcome reported for burn-in (converged or not) is the true one",
 ['inputs','histories','configurations'],'any machine of supported layers before and after any inference, any matrix of probabilities, any print step and schedule',
 'No test looks at figures or printed output.',
 [MA,AX],[('drawing','%s: MachineMatrix.show'%MA),('plotting','%s: plot_matrix, plot_matrix_ax'%AX),('reports','%s: Machine.burn_in, Machine.infer, MachineParameter.print_value'%MA)],
 ['the images handed to the drawing library, everything printed during Machine.infer, Machine.burn_in_iters, Trace.trace, MachineMatrix.val'])
p('C25','Interrupted and copied machines carry on like new ones',
 "When an inference is interrupted by an exception at any point (a keyboard interrupt or error between or inside updates), the exception reaches the caller and the machine stays valid: matrices over their legal values with shapes that fit their relatives, fixed members and flags as they were. A further inference of an interrupted, finished or deep-copied machine runs exactly as that of a newly built machine with the same structure, settings and state and the same random numbers (same states, traces, means and outputs), and a deep copy and its original never influence each other",
 ['crash_points','fault_sequences','histories','configurations'],'any assembly of supported layers, any point of interruption (outside the removal of latent dimensions and the hand-over of resized arrays), any further inference',
 'Tests run one uninterrupted inference per machine.',
 [MA,MW],[('reset of state','%s: Machine.infer'%MA),('traces','%s: allocate_trace_arrays, update_trace'%MA),('assigned updates','%s: get_sampling_fct'%MW)],
 ['all members, traces, means and outputs after an interrupted and a continued inference; copies made by copy.deepcopy'])
p('C26','Numerical and tabular helpers compute what they document',
 "The logistic functions, log-sum-exp and the ratios of consecutive binomial and beta-binomial probabilities (log P(k+1)/P(k), minus infinity where more successes are impossible, padded to the requested length) equal their definitions for all, also extreme, arguments. The MAX-AND forward pass gives every cell the largest dispersion among the dimensions active in both factors, or the last dispersion if there is none; recoding 0/1 or True/False arrays yields the corresponding {-1,1} array and keeps arrays that already contain -1; random matrices have independent entries, each on with the stated probability. Distinct elements are listed in order of first appearance, centres of label blocks lie in the middle of each block in order, intersecting two data frames restricts both to exactly the shared rows and columns in one common order with all values kept, and none of these functions changes its arguments",
 ['inputs'],'any arguments in the domain of the functions (probabilities in (0,1), positive beta parameters, label lists made of contiguous blocks)',
 'None of these helpers is tested, though outputs, reports and experiments are built on them.',
 [AX,'lom/_numba/max_machine_sampler.py'],[('logistic functions','%s: expit, logit, logsumexp'%AX),('ratios','%s: compute_bp, compute_bbp'%AX),('forward pass','lom/_numba/max_machine_sampler.py: maxmachine_forward_pass'),('coding','%s: check_binary_coding, random_machine_matrix'%AX),('lists and tables','%s: unique_ordered, find_centers_of_ordered_list, intersect_dataframes'%AX)],
 ['return values and arguments of these functions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
print(len(P))

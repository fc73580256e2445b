"""Writes /verif/properties.jsonl (kept as code so that it stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

PRIM = ['src/primitives/%s.py' % n for n in ('bernoulli','beta','categorical','crp','exponential','geometric','lognormal','normal','normal_trunc','poisson','vonmises')]

prop('C01', 'Univariate models: logpdf is the exact normalised predictive',
 'For every collapsed univariate model, any valid hyperparameters and any incorporated data, exp(logpdf) integrates/sums to one over the support and equals the closed-form posterior predictive, and logpdf_score equals the closed-form log marginal likelihood. The chain rule holds: incorporating x changes logpdf_score by exactly the logpdf of x given the data before it. The uncollapsed models (beta, truncated normal) report the density of their current parameters, with logpdf_score being likelihood plus prior.',
 ['inputs','histories'], 'all supported values, hyperparameters, categorical sizes, and any sequence of incorporate calls',
 'The tests score a handful of values for a few fixed hyperparameters; an error in a normaliser or a posterior update is visible only at other values, counts or histories.',
 PRIM + ['src/primitives/distribution.py'],
 [('sufficient statistics, posterior_hypers, calc_predictive_logp, calc_logpdf_marginal','src/primitives/*.py')],
 [('sufficient statistics','data seen by the model','src/primitives/*.py')], ['logpdf','logpdf_score','incorporate'])

prop('C02', 'Univariate models: simulate draws from the density logpdf reports',
 'For every univariate model, any valid hyperparameters and any incorporated data, samples from simulate are distributed according to exp(logpdf) of the same model in the same state, and always lie in the support of the model. Requesting N samples returns exactly N samples, each with exactly the requested variable; requesting no count returns a single sample. A recorded row has its recorded value, with certainty.',
 ['inputs','histories'], 'all hyperparameters, data histories and sample counts',
 'The tests compare simulated samples only with training data for one dataset per type; agreement between the two query methods for arbitrary states is never examined.',
 PRIM, [('simulate per model','src/primitives/*.py'),('simulate_many','src/utils/general.py')], [], ['simulate','logpdf'])

prop('C03', 'Unincorporate undoes incorporate; observation order is irrelevant',
 'For every generative model that records observations (univariate models, column and mixture models, regressions, KDE, nearest neighbours, factor analysis), answers depend only on the set of rows currently recorded: any interleaving of incorporate and unincorporate calls ending in the same rows gives the same logpdf, logpdf_score and statistics as recording just those rows in any order (up to rounding). A row that was removed may be recorded again.',
 ['histories','inputs'], 'all interleavings of incorporate/unincorporate over all row ids and values',
 'Tests incorporate once and remove at most a few rows; a statistic not restored shows only after particular remove/re-add sequences.',
 PRIM + ['src/mixtures/dim.py','src/mixtures/view.py','src/regressions/linreg.py','src/regressions/ols.py','src/regressions/forest.py','src/kde/mvkde.py','src/knn/mvknn.py','src/factor/factor.py'],
 [('incorporate/unincorporate pairs','every cgpm')], [('data, counts, sums','recorded observations and statistics','every cgpm')], ['logpdf','logpdf_score'])

prop('C04', 'Values outside a model\'s support are rejected and have zero density',
 'For every univariate model, a value outside its support (wrong sign, non-integer, out of range category) has logpdf of minus infinity and is refused by incorporate with a ValueError; no value inside the support is refused or given zero density by a model whose density is positive there. A refused value leaves the model exactly as it was.',
 ['inputs','histories'], 'all finite real values, boundary values, integers in float form, at any point of a history',
 'The existing tests try two or three invalid values per type and do not examine the state left behind by the refusal.',
 PRIM, [('range checks in incorporate and logpdf','src/primitives/*.py')], [], ['incorporate','logpdf'])

prop('C05', 'Row and column partitions stay consistent through every history',
 'After any sequence of row, column, cell, type and inference operations, every column belongs to exactly one view and every recorded row to exactly one cluster of each view; cluster and view counts equal the number of members, no empty cluster or view is kept, every cluster component holds exactly the non-missing cells of its members with statistics equal to those recomputed from the data, and the stored data table equals the data the caller supplied.',
 ['histories'], 'all histories of incorporate/unincorporate rows and columns, force_cell, type updates, and transitions of every kernel',
 'The tests inspect the partitions of a few scripted histories; the bookkeeping is spread over five classes that must agree after every move.',
 ['src/crosscat/state.py','src/mixtures/view.py','src/mixtures/dim.py','src/primitives/crp.py'],
 [('incorporate/unincorporate, gibbs moves, _check_partitions','src/crosscat/state.py, src/mixtures/view.py, src/mixtures/dim.py')],
 [('Zv/Nv, Zr/Nk, clusters','assignments, counts and components','State, View, Dim')], ['public state after each operation'])

prop('C06', 'The joint score equals the model\'s joint density from scratch',
 'After any history, logpdf_score of a mixture view and of a crosscat state equals the log density of its data, partitions and concentration parameters recomputed from scratch from the partitions, hyperparameters and data alone (constrained CRP over columns, CRP over rows of each view, marginal likelihood of each cluster of each column).',
 ['histories','inputs'], 'all histories and all states reachable by construction and inference',
 'Tests only call logpdf_score to see that it does not crash or that it grows; no reference value is computed.',
 ['src/crosscat/state.py','src/mixtures/view.py','src/mixtures/dim.py','src/primitives/crp.py','src/utils/general.py'],
 [('logpdf_score at each layer','State, View, Dim, Crp')], [], ['logpdf_score'])

prop('C07', 'Conditional densities from states and views are exact',
 'For a crosscat state or view, logpdf of any targets given any constraints, for a hypothetical or a recorded row, equals the exact value obtained by enumerating the cluster assignment of that row in each view; it therefore satisfies the chain rule and Bayes rule in every order, does not depend on the order in which variables are listed, sums to one over discrete targets, and variables in different views are independent.',
 ['inputs','histories'], 'all partitions, all target/constraint splits, hypothetical and recorded rows with missing cells, all mixes of column types',
 'Tests check the chain rule on a few fixed queries; which partition, row or variable split exposes a wrong weight is not sampled.',
 ['src/crosscat/state.py','src/crosscat/sampling.py','src/mixtures/view.py','src/mixtures/dim.py','src/network/importance.py','src/utils/validation.py'],
 [('state_logpdf/view_logpdf fast path; View cluster enumeration; network path','src/crosscat/sampling.py, src/mixtures/view.py, src/crosscat/state.py')], [], ['State.logpdf','View.logpdf','State.logpdf_bulk'])

prop('C08', 'Simulated rows from states and views follow the conditional density',
 'Samples returned by simulate on a crosscat state or view are jointly distributed as the conditional density of the targets given the constraints for that row: marginals and dependence within each sample both match, including independence across views. Exactly N samples are returned, each containing exactly the targets.',
 ['inputs','histories'], 'all partitions, target/constraint splits, hypothetical and recorded rows, sample counts',
 'Tests look at marginals or shapes of sample lists for one model; spurious or missing dependence inside a sample is not observed.',
 ['src/crosscat/state.py','src/crosscat/sampling.py','src/mixtures/view.py','src/mixtures/dim.py','src/network/importance.py'],
 [('state_simulate/view_simulate; View.simulate; ImportanceNetwork.simulate','src/crosscat/sampling.py, src/mixtures/view.py')], [], ['State.simulate','View.simulate','State.simulate_bulk'])

prop('C09', 'Row and column Gibbs moves draw from the exact full conditional',
 'In every reassignment of a row within a view, the probabilities used to pick the cluster are proportional to the joint density of the model with the row in each existing cluster or a fresh one; in every reassignment of a column (or constrained group of columns) the probabilities used to pick the view are proportional to the joint density with the column in each permitted view or a fresh one (whose row partition is drawn from its prior). The cluster or view installed is the one drawn.',
 ['histories','inputs'], 'all partitions, all rows and columns, with missing data, constraints, any view numbering, several auxiliary proposals',
 'The tests check that inference improves fit or recovers planted structure; a kernel with slightly wrong weights, or a wrong mapping from draw to assignment, still does.',
 ['src/mixtures/view.py','src/crosscat/state.py','src/mixtures/dim.py','src/primitives/crp.py','src/utils/general.py'],
 [('_gibbs_transition_row, _gibbs_transition_dim, logp_crp_gibbs','src/mixtures/view.py, src/crosscat/state.py')],
 [], ['weights handed to the categorical draw, partition before and after'])

prop('C10', 'Hyperparameter and concentration moves draw from the grid conditional',
 'Each move of a column\'s hyperparameter, a view\'s concentration or the state\'s concentration picks a grid value with probability proportional to the joint density of the model at that value with everything else held fixed, installs exactly the drawn value in every cluster of the column (including the one used for fresh clusters), and every grid contains only valid values. Parameter moves of uncollapsed models leave the posterior of their parameters invariant.',
 ['histories','inputs'], 'all states, grids, columns of each type, with and without data',
 'Tests only check that hyperparameters move toward plausible values on one dataset.',
 ['src/mixtures/dim.py','src/mixtures/view.py','src/crosscat/state.py'] + PRIM,
 [('transition_hypers, transition_crp_alpha, transition_params, construct_hyper_grids','src/mixtures/dim.py, src/primitives/*.py')], [], ['weights handed to the categorical draw, hypers before and after'])

prop('C11', 'Queries never change the model they are asked about',
 'simulate, logpdf, their bulk forms, logpdf_score, mutual information, dependence probability, row similarity, relevance probability and to_metadata leave every model (univariate, view, state, engine, composite, regression) observably unchanged: same data, partitions, hyperparameters, scores and same answers to later queries; caller-supplied arguments are not modified either. This holds whether the query succeeds or is refused.',
 ['inputs','histories'], 'all queries, valid and invalid, in every state',
 'Tests never compare a model before and after a query, in particular not for the queries that work by temporarily adding or moving rows.',
 ['src/crosscat/state.py','src/crosscat/engine.py','src/mixtures/view.py','src/mixtures/relevance.py','src/mixtures/dim.py','src/network/importance.py','src/regressions/linreg.py','src/kde/mvkde.py'],
 [('temporary incorporate/unincorporate in queries, copies of arguments','src/mixtures/view.py, src/mixtures/relevance.py, src/crosscat/state.py')], [], ['full serialised state before and after'])

prop('C12', 'Dependence constraints hold in every column partition, always',
 'A state built with dependence (Cd) and independence (Ci) constraints satisfies them initially and after every operation and inference step, and the constraint utilities agree with them: the constrained simulator produces only valid partitions distributed according to the constrained density, which sums to one over valid partitions and gives invalid ones zero; contradictory constraints (a pair of columns, or of rows, required both dependent and independent) are refused and valid ones are accepted.',
 ['histories','inputs','configurations'], 'all constraint sets, column counts, partitions and transition histories',
 'Tests run a few constraint sets for a few iterations, and check only the final partition.',
 ['src/crosscat/state.py','src/utils/general.py','src/utils/validation.py'],
 [('simulate_crp_constrained*, logp_crp_constrained_dependent, validate_*, masks in column moves','src/utils/general.py, src/utils/validation.py, src/crosscat/state.py')], [], ['column partition after each step'])

prop('C13', 'Serialisation round trips preserve the model\'s behaviour',
 'For every model, rebuilding from its metadata (directly, through JSON, or from a pickled file, for states, engines, views, regressions, KDE, KNN, factor analysis and composites) gives a model with the same data, partitions, hyperparameters, constraints, scores and the same answer to every density query, which can be operated on and serialised again; the metadata does not change when the original model later changes.',
 ['histories','inputs','configurations'], 'all models reachable by any history, including constraints, names, diagnostics, composed models, missing data and category sizes',
 'Tests serialise a few fresh models and compare a few fields.',
 ['src/crosscat/state.py','src/crosscat/engine.py','src/mixtures/view.py','src/regressions/linreg.py','src/regressions/ols.py','src/regressions/forest.py','src/kde/mvkde.py','src/knn/mvknn.py','src/factor/factor.py','src/network/importance.py'],
 [('to_metadata/from_metadata, to_pickle/from_pickle','every cgpm')], [], ['scores and queries before and after'])

prop('C14', 'Results are a function of the seed alone',
 'Given the same seed, data and sequence of calls, states, engines and all other models produce identical partitions, hyperparameters, samples and densities on every run, and with parallel execution on or off; models given an explicit source of randomness never read or advance the global random generators, and different engine members use different streams.',
 ['histories','schedules','configurations'], 'all seeds, call sequences, process counts and scheduling of worker processes',
 'Tests fix a seed but do not run anything twice under different scheduling, nor watch the global generators.',
 ['src/crosscat/engine.py','src/crosscat/state.py','src/mixtures/view.py','src/utils/parallel_map.py','src/utils/general.py'] + PRIM,
 [('rng threading, gen_rng, per-state seeds, parallel_map','src/utils/general.py, src/crosscat/engine.py')], [], ['outputs of paired runs, global generator state'])

prop('C15', 'parallel_map is map, under every schedule and fault',
 'parallel_map(f, l) returns the list of f applied to each element of l in order, each element evaluated exactly once, for every list length and worker count and whatever order workers finish in. If any evaluation raises or returns something that cannot be transferred, the call raises in the caller within a bounded time, and in every case no worker process or file descriptor outlives the call.',
 ['schedules','fault_sequences','inputs'], 'all list lengths, worker counts, task durations, exceptions and worker failures at any point',
 'There is no test of parallel_map itself; engine tests run it on a quiet machine with uniform tasks and no faults.',
 ['src/utils/parallel_map.py'],
 [('task and completion queues, termination and close','src/utils/parallel_map.py')], [], ['return value, events recorded by the mapped function, process table and descriptor table'])

prop('C16', 'An engine answers for its states: one result per state, in order',
 'For every engine operation over a selection of distinct states, an update applies to exactly the selected states (all, by default) and to no other, a query returns one result per selected state in the order selected, equal to what that state alone returns, and integration over states averages densities or resamples simulations with weights proportional to each state\'s likelihood of the constraints.',
 ['inputs','histories','configurations'], 'all state selections, operations, worker counts and constraint sets',
 'Tests use all states of small engines and look mostly at result lengths.',
 ['src/crosscat/engine.py','src/utils/parallel_map.py'],
 [('dispatch over states, likelihood weighting, resampling','src/crosscat/engine.py')], [], ['per state results'])

prop('C17', 'Composite networks compute the product of their parts',
 'A network of models answers logpdf for fully specified outputs as the sum of its parts\' densities in dependency order; with unobserved variables its density estimates and weighted samples agree with exact enumeration on discrete networks as samples grow; impossible evidence is reported, not silently answered. Ordering, ancestors, descendants, connectivity and required-input computations are correct for every directed acyclic graph, and cycles or duplicate outputs are refused.',
 ['inputs','configurations','programs'], 'all acyclic graphs of models, target/constraint/input splits and sample sizes',
 'Tests cover a couple of hand-built networks of two or three models.',
 ['src/network/importance.py','src/network/helpers.py','src/crosscat/state.py'],
 [('topological_sort, retrieve_*, weighted_sample, importance logpdf','src/network/helpers.py, src/network/importance.py')], [], ['logpdf','simulate','helper results'])

prop('C18', 'Mutual information estimates are correct',
 'Mutual information and conditional mutual information of a state (without composed models) converge to the exact value for the state\'s own distribution as samples grow: exactly zero between columns of different views, symmetric in its arguments, entropy when both arguments are the same variable, and respecting both fixed and marginalised conditioning variables. The standalone entropy estimators agree with the exact entropy of the distribution sampled.',
 ['inputs','histories'], 'all partitions, variable groups, and conditioning sets (fixed, marginalised, mixed)',
 'Tests check a few Gaussian or Bernoulli cases with loose tolerances and never mix fixed and marginalised conditions.',
 ['src/crosscat/state.py','src/crosscat/engine.py','src/utils/entropy_estimators.py'],
 [('mutual_information, conditional populate, Monte Carlo average','src/crosscat/state.py')], [], ['mutual_information'])

prop('C19', 'Dependence, similarity and relevance match their definitions',
 'Dependence probability is one exactly when two columns share a view, or a composed model gives them a shared cause (reported symmetrically, one on the diagonal); row similarity over a set of columns is the fraction of the views containing them in which the two rows share a cluster; the relevance probability of a view equals the probability, under its Dirichlet process mixture, that the target, query and hypothetical rows share a cluster, as computed by exact enumeration, and that of a state says whether the query rows share the target\'s cluster in the view of the column. Pairwise tables agree with the scalar queries.',
 ['inputs','histories'], 'all partitions, rows (recorded and hypothetical), column sets and query sets',
 'Tests check extremes such as identical rows; not the value for arbitrary partitions.',
 ['src/crosscat/state.py','src/crosscat/engine.py','src/mixtures/view.py','src/mixtures/relevance.py'],
 [('dependence_probability, row_similarity, relevance_probability','src/crosscat/state.py, src/mixtures/relevance.py')], [], ['the three queries and their pairwise forms'])

prop('C20', 'A refused request leaves the model unchanged',
 'When a model, view, state or engine refuses a request (an existing or unknown row, column or view, a finite value outside a column\'s domain, an observed cell forced, a wrong number of inputs, contradictory constraints), it raises an error and its data, partitions, statistics and scores are exactly as before, and it keeps answering and accepting valid requests.',
 ['fault_sequences','histories','inputs'], 'all invalid requests at any point of any history',
 'Tests assert that a few bad calls raise but never look at the state that is left.',
 ['src/crosscat/state.py','src/mixtures/view.py','src/mixtures/dim.py','src/regressions/linreg.py','src/regressions/forest.py','src/kde/mvkde.py','src/knn/mvknn.py','src/factor/factor.py'] + PRIM,
 [('validation before mutation','every incorporate / update method')], [], ['full serialised state before and after the refused call'])

prop('C21', 'Numerical and combinatorial utilities match their definitions',
 'logsumexp, logmeanexp and its weighted form, normalisation, categorical draws, CRP densities and simulators, set and partition helpers, dummy coding, distribution-argument and schema parsing give the mathematically defined result for every valid input, including empty, infinite, NaN, single-element, very large and very small inputs, and never modify their arguments.',
 ['inputs'], 'all valid inputs of each utility',
 'A few utilities have tests on a handful of inputs; most have none.',
 ['src/utils/general.py','src/utils/validation.py','src/utils/config.py','src/utils/data.py','src/utils/timer.py'],
 [('the utilities','src/utils/*.py')], [], ['return values'])

prop('C22', 'Multivariate normal density, gradient and conditionals are exact',
 'For every mean and positive-definite covariance the multivariate normal log density equals the closed form, its derivative equals the derivative of that density, and the conditional distribution equals the Schur-complement formula; results are invariant to permuting dimensions, scaling badly conditioned inputs does not break positive results, and arguments are not modified.',
 ['inputs'], 'all dimensions, means, covariances (diagonal, dense, near-singular), points and partitions of the dimensions',
 'The function is only exercised through factor analysis and one test dataset.',
 ['src/utils/mvnormal.py'], [('logpdf, dlogpdf, conditional','src/utils/mvnormal.py')], [], ['return values'])

prop('C23', 'Regression models give coherent conditional distributions',
 'Linear regression, ordinary least squares and random forest, after any history of rows with numerical and categorical inputs, give densities that integrate to one over the response for any inputs, agree with their simulator (but for the noise of ordinary least squares, a known finding), and match their definition: the Bayesian linear regression posterior predictive and marginal likelihood in closed form, the Gaussian around the least-squares fit, the smoothed forest class probabilities. Required inputs are demanded and their categories enforced.',
 ['inputs','histories'], 'all input designs, categories, histories and hyperparameters',
 'Tests compare predictions with planted trends, on one data set each.',
 ['src/regressions/linreg.py','src/regressions/ols.py','src/regressions/forest.py','src/utils/data.py'],
 [('posterior_hypers, regression fits, dummy_code','src/regressions/*.py')], [], ['logpdf','simulate','logpdf_score'])

prop('C24', 'KDE, nearest-neighbour, factor and scripted models are coherent',
 'Multivariate KDE, nearest neighbours, factor analysis and the scripted models (piecewise, two-way, four-way, bivariate generators) give densities consistent with themselves: the kernel estimate and the factor-analysis normal equal their closed forms for joint, marginal and conditional queries; the chain rule holds where both sides are defined; discrete marginals and conditionals sum to one; and simulated samples follow the reported density.',
 ['inputs','histories'], 'all data sets, variable splits, inputs and hyperparameters',
 'Tests check plots, shapes, or goodness of fit on one dataset each.',
 ['src/kde/mvkde.py','src/knn/mvknn.py','src/factor/factor.py','src/dummy/piecewise.py','src/dummy/twoway.py','src/dummy/fourway.py','src/dummy/trollnormal.py','src/dummy/barebones.py','src/uncorrelated/undirected.py','src/uncorrelated/directed.py','src/uncorrelated/sin.py','src/uncorrelated/parabola.py'],
 [('logpdf/simulate of each model','src/kde, src/knn, src/factor, src/dummy, src/uncorrelated')], [], ['logpdf','simulate'])

prop('C25', 'Transitions do what was asked: kernels, targets and counts',
 'A transition of a state applies exactly the requested kernels, only to the requested rows, columns, and views, the requested number of sweeps, and nothing else; columns, rows, hyperparameters and constraints not targeted are unchanged by it; diagnostics record one consistent entry per checkpoint; and foreign-column transitions touch only those columns.',
 ['histories','configurations','inputs'], 'all kernel subsets, row/column selections, sweep counts and checkpoint intervals, with composed models present',
 'Tests count iterations for a couple of settings and do not check what else changed.',
 ['src/crosscat/state.py','src/crosscat/engine.py','src/mixtures/view.py'],
 [('transition, _transition_generic, transition_dims/rows/...','src/crosscat/state.py')], [], ['calls of each kernel, state before and after, diagnostics'])

prop('C26', 'Missing cells are integrated out, observed cells are fixed',
 'A missing cell contributes nothing: densities and scores of a view or state with missing cells equal those of a model that never had those cells, and a query with a missing constraint on a mixture column equals the query without it. Filling a missing cell (force_cell) gives the model that had the value all along, also in the columns conditioned on it, and clearing it again, in a view, restores the original; a row recorded with a subset of its columns answers queries about the remaining ones conditioned on its own cells and cluster.',
 ['inputs','histories'], 'all patterns of missing data, fill/clear sequences and queries on partially observed rows',
 'Tests use one or two rows with a missing entry.',
 ['src/crosscat/state.py','src/mixtures/view.py','src/mixtures/dim.py'],
 [('force_cell, NaN handling in incorporate, populate constraints','src/crosscat/state.py, src/mixtures/dim.py')], [], ['logpdf','logpdf_score','force_cell'])

prop('C27', 'Exchange with external inference engines keeps the model intact',
 'Exporting a state to an external inference engine (lovecat or loom) sends exactly its data, column partition, row partitions, concentrations, category coding and constraints, with the kernels, rows, columns, sweeps and seed requested; importing installs exactly the partitions and concentrations the engine returned, row by row and column by column, keeps data, constraints and column hyperparameters, and leaves a consistent state. An engine that fails leaves the state as it was.',
 ['histories','configurations'], 'all states reachable by any history (including non-contiguous cluster and view numbers, and rows reordered by inference)',
 'The tests need the external engine, which most installations lack, and look only at whether inference quality improves.',
 ['src/crosscat/lovecat.py','src/crosscat/loomcat.py','src/crosscat/state.py'],
 [('_crosscat_M_c, _crosscat_T, _crosscat_X_D, _crosscat_X_L, _update_state','src/crosscat/lovecat.py')], [], ['arguments received by a recording stand-in engine, state after import'])

prop('C28', 'The sampling helpers leave their target distribution invariant',
 'The generic Metropolis-Hastings and slice samplers used for uncollapsed parameters return values in the given domain, and started from an exact draw of the target density they return exact draws of it, for every target on every supported domain; burn-in and sample counts are honoured.',
 ['inputs'], 'all log-concave and multimodal targets on open, half-open and bounded domains',
 'Not tested directly at all.',
 ['src/utils/sampling.py'], [('mh_sample, slice_sample','src/utils/sampling.py')], [], ['returned samples'])

prop('C29', 'Venture-script models keep rows, labels and seeds straight',
 'A venture-script model forwards to the inference engine exactly the observations and queries it is given: each incorporated cell is observed under one label with the inputs of its row in declared order, and forgotten exactly once when removed; constraints of a query are observed and inference is run in the scope of the row before its targets are predicted, and everything a query adds is forgotten after it, whether it succeeds or fails; a recorded row keeps its inputs; N samples are returned when N are asked; models survive their metadata; and inline expressions get the inputs in the order declared.',
 ['histories','inputs'], 'all histories of incorporate, unincorporate and queries, including failing queries',
 'The tests need the external engine, which is not installed here.',
 ['src/venturescript/vscgpm.py','src/venturescript/vsinline.py'],
 [('label bookkeeping, observe/forget pairs','src/venturescript/vscgpm.py')], [], ['calls received by a recording stand-in engine'])

prop('C30', 'The debug self-checks hold, and change nothing',
 'With the debug self-checks enabled (GPMCCDEBUG), every valid history of a state, view or engine runs without a failing self-check (partitions, counts, data, constraints, and the normalisation of relevance probabilities), and every partition, hyperparameter, sample and density is the same as with them disabled. (The self-checks of a view expect its rows to be numbered from zero.)',
 ['histories','configurations'], 'all histories of row, column, cell, type and inference operations and queries, with and without constraints, regression columns and composed models; debug setting on, off or absent; worker processes',
 'The tests run in one setting; whether the internal assertions agree with every reachable state, and leave it alone, is never compared.',
 ['src/crosscat/state.py','src/mixtures/view.py','src/mixtures/relevance.py','src/utils/config.py','src/utils/validation.py'],
 [('_check_partitions, check_env_debug, relevance normalisation','src/crosscat/state.py, src/mixtures/view.py, src/mixtures/relevance.py')], [], ['traces of paired runs', 'assertion failures'])

prop('C31', 'Ill-formed definitions and queries are refused',
 'A model whose definition contradicts itself (duplicate, missing or surplus variables, types or type arguments that do not match the variables, missing category counts, invalid hyperparameters, latent dimension or number of neighbours out of range, unsupported inputs or row constraints) is not built, and a query that contradicts itself or its model (unknown or repeated variables, a target that is also constrained, inputs or constraints the model does not take, observed cells asked for or contradicted, too little data, missing values where a value is needed) raises an error rather than answering and leaves the model as it was; the same definition or query without the fault is accepted, and arguments are never modified.',
 ['inputs','histories'], 'all definitions and queries of univariate models, columns, views, states, regressions, KDE, nearest neighbours and factor analysis, with any single fault, at any point of a history',
 'The tests try a few faults on a few models; an unguarded fault answers with numbers that look valid.',
 ['src/primitives/distribution.py','src/primitives/categorical.py','src/primitives/normal.py','src/primitives/vonmises.py','src/mixtures/dim.py','src/mixtures/view.py','src/crosscat/state.py','src/regressions/linreg.py','src/regressions/ols.py','src/regressions/forest.py','src/kde/mvkde.py','src/knn/mvknn.py','src/factor/factor.py'],
 [('constructor and query validation','every cgpm')], [], ['exception or result of each constructor and query', 'model digest around it'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))

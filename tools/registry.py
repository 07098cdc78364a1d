"""Single source of truth for the properties: tools/gen.py writes
properties.jsonl and MANIFEST.json from it."""

LM = 'src/pyuoi/linear_model/'
DC = 'src/pyuoi/decomposition/'
LB = 'src/pyuoi/lbfgs/'

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None,
         state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


prop('C01', 'Stability-selection settings become exactly the documented bootstrap counts',
     'A stability-selection fraction f with n bootstraps means "at least the integer part of f*n (computed in double precision) bootstraps", an integer means that many bootstraps, and a list or array means each entry converted that way, in order. '
     'Any resulting count below 1 or above n, and any value of another kind, is rejected with a ValueError; nothing else is rejected. '
     'The linear-model and the column-subset (CUR) estimators follow the same rule.',
     ['inputs', 'configurations'], 'every double/int setting (single, list, array) and every number of bootstraps up to the bound',
     'The unit tests sample a handful of round fractions (0.5, 0.75, 1.0) with 48 bootstraps; truncation and the 1..n boundary depend on the exact double product for every (fraction, n).',
     [LM + 'utils.py', DC + 'utils.py'],
     [('stability_selection_to_threshold', LM + 'utils.py'),
      ('stability_selection_to_threshold', DC + 'utils.py')])

prop('C02', 'Selection supports are exactly the thresholded intersections',
     'For every set of selection coefficients (bootstraps x regularization values x features), the candidate supports produced are exactly the distinct feature sets obtained, for each threshold and each regularization value, by keeping the features whose coefficient is nonzero in at least that many bootstraps. '
     'Every such set appears once, no other set appears, and the result is always a two-dimensional boolean array with one row per support and one column per feature.',
     ['inputs', 'configurations'], 'every coefficient array and threshold list within the size bound, including one feature, one regularization value and one threshold',
     'Tests use one or two hand-made coefficient arrays; counting, thresholding, flattening over thresholds and deduplication must hold for all nonzero patterns and all degenerate shapes.',
     [LM + 'utils.py', LM + 'base.py'],
     [('intersection', LM + 'utils.py'), ('intersect', LM + 'base.py')])

prop('C03', 'Multiclass shared support keeps a feature if any class keeps it',
     'With shared support and several outputs, the candidate supports are exactly the distinct feature sets obtained by uniting, per threshold and regularization value, the per-class intersected supports; a feature is kept for all classes as soon as one class keeps it. '
     'Without shared support (or with one output) the per-class supports are used unchanged.',
     ['inputs', 'configurations'], 'every multiclass coefficient array within the bound, shared or not',
     'Tests check one fitted multiclass model; the class-wise union, its axis order and deduplication must hold for every pattern.',
     [LM + 'base.py'], [('intersect (generalized)', LM + 'base.py')])

prop('C04', 'Fitted coefficients vanish outside the selected supports',
     'After fitting, every per-bootstrap, per-support estimate is exactly zero on each feature outside that candidate support and equals the fitted unregularized estimate on the features inside it. '
     'The final coefficient of a feature is exactly zero unless the feature belongs to the winning support of at least one estimation bootstrap.',
     ['inputs', 'configurations', 'histories'], 'every outcome of the selection and estimation solvers, every support pattern, shared or per-class supports, within the bound',
     'Integration tests look at one dataset per model and only at summary accuracy; the scatter of estimates back into feature positions must hold for every support pattern.',
     [LM + 'base.py'], [('fit (estimation module)', LM + 'base.py')])

prop('C05', 'Best-scoring support wins per bootstrap and the median bags the winners',
     'For every estimation bootstrap the recorded winner is a support with the highest score in that bootstrap, and the final coefficients (before undoing standardization) are the feature-wise median over bootstraps of the winning estimates. '
     'The stored scores, estimates and winners of each bootstrap and support are those of that same bootstrap and support.',
     ['inputs', 'configurations'], 'every matrix of scores and estimates within the bound',
     'Tests compare whole fits on a few random datasets, where wrong tie, axis or bookkeeping choices rarely change the answer.',
     [LM + 'base.py'], [('fit (union/bagging)', LM + 'base.py')])

prop('C06', 'Candidates are fitted on training rows and scored on the documented rows',
     'Every estimation fit sees exactly the rows of its bootstrap\'s training split (restricted to the support), and its score is computed on the documented rows only: held-out rows for r2, accuracy and log-likelihood, training rows for AIC, AICc and BIC, unless the user names the train or test target. '
     'Splits honour the requested training fractions and stratification, are drawn anew for every selection and estimation bootstrap, and a candidate with no features is scored by an intercept-only model of the training responses.',
     ['inputs', 'configurations', 'histories'], 'every split, support pattern, metric and target within the bound, for linear, logistic and Poisson estimators',
     'No test inspects which rows reach the fitter and which reach the score; leakage changes numbers slightly but breaks no test.',
     [LM + 'base.py', LM + 'poisson.py'],
     [('fit (estimation module)', LM + 'base.py'), ('_score_predictions', LM + 'base.py'), ('_score_predictions', LM + 'poisson.py')])

prop('C07', 'The selection sweep fits every bootstrap at every regularization value, in order',
     'During selection, each bootstrap\'s training rows are fitted once at each regularization setting of the grid, and the coefficients recorded for (bootstrap, setting) are those of that very fit. '
     'A fit may be warm-started only from the previous setting of the same bootstrap: nothing left over from another bootstrap, including a non-finite intercept, reaches it.',
     ['inputs', 'histories', 'configurations'], 'every sequence of solver outcomes (including infinite intercepts) within the bound, warm start on or off',
     'Leaks across bootstraps alter only starting points and bookkeeping; tests never observe the per-fit inputs.',
     [LM + 'base.py', LM + 'lasso.py'],
     [('fit (selection module)', LM + 'base.py'), ('uoi_selection_sweep', LM + 'base.py'), ('uoi_selection_sweep (pycasso)', LM + 'lasso.py')])

prop('C08', 'A distributed fit gives every rank the serial answer',
     'Given the same data splits and solver outcomes, fitting with any number of MPI ranks yields the same supports, scores, winners, estimates, coefficients and intercept as fitting without MPI. '
     'All ranks end with identical results, whether there are fewer, as many, or more ranks than selection bootstraps.',
     ['schedules', 'configurations', 'inputs'], 'every rank count, bootstrap count, regularization count and solver outcome within the bound',
     'The tests run as a single MPI process, so none of the multi-rank task splitting, gathering or broadcasting code is executed with more than one rank.',
     [LM + 'base.py', 'src/pyuoi/mpi_utils.py'],
     [('fit', LM + 'base.py'), ('Gatherv_rows', 'src/pyuoi/mpi_utils.py'), ('Bcast_from_root', 'src/pyuoi/mpi_utils.py')])

prop('C09', 'MPI helpers deliver exact arrays for every root, rank count and shape',
     'Broadcasting an array from any root leaves every rank with the root\'s values, shape and type; gathering rows onto any root yields exactly the concatenation of all ranks\' rows in rank order there (including ranks with no rows) and nothing on the others. '
     'Loading from a file on any root gives every rank the stored features and targets with their types.',
     ['inputs', 'configurations', 'schedules'], 'every root, rank count, 1-3 dimensional shape and supported element type within the bound',
     'Tests run one rank, so root handling, displacements and zero-row ranks are never exercised.',
     ['src/pyuoi/mpi_utils.py'],
     [('Bcast_from_root', 'src/pyuoi/mpi_utils.py'), ('Gatherv_rows', 'src/pyuoi/mpi_utils.py'), ('load_data_MPI', 'src/pyuoi/mpi_utils.py')])

prop('C10', 'Undoing standardization preserves the fitted predictions',
     'With standardization on, the reported coefficients and intercept applied to raw features give the same linear predictor (for linear models, the same prediction in response units) as the internally fitted model applied to standardized features, for every feature mean and scale. '
     'This holds for linear, elastic-net, logistic and Poisson models, with or without an intercept (features are not centred when there is no intercept), and switching standardization off leaves coefficients and data untouched.',
     ['inputs', 'configurations'], 'every mean, positive scale, coefficient, intercept and raw feature row within the bound',
     'Tests standardize data that is already near zero mean and unit scale or only look at coefficients, so wrong intercept back-transforms go unseen.',
     [LM + 'base.py', LM + 'poisson.py', LM + 'logistic.py'],
     [('_pre_fit/_post_fit', LM + 'base.py'), ('_pre_fit/_post_fit', LM + 'poisson.py')])

prop('C11', 'The refitted intercept is the optimal one for the final coefficients',
     'After the coefficients are fixed, the intercept is re-estimated so that the first-order optimality condition of the model\'s likelihood in the intercept holds: zero mean residual for linear models, equal mean response and mean prediction for Poisson, and for logistic models the objective and gradient handed to the optimizer are the mean log-loss and its exact derivative. '
     'Intercept-only models used for empty supports report the closed-form optimum (mean, log mean, or class log-odds/log-frequencies) and predict accordingly for every row; without an intercept the reported intercept is zero.',
     ['inputs', 'configurations'], 'every data set, coefficient vector and label assignment within the bound',
     'Tests check a few random draws with loose tolerances; derivative and closed-form identities are universal statements.',
     [LM + 'base.py', LM + 'poisson.py', LM + 'logistic.py'],
     [('_fit_intercept', LM + 'base.py'), ('_fit_intercept', LM + 'poisson.py'), ('fit_intercept_fixed_coef', LM + 'logistic.py'),
      ('LogisticInterceptFitterNoFeatures', LM + 'logistic.py'), ('PoissonInterceptFitterNoFeatures', LM + 'poisson.py')])

prop('C12', 'Refitting does not depend on earlier fits',
     'Fitting an estimator to new data gives a result that depends only on its settings, the random stream and the new data: in particular the regularization path is rebuilt from the new data and no grid, scaler or solver state of a previous fit influences the new coefficients, intercept or predictions. '
     'This holds for lasso, elastic-net, logistic and Poisson estimators.',
     ['histories', 'inputs'], 'every pair of consecutive fits within the bound',
     'Tests fit each estimator object once.',
     [LM + 'elasticnet.py', LM + 'poisson.py', LM + 'logistic.py', LM + 'base.py'],
     [('get_reg_params', LM + 'elasticnet.py'), ('get_reg_params', LM + 'poisson.py'), ('get_reg_params', LM + 'logistic.py')])

prop('C13', 'Fitting and predicting never modify the caller\'s arrays',
     'No call to fit, predict, transform, scoring or loss evaluation changes the feature matrix, response, masks, weights, starting points or settings arrays passed in by the caller, and results handed out earlier are not overwritten by later calls.',
     ['inputs', 'histories'], 'every input within the bound',
     'Tests do not compare inputs before and after, and aliasing shows only for particular flag combinations.',
     [LM + 'base.py', LM + 'logistic.py', LM + 'poisson.py', DC + 'NMF.py', DC + 'CUR.py', 'src/pyuoi/utils.py', 'src/pyuoi/datasets/__init__.py'],
     [('in-place updates throughout', 'src/pyuoi')])

prop('C14', 'The regularization path starts at the null model and is log-spaced',
     'For logistic, Poisson and elastic-net estimators the generated path has the requested number of values per mixing ratio, is geometrically spaced, spans exactly the requested ratio, and begins at the weakest penalty for which the all-zero coefficient vector satisfies the optimality conditions of the penalized problem the solver minimizes. '
     'Each grid entry carries the mixing ratio it was computed for, and every feature counts toward the starting value, with or without an intercept.',
     ['inputs', 'configurations'], 'every data set within the bound, binary and multiclass, with and without an intercept',
     'Tests check one dataset and only the ratio of end points; whether the first value nulls the model is a statement about every dataset.',
     [LM + 'logistic.py', LM + 'poisson.py', LM + 'elasticnet.py'],
     [('get_reg_params', LM + 'logistic.py'), ('get_reg_params', LM + 'poisson.py'), ('get_reg_params', LM + 'elasticnet.py')])

prop('C15', 'Likelihoods and information criteria follow their formulas',
     'AIC, BIC and AICc equal 2k-2L, k*log(n)-2L and AIC+2k(k+1)/(n-k-1) (AIC when n<=k+1); Gaussian and Poisson log-likelihoods equal their formulas, are never NaN for valid responses and predictions, and predicting an exact zero for a zero count costs nothing. '
     'Support scores are the metric itself for r2, accuracy and log-likelihood and the negated criterion, computed from the total log-likelihood and the number of selected features of the support (for Poisson models a nonzero intercept counts as one more), otherwise; class labels of any kind are scored against the right class probabilities.',
     ['inputs', 'configurations'], 'every log-likelihood, k, n, response and prediction vector within the bound; every label set',
     'Tests evaluate a handful of points; boundary n=k+1, zero predictions and non 0..K-1 labels are not covered.',
     ['src/pyuoi/utils.py', LM + 'base.py', LM + 'poisson.py'],
     [('log_likelihood_glm/AIC/BIC/AICc', 'src/pyuoi/utils.py'), ('_score_predictions', LM + 'base.py'), ('_score_predictions', LM + 'poisson.py')])

prop('C16', 'The Poisson objective and its gradient agree',
     'The Poisson objective equals the sample-weighted mean negative log-likelihood plus half the L2 penalty times the squared coefficient norm (intercept unpenalized), and the returned gradient is its exact derivative in every coefficient and the intercept, for all data, weights and penalties.',
     ['inputs', 'configurations'], 'all real data, weights, coefficients and penalties within the size bound',
     'Tests compare with numeric differences at random points, without weights or without intercept.',
     [LM + 'poisson.py'], [('_poisson_loss_and_grad', LM + 'poisson.py')])

prop('C17', 'Logistic and multinomial objectives and gradients agree',
     'The binary and multinomial objectives equal the sample-weighted mean negative log-likelihood of the labels plus half the L2 penalty times the squared norm of the coefficients (intercepts unpenalized), and the returned gradients are their exact derivatives, with masked coordinates held at zero with zero gradient, for all data, labels, weights, masks and penalties.',
     ['inputs', 'configurations'], 'all real data, weights, coefficients, masks and penalties within the size bound, with or without intercept',
     'Tests compare with scikit-learn on single random draws; sign, weight or mask errors in one coordinate can escape.',
     [LM + 'logistic.py'],
     [('_logistic_loss_and_grad', LM + 'logistic.py'), ('_multinomial_loss_grad', LM + 'logistic.py'), ('_multinomial_loss', LM + 'logistic.py'), ('_intercept_dot', LM + 'logistic.py')])

prop('C18', 'Masked logistic fits keep masked coefficients at zero and optimize the rest',
     'For every coefficient mask, a masked logistic fit returns exactly zero for every masked coefficient, never masks an intercept, and hands the optimizer precisely the unmasked coordinates of the true objective and gradient whenever any coefficient is free; the returned coefficients and intercepts are placed at the right class and feature.',
     ['inputs', 'configurations'], 'every mask, warm-start vector, penalty kind and optimizer outcome within the bound; binary and multiclass, with and without intercept',
     'Tests use a few random masks; the reshaping between class-major and feature-major layouts must be right for every mask and shape.',
     [LM + 'logistic.py'],
     [('_logistic_regression_path', LM + 'logistic.py'), ('MaskedCoefLogisticRegression.fit', LM + 'logistic.py')])

prop('C19', 'Poisson coordinate descent performs exact penalized updates',
     'Soft-thresholding shrinks every value towards zero by exactly the threshold, and each coordinate update is the exact minimizer of the weighted least-squares elastic-net subproblem in that coordinate; the intercept update is the weighted mean residual. '
     'Only coordinates that left the active set may be skipped, all coordinates are active on a first fit or after a reset, the linearized weights and responses are those of the Poisson likelihood at the current point, and warm starting never prevents learning.',
     ['inputs', 'histories', 'configurations'], 'all real data, weights, penalties and starting coefficients within the bound',
     'Tests check a few numeric examples and one tiny fit.',
     [LM + 'poisson.py'],
     [('_cd', LM + 'poisson.py'), ('_cd_sweep', LM + 'poisson.py'), ('soft_threshold', LM + 'poisson.py'), ('adjusted_response', LM + 'poisson.py')])

prop('C20', 'Solvers receive the penalized problem the user asked for',
     'Fitting hands the quasi-Newton solver the model\'s own loss with the L1 weight implied by the penalty strength and mixing ratio on the feature coefficients only (never the intercept) and the remaining weight as L2, the requested tolerance and iteration limit, and a starting point of the right size; the fitted coefficients and intercept are read back from the matching positions. '
     'Estimators pass every user setting (intercept, tolerance, iteration limit, warm start, solver, mixing ratio) through to their selection and estimation solvers, and estimation is unregularized.',
     ['inputs', 'configurations'], 'every penalty, mixing ratio, tolerance, limit and solver outcome within the bound, with and without intercept, binary and multiclass',
     'Tests only see converged answers on easy data, where a penalized intercept or dropped setting is within tolerance.',
     [LM + 'poisson.py', LM + 'logistic.py', LM + 'lasso.py', LM + 'elasticnet.py'],
     [('Poisson.fit', LM + 'poisson.py'), ('_logistic_regression_path', LM + 'logistic.py'), ('estimator constructors', LM)])

prop('C21', 'Softmax and sigmoid are valid probabilities for every finite input',
     'For every finite input, sigmoid lies between 0 and 1 and equals 1/(1+exp(-x)) with sigmoid(x)+sigmoid(-x)=1, softmax entries are non-negative, sum to one along the chosen axis, are ordered like the inputs and are unchanged by adding a constant. '
     'Inputs of any finite size up to a million cannot overflow to infinity or NaN.',
     ['inputs'], 'every real input vector within the size bound; exponent arguments for every input',
     'Tests check a few random vectors of moderate size.',
     ['src/pyuoi/utils.py'], [('softmax', 'src/pyuoi/utils.py'), ('sigmoid', 'src/pyuoi/utils.py')])

prop('C22', 'Poisson predictions are the mean and mode of the fitted model',
     'A fitted Poisson model (with or without intercept, feature-based or intercept-only, either solver, any response) predicts the conditional mean exp(intercept + x.coef) and, as mode, its floor, one value per row; the mean for a row depends on that row only. '
     'Predicting before fitting is refused, and predicting after any successful fit is not.',
     ['inputs', 'configurations'], 'every coefficient vector, intercept and feature matrix within the bound, both solvers, with and without intercept',
     'Tests only predict with an intercept and feature-based model.',
     [LM + 'poisson.py'],
     [('Poisson.predict/predict_mean', LM + 'poisson.py'), ('PoissonInterceptFitterNoFeatures', LM + 'poisson.py'), ('Poisson.fit', LM + 'poisson.py')])

prop('C23', 'Leverage-score sampling keeps each column with its leverage probability',
     'Column subset selection keeps column j exactly when its own uniform draw falls below min(1, c times its normalized leverage score), one draw per column in column order from the given random state; the returned indices are increasing, or ordered by increasing leverage when requested, and never repeat. '
     'The same random state gives the same selection.',
     ['inputs', 'configurations'], 'every singular-vector matrix, expected count and draw sequence within the bound',
     'Tests use one matrix and only check counts and ordering; the draws come from an unseeded generator there.',
     [DC + 'utils.py'], [('column_select', DC + 'utils.py')])

prop('C24', 'UoI column subset is the union over ranks of the bootstrap intersections',
     'The selected columns are exactly those that, for at least one rank, were chosen in at least the threshold number of bootstraps; they are reported in increasing order and the components are those columns of the input matrix. '
     'For each rank the selection uses that rank\'s leading right singular vectors of the bootstrap sample and its own expected count, and transforming any matrix returns exactly the selected columns.',
     ['inputs', 'configurations'], 'every outcome of the per-bootstrap column selections, ranks and thresholds within the bound',
     'Tests run one random matrix; the count-threshold-union logic must hold for all selection outcomes.',
     [DC + 'CUR.py'], [('UoI_CUR.fit', DC + 'CUR.py'), ('UoI_CUR.transform', DC + 'CUR.py'), ('CUR.fit', DC + 'CUR.py')])

prop('C25', 'Rank and column-count settings are validated and expanded as documented',
     'Ranks may be given as nothing (all ranks 1..max), an integer, a list or an array and are accepted exactly when all are positive integers not above the maximum rank; expected column counts may be nothing (rank + 20), a number (used for every rank), a list or an array and are accepted exactly when all are positive and there is one per rank. '
     'Anything else raises a ValueError.',
     ['inputs', 'configurations'], 'every integer rank and count value and list length within the bound',
     'Tests try a few valid and invalid values.',
     [DC + 'CUR.py'], [('check_ks_and_cs', DC + 'CUR.py')])

prop('C26', 'NMF dissimilarity is a scale- and permutation-invariant score in [0, 1]',
     'The dissimilarity of two sets of non-negative, nonzero bases equals one minus the average best cosine match in both directions; it is zero for a set against itself, symmetric, unaffected by permuting or rescaling bases, and always between 0 and 1.',
     ['inputs'], 'every pair of basis sets within the size bound',
     'Tests check two hand-made pairs.',
     [DC + 'utils.py'], [('dissimilarity', DC + 'utils.py')])

prop('C27', 'UoI NMF builds its components from clustered bootstrap bases as documented',
     'Fitting draws one with-replacement resample per bootstrap, factorizes each at every requested rank, keeps (with dissimilarity on) only the rank with the smallest average pairwise dissimilarity and otherwise all ranks, drops all-zero bases, scales the rest to unit length and clusters them. '
     'There is one component per cluster, in cluster order, equal to the unit-length consensus of that cluster\'s bases only; noise points never contribute, and negative data are rejected. Fitting may refuse with a ValueError when nothing clusters or every base is zero.',
     ['inputs', 'configurations'], 'every factorization and clustering outcome, rank list and consensus rule within the bound',
     'Tests run two integrated fits and check shapes and reconstruction only.',
     [DC + 'NMF.py'], [('UoI_NMF_Base.fit', DC + 'NMF.py'), ('UoI_NMF_Base.__init__', DC + 'NMF.py')])

prop('C28', 'NMF transform and inverse transform are row-wise and shape-checked',
     'Transforming returns, for each row, the non-negative regression of that row on the components, independent of other rows; the inverse transform is the weights times the components, and the stored reconstruction error is the Frobenius norm of the difference. '
     'Incompatible shapes and unfitted models are refused.',
     ['inputs', 'configurations'], 'every components matrix, data matrix, weight matrix and regression outcome within the bound',
     'Tests check one shape error and one fit.',
     [DC + 'NMF.py'], [('transform', DC + 'NMF.py'), ('inverse_transform', DC + 'NMF.py'), ('fit_transform', DC + 'NMF.py')])

prop('C29', 'The optimizer wrapper forwards every option and reports every outcome truthfully',
     'Every option given to the minimizer reaches the native solver unchanged in its own field (L1 weight, index range, memory, tolerances, limits, line search; a positive L1 weight always uses the Wolfe backtracking search), the start vector is copied, and callbacks receive the caller\'s arguments in the documented order. '
     'Success, early-stop and already-minimized outcomes return the final point in the input\'s shape, recoverable limits warn and return it, the all-zero outcome and every other failure raise the matching exception, and a progress callback that returns nonzero or a callback that raises never looks like success.',
     ['inputs', 'configurations', 'fault_sequences'], 'every native return code, every option value and every callback result',
     'Tests run a few successful minimizations and two failures; most return codes never occur.',
     [LB + '__init__.py', LB + '_lowlevel.pyx'],
     [('fmin_lbfgs', LB + '__init__.py'), ('LBFGS.minimize', LB + '_lowlevel.pyx'), ('call_progress/call_eval', LB + '_lowlevel.pyx')])

prop('C30', 'The native solver validates its parameters and stays within its memory',
     'For every parameter setting the native L-BFGS entry point either rejects it with the documented code, before calling back or touching the variables, or accepts it; rejection happens exactly for the out-of-range values the entry point documents (when several are out of range, with the code of one of them), including a history size below one. '
     'For every accepted setting, callback behaviour and iteration history within the bound it reads and writes only its own buffers and the n caller variables, and releases everything it allocated on every exit.',
     ['inputs', 'configurations', 'fault_sequences'], 'every parameter value; every objective/gradient value returned by callbacks; every allocation failure point, within n, m and iteration bounds',
     'No test exercises the native parameter checks, cancellation or allocation failure; memory errors do not show as test failures.',
     ['liblbfgs/lbfgs.c'], [('lbfgs', 'liblbfgs/lbfgs.c')])

prop('C31', 'Orthant-wise steps respect the L1 subgradient and never cross zero',
     'With a positive L1 weight, the direction-finding gradient is, coordinate by coordinate, the minimum-norm subgradient of loss plus weighted L1 norm on the penalized index range and the plain gradient outside it; the objective reported and compared is the loss plus the L1 term over that range only. '
     'Accepted iterates never change the sign of a penalized coordinate within one step, and a search direction component that disagrees in sign with the steepest descent is dropped.',
     ['inputs', 'configurations'], 'every point, gradient, weight and index range with n within the bound',
     'Tests fit two smooth examples and compare end points.',
     ['liblbfgs/lbfgs.c'],
     [('owlqn_x1norm', 'liblbfgs/lbfgs.c'), ('owlqn_pseudo_gradient', 'liblbfgs/lbfgs.c'), ('owlqn_project', 'liblbfgs/lbfgs.c'), ('line_search_backtracking_owlqn', 'liblbfgs/lbfgs.c')])

prop('C32', 'Line searches accept only steps that satisfy their decrease conditions',
     'A backtracking line search that reports success leaves the variables at start + step*direction (projected, for orthant-wise search) with the objective and gradient evaluated there, and that step satisfies the sufficient-decrease condition and, when requested, the curvature condition; otherwise it reports an error code and the solver restores the previous point. '
     'The first backtracking search starts with a step of length one and later ones with the full quasi-Newton step; backtracking shrinks the step after an insufficient decrease, never tries another step after one outside the configured minimum and maximum, and no search uses more trials than configured; a More-Thuente search returns a step within the bounds that satisfies both conditions or an error. '
     'An objective that is not a number is never accepted, and the solver stops before any step exactly when the start already satisfies its gradient tolerance.',
     ['inputs', 'configurations', 'histories'], 'every objective/gradient sequence returned by the callback and every parameter value, within the trial bound',
     'Tests only run smooth convex problems where the first trial step is accepted.',
     ['liblbfgs/lbfgs.c'],
     [('line_search_backtracking', 'liblbfgs/lbfgs.c'), ('line_search_backtracking_owlqn', 'liblbfgs/lbfgs.c'), ('line_search_morethuente', 'liblbfgs/lbfgs.c')])

prop('C33', 'Synthetic data generators return the parameters that generated the data',
     'The linear and Poisson generators return a response whose noiseless part is exactly features times the returned coefficients plus the returned intercept; exactly the requested number of coefficients are informative, given coefficients are used unchanged, and the noise variance is the signal variance divided by the signal-to-noise ratio. '
     'The classification generator draws each label from the class probabilities implied by the returned weights and intercept, with the requested number of zeroed features, shared across classes when asked.',
     ['inputs', 'configurations'], 'every random draw sequence and size within the bound',
     'Tests check shapes and one sparsity count on single draws.',
     ['src/pyuoi/datasets/__init__.py'],
     [('make_linear_regression', 'src/pyuoi/datasets/__init__.py'), ('make_classification', 'src/pyuoi/datasets/__init__.py'), ('make_poisson_regression', 'src/pyuoi/datasets/__init__.py')])

prop('C34', 'Results are a function of the random state alone',
     'With an integer or generator random state, every random choice of an estimator (splits, resamples, column sampling, factorization starts, generated data) is drawn from that state and never from a global or freshly seeded generator, in an order fixed by the settings; the bootstraps of one fit use successive, not repeated, draws. '
     'Distributed ranks given an integer seed use distinct streams, and only the root\'s draws define the splits.',
     ['inputs', 'histories', 'configurations'], 'every seed and draw sequence within the bound, every estimator and generator',
     'Tests compare two runs of a few estimators with one seed; hidden unseeded generators elsewhere do not change their outcome.',
     [LM + 'base.py', DC + 'CUR.py', DC + 'utils.py', DC + 'NMF.py', 'src/pyuoi/datasets/__init__.py'],
     [('random_state handling', 'src/pyuoi')])

prop('C35', 'Constant and degenerate responses give the constant model',
     'When the response is constant, fitting succeeds with all coefficients zero, and an intercept-bearing linear or Poisson model predicts that constant for every row (zero for an all-zero count response, without NaN); without an intercept the intercept stays zero. '
     'Data with a single feature, a single regularization value or a single threshold are fitted like any other, with coefficients of the usual one-per-feature shape.',
     ['inputs', 'configurations'], 'every constant response value, feature matrix and degenerate size within the bound',
     'Tests cover constant responses for two models with an intercept and never use one feature or one regularization value.',
     [LM + 'base.py', LM + 'poisson.py', LM + 'utils.py'],
     [('fit (constant branch)', LM + 'base.py'), ('Poisson.fit', LM + 'poisson.py')])

prop('C36', 'Estimator settings survive get and set; invalid settings are refused',
     'Constructing an estimator stores each setting so that reading the parameters back returns what was given and setting a parameter changes exactly that setting, reaches the solvers as if it had been given at construction, and returns the estimator; where a setting stands for something documented (an integer seed of a linear model, an integer or defaulted NMF setting) what it stands for is read back. '
     'Unknown metrics, targets, multi-class modes, penalties, solvers and parameter names are refused with an error, at the latest when fitting, rather than ignored.',
     ['configurations', 'inputs'], 'every documented setting value of the decomposition estimators and base solvers, symbolic settings',
     'Tests read back only a few settings of a few estimators.',
     [DC + 'NMF.py', LM + 'lasso.py', LM + 'poisson.py', LM + 'logistic.py'],
     [('get_params/set_params', DC + 'NMF.py'), ('PycLasso.set_params', LM + 'lasso.py'), ('constructors', LM)])

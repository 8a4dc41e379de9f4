P = 'pyforecaster/'
PROPS = []
NOT_APPLICABLE = {}


def prop(id, title, statement, quant, why, files, mech, tech, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why,
                      files=[P + f for f in files], mech=[(n, P + w) for n, w in mech], tech=tech, **k))


prop('C01', 'Every generated feature or target covers exactly the window its metadata states',
     """A lagged, aggregated or binned column holds, at every row, the stated function of exactly the samples in the time window that
     the column's metadata (variable, function, lag, start and end time) and its name describe, and is undefined exactly where that window leaves the data.
     Non-negative lags therefore never read a later sample. Metadata obtained by simulation equals the metadata of the real transform, and transforming
     again gives the same columns.""",
     'every data value, every lag pair in the bounds, aggregation lengths, bin layouts, sampling times, nested and flat bins, relative lags',
     'tests only run the transforms and look at shapes or plots; off-by-one windows or metadata attached to the wrong column are invisible to them',
     ['formatter.py'], [('lag and window algebra', 'formatter.py:Transformer.transform'), ('binned statistics', 'formatter.py:Reducer.reduce'), ('simulation', 'formatter.py:Formatter._simulate_transform')],
     'symbolic data; lags and aggregation lengths forked by the solver')

prop('C02', 'Supervised tables are aligned, complete and consistent at prediction time',
     """The transformed features and targets share exactly the rows whose feature windows and targets lie inside the (non-missing) data, with
     the features, targets, original variables and calendar features of that very row; the input is not modified. At prediction time the same rows get the same
     feature columns and values, and the most recent rows are included. Features never depend on later samples, and in the stacked (global) form each block is the transform of its own signal.""",
     'every data value, lag and horizon in the bounds, missing cells in any variable, naive and DST time zones, serial and parallel transformation',
     'tests check absence of missing values and shapes on one random frame, so rows shifted against each other or dropped recent rows pass',
     ['formatter.py'], [('row selection', 'formatter.py:Formatter._transform'), ('calendar features', 'formatter.py:Formatter.add_time_features'), ('stacking', 'formatter.py:Formatter.global_form_preprocess')],
     'symbolic data, lags and horizons')

prop('C03', 'Time-series cross-validation folds are disjoint, separated and cover the data',
     """In every fold, training and test samples are disjoint and further apart than the longest look-back of any feature; test samples are
     one block of consecutive samples, and nothing outside the test window and its dead band is withheld from training. The folds number folds times multiplier, with
     multiplier one they tile the time span in equal windows, and every sample is tested at least once. A dead band longer than a fold is refused.""",
     'every increasing sequence of sample times in the bounds, every look-back shorter than half a fold, fold counts and multipliers',
     'tests only check that some samples are skipped in each fold of one regular index',
     ['formatter.py'], [('fold construction', 'formatter.py:Formatter.time_kfcv')], 'symbolic sample times and look-backs')

prop('C04', 'Target normalisation touches only its variable and is exactly undone',
     """With a normalising expression set, targets and features derived from the normalised variable are replaced by the
     expression evaluated with the normalisers of their own row, and every other column, the raw variables and the input are left as they were, at training and at prediction time alike.
     Denormalising normalised targets returns the original targets, and arbitrary forecasts (plain or quantile tables) are mapped back row by row, label
     by label, without modifying the caller's tables.""",
     'every data and forecast value, two expressions, one or two target variables, table orders',
     'the tests sum signed round-trip errors of one random frame; wrong scope cancels out in the round trip',
     ['formatter.py'], [('normalisation', 'formatter.py:Formatter.normalize'), ('inverse', 'formatter.py:Formatter.denormalize')], 'symbolic data and forecasts')

prop('C05', 'Pruning features for a step ahead keeps exactly the features the rule selects',
     """The periodic rule keeps a feature iff its window start or end precedes the target's by a whole number of periods up to the tolerance; the
     up-to rule keeps a feature iff its window ends no later than the target's. Requested last lags, features ending within the requested number of
     seconds of the present (and not after the target) and extra columns are kept in addition, all values and the column order stay as they were.""",
     'every window position and length to the second within three days, every target position',
     'the tests draw a heat map of the kept columns without asserting anything',
     ['formatter.py'], [('selection rule', 'formatter.py:Formatter.prune_dataset_at_stepahead')], 'symbolic window bounds')

prop('C06', 'Capped post-fit rows are an aligned, repeatable sample without duplicates',
     """With a cap below the number of rows, residuals, scenario fitting and residual quantiles use exactly the capped number of distinct rows, features and
     targets aligned and in time order, drawn without replacement and, for time-indexed data, in proportion to the share of each hour of day; with
     a cap at or above it all rows are used. The draw depends only on the seed (explicit, else the model's integer seed, else zero), and invalid caps
     or misaligned inputs are refused.""",
     'every outcome of the random draws, every cap, hour layouts with rare, repeated and unsorted hours',
     'tests see one draw of the generator per configuration; shortfalls and over-allocations need rare draws',
     ['forecaster.py'], [('stratified draw', 'forecaster.py:ScenarioGenerator._subsample_stratified_by_hour'), ('cap', 'forecaster.py:ScenarioGenerator._maybe_subsample_for_scengen')],
     'random draws replaced by arbitrary allowed outcomes')

prop('C07', 'Quantile forecasts are the point forecast plus residual quantiles of their hour',
     """For every forecaster that derives quantiles from residuals, the quantile forecast of a row is the row's point
     forecast plus the empirical quantiles (linear interpolation) of the validation residuals of the same hour of day, or of
     all validation residuals when conditioning on the hour is off or some hour was never seen. The residuals are target
     minus prediction, per target column, on the held-out validation rows only; the quantiles are ordered by level, and
     the forecast of a row does not depend on the rows predicted with it, and the probability mass sums to one.""",
     'every residual value, every prediction value, every hour of the predicted rows, both conditioning modes, any level in the checked sets',
     'tests sample a few fits and assert shapes or scores; a wrong residual sign, a wrong hour, or residuals leaking from training rows still gives plausible bands',
     ['forecaster.py', 'forecasting_models/gradientboosters.py', 'forecasting_models/random_fourier_features.py', 'forecasting_models/benchmarks.py'],
     [('residual bookkeeping', 'forecaster.py:ScenarioGenerator.fit'), ('quantile assembly', 'forecaster.py:LinearForecaster._predict_quantiles'),
      ('probability mass', 'forecaster.py:ScenarioGenerator.predict_pmf')],
     'symbolic targets, predictions and residuals; regressors replaced by arbitrary functions')

prop('C08', 'Quantile predictions keep their (row, step, level) position in every form',
     """Converting a quantile tensor (rows x steps x levels) to the labelled two-level table and back returns the same tensor, and asking
     for a table or a tensor returns the same number at the same row, step and level. Forests of any mix of per-step and
     multi-step models place each model's prediction at its own row, step and level, including for a single row, a
     single target or a single level; a part of a table is converted like a whole one.""",
     'every tensor value, all sizes up to the stated bounds including size one on every axis',
     'tests use one generic size; the axis mix-ups only show for sizes one or equal sizes, or go unnoticed because shapes agree',
     ['forecaster.py', 'forecasting_models/randomforests.py', 'utilities.py'],
     [('tensor to table', 'forecaster.py:ScenarioGenerator.quantiles_to_df'), ('table to tensor', 'forecaster.py:ScenarioGenerator.quantiles_to_numpy'),
      ('forest assembly', 'forecasting_models/randomforests.py:QRF.predict')],
     'symbolic tensor entries; forests replaced by arbitrary functions')

prop('C16', 'Point-forecast scores equal their definitions, in every aggregation',
     """RMSE, MAPE and NMAE equal their textbook definitions for each aggregation group (per sample label, per step
     label, or all rows), are non negative, and are zero exactly for perfect forecasts. Summary scores and scorer objects report exactly the
     metric of the selected rows, with the requested labels (continuous ones by quantiles), and tables and plain arrays of the same numbers give the same scores; the caller's tables are not modified.""",
     'every value of forecast and target, every assignment of aggregation labels within the bounds',
     'tests check a handful of random frames against nothing but shape; swapped axes, wrong groups or a missing root pass',
     ['metrics.py'], [('metrics', 'metrics.py:rmse/mape/nmae'), ('axis choice', 'metrics.py:chose_axis'), ('summary', 'metrics.py:summary_scores')],
     'symbolic forecasts, targets and labels')

prop('C17', 'Quantile scores, CRPS and reliability equal their definitions',
     """The quantile score of each level is the pinball loss (level-weighted under- and over-shoot) averaged over the requested group, in table
     or tensor form; it is never negative and defaults to evenly spaced levels over [0, 1]. CRPS is the average of those losses over the
     levels, zero exactly when every quantile sits on the target. Reliability is the fraction of targets strictly below each predicted
     quantile, optionally minus the level.""",
     'every forecast, target and level value within the bounds; every aggregation labelling',
     'tests compare scores only on random data and only for finiteness; sign or weight errors for one side of the loss are invisible',
     ['metrics.py'], [('pinball', 'metrics.py:quantile_scores'), ('crps', 'metrics.py:crps'), ('reliability', 'metrics.py:reliability')],
     'symbolic forecasts, targets and levels')

prop('C09', 'Learners are trained on the earliest rows, residuals come from the last ones',
     """With a validation share, every learner is trained on exactly the earliest rows, in order, each step's learner on that step's targets, stacked
     multi-step training rows pairing features, step number and target of the same row, and sample weights accompanying their rows. The post-fit residuals
     come from exactly the last rows (all rows without a share), and point forecasts put each learner's output at its own row and step. The caller's tables are not modified.""",
     'every target value, every validation share, any number of single-step models, any bootstrap draw',
     'a model evaluated on rows it was trained on still passes tests that look at shapes and scores; the leak only shows as intervals that are too narrow',
     ['forecaster.py', 'forecasting_models/gradientboosters.py', 'forecasting_models/randomforests.py', 'forecasting_models/random_fourier_features.py', 'forecasting_models/benchmarks.py'],
     [('split', 'forecaster.py:ScenarioGenerator.train_val_split'), ('stacked training rows', 'forecasting_models/gradientboosters.py:LGBMHybrid.fit')],
     'symbolic targets, shares and learner outputs')

prop('C10', 'Refitting starts from scratch and hyper-parameters reach the learner',
     """A forecaster fitted again, also on data with other rows or targets, gives the point and quantile forecasts and residuals of a fresh
     instance fitted on the new data only, and predicting never changes later forecasts. The learner receives every hyper-parameter given to the constructor,
     or through set_params for the next fit; get_params returns them, and rebuilding from get_params preserves them.
     The settings of the residual model and of the scenario generator given to the constructor of any forecaster are the ones it uses.""",
     'every pair of training targets, every pair of values of every numeric hyper-parameter',
     'tests fit each instance once; stale learners give plausible forecasts from the old data, and ignored hyper-parameters only make tuning useless',
     ['forecaster.py', 'forecasting_models/gradientboosters.py', 'forecasting_models/randomforests.py', 'forecasting_models/random_fourier_features.py', 'forecasting_models/benchmarks.py'],
     [('refit', 'forecaster.py:LGBForecaster.fit'), ('parameters', 'forecaster.py:ScenarioGenerator.set_params')],
     'symbolic targets and hyper-parameters; learners that depend on all their training data')

prop('C11', 'Scenarios are the quantile curves evaluated at draws of their hour\'s copula',
     """A scenario value at (row, step, scenario) is the piecewise-linear quantile curve of that row and step (end segments prolonged) at the
     copula draw of that position, so ordered draws give ordered values and draws within the levels stay within the quantiles. Each row is drawn from the
     correlation matrix (unit variances) estimated on the residuals of its hour, for any number of rows, steps and scenarios including one. A requested first node is the given observation.""",
     'every quantile and draw value, sizes one to three on every axis, all table forms, all covariance methods',
     'tests draw scenarios with one size and look at plots; transposed draws, wrong hours or non-uniform margins still look like scenarios',
     ['scenarios_generator.py', 'copula.py', 'forecaster.py'],
     [('inverse transform', 'scenarios_generator.py:interp_scens'), ('hourly draws', 'copula.py:HourlyGaussianCopula.sample'), ('estimation', 'copula.py:HourlyGaussianCopula.fit')],
     'symbolic quantiles and draws; library estimators replaced by arbitrary matrices')

prop('C12', 'Scenario reduction returns a valid probability tree of the samples',
     """Reducing scenarios with requested node counts gives a tree with exactly those counts per step, one root of probability one,
     probabilities that sum to one at every step and split among children, every branch reaching the last step, and node values taken from the
     samples at that step. The merged scenario is always the one with the least probability times distance to its nearest. Adding a forecast shifts each node by the forecast of its step and leaves stored trees untouched.""",
     'every positive distance matrix between scenarios, every node count vector in the bounds, tolerance-driven reduction',
     'tests build one tree per configuration and check that no exception is raised',
     ['scenred.py', 'scenarios_generator.py'],
     [('reduction', 'scenred.py:scenred'), ('graph', 'scenred.py:_get_network'), ('shift', 'scenred.py:superimpose_signal_to_tree')],
     'symbolic distances: every merge order is a path')

prop('C13', 'Forecast trees have the requested shape and come from their own row and hour',
     """Trees have the requested node counts however they are given (constructor, call, one step short), or valid default counts; quantile trees hold at each
     node quantiles of the scenarios of the node's own step. With online reduction there is one tree per row built from that row's scenarios, with
     pre-fitted trees it is the residual tree of the row's hour plus the row's forecast. Repeated calls give the same trees and no argument or stored tree is modified.""",
     'every scenario, residual and forecast value in the bounds, any scenario count including those equal to the number of steps',
     'tests plot the trees; values lagging by one step or trees of another hour go unnoticed',
     ['tree_builders.py', 'scenarios_generator.py'],
     [('initial tree', 'tree_builders.py:ScenarioTree.gen_init_tree'), ('node values', 'tree_builders.py:ScenarioTree.init_vals'), ('prediction', 'scenarios_generator.py:ScenGen.predict_trees')],
     'symbolic scenarios, residuals and forecasts')

prop('C14', 'Reconciled forecasts are coherent, optimal and labelled with their own series',
     """Whatever matrices are estimated, reconciled forecasts add up along the hierarchy and carry the labels of the input. minT and dummy give the coherent forecast
     closest to the base one in the metric of the error precision and leave coherent forecasts unchanged; bayes is the gaussian update of the bottom forecasts by the aggregated ones.
     Each aggregation has a model of its own rows, the bottom series share one, and each step ahead is reconciled with the errors of its own step, in any order of the series.""",
     'every base forecast, every covariance matrix (coherence), any order of series at fitting and prediction',
     'tests only check that mean KPIs do not get much worse',
     ['reconciliation/reconciliation.py'],
     [('matrices', 'reconciliation/reconciliation.py:HierarchicalReconciliation.fit_reconciliation'), ('projection', 'reconciliation/reconciliation.py:HierarchicalReconciliation.reconcile'), ('per-step fit', 'reconciliation/reconciliation.py:HierarchicalReconciliation.fit')],
     'symbolic covariances, inverses and forecasts')

prop('C15', 'Hierarchical scenarios, quantiles, levels and KPIs follow each series',
     """For every tree of series the flattened hierarchy and summation matrix hold exactly the leaves below each aggregation and levels are distances from the root. A scenario is the
     forecast plus the errors that one training row of the same hour of day has in all series and steps (reconciled errors for reconciled forecasts, base errors for vanilla), so coherent targets give coherent scenarios.
     Quantiles are those of the scenarios of their series and step, and KPIs compare each series with its own target.""",
     'every tree in the bounds, every target, forecast and bootstrap draw',
     'tests run one hierarchy on its own training set and look at level averages',
     ['reconciliation/reconciliation.py'],
     [('structure', 'reconciliation/reconciliation.py:HierarchicalReconciliation.unroll_dict'), ('scenarios', 'reconciliation/reconciliation.py:HierarchicalReconciliation.predict_scenarios'), ('KPIs', 'reconciliation/reconciliation.py:HierarchicalReconciliation.compute_kpis')],
     'all bootstrap draws are symbolic choices; symbolic errors and forecasts')

prop('C18', 'Memory reduction and parallel execution do not change any result',
     """Reducing memory keeps integers exactly and floats to single precision, never overflowing, with missing values, labels and layout unchanged. Applying a function
     over pieces of a frame (ray or process pool, rows or columns, any number of pieces) gives values and labels of applying it to the whole. Parallel global-form tables equal serial ones, their column order
     does not depend on the process, features reordered by correlation keep their signal\'s order at prediction, and parallel trees come back in row order.""",
     'every value, minimum and maximum of the machine types, every split and set iteration order',
     'tests only time these functions; a lost piece or permuted label depends on the number of processors or the hash seed',
     ['big_data_utils.py', 'formatter.py', 'scenarios_generator.py'],
     [('dtype reduction', 'big_data_utils.py:reduce_mem_usage_series'), ('parallel map', 'big_data_utils.py:fdf_parallel'), ('global form', 'formatter.py:Formatter.global_form_postprocess')],
     'symbolic casts; processor counts, splits and hash orders are symbolic choices')

prop('C19', 'Random-feature and boosted regressions forecast what their definition says',
     """Random-feature regressions forecast with a linear model of the cosine features cos(xW + b) of the scaled row, with one and the same projection for training and prediction,
     of the requested size and width; additive ones sum linear models each trained on what the previous ones leave. The boosted binned regression forecasts, for any row, the
     learning rate times the sum over the rounds of the mean error of the training rows in the row's bin of the feature that leaves the least error, nothing where the bin is empty.
     The forecast of a row does not depend on the other rows, and rows, columns and the caller's tables are kept.""",
     'every projection, width and target value; rows inside, between and outside the training values',
     'tests print the error of one fit; a value that falls in an empty bin or another projection at prediction time does not appear in them',
     ['forecasting_models/random_fourier_features.py'],
     [('random features', 'forecasting_models/random_fourier_features.py:RandomFFRegressor'), ('boosted bins', 'forecasting_models/random_fourier_features.py:BrutalRegressor')],
     'symbolic projections and targets, uninterpreted cosine, linear models that record their training sets')

prop('C20', 'Benchmarks forecast what their definition says, for the row they are asked for',
     """Persistence repeats the last observation, seasonal persistence the observation one season before each step, the discrete distribution the training distribution of the step\'s
     time of day, and the statsmodels wrapper the forecast made right after the observation of its row. This holds for every step ahead, sampling time and index, and the state carried into
     prediction is the data that ends where the prediction rows begin. Columns are the targets in their order, rows those of the features.""",
     'every series value, season length, number of steps and sampling time in the bounds',
     'tests run the benchmarks on one dataset and plot them; a forecast that is late by one step looks plausible',
     ['forecasting_models/benchmarks.py', 'forecasting_models/statsmodels_wrapper.py'],
     [('seasonal persistence', 'forecasting_models/benchmarks.py:SeasonalPersistent'), ('discrete distribution', 'forecasting_models/benchmarks.py:DiscreteDistr'), ('statsmodels', 'forecasting_models/statsmodels_wrapper.py')],
     'symbolic series, statsmodels results replaced by arbitrary forecasts')

prop('C21', 'Holt-Winters follows its equations, is causal and refits from scratch',
     """From any state level, trend, both seasons and forecasts follow additive exponential smoothing; a missing observation counts as its own forecast; bounds on the seasons hold.
     Predicting in consecutive pieces equals predicting at once. Residuals and error quantiles are observation minus the forecast that is returned. Refitting forgets the previous states.
     The multi-horizon model takes each step and its errors from the first submodel reaching it, and tuning returns the parameters of a trial with the least score.""",
     'every state, observation and (for one step) smoothing coefficient; every score of the trials',
     'tests fit one series and plot; wrong states after a cut or a wrong trial look like an average forecast',
     ['forecasting_models/holtwinters.py'],
     [('recursion', 'forecasting_models/holtwinters.py:run'), ('residuals', 'forecasting_models/holtwinters.py:HoltWinters.fit'), ('multi', 'forecasting_models/holtwinters.py:HoltWintersMulti.predict'), ('tuning', 'forecasting_models/holtwinters.py:tune_hyperpars')],
     'real-arithmetic recursion unrolled with symbolic states')

prop('C22', 'Kalman and Fourier forecasters continue their history and mix experts convexly',
     """The Kalman step is the gaussian conditional mean and covariance. The window holds the last observations across calls. Fitting and then predicting gives the forecasts of one pass
     over the whole series, each depending only on rows up to its own; predicting is repeatable. A periodic signal within the harmonics is continued exactly. Residuals and error quantiles compare observations with the
     returned forecasts. The multi-model combines its experts with convex weights given by their errors at the last observation. Copies and stored models forecast like the original.""",
     'every series value, coefficient, phase and cut; every expert forecast',
     'tests plot the forecasts of one series; a lost phase or state gives plausible curves',
     ['forecasting_models/fast_adaptive_models.py', 'utilities.py'],
     [('kalman', 'utilities.py:kalman'), ('fourier', 'forecasting_models/fast_adaptive_models.py:Fourier_es.run'), ('fourier kalman', 'forecasting_models/fast_adaptive_models.py:update_predictions'), ('experts', 'forecasting_models/fast_adaptive_models.py:FK_multi.run')],
     'linear recursions over symbolic series; ordered exponentials for the weights')

prop('C23', 'Causal invertible networks invert exactly and forecast from the past only',
     """The flow that maps targets to latent variables and back is a bijection: decoding the encoding of any value returns it, layer by layer and end to end, for every weight and condition, also for
     values so large that the activations saturate. Forecasts are decoded latent forecasts, never depend on the targets of their own row, and come back with the rows and columns they were asked for.""",
     'every weight, condition and value in the bounds, all the activations that have an inverse, one to four variables',
     'tests train one network and check the inversion within a loose tolerance on the training data',
     ['forecasting_models/neural_models/INN.py', 'forecasting_models/neural_models/layers.py'],
     [('invertible layer', 'forecasting_models/neural_models/layers.py:CausalInvertibleLayer'), ('network', 'forecasting_models/neural_models/INN.py:CausalInvertibleModule'), ('wrapper', 'forecasting_models/neural_models/INN.py:CausalInvertibleNN.predict')],
     'jaxpr of the real modules interpreted over symbolic weights and inputs')

prop('C24', 'Convex networks are convex, or monotone, in their controls after training',
     """Whatever the exogenous inputs, the trained network is convex in the controls (increasing for the monotone variants): the weights that give the shape are not negative after every step and all the
     others are as trained. Controls and exogenous inputs reach the network in the order of the model, only the requested ones scaled; optimised controls come back in their own units and columns with the forecast
     of that table. Variances are positive, bounded outputs stay in their bounds and the causal penalty is the mean sensitivity to the controls that must not matter.""",
     'every trained weight, control, exogenous input, scaling and iterate of the optimisation; every causal table',
     'tests train a few networks and plot sections of them; a lost projection or swapped columns still trains',
     ['forecasting_models/neural_models/ICNN.py', 'forecasting_models/neural_models/layers.py', 'forecasting_models/neural_models/neural_utils.py'],
     [('layer', 'forecasting_models/neural_models/layers.py:PICNNLayer'), ('projection', 'forecasting_models/neural_models/neural_utils.py:reproject_weights'), ('control optimisation', 'forecasting_models/neural_models/ICNN.py:PICNN.optimize')],
     'jaxpr of the real modules interpreted over symbolic weights and inputs; inductive step per layer')

prop('C25', 'Neural forecasters train on aligned rows and forecast in the units of the target',
     """Networks see the features of their own row, scaled only where requested, and forecasts and standard deviations come back in the units, rows and columns of the target. Quantiles are gaussian around the forecast
     or the forecast plus the error quantiles of the hour. Each epoch uses distinct training rows, with their targets; training stops when the validation loss stops improving and keeps the previous weights if the
     last ones are worse. Residuals belong to the validation rows. Losses, gradients and options of the network are what they say; recurrent samples are past windows and the values that follow.""",
     'every feature, target, scaling, network output, variance and sequence of losses; batch sizes, validation shares, histories and horizons in the bounds',
     'tests train small networks and plot the forecasts; misaligned batches or wrong units still give plausible curves',
     ['forecasting_models/neural_models/base_nn.py', 'forecasting_models/neural_models/LSTM_bidir.py'],
     [('training loop', 'forecasting_models/neural_models/base_nn.py:NN.fit'), ('prediction', 'forecasting_models/neural_models/base_nn.py:NN.predict'), ('windows', 'forecasting_models/neural_models/LSTM_bidir.py:LSTM_Forecaster.fit')],
     'symbolic data, losses and network outputs; jaxpr of the modules interpreted over terms')

prop('C26', 'Categorical features keep one code per category from training to prediction',
     """Models that accept categorical features tell the categories apart, use at prediction time the codes of the training set whatever rows they are given, refuse categories that were not in the training set, and
     start from scratch when they are fitted again. All the other features are used as given and the tables of the caller are never modified.""",
     'every assignment of categories to rows in the bounds, object and categorical columns, every target and model output',
     'no test has categorical features',
     ['forecaster.py', 'forecasting_models/randomforests.py'],
     [('encoding', 'forecaster.py:encode_categorical'), ('linear', 'forecaster.py:LinearForecaster.predict'), ('forest', 'forecasting_models/randomforests.py:QRF.predict')],
     'categories chosen by the solver, models replaced by arbitrary functions of their row')

prop('C27', 'Cross validation and tuning score each fold out of sample',
     """The score of a model is the mean over the folds of the metric (the first, or the requested one) of the model fitted on the training part and evaluated on the test part of that fold; random folds use both
     parts of one and the same fold. Folds are positions, may be given as any iterable, and stored targets and forecasts are those of the test rows. Tuning gives the model the suggested parameters, refuses unknown ones,
     minimises the score and keeps one result for each trial.""",
     'every forecast, target and suggested parameter; folds, metrics, indexes and forms of the folds in the bounds',
     'tests run a few trials and look only at the best score',
     ['trainer.py'],
     [('cross validation', 'trainer.py:cross_validate'), ('objective', 'trainer.py:optuna_objective'), ('tuning', 'trainer.py:hyperpar_optimizer')],
     'forecasts are free variables indexed by fold, row and target')

prop('C28', 'Models of normalised targets forecast in the units of the original target',
     """When the formatter of a model has normalising expressions, point forecasts and quantiles come back in the original units, each row with its own normalisers,
     residuals and error quantiles are original targets minus these forecasts, and standard deviations of networks are only scaled. Forecasts keep the rows, columns and levels asked for, and no
     table of the caller is modified. This holds for every kind of forecaster.""",
     'every target, forecast and normaliser; two affine expressions; all the forecasters that accept a formatter',
     'tests with normalised targets use one model and sum signed errors, forecasts left in the normalised units give plausible curves',
     ['forecaster.py', 'forecasting_models/gradientboosters.py', 'forecasting_models/randomforests.py', 'forecasting_models/random_fourier_features.py', 'forecasting_models/neural_models/base_nn.py'],
     [('inverse', 'forecaster.py:ScenarioGenerator.anti_transform'), ('residuals', 'forecaster.py:ScenarioGenerator.fit')],
     'learners replaced by arbitrary functions of row, step and level; symbolic normalisers')

prop('C29', 'Stored, reloaded and copied models and formatters behave like the original',
     """A network that is saved and loaded in a model made with defaults has the forecasts, standard deviations, quantiles, scenario generator and settings (levels, hourly errors, formatter, scaling,
     network options, control optimiser) of the saved one. Deep copies and pickles of tabular forecasters, benchmarks, Holt-Winters and formatters give the same forecasts, quantiles, states and
     tables, and fitting or using a copy never changes the original.""",
     'every weight, scaling, error quantile, target and feature in the bounds, settings away from their defaults; all the classes that can be saved',
     'the only test of stored networks compares constructor parameters of an untrained one; lost state shows up later, at prediction',
     ['forecasting_models/neural_models/base_nn.py', 'forecasting_models/neural_models/ICNN.py', 'forecasting_models/neural_models/INN.py', 'forecaster.py', 'formatter.py'],
     [('saving', 'forecasting_models/neural_models/base_nn.py:NN.get_serializable_properties'), ('loading', 'forecasting_models/neural_models/base_nn.py:NN.load'),
      ('control optimiser', 'forecasting_models/neural_models/ICNN.py:PICNN.__init__')],
     'networks interpreted from their jaxpr; pickles in a scratch folder')

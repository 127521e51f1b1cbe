"""Writes ../properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["pymcmcstat/" + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Metropolis steps accept exactly with the posterior-ratio probability",
 "In every simulation with one try per iteration, the candidate is the current point plus a Gaussian step with the current proposal covariance, and it replaces the current point if and only if the uniform number drawn is below min(1, exp(-1/2 [sum_j (SS_j(candidate) - SS_j(current))/sigma2_j + prior(candidate) - prior(current)])). "
 "The sum-of-squares and prior of the current point, and the error variance(s) in force in that iteration, are used. "
 "The Gaussian prior uses each sampled parameter's own mean and standard deviation (a NaN mean means the initial value; a standard deviation that is zero, negative or infinite means no prior), and a user-supplied prior function replaces it. A candidate whose sum-of-squares is infinite or not a number is never accepted.",
 ["inputs", "histories", "configurations"],
 "every sequence of Gaussian draws and accept/reject outcomes, every prior, number of sampled parameters, number of error variances, with and without error-variance updating",
 "tests evaluate single helper calls with one pair of sets; none checks the decision along a chain, with several variances, priors on a subset of sampled parameters, or after a rejection or a variance update",
 ["samplers/Metropolis.py", "samplers/utilities.py", "procedures/PriorFunction.py", "procedures/SumOfSquares.py", "MCMC.py"],
 [("run_metropolis_step", "samplers/Metropolis.py"), ("log_posterior_ratio_acceptance_test", "samplers/utilities.py"), ("evaluate_prior", "procedures/PriorFunction.py")],
 ["results['chain']", "results['sschain']", "arguments the user's sum-of-squares and prior functions receive"])

prop("C02", "Delayed rejection accepts each stage with the n-stage acceptance formula",
 "With n tries per iteration (methods dr and dram), stage k is tried only after stages 1..k-1 were rejected, its candidate is the iteration's starting point plus a Gaussian step with the stage-k proposal, and it is accepted if and only if the uniform number drawn is below the k-stage delayed-rejection acceptance probability that keeps detailed balance (posterior ratio times ratio of the proposal densities and of the rejection probabilities of the reversed and the forward path). "
 "An accepted stage makes its candidate the new point together with its own sum-of-squares and prior; when all stages are rejected the point stays. A candidate whose sum-of-squares is infinite or not a number has probability zero, in the forward and in the reversed path.",
 ["inputs", "histories", "configurations"],
 "every sequence of Gaussian draws and accept/reject outcomes for 2, 3 and 4 tries, with candidates inside and outside the limits at every stage, one or two error variances, correlated proposals",
 "tests call the acceptance function with two or three hand-made sets; paths with 3 or 4 stages, out-of-limits stages in the middle, or non-diagonal proposals are never compared with the formula",
 ["samplers/DelayedRejection.py", "samplers/utilities.py", "MCMC.py"],
 [("run_delayed_rejection", "samplers/DelayedRejection.py"), ("alphafun", "samplers/DelayedRejection.py"), ("nth_stage_log_proposal_ratio", "samplers/DelayedRejection.py")],
 ["results['chain']", "results['iacce']", "calls of the user's sum-of-squares function"])

prop("C03", "Parameter limits are never violated and fixed parameters never move",
 "No chain element ever lies outside the limits of any sampled parameter, and the user's model, sum-of-squares and prior functions are never evaluated there; limits themselves are allowed values, and a candidate outside is rejected (or handed to the next delayed-rejection stage). "
 "Parameters that are not sampled keep their value in every evaluation, and a simulation whose limits are incompatible or whose initial values lie outside refuses to start.",
 ["inputs", "histories", "configurations"],
 "all patterns of candidates below, on, between and above each limit of each parameter, all subsets of sampled parameters, all methods, before and after adaptation, in serial, continued and parallel simulations",
 "tests check the bounds helper on a few arrays, not that every evaluation and chain row of a run respects per-parameter limits with skipped parameters",
 ["samplers/utilities.py", "samplers/Metropolis.py", "samplers/DelayedRejection.py", "settings/ModelParameters.py", "ParallelMCMC.py"],
 [("is_sample_outside_bounds", "samplers/utilities.py"), ("set_outside_bounds", "samplers/utilities.py"), ("_check_parameter_limits, _check_initial_values_wrt_parameter_limits", "settings/ModelParameters.py")],
 ["results['chain']", "arguments of the user's functions", "results['rejected_outside_bounds']", "SystemExit on start"])

prop("C04", "Chain, sum-of-squares chain and counters tell one consistent story",
 "The results hold exactly nsimu rows whose first row is the initial point, every row of the sum-of-squares chain is the user's sum-of-squares at that row's parameter values, and every row is either the previous row or a candidate that was evaluated. "
 "The reported rejection fractions (total, and outside limits), stage acceptance counts, final parameter values, names, indices and limits agree with the rows.",
 ["inputs", "histories", "configurations"],
 "all accept/reject histories, methods, subsets of sampled parameters, numbers of error variances",
 "tests only look at shapes or a fixed seed; no test recomputes the sum-of-squares of each row or recounts the rejections",
 ["MCMC.py", "structures/ResultsStructure.py"],
 [("__update_chain, __execute_simulator", "MCMC.py"), ("add_basic, add_dram", "structures/ResultsStructure.py")],
 ["results dictionary after run_simulation"])

prop("C05", "Adaptation uses the covariance of the whole chain history, exactly",
 "With adaptation every adaptint iterations (methods am and dram), the proposal covariance after an adaptation is the scale factor squared times the sample covariance of all chain elements before the current one (weighted with the initial covariance when a prior weight for it is given), with rows and columns of parameters excluded from adaptation kept at their initial values. "
 "During burn-in the proposal is only scaled down or up when nearly all or nearly no candidates of the interval were rejected; a singular covariance is regularised, or the proposal is left unchanged if that fails; nothing changes between adaptations, after the last adaptation iteration, or for methods without adaptation.",
 ["inputs", "histories", "configurations"],
 "all accept/reject histories over several adaptation intervals, all adaptation intervals, burn-in lengths, prior weights, last-adaptation iterations, subsets of adapting and sampled parameters",
 "tests feed the recursive covariance helper one segment; no test compares the proposal used after several adaptations (recursion, interval boundaries, burn-in) with the chain history",
 ["samplers/Adaptation.py", "procedures/CovarianceProcedures.py", "MCMC.py"],
 [("run_adaptation", "samplers/Adaptation.py"), ("update_covariance_mean_sum", "samplers/Adaptation.py"), ("below_burnin_threshold", "samplers/Adaptation.py"), ("check_for_singular_cov_matrix", "samplers/Adaptation.py")],
 ["steps of the candidates from the current point", "results['R'], results['qcov'], results['cov'], results['mean']"])

prop("C06", "Delayed-rejection stages follow the current proposal by their scale factors",
 "At every iteration the stage-k proposal of delayed rejection equals the current first-stage proposal divided by the first k-1 scale factors (the last factor repeats when more stages than factors are used), or the user's own stage matrices while no adaptation has taken place. "
 "This holds initially, after every adaptation and after every burn-in rescaling, and the acceptance formula uses the inverses of those same matrices.",
 ["histories", "configurations"],
 "all histories of accept/reject over several adaptation and burn-in intervals, 2 to 5 tries, scale-factor lists shorter and longer than the number of tries, one to three parameters",
 "tests check the factor helper once; no test looks at the stage candidates used after adaptation or burn-in scaling",
 ["samplers/Adaptation.py", "procedures/CovarianceProcedures.py", "samplers/DelayedRejection.py"],
 [("update_delayed_rejection", "samplers/Adaptation.py"), ("__setup_RDR_matrix", "procedures/CovarianceProcedures.py")],
 ["steps of the stage candidates", "results['RDR']", "accept/reject decisions"])

prop("C07", "Error variances are drawn from their exact conjugate conditional",
 "When the error variance is updated, each iteration draws the variance of every data set from the inverse-gamma distribution with shape (N0+N)/2 and scale (N0*S20 + SS)/2, where SS is the sum-of-squares of the point kept in that iteration and N0, S20, N belong to that data set and never change; the draw is what the error-variance chain records and what the next iteration's acceptance uses. "
 "When updating is off, the variance stays at its initial value and no variance chain is produced.",
 ["inputs", "histories", "configurations"],
 "all accept/reject histories and all outcomes of the gamma sampler's internal rejection loop, shapes below and above one, one or two error variances with distinct prior settings and data sizes",
 "tests mock the gamma sampler or check its shape only; none checks shape/scale along a chain, nor that accepted/rejected points and sampler retries are handled",
 ["procedures/ErrorVarianceEstimator.py", "MCMC.py", "settings/ModelSettings.py"],
 [("update_error_variance", "procedures/ErrorVarianceEstimator.py"), ("gammar, gammar_mt", "procedures/ErrorVarianceEstimator.py"), ("_check_dependent_model_settings_wrt_nsos", "settings/ModelSettings.py")],
 ["results['s2chain']", "acceptance of the following iteration", "model settings N0, S20, N after the run"])

prop("C08", "Continuing a simulation extends the chain as if it had not stopped",
 "Running again with the previous results keeps all earlier rows of every chain unchanged and appends exactly nsimu-1 new rows, starting from the last point with its sum-of-squares and error variance, with the parameters' limits, priors (including a mean defaulted to the original initial value) and fixed values unchanged. "
 "Adaptation in the continuation again uses the whole chain, and refusing to continue when there is nothing to continue from leaves no half-made results.",
 ["histories", "configurations"],
 "all sequences of up to three runs with equal or different lengths and methods, all accept/reject outcomes, with and without error-variance updating, logging, fixed parameters",
 "tests run one continuation and look at the chain length; values of the rows, of the start point and of the adaptation are not checked",
 ["MCMC.py", "settings/ModelParameters.py", "samplers/Adaptation.py"],
 [("__setup_simulator, __expand_chains", "MCMC.py"), ("_results_to_params", "settings/ModelParameters.py")],
 ["results dictionary after each run", "calls of the user's functions"])

prop("C09", "Log files read back are exactly the chains, once and in order",
 "For every segment size and chain length, reading the binary or text log files of a simulation (including continued ones and custom chains) returns exactly the rows of the parameter, sum-of-squares and error-variance chains, each once and in order, and the index log lists intervals that partition the rows in order. "
 "The proposal covariance log holds one matrix per saved segment, the proposal in force when that segment was written.",
 ["histories", "configurations"],
 "all segment sizes from 0 to beyond the chain length, all chain lengths up to the bound, more than ten segments, histories with continuations, binary and text, with and without error variance",
 "tests save one or two fixed segments; segment boundaries, more than ten segments, remainders and continuations are not enumerated",
 ["MCMC.py", "chain/ChainProcessing.py"],
 [("__save_to_log_file, __save_chains, __save_covmtx_chain", "MCMC.py"), ("read_in_bin_file, read_in_txt_file, read_in_savedir_files", "chain/ChainProcessing.py")],
 ["files in savedir", "read_in_savedir_files, load_serial_simulation_results, print_log_files"])

prop("C10", "JSON results round-trip, save lightly only when logged, and restart exactly",
 "Results exported to JSON and loaded again give the same chains, covariance, names, limits and settings; chains are left out exactly when they are also logged to binary or text files, and loading then recovers the same chains from the log files. "
 "A simulation restarted from a JSON file starts at the saved final parameter values with the saved proposal covariance, whether or not some parameters are not sampled, and a results file named by the user is the one written and the one read.",
 ["configurations", "histories"],
 "all combinations of JSON, binary, text and light saving, subsets of sampled parameters, error-variance updating, methods, histories run - load - restart - run",
 "tests save and load a toy dictionary; restart with fixed parameters, and the combinations of output options, are not checked against the chain of the run",
 ["structures/ResultsStructure.py", "utilities/NumpyEncoder.py", "chain/ChainProcessing.py", "settings/SimulationOptions.py", "MCMC.py"],
 [("export_simulation_results_to_json_file, export_lightly", "structures/ResultsStructure.py"), ("load_serial_simulation_results", "chain/ChainProcessing.py"), ("check_lightly_save", "settings/SimulationOptions.py"), ("json_restart_file", "MCMC.py")],
 ["json file contents", "load_serial_simulation_results", "first row and first candidate of the restarted run"])

prop("C11", "Parallel chains are independent, isolated and keep their identity",
 "Chain i of a parallel simulation starts at the i-th initial values (given, or generated within the limits), uses its own copy of data, settings and parameters, and writes only its own folder; results, files and loaded results list chain i at position i for any number of chains, whichever worker finishes first and however chains are distributed over workers. "
 "Chains started together do not share a random number stream, the user's serial set-up is left as it was, and restarting picks each chain's own restart file.",
 ["schedules", "configurations", "inputs"],
 "all assignments of chains to workers and completion orders for up to 4 chains on 1 to 3 workers, more than ten chains, all combinations of output formats, given and generated initial values, fixed parameters",
 "tests run two chains once with one schedule; they cannot fix which worker runs which chain, and do not look at more than ten folders or at shared state",
 ["ParallelMCMC.py", "chain/ChainProcessing.py"],
 [("setup_parallel_simulation, run_parallel_simulation", "ParallelMCMC.py"), ("check_initial_values", "ParallelMCMC.py"), ("check_parallel_directory_contents", "chain/ChainProcessing.py")],
 ["parmc[i].simulation_results", "chain_i folders", "load_parallel_simulation_results"])

prop("C12", "Credible and prediction intervals are the quantiles of the right responses",
 "Credible intervals are, point by point, the empirical quantiles of the model evaluated at the selected chain rows (all rows when at least as many samples as rows are requested, otherwise rows selected uniformly from the whole chain), with unsampled parameters at their fixed values and the chain before the burn-in excluded, for two or more samples. "
 "Prediction intervals add to each of these responses Gaussian observation noise whose variance is the error variance of the same chain row and of the data set or column concerned (in linear, square-root or logarithmic scale as requested), and the caller's results and data are left unchanged.",
 ["inputs", "configurations", "histories"],
 "all row selections, burn-in lengths, numbers of batches and columns, mappings of error variances to columns, noise alphabets, with both interval interfaces",
 "tests check shapes of the intervals or mocked helpers; the pairing of parameter rows with variance rows and columns is not checked",
 ["propagation.py", "plotting/PredictionIntervals.py", "plotting/utilities.py"],
 [("calculate_intervals, define_sample_points, check_s2chain, observation_sample, generate_quantiles", "propagation.py"), ("generate_prediction_intervals, _analyze_s2chain", "plotting/PredictionIntervals.py"), ("empirical_quantiles, set_local_parameters", "plotting/utilities.py")],
 ["returned intervals", "arguments of the model function"])

prop("C13", "Chain statistics and diagnostics equal their definitions and leave chains alone",
 "For every chain, the reported mean, standard deviation, batch-mean standard error, Geweke diagnostic, integrated autocorrelation time, Gelman-Rubin factors, empirical quantiles, interquartile range and burn-in selection equal their defining formulas applied to each parameter separately, and the acceptance information counts the chain's distinct rows and stage acceptances. "
 "Computing or displaying them changes neither the chains nor the results passed in.",
 ["inputs", "configurations"],
 "all small-alphabet chains up to the bound, all lengths around the batch and window sizes, one to three parameters, two to four chains, all burn-in percentages of the menu",
 "tests compare a handful of constants; lengths not divisible by the batch size, constant columns, unsorted inputs and input mutation are not covered",
 ["chain/ChainStatistics.py", "chain/ChainProcessing.py", "plotting/utilities.py"],
 [("chainstats, batch_mean_standard_deviation, geweke, integrated_autocorrelation_time, gelman_rubin", "chain/ChainStatistics.py"), ("generate_chain_list, generate_combined_chain_with_index", "chain/ChainProcessing.py"), ("iqrange, empirical_quantiles", "plotting/utilities.py")],
 ["returned statistics", "printed acceptance information", "arrays passed in"])

prop("C14", "Settings resolve to the documented values for every combination",
 "Each method resolves its number of tries and adaptation interval to the documented defaults unless the user overrides them (mh and dr never adapt); giving prior accuracy turns error-variance updating on, and only that or the explicit flag does. "
 "Initial error variance, its prior scale and accuracy, and the number of observations resolve to the given values or the documented defaults for every number of data sets and error variances; the initial proposal defaults to the prior variance or 5% of the initial value, and error-variance settings whose sizes fit neither the number of data sets nor the number of error variances, or observation counts that contradict the data, are refused before any sampling.",
 ["configurations"],
 "the product of all methods, overrides, presence of sigma2, S20, N0, N, number of batches and of error variances, priors, proposal covariances as matrix or variances",
 "tests set one option at a time; interactions between presence/absence of several settings are not enumerated",
 ["settings/SimulationOptions.py", "settings/ModelSettings.py", "settings/ModelParameters.py", "procedures/CovarianceProcedures.py"],
 [("define_simulation_options, _check_dependent_simulation_options", "settings/SimulationOptions.py"), ("_check_dependent_model_settings, _check_dependent_model_settings_wrt_nsos", "settings/ModelSettings.py"), ("setup_covariance_matrix", "procedures/CovarianceProcedures.py")],
 ["settings after the run", "results dictionary", "first candidate", "SystemExit before the first evaluation of a candidate"])

prop("C15", "Simulations never change the user's inputs nor each other",
 "Running, continuing, or post-processing a simulation leaves every array, list and dictionary the user passed in (data, settings, limits, covariance, initial values, scale factors, names) unchanged, and results once produced are not altered by later actions on other simulations. "
 "Any interleaving of defining, running and continuing several simulations in one process gives each the result it has on its own.",
 ["histories", "configurations"],
 "all interleavings of the set-up and run operations of two simulations up to the depth bound, all setting types (scalar, list, array)",
 "tests use one simulation object at a time and do not compare inputs before and after",
 ["MCMC.py", "settings/SimulationOptions.py", "settings/ModelSettings.py", "settings/ModelParameters.py", "procedures/CovarianceProcedures.py"],
 [("_array_type, __check_size_of_setting_wrt_nsos", "settings/ModelSettings.py"), ("add_model_parameter", "settings/ModelParameters.py"), ("setup_covariance_matrix", "procedures/CovarianceProcedures.py")],
 ["user's objects before and after", "results dictionaries of all simulations"])

prop("C16", "A seed fixes the chain; output and display options never change it",
 "Two simulations with the same seed, data and settings produce identical chains. "
 "Verbosity, progress bar, print interval, file formats, segment size, file names, JSON export and light saving change only what is displayed or stored, never the chains, the counters or the final random-number state.",
 ["configurations"],
 "the product of all display and output options against every method, and repeated runs with several seeds",
 "tests fix one option set per run; equality of chains across option combinations is not asserted",
 ["MCMC.py", "settings/SimulationOptions.py", "utilities/progressbar.py", "utilities/general.py"],
 [("rngseed", "MCMC.py"), ("message, printint, waitbar handling", "MCMC.py")],
 ["results['chain'], results['s2chain'], results['sschain']", "state of the random number generator"])

prop("C17", "Custom samplers see every iteration and feed the next evaluation",
 "Each custom sampler is set up once per run before sampling and updated exactly once per iteration, after the accept/reject decision and the error-variance draw, with the decision, the iteration number and the current point (parameters, sum-of-squares, error variance) of that iteration. "
 "Every sum-of-squares evaluation in an iteration receives the outputs of all custom samplers from the latest update (or set-up), in order, when the user's function accepts them; chains of a custom sampler that asks for saving are logged with the same segments as the parameter chain.",
 ["histories", "configurations"],
 "all accept/reject histories, all methods, zero to two custom samplers, saving on or off, segment sizes, continuation",
 "no test runs a simulation with custom samplers through accept and reject paths",
 ["MCMC.py", "procedures/SumOfSquares.py"],
 [("custom_samplers, custom_sampler_output", "MCMC.py"), ("evaluate_sos_function", "procedures/SumOfSquares.py")],
 ["calls received by the sampler objects and by the user's function", "log files"])

prop("C18", "Data batches, observation counts and the default sum-of-squares are exact",
 "Every data set added is stored as its own batch with its values as column arrays, its number of observations (rows, or the user's number), weight and user object, and the counts of batches, columns and observations follow from them. "
 "When only a model function is given, the sum-of-squares is, per batch, the weighted sum of squared differences between that batch's data and the model evaluated on that batch, and this is what sampling and the sum-of-squares chain use.",
 ["inputs", "configurations"],
 "all sequences of up to three data sets over a menu of shapes, types, weights, user counts and objects, and all accept/reject histories of runs that use the default sum-of-squares",
 "tests add one or two fixed data sets; weights and several batches through a whole run are not checked",
 ["settings/DataStructure.py", "procedures/SumOfSquares.py", "settings/ModelSettings.py"],
 [("add_data_set, get_number_of_*", "settings/DataStructure.py"), ("mcmc_sos_function", "procedures/SumOfSquares.py")],
 ["data structure attributes", "results['sschain']", "model function arguments"])

prop("C19", "An interrupted simulation leaves a readable, exact prefix of the chain",
 "If a simulation stops at any evaluation of the user's functions or at any write to a log file, the segments whose writing was completed before that point can be read back and equal the corresponding rows of the uninterrupted chain, in order and without gaps or repetitions. "
 "Segments are written as soon as they are complete: at any evaluation made for row k of the chain, every full segment among the rows up to k-2 is in the files.",
 ["crash_points", "fault_sequences", "configurations"],
 "every evaluation and every file-write call of a run as a point of failure, all segment sizes, binary and text logs, with and without error variance, in first and continued runs",
 "tests never interrupt a run",
 ["MCMC.py", "chain/ChainProcessing.py"],
 [("__save_to_log_file", "MCMC.py"), ("_save_to_bin_file, _save_to_txt_file, _add_to_log", "chain/ChainProcessing.py")],
 ["files in savedir after the failure"])

prop("C20", "Diagnostic plots show each parameter's own values under its own name",
 "The chain, histogram, density and pairwise panels and the chain metrics draw, for every column of the chain given, exactly that column's values (the chain panel against their own iteration numbers) under that parameter's name: the given names in order, then default names. "
 "When a chain has more rows than the maximum number of points, the rows drawn by the chain and pairwise panels are evenly spaced from the first row on, every floor(rows/maximum)-th; otherwise every skip-th row is drawn. Plotting leaves the chain and the names unchanged.",
 ["configurations", "histories", "inputs"],
 "all chain lengths, steps and maximum numbers of points within the bounds, numbers of parameters, name lists of every length, all panels and sequences of two panels",
 "tests only check the type of the figure returned",
 ["plotting/MCMCPlotting.py", "plotting/utilities.py"],
 [("plot_chain_panel, plot_density_panel, plot_histogram_panel, plot_pairwise_correlation_panel, plot_chain_metrics", "plotting/MCMCPlotting.py"),
  ("setup_subsample, generate_names", "plotting/utilities.py")],
 ["matplotlib figure returned"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

"""Writes properties.jsonl, MANIFEST.json (run by hand)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'pymcmcstat/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech])
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop('C01', 'Sampled parameters never leave their limits',
     'A simulation is refused with an error when a limit pair is out of order or a starting value lies outside its limits. '
     'A candidate outside any parameter limit, at the first try or any delayed try, is rejected without evaluating the '
     'sum-of-squares or prior function, and a candidate inside (limits included) is never rejected for that reason. Starting values of parallel chains '
     'are generated, or accepted from the user, only inside the limits.',
     ['inputs', 'histories', 'configurations'], 'every candidate, every parameter subset, every number of delayed tries and chains',
     'tests draw a handful of candidates; the bound must hold for every component, every try and every configuration of limits',
     ['samplers/Metropolis.py', 'samplers/DelayedRejection.py', 'samplers/utilities.py', 'settings/ModelParameters.py',
      'ParallelMCMC.py', 'MCMC.py'],
     [('first try bounds test', 'samplers/Metropolis.py: run_metropolis_step'), ('delayed tries', 'samplers/DelayedRejection.py: run_delayed_rejection'),
      ('limits test', 'samplers/utilities.py: is_sample_outside_bounds, set_outside_bounds'),
      ('starting values', 'settings/ModelParameters.py: _check_initial_values_wrt_parameter_limits, _check_parameter_limits'),
      ('parallel starting values', 'ParallelMCMC.py: check_initial_values, generate_initial_values')])
prop('C02', 'Metropolis step proposes and accepts with the documented probability',
     'Every first-try candidate is the current point plus a standard normal vector multiplied by the proposal Cholesky factor; it is accepted '
     'with probability min(1, exp(-(difference of sum-of-squares divided by the error variances, plus difference of priors)/2)), summed over '
     'all observation sets, using one fresh uniform number. An accepted candidate becomes the current point with its own sum-of-squares, prior and error variance; a rejected one changes nothing.',
     ['inputs', 'histories'], 'every current point, candidate, number of observation sets and random stream',
     'the ratio must be right for every sign, size and number of observation sets; tests compare a few numbers',
     ['samplers/Metropolis.py', 'samplers/utilities.py', 'procedures/SumOfSquares.py', 'procedures/PriorFunction.py', 'MCMC.py'],
     [('step', 'samplers/Metropolis.py: run_metropolis_step'), ('ratio', 'samplers/utilities.py: calculate_log_posterior_ratio'),
      ('acceptance', 'samplers/utilities.py: acceptance_test, posterior_ratio_acceptance_test'), ('state change', 'MCMC.py: __update_chain')])
prop('C03', 'Delayed rejection keeps the target distribution',
     'After a rejected first try, further tries (at most the configured number) are drawn around the current point with the proposal scaled '
     'for that stage, and each is accepted with the delayed rejection probability built from all earlier stages, their posterior ratios and their '
     'proposal ratios. Tries stop at the first acceptance; the point returned is the accepted one, or the current one when none is accepted.',
     ['inputs', 'histories', 'configurations'], 'every number of tries, every sequence of earlier rejected tries including ones outside the limits',
     'the recursion has as many cases as stages and orders of rejection; tests exercise one or two',
     ['samplers/DelayedRejection.py', 'samplers/utilities.py', 'samplers/Adaptation.py', 'procedures/CovarianceProcedures.py'],
     [('stages', 'samplers/DelayedRejection.py: run_delayed_rejection'), ('acceptance recursion', 'samplers/DelayedRejection.py: alphafun'),
      ('proposal ratio', 'samplers/DelayedRejection.py: nth_stage_log_proposal_ratio'),
      ('stage factors', 'procedures/CovarianceProcedures.py: __setup_RDR_matrix')])
prop('C04', 'Each chain row records the state of that iteration',
     'The chain, sum-of-squares chain and error variance chain have one row per iteration, the first one holding the starting state; '
     'row i holds the point, its sum-of-squares and the error variance after iteration i, repeating the previous point when the candidate was rejected. '
     'Rows already written are never changed by later iterations, and the results hold exactly these chains.',
     ['inputs', 'histories', 'configurations'], 'every iteration count and every pattern of acceptances and rejections',
     'a shifted or aliased row shows only for particular acceptance patterns or lengths',
     ['MCMC.py', 'structures/ResultsStructure.py', 'samplers/Metropolis.py', 'samplers/DelayedRejection.py'],
     [('iteration', 'MCMC.py: __execute_simulator, __update_chain'), ('allocation', 'MCMC.py: __initialize_chains, __expand_chains'),
      ('results', 'structures/ResultsStructure.py: add_chain, add_sschain, add_s2chain')])
prop('C05', 'Rejection and acceptance counts are exact',
     'The reported rejection rates are the number of rejected iterations, and of iterations rejected for being outside the limits, divided by the '
     'number of simulated iterations; the count used during adaptation covers exactly the iterations since the last adaptation. Delayed rejection reports the number of '
     'acceptance evaluations and of acceptances per stage.',
     ['histories'], 'every sequence of accepted, rejected and out-of-limits tries',
     'counts are histories: a missed or doubled increment shows only for particular sequences',
     ['MCMC.py', 'samplers/DelayedRejection.py', 'structures/ResultsStructure.py', 'samplers/Adaptation.py'],
     [('counters', 'MCMC.py: __update_rejected, __update_chain, __execute_simulator'), ('stage counters', 'samplers/DelayedRejection.py: run_delayed_rejection'),
      ('reporting', 'structures/ResultsStructure.py: add_basic, add_dram')])
prop('C06', 'Adaptation uses every chain row once and follows its schedule',
     'The proposal covariance adapts only at the configured interval and not after the configured last adaptation; during burn-in it is only scaled by the '
     'rejection rate. The running mean, weight and covariance equal those of all chain rows seen so far (each counted once, whatever the batching), the proposal '
     'is the scaled, regularised factor of that covariance, is left unchanged when it stays singular, and non-adapting parameters keep their initial covariance; the robust adaptive '
     'method follows its own rank-one update instead.',
     ['inputs', 'histories', 'configurations'], 'every chain, interval, burn-in, batching and choice of adapting parameters',
     'the recursion must equal the batch covariance for every split of every chain',
     ['samplers/Adaptation.py', 'procedures/CovarianceProcedures.py', 'MCMC.py', 'settings/ModelParameters.py'],
     [('adaptation', 'samplers/Adaptation.py: run_adaptation, update_cov_from_covchain, below_burnin_threshold'),
      ('recursion', 'samplers/Adaptation.py: update_covariance_mean_sum, initialize_covariance_mean_sum, cholupdate'),
      ('schedule', 'MCMC.py: __execute_simulator'), ('ram', 'samplers/Adaptation.py: update_cov_via_ram')])
prop('C07', 'Proposal factors for all stages stay consistent with each other',
     'The proposal factor is the upper Cholesky factor of the proposal covariance (or the square roots of the variances when only those are given). Whenever '
     'the proposal changes - at setup, restart, burn-in scaling or adaptation - the factor of every delayed stage is the previous one divided by its scale and the stored inverses are the inverses of those same factors.',
     ['histories', 'configurations'], 'every covariance, number of tries, scale list and adaptation history',
     'a stale inverse only shows for particular sequences of adaptation steps',
     ['procedures/CovarianceProcedures.py', 'samplers/Adaptation.py'],
     [('setup', 'procedures/CovarianceProcedures.py: setup_covariance_matrix, __setup_R_matrix, __setup_RDR_matrix'),
      ('adaptation', 'samplers/Adaptation.py: update_delayed_rejection, scale_cholesky_decomposition, adjust_cov_matrix')])
prop('C08', 'Error variance is sampled from its conditional distribution',
     'With error variance updating on, after every iteration each observation set gets a new variance drawn as one over a gamma variate with '
     'shape (N0+N)/2 and scale 2/(N0*S20 + SS), with that set\'s own prior, observation count and current sum-of-squares, and that value is the one '
     'used by the next iteration and stored in the error variance chain. With it off, the variance stays at the configured value.',
     ['inputs', 'histories', 'configurations'], 'every number of observation sets, prior setting and history',
     'mixing up sets, counts or the stale sum-of-squares gives plausible numbers',
     ['procedures/ErrorVarianceEstimator.py', 'settings/ModelSettings.py', 'MCMC.py'],
     [('draw', 'procedures/ErrorVarianceEstimator.py: update_error_variance, gammar'), ('settings', 'settings/ModelSettings.py'),
      ('use', 'MCMC.py: __execute_simulator')])
prop('C09', 'Parameters not sampled keep their value everywhere',
     'Parameters declared as not sampled are passed to every model, sum-of-squares and prior evaluation with their declared value and in their declared position, '
     'while the sampled ones take the candidate values; the chain has columns for the sampled ones only, in declaration order. The same holds in '
     'interval calculations, restarts and parallel chains.',
     ['inputs', 'configurations'], 'every subset and order of sampled and fixed parameters, local parameters included',
     'tests use a few parameter layouts; index slips show only for interleaved layouts',
     ['settings/ModelParameters.py', 'procedures/SumOfSquares.py', 'ParallelMCMC.py', 'propagation.py', 'plotting/PredictionIntervals.py'],
     [('parameter structure', 'settings/ModelParameters.py: _openparameterstructure'), ('evaluation', 'procedures/SumOfSquares.py: evaluate_sos_function'),
      ('intervals', 'propagation.py: calculate_intervals; plotting/PredictionIntervals.py: _calc_credible_ii')])
prop('C10', 'Log files partition the chain',
     'When logging is on, the blocks written to the log files (binary or text, every chain kind) concatenate to exactly the chain rows of the run, each row once and in order, '
     'for every save interval and run length, including runs that extend an earlier one. Each block is written in the configured directory with its index range recorded, in every enabled format and in no disabled one.',
     ['inputs', 'configurations', 'histories'], 'every run length, save interval, format and extension history',
     'off-by-one at block borders depends on run length modulo save interval',
     ['MCMC.py', 'chain/ChainProcessing.py'],
     [('block bounds', 'MCMC.py: __execute_simulator, __save_to_log_file'), ('writers', 'chain/ChainProcessing.py: _save_to_bin_file, _save_to_txt_file, _add_to_log')])
prop('C11', 'Reading log files returns the rows that were written',
     'Reading a log directory back, binary or text, gives for each chain kind the rows of all blocks in the order they were written, for any number and length of blocks, '
     'and leaves the files closed. Reading the directories of a parallel run gives one entry per chain in chain number order, and combining chains drops the requested burn-in from each chain and labels every row with its chain.',
     ['inputs', 'configurations', 'histories'], 'every number of blocks, chains, and block lengths',
     'ordering errors need ten or more blocks or chains; tests write a few',
     ['chain/ChainProcessing.py'],
     [('readers', 'chain/ChainProcessing.py: read_in_bin_file, read_in_txt_file, read_in_savedir_files, read_in_parallel_savedir_files'),
      ('combination', 'chain/ChainProcessing.py: generate_combined_chain_with_index, generate_chain_list')])
prop('C12', 'Saved results can be loaded back complete',
     'Saving results writes every result entry, arrays included, as JSON to the configured file and directory; lightweight saving leaves out only the chains and random sequence, and only when '
     'log files hold them. Loading a serial or parallel run returns those entries with the chains taken from the JSON or, when absent there, from the log files.',
     ['inputs', 'configurations'], 'every combination of save options, file names and result contents',
     'option combinations multiply; tests cover a few',
     ['structures/ResultsStructure.py', 'chain/ChainProcessing.py', 'utilities/NumpyEncoder.py', 'MCMC.py', 'settings/SimulationOptions.py'],
     [('saving', 'structures/ResultsStructure.py: export_simulation_results_to_json_file, export_lightly, lighten_results, save_json_object'),
      ('loading', 'chain/ChainProcessing.py: load_serial_simulation_results, load_parallel_simulation_results')])
prop('C13', 'A restarted or extended run continues from the earlier one',
     'Extending a run keeps all earlier rows and continues from the last point with the current proposal, error variance and adaptation state; '
     'restarting from a saved result starts from its last sampled point and its covariance. Nothing of the earlier run is lost or recomputed from defaults.',
     ['histories', 'configurations'], 'every number of successive extensions and restarts',
     'state carried over is spread over many objects; tests extend once',
     ['MCMC.py', 'settings/ModelParameters.py', 'procedures/CovarianceProcedures.py', 'ParallelMCMC.py'],
     [('setup', 'MCMC.py: __setup_simulator, __expand_chains'), ('restart values', 'settings/ModelParameters.py: _results_to_params'),
      ('covariance', 'procedures/CovarianceProcedures.py: _initialize_covariance_settings'), ('parallel restart', 'ParallelMCMC.py: check_for_restart_file')])
prop('C14', 'Analysis and setup leave the user\'s objects unchanged',
     'Statistics, diagnostics, plotting, interval calculation, chain combination, settings handling and parallel setup never change the chains, results, data, '
     'settings dictionaries or lists handed to them. Calling one of them twice with the same arguments gives the same answer (for the same random state).',
     ['inputs', 'programs', 'histories'], 'every argument of every analysis and setup function, and every order of calls',
     'a test that looks only at the returned value cannot see a changed argument',
     ['chain/ChainStatistics.py', 'chain/ChainProcessing.py', 'plotting/utilities.py', 'plotting/MCMCPlotting.py', 'plotting/PredictionIntervals.py',
      'propagation.py', 'utilities/general.py', 'ParallelMCMC.py', 'settings/ModelSettings.py'],
     [('statistics', 'chain/ChainStatistics.py'), ('settings merge', 'utilities/general.py: check_settings'), ('intervals', 'propagation.py'),
      ('parallel setup', 'ParallelMCMC.py: setup_parallel_simulation')])
prop('C15', 'A seeded run is reproducible',
     'All random numbers come from numpy\'s global generator, in an order fixed by the configuration and the earlier draws, and nothing but the seed given by the user at construction reseeds it in the user\'s process. '
     'A run with the same seed, settings and model therefore gives the same chain, whatever is printed, plotted or logged meanwhile.',
     ['inputs', 'schedules', 'configurations'], 'every configuration and every order of draws',
     'tests cannot enumerate the call sites that draw; one extra or foreign draw breaks it',
     ['samplers/utilities.py', 'procedures/ErrorVarianceEstimator.py', 'propagation.py', 'plotting/utilities.py', 'ParallelMCMC.py', 'MCMC.py'],
     [('draw sites', 'samplers/utilities.py; procedures/ErrorVarianceEstimator.py; propagation.py; plotting/PredictionIntervals.py'),
      ('seeding', 'MCMC.py: __init__; ParallelMCMC.py: run_parallel_simulation')])
prop('C16', 'Parallel chains are complete, isolated and independent',
     'A parallel run yields one chain per requested chain, each starting from its own initial values, writing to its own directory and restart file, with its own copy of every setting and its own random numbers; '
     'the user\'s template simulation is not altered. Loaded parallel results are matched to the chains in numerical order and cores are limited to those available.',
     ['schedules', 'configurations', 'inputs'], 'every number of chains, cores and worker schedules',
     'shared state between workers shows only under particular schedules or more than nine chains',
     ['ParallelMCMC.py', 'chain/ChainProcessing.py'],
     [('setup', 'ParallelMCMC.py: setup_parallel_simulation, check_initial_values, check_directory'), ('execution', 'ParallelMCMC.py: run_parallel_simulation, run_serial_simulation, assign_number_of_cores'),
      ('loading', 'ParallelMCMC.py: load_parallel_simulation_results')])
prop('C17', 'Credible and prediction intervals come from matching posterior draws',
     'Each credible draw is the model response at one chain row; each prediction draw is that same response plus noise with the error variance of the same row (and the same data column), with the requested observation type. '
     'Rows are drawn uniformly over the whole chain (all of them when enough samples are asked for) and quantiles are interpolated per time point between order statistics.',
     ['inputs', 'configurations'], 'every chain, sample size, number of responses and shape of error variance',
     'misaligned rows or columns give plausible intervals',
     ['propagation.py', 'plotting/PredictionIntervals.py', 'plotting/utilities.py'],
     [('propagation', 'propagation.py: calculate_intervals, observation_sample, define_sample_points, generate_quantiles'),
      ('prediction intervals', 'plotting/PredictionIntervals.py: generate_prediction_intervals and callees')])
prop('C18', 'Inconsistent settings are refused or normalised before sampling',
     'Settings whose sizes do not match the number of observation sets, limits, prior widths, observation counts or initial values are refused with an error; a scalar setting is expanded to one value per observation set and an unset one gets its documented default. '
     'Valid settings are never refused, and parameters with zero prior width are treated as having no prior.',
     ['inputs', 'configurations'], 'every size and kind of every setting',
     'the space of setting combinations is large; tests cover single deviations',
     ['settings/ModelSettings.py', 'settings/ModelParameters.py', 'settings/SimulationOptions.py', 'settings/DataStructure.py', 'ParallelMCMC.py',
      'procedures/CovarianceProcedures.py', 'procedures/SumOfSquares.py'],
     [('model settings', 'settings/ModelSettings.py'), ('parameters', 'settings/ModelParameters.py'), ('options', 'settings/SimulationOptions.py')])
prop('C19', 'Chain diagnostics compute what they are named after',
     'Mean, standard deviation, batch standard error, integrated autocorrelation time, Geweke score and the potential scale reduction factor are computed from the given chains by their published formulas, per parameter, for every chain length and number of parameters or chains. '
     'Combining chains for a diagnostic uses the stated part of each chain; density, quantile and ellipse helpers likewise.',
     ['inputs'], 'every chain and every parameter column',
     'wrong axes or normalisation agree on symmetric or single-column examples',
     ['chain/ChainStatistics.py', 'chain/ChainProcessing.py', 'plotting/utilities.py'],
     [('statistics', 'chain/ChainStatistics.py: chainstats, batch_mean_standard_deviation, geweke, integrated_autocorrelation_time, gelman_rubin, calculate_psrf'),
      ('helpers', 'plotting/utilities.py: gaussian_density_function, scale_bandwidth, empirical_quantiles, generate_ellipse')])
prop('C20', 'Default likelihood and prior match their definitions',
     'Without a user function, the prior term is the sum over sampled parameters of ((value - mean)/width) squared, ignoring parameters without a prior, and the sum-of-squares is, per data set, the weighted sum of squared differences between data and model response on that data set. '
     'A user supplied sum-of-squares, prior or model function is called with the documented arguments, and what it returns is used as is.',
     ['inputs', 'configurations'], 'every data structure, parameter vector and combination of user functions',
     'tests evaluate a few numbers',
     ['procedures/SumOfSquares.py', 'procedures/PriorFunction.py', 'settings/DataStructure.py'],
     [('sum of squares', 'procedures/SumOfSquares.py: evaluate_sos_function, mcmc_sos_function'), ('prior', 'procedures/PriorFunction.py: default_priorfun, evaluate_prior')])
prop('C21', 'The chosen method and options take effect',
     'Each sampling method name selects exactly its mechanisms: plain Metropolis neither adapts nor retries, adaptive Metropolis adapts without retrying, delayed rejection retries without adapting, and the combined method does both. '
     'Every documented option reaches the part it controls and has its documented default, and dependent options are adjusted only in the documented way.',
     ['configurations'], 'every combination of options',
     'option combinations multiply; tests cover a few',
     ['settings/SimulationOptions.py', 'MCMC.py', 'procedures/CovarianceProcedures.py', 'samplers/Adaptation.py'],
     [('options', 'settings/SimulationOptions.py: define_simulation_options, _check_dependent_simulation_options'), ('use', 'MCMC.py: __execute_simulator')])
prop('C22', 'User plot settings override defaults and only those',
     'Merging settings keeps every default the user did not override, at any nesting depth, uses every value the user gave, adds the user\'s extra keys, and shares no mutable state with the defaults. '
     'Display, interval, colour, label and name settings given to plotting functions take effect in the same way.',
     ['inputs', 'histories'], 'every nested combination of default and user settings, and repeated calls',
     'nesting depth and repeated calls are unbounded',
     ['utilities/general.py', 'plotting/utilities.py', 'propagation.py', 'plotting/MCMCPlotting.py', 'plotting/PredictionIntervals.py'],
     [('merge', 'utilities/general.py: check_settings; plotting/utilities.py: check_settings'), ('use', 'propagation.py: setup_display_settings, plot_intervals')])
prop('C23', 'Data sets are stored and counted faithfully',
     'Each added data set is stored in order as two-dimensional arrays with the values, weights and user object given; observation counts are per data set and per column, and the number of data sets and batches follows from what was added. '
     'The error variance update and size checks use these counts unless the user overrides them.',
     ['inputs', 'histories'], 'every number, shape and order of data sets',
     'tests add one or two sets of simple shapes',
     ['settings/DataStructure.py', 'settings/ModelSettings.py', 'MCMC.py'],
     [('data', 'settings/DataStructure.py: add_data_set, get_number_of_observations'), ('counts', 'settings/ModelSettings.py: _check_number_of_observations')])
prop('C24', 'Results describe the sampled parameters consistently',
     'In the results every per-parameter entry (names, limits, priors, last point, mean, covariance, local flags, indices) lists the sampled parameters in chain column order, the full parameter vector holds the final values, and the recorded options, model settings and counts are those the run used. '
     'Default names are unique and follow declaration order.',
     ['inputs', 'configurations'], 'every mix of sampled and fixed parameters and every option set',
     'misaligned entries are invisible when all parameters are sampled',
     ['structures/ResultsStructure.py', 'settings/ModelParameters.py', 'MCMC.py', 'chain/ChainStatistics.py'],
     [('results', 'structures/ResultsStructure.py: add_basic and the other add functions'), ('parameters', 'settings/ModelParameters.py: _openparameterstructure')])
prop('C25', 'Plots show the right column under the right name',
     'Each panel of the density, histogram, chain, pairwise and metric plots draws the chain column it is labelled with, all columns are drawn, and subsampling for display keeps rows and columns aligned. '
     'Interval plots draw each requested level with its own quantiles, colour and label.',
     ['inputs', 'configurations'], 'every number of parameters, name list and limit list',
     'tests check that figures are made, not what they show',
     ['plotting/MCMCPlotting.py', 'plotting/utilities.py', 'propagation.py', 'plotting/PredictionIntervals.py'],
     [('panels', 'plotting/MCMCPlotting.py'), ('names and grids', 'plotting/utilities.py: setup_plot_features, generate_names, setup_subsample'),
      ('intervals', 'propagation.py: plot_intervals')])
prop('C90', 'The chain converges to the posterior distribution',
     'As the number of iterations grows, the empirical distribution of the chain approaches the posterior defined by the model, data and prior.',
     ['inputs', 'histories'], 'every model and every run length', 'a limit statement about distributions', ['MCMC.py'],
     [('sampler', 'MCMC.py: __execute_simulator')])
prop('C91', 'Interval coverage is accurate for finite samples',
     'Computed intervals contain the true response with their nominal probability up to Monte Carlo error.',
     ['inputs'], 'every model and sample size', 'a statistical statement about finite samples', ['propagation.py'],
     [('intervals', 'propagation.py: calculate_intervals')])
prop('C92', 'Results are numerically stable in floating point',
     'Covariance updates, factorisations and acceptance ratios stay accurate in floating point for badly scaled or nearly singular problems.',
     ['inputs'], 'every scale of parameters and data', 'depends on rounding of particular values', ['samplers/Adaptation.py'],
     [('factorisation', 'samplers/Adaptation.py: update_cov_from_covchain')])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as h:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        h.write(json.dumps(p) + '\n')

TECH = ('Static analysis: gated value-graph abstract interpretation of the current source, compared with a reference model '
        '(global value numbering over guarded terms)')
EXTRA = {'C14': '; effect analysis of argument mutation', 'C15': '; who-may-call rule for random sources'}
NOTE = {}
checks = []
for p in P:
    if p['id'] >= 'C90':
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 -m vf.check %s --tier quick' % p['id'],
                       thorough_cmd='python3 -m vf.check %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique=TECH + EXTRA.get(p['id'], ''), level='other',
                       level_note='Sound up to the stated algebraic model of numpy/scipy for every input: each anchored function is shown to denote the '
                                  'behaviour of a reviewed reference, callees expanded. Functions outside the analysable fragment are listed as undecided in the evidence.'))
na = [dict(property='C90', reason='A limit theorem about distributions over run lengths and user models; no structural clause beyond C01-C08, which are claimed.'),
      dict(property='C91', reason='Statistical coverage depends on runtime draws and on the user model; the structural part (matching rows, noise, quantiles) is C17.'),
      dict(property='C92', reason='Rounding behaviour depends on runtime magnitudes; the analysis treats arithmetic as exact.')]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as h:
    json.dump(dict(version=1, setup_cmd='python3 -m compileall -q vf', checks=checks, not_applicable=na,
                   notes='Pure source analysis: nothing from /repo is imported or run. Run from /verif.'), h, indent=1)
    h.write('\n')

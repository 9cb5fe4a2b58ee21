"""Which functions decide which property.

Every entry is a function whose behaviour the property's statement depends on; the obligation is that it denotes the same
behaviour as its counterpart in the reference model (specs/), with its callees expanded.  `BOUNDS` lists the functions that
are analysed with some callees replaced by their interfaces (those callees carry obligations of their own).
"""
from .engine import Obligation

ALIAS = {
    'MC': 'pymcmcstat.MCMC', 'PAR': 'pymcmcstat.ParallelMCMC', 'PROP': 'pymcmcstat.propagation',
    'CP': 'pymcmcstat.chain.ChainProcessing', 'CS': 'pymcmcstat.chain.ChainStatistics',
    'MP': 'pymcmcstat.plotting.MCMCPlotting', 'PI': 'pymcmcstat.plotting.PredictionIntervals',
    'PU': 'pymcmcstat.plotting.utilities', 'COV': 'pymcmcstat.procedures.CovarianceProcedures',
    'EV': 'pymcmcstat.procedures.ErrorVarianceEstimator', 'PF': 'pymcmcstat.procedures.PriorFunction',
    'SS': 'pymcmcstat.procedures.SumOfSquares', 'AD': 'pymcmcstat.samplers.Adaptation',
    'DR': 'pymcmcstat.samplers.DelayedRejection', 'ME': 'pymcmcstat.samplers.Metropolis',
    'SM': 'pymcmcstat.samplers.SamplingMethods', 'SU': 'pymcmcstat.samplers.utilities',
    'DS': 'pymcmcstat.settings.DataStructure', 'PM': 'pymcmcstat.settings.ModelParameters',
    'MS': 'pymcmcstat.settings.ModelSettings', 'SO': 'pymcmcstat.settings.SimulationOptions',
    'PS': 'pymcmcstat.structures.ParameterSet', 'RS': 'pymcmcstat.structures.ResultsStructure',
    'NE': 'pymcmcstat.utilities.NumpyEncoder', 'GU': 'pymcmcstat.utilities.general',
}
CLASS = {'MC': 'MCMC', 'PAR': 'ParallelMCMC', 'PI': 'PredictionIntervals', 'COV': 'CovarianceProcedures',
         'EV': 'ErrorVarianceEstimator', 'PF': 'PriorFunction', 'SS': 'SumOfSquares', 'DS': 'DataStructure',
         'PM': 'ModelParameters', 'MS': 'ModelSettings', 'SO': 'SimulationOptions', 'PS': 'ParameterSet',
         'RS': 'ResultsStructure', 'ME': 'Metropolis', 'DR': 'DelayedRejection', 'AD': 'Adaptation',
         'SM': 'SamplingMethods', 'NE': 'NumpyEncoder', 'MP': 'Plot'}


def full(short):
    """'ME.run' -> method of the module's class, 'ME:fun' -> module level function"""
    for sep in ('.', ':'):
        a, s, n = short.partition(sep)
        if s and a in ALIAS and n:
            return ALIAS[a] + ':' + (CLASS[a] + '.' + n if sep == '.' else n)
    raise KeyError(short)


_INIT = [full(x) for x in '''SO._check_dependent_simulation_options MS._check_dependent_model_settings
    MS._check_dependent_model_settings_wrt_nsos PM._openparameterstructure PM._check_parameter_limits
    PM._check_initial_values_wrt_parameter_limits PM._check_prior_sigma PM.display_parameter_settings PM._results_to_params
    COV._initialize_covariance_settings COV._update_covariance_settings SS.__init__ SS.evaluate_sos_function
    PF.evaluate_prior'''.split()]
_SETUP = _INIT + [full(x) for x in 'MC._initialize_simulation MC.__initialize_chains MC.__expand_chains'.split()]
_EXEC = _SETUP + [full(x) for x in '''ME.run_metropolis_step DR.run_delayed_rejection AD.run_adaptation
    EV.update_error_variance MC.__save_to_log_file'''.split()]
_RUN = _EXEC + [full(x) for x in '''MC.__setup_simulator MC.__execute_simulator MC.__generate_simulation_results
    RS.export_simulation_results_to_json_file RS.export_lightly'''.split()]

BOUNDS = {
    full('MC._initialize_simulation'): [_INIT],
    full('MC.__setup_simulator'): [_SETUP],
    full('MC.__execute_simulator'): [_EXEC],
    full('MC.run_simulation'): [_RUN],
    full('PROP:calculate_intervals'): [[full(x) for x in 'PROP:check_s2chain PROP:define_sample_points PROP:observation_sample'.split()]],
}

CORE = '''MC.__execute_simulator'''
METRO = '''ME.run_metropolis_step ME.unpack_set ME.calculate_posterior_ratio
    SU:sample_candidate_from_gaussian_proposal SU:is_sample_outside_bounds SU:acceptance_test SU:set_outside_bounds
    SU:posterior_ratio_acceptance_test SU:log_posterior_ratio_acceptance_test SU:calculate_log_posterior_ratio'''
DELAY = '''DR:nth_stage_log_proposal_ratio DR:extract_state_elements DR:log_posterior_ratio DR:update_set_based_on_acceptance
    DR.run_delayed_rejection DR.initialize_next_metropolis_step DR._initialize_dr_metrics DR.alphafun'''
ADAPT = '''AD:unpack_simulation_options AD:unpack_covariance_settings AD:below_burnin_threshold AD:update_covariance_mean_sum
    AD:setup_w_R AD:initialize_covariance_mean_sum AD:setup_cholupdate AD:cholupdate AD:update_cov_via_ram
    AD:update_cov_from_covchain AD:check_for_singular_cov_matrix AD:is_semi_pos_def_chol AD:scale_cholesky_decomposition
    AD:adjust_cov_matrix AD:update_delayed_rejection AD.__init__ AD.run_adaptation'''
COVA = '''COV.__init__ COV._initialize_covariance_settings COV._update_covariance_from_adaptation
    COV._update_covariance_for_delayed_rejection_from_adaptation COV._update_covariance_settings COV.setup_covariance_matrix
    COV.__check_adascale COV.__setup_R_matrix COV.__setup_R_based_on_variances COV.__setup_R_based_on_covariance_matrix
    COV.__setup_RDR_matrix'''
PARAMS = '''PM.__init__ PM.add_model_parameter PM._openparameterstructure PM.setup_adapting PM.setup_adaptation_indices
    PM.scan_for_local_variables PM.setup_prior_mu PM.setup_prior_sigma PM._results_to_params PM._check_parameter_limits
    PM._check_initial_values_wrt_parameter_limits PM._check_prior_sigma PM:replace_list_elements PM:generate_default_name
    PM:check_noadaptind PM:less_than_or_equal_to_zero'''
MODEL = '''MS.__init__ MS.define_model_settings MS._array_type MS._check_dependent_model_settings MS._check_number_of_observations
    MS._check_dependent_model_settings_wrt_nsos MS.__check_size_of_setting_wrt_nsos MS.__check_size_of_observations_wrt_nsos'''
OPTS = '''SO.__init__ SO.define_simulation_options SO._check_dependent_simulation_options SO:check_lightly_save'''
DATA = '''DS.__init__ DS.add_data_set DS._convert_to_numpy_array DS._convert_numpy_array_to_2d DS.get_number_of_batches
    DS.get_number_of_data_sets DS.get_number_of_observations'''
CHAINS = '''MC.__initialize_chains MC.__expand_chains MC.__update_chain MC.__update_rejected MC.__save_chains
    MC.__save_covmtx_chain MC.__save_to_log_file'''
SIM = '''MC.__init__ MC.run_simulation MC.__setup_simulator MC._initialize_simulation MC.__generate_simulation_results'''
RES = '''RS.__init__ RS.add_basic RS.add_updatesigma RS.add_dram RS.add_prior RS.add_options RS.add_model RS.add_chain
    RS.add_s2chain RS.add_sschain RS.add_time_stats RS.add_random_number_sequence'''
RESIO = '''RS:lighten_results RS.export_simulation_results_to_json_file RS.export_lightly RS.determine_filename
    RS.save_json_object RS.load_json_object NE.default GU:removekey'''
LOGW = '''CP:_add_to_log CP:_save_to_bin_file CP:_save_to_txt_file CP:_check_directory CP:_create_path_with_extension_for_all_logs
    CP:_create_path_with_extension CP:_create_path_without_extension MC.__save_to_log_file MC.__save_chains
    MC.__save_covmtx_chain'''
LOGR = '''CP:read_in_savedir_files CP:read_in_parallel_savedir_files CP:read_in_bin_file CP:read_in_txt_file
    CP:check_parallel_directory_contents CP:_numeric_sort_key'''
LOAD = '''CP:load_serial_simulation_results CP:load_parallel_simulation_results CP:read_in_parallel_json_results_files
    CP:load_json_object'''
ERRV = '''EV.__init__ EV.update_error_variance EV.gammar EV.gammar_mt EV._gammar_mt1'''
SOSP = '''SS.__init__ SS.evaluate_sos_function SS.mcmc_sos_function PF.__init__ PF.default_priorfun PF.evaluate_prior'''
PARA = '''PAR:unpack_mcmc_set PAR:get_parameter_features PAR:check_initial_values PAR:generate_initial_values
    PAR:check_shape_of_users_initial_values PAR:check_users_initial_values_wrt_limits PAR:check_options_output
    PAR:check_directory PAR:run_serial_simulation PAR:assign_number_of_cores PAR:load_parallel_simulation_results
    PAR:check_for_restart_file PAR.__init__ PAR.setup_parallel_simulation PAR.run_parallel_simulation'''
PROPA = '''PROP:calculate_intervals PROP:check_s2chain PROP:observation_sample PROP:define_sample_points PROP:generate_quantiles'''
PROPP = '''PROP:plot_intervals PROP:plot_3d_intervals PROP:setup_display_settings PROP:setup_interval_colors PROP:_setup_labels
    PROP:_check_limits PROP:_convert_limits PROP:__setup_iset PROP:__setup_cmap_norm PROP:__setup_default_cmap'''
PIC = '''PI.setup_prediction_interval_calculation PI._analyze_data_structure PI._setup_data_structure_for_prediction
    PI._assign_features_from_results_structure PI._determine_shape_of_response PI._analyze_s2chain
    PI.generate_prediction_intervals PI._setup_generation_requirements PI._setup_interval_limits PI._setup_sstype
    PI._check_nsample PI._define_sample_points PI._calculate_ci_for_data_sets PI._calculate_ci_and_pi_for_data_sets
    PI._setup_interval_ii PI._calc_credible_ii PI._calc_credible_and_prediction_ii PI._observation_sample
    PI._generate_quantiles'''
PIP = '''PI.plot_prediction_intervals PI._setup_display_settings PI._setup_interval_colors PI._initialize_plot_features
    PI._add_batch_column_title PI._setup_interval_plotting PI._check_prediction_interval_flag PI._setup_labels
    PI._setup_counting_metrics'''
STATS = '''CS:chainstats CS:batch_mean_standard_deviation CS:geweke CS:spectral_estimate_for_variance
    CS:power_spectral_density_using_hanning_window CS:integrated_autocorrelation_time CS:gelman_rubin CS:calculate_psrf
    CS:get_parameter_names'''
PLOT = '''MP:plot_density_panel MP:plot_histogram_panel MP:plot_chain_panel MP:plot_pairwise_correlation_panel
    MP:plot_chain_metrics'''
PLOTU = '''PU:generate_subplot_grid PU:generate_names PU:setup_plot_features PU:generate_default_names
    PU:extend_names_to_match_nparam PU:make_x_grid PU:iqrange PU:gaussian_density_function PU:scale_bandwidth
    PU:generate_ellipse PU:check_symmetric PU:is_semi_pos_def_chol PU:append_to_nrow_ncol_based_on_shape
    PU:convert_flag_to_boolean PU:set_local_parameters PU:empirical_quantiles PU:setup_subsample'''
SETT = '''GU:check_settings PU:check_settings'''
PSET = 'PS.__init__'

TABLE = {
    'C01': METRO + ' ' + CORE + ''' DR.run_delayed_rejection DR.initialize_next_metropolis_step DR:update_set_based_on_acceptance
        DR.alphafun MC.run_simulation MC.__setup_simulator MC._initialize_simulation MC.__update_chain
        PAR:check_initial_values PAR:generate_initial_values PAR:check_shape_of_users_initial_values
        PAR:check_users_initial_values_wrt_limits PAR:get_parameter_features PAR:unpack_mcmc_set
        PAR.setup_parallel_simulation ''' + PARAMS + ' ' + PSET,
    'C02': ' '.join([METRO, CORE, SOSP, PSET, 'SM.__init__ MC._initialize_simulation MC.__setup_simulator MC.__update_chain',
                     'MS._check_dependent_model_settings_wrt_nsos COV._initialize_covariance_settings']),
    'C03': ' '.join([DELAY, METRO, CORE, PSET, 'AD:update_delayed_rejection COV.__setup_RDR_matrix',
                     'COV._initialize_covariance_settings COV._update_covariance_for_delayed_rejection_from_adaptation SM.__init__',
                     'SO._check_dependent_simulation_options SO.define_simulation_options']),
    'C04': ' '.join([CORE, CHAINS, SIM, PSET, 'RS.add_chain RS.add_s2chain RS.add_sschain RS.add_basic RS.__init__ SO.define_simulation_options',
                     'ME.run_metropolis_step DR.run_delayed_rejection DR:update_set_based_on_acceptance EV.update_error_variance']),
    'C05': ' '.join([CORE, CHAINS, SIM, DELAY, 'ME.run_metropolis_step SU:set_outside_bounds RS.add_basic RS.add_dram',
                     'AD.run_adaptation AD:adjust_cov_matrix AD:below_burnin_threshold']),
    'C06': ' '.join([ADAPT, CORE, 'COV._update_covariance_from_adaptation COV._update_covariance_settings',
                     'COV._initialize_covariance_settings COV.setup_covariance_matrix COV.__check_adascale',
                     'PM.setup_adapting PM.setup_adaptation_indices PM:check_noadaptind PM._openparameterstructure',
                     'COV._update_covariance_for_delayed_rejection_from_adaptation',
                     'SO.define_simulation_options SO._check_dependent_simulation_options MC.run_simulation',
                     'MC.__update_rejected MC._initialize_simulation MC.__init__ SM.__init__ RS.add_dram']),
    'C07': ' '.join([COVA, 'AD:update_delayed_rejection AD:update_cov_from_covchain AD:check_for_singular_cov_matrix',
                     'AD:is_semi_pos_def_chol AD:scale_cholesky_decomposition AD:adjust_cov_matrix AD:update_cov_via_ram',
                     'AD:unpack_covariance_settings AD.run_adaptation AD:below_burnin_threshold MC._initialize_simulation PM._results_to_params',
                     CORE]),
    'C08': ' '.join([ERRV, CORE, MODEL, 'MC._initialize_simulation MC.__setup_simulator MC.__initialize_chains MC.__expand_chains',
                     'RS.add_updatesigma RS.add_s2chain RS.add_model SO.define_simulation_options ME.run_metropolis_step',
                     'DR.run_delayed_rejection MC.__update_chain', DATA]),
    'C09': ' '.join([PARAMS, SOSP, METRO, 'MC._initialize_simulation MC.__initialize_chains MC.__update_chain DR.run_delayed_rejection',
                     'DR.initialize_next_metropolis_step PAR:unpack_mcmc_set PAR:get_parameter_features PAR.setup_parallel_simulation',
                     'PAR:generate_initial_values PAR:check_initial_values PU:set_local_parameters PI._calc_credible_ii',
                     'PI._calc_credible_and_prediction_ii PI._assign_features_from_results_structure',
                     'PROP:calculate_intervals RS.add_basic COV._initialize_covariance_settings COV.setup_covariance_matrix',
                     'RS.add_model RS.add_prior MC.__setup_simulator']),
    'C10': ' '.join([LOGW, CORE, 'MC.run_simulation MC.__setup_simulator MC.__initialize_chains MC.__expand_chains SO.define_simulation_options',
                     'SO._check_dependent_simulation_options MC.__init__ MC.__update_chain', 'SO:check_lightly_save']),
    'C11': ' '.join([LOGR, LOGW, LOAD, 'CP:generate_combined_chain_with_index CP:generate_chain_list PAR:load_parallel_simulation_results']),
    'C12': ' '.join([RES, RESIO, LOAD, LOGR, 'MC.run_simulation MC.__generate_simulation_results SO:check_lightly_save PAR:check_directory',
                     'PAR:check_options_output SO.define_simulation_options SO._check_dependent_simulation_options',
                     'PAR:load_parallel_simulation_results CP:generate_chain_list CP:generate_combined_chain_with_index']),
    'C13': ' '.join([SIM, CHAINS, CORE, 'PM._results_to_params PM._openparameterstructure PAR:check_for_restart_file CP:load_json_object',
                     'RS.load_json_object RS.save_json_object COV._initialize_covariance_settings COV._update_covariance_settings',
                     'COV.setup_covariance_matrix COV.__setup_R_matrix SO._check_dependent_simulation_options SO.define_simulation_options',
                     'RS.export_simulation_results_to_json_file', 'RS.determine_filename NE.default AD.run_adaptation',
                     'AD:update_cov_from_covchain AD:update_covariance_mean_sum AD:initialize_covariance_mean_sum',
                     RES]),
    'C14': ' '.join([STATS, PLOT, PLOTU, PROPA, PROPP, PIC, PIP, SETT, 'CP:generate_combined_chain_with_index CP:generate_chain_list',
                     'RS:lighten_results GU:removekey PAR:load_parallel_simulation_results MS._array_type MS.define_model_settings',
                     'DS.add_data_set DS._convert_to_numpy_array DS._convert_numpy_array_to_2d DS.get_number_of_batches',
                     'DS.get_number_of_data_sets DS.get_number_of_observations PAR:get_parameter_features PAR:check_initial_values',
                     'PAR:generate_initial_values PAR:check_shape_of_users_initial_values PAR:check_users_initial_values_wrt_limits',
                     'PAR:unpack_mcmc_set PAR.setup_parallel_simulation PF.default_priorfun CP:_numeric_sort_key']),
    'C15': ' '.join(['SU:sample_candidate_from_gaussian_proposal SU:acceptance_test', CORE,
                     'ME.run_metropolis_step DR.run_delayed_rejection DR.initialize_next_metropolis_step AD.run_adaptation', ERRV,
                     'PAR:generate_initial_values PAR.run_parallel_simulation PAR:run_serial_simulation PROP:define_sample_points',
                     'PROP:observation_sample PI._define_sample_points PI._observation_sample PU:setup_subsample',
                     'RS.add_random_number_sequence MC.run_simulation MC.__setup_simulator MC._initialize_simulation',
                     'MP:plot_pairwise_correlation_panel MC.__init__ PROP:calculate_intervals PAR.setup_parallel_simulation']),
    'C16': ' '.join([PARA, LOGR, 'CP:load_parallel_simulation_results CP:read_in_parallel_json_results_files CP:load_json_object',
                     'CP:_check_directory CP:generate_combined_chain_with_index CP:generate_chain_list CS:get_parameter_names',
                     'MC.run_simulation SO._check_dependent_simulation_options']),
    'C17': ' '.join([PROPA, PIC, 'PU:empirical_quantiles PU:set_local_parameters', PROPP, PIP]),
    'C18': ' '.join([PARAMS, MODEL, OPTS, DATA, SIM, 'SS.__init__ PF.__init__', COVA,
                     'PAR:check_initial_values PAR:check_shape_of_users_initial_values PAR:check_users_initial_values_wrt_limits',
                     'PAR:assign_number_of_cores PAR:get_parameter_features PAR:check_options_output PROP:observation_sample PI._observation_sample',
                     'CP:check_parallel_directory_contents PAR:check_directory',
                     'MC.__expand_chains MC.__initialize_chains']),
    'C19': ' '.join([STATS, 'CP:generate_combined_chain_with_index CP:generate_chain_list PU:iqrange PU:gaussian_density_function',
                     'PU:scale_bandwidth PU:make_x_grid PU:empirical_quantiles PU:generate_ellipse']),
    'C20': ' '.join([SOSP, DATA, 'SU:calculate_log_posterior_ratio ME.calculate_posterior_ratio DR:log_posterior_ratio',
                     'MC._initialize_simulation PM.setup_prior_mu PM.setup_prior_sigma PM._check_prior_sigma PM._openparameterstructure',
                     'MS.define_model_settings MS.__init__ ME.run_metropolis_step DR.run_delayed_rejection MC.__setup_simulator']),
    'C21': ' '.join([OPTS, 'MC.__init__ MC._initialize_simulation SM.__init__ RS.add_options', CORE,
                     'MC.run_simulation COV._initialize_covariance_settings COV.__check_adascale COV.__setup_RDR_matrix COV.__setup_R_matrix',
                     'AD.run_adaptation AD:unpack_simulation_options MS.define_model_settings']),
    'C22': ' '.join([SETT, 'PROP:setup_display_settings PROP:__setup_iset PROP:_check_limits PROP:setup_interval_colors PROP:plot_intervals PROP:plot_3d_intervals',
                     PLOT, 'PI._setup_display_settings PI.plot_prediction_intervals PI._setup_interval_colors PU:setup_plot_features',
                     'PU:generate_names PU:extend_names_to_match_nparam PU:generate_default_names PU:convert_flag_to_boolean',
                     'PI._check_prediction_interval_flag PI._setup_labels PROP:_setup_labels PROP:__setup_cmap_norm PROP:__setup_default_cmap']),
    'C23': ' '.join([DATA, 'MS._check_number_of_observations MS._check_dependent_model_settings MS._check_dependent_model_settings_wrt_nsos',
                     'MS.__check_size_of_observations_wrt_nsos MS.__check_size_of_setting_wrt_nsos MS._array_type MS.define_model_settings',
                     'MC.__init__ MC._initialize_simulation EV.update_error_variance SS.evaluate_sos_function SS.mcmc_sos_function',
                     'PI._analyze_data_structure PI._setup_data_structure_for_prediction']),
    'C24': ' '.join([RES, 'MC.__generate_simulation_results PM._openparameterstructure PM._results_to_params PM:generate_default_name',
                     'PM:replace_list_elements PM.add_model_parameter MC.__initialize_chains PM.scan_for_local_variables',
                     'CS:get_parameter_names CS:chainstats PI._assign_features_from_results_structure PM.setup_adapting',
                     'PM.setup_prior_mu PM.setup_prior_sigma PM.setup_adaptation_indices PM:check_noadaptind',
                     'MC.__update_chain MC._initialize_simulation MC.run_simulation']),
    'C25': ' '.join([PLOT, PLOTU, 'PU:check_settings', PROPP, PIP, 'CP:generate_combined_chain_with_index']),
}


# sequences of calls (scenarios/scenarios.py), each analysed as one function
SCENARIOS = {
    'C01': 'whole_run metropolis_twice parameters_opened parallel_setup_and_run',
    'C02': 'metropolis_twice sum_of_squares_twice prior_twice default_prior_twice whole_run two_runs',
    'C03': 'delayed_rejection_stages whole_run two_runs',
    'C04': 'whole_run two_runs run_then_extend parameter_sets_are_separate',
    'C05': 'whole_run two_runs delayed_rejection_stages',
    'C06': 'adaptation_after_setup proposal_setup_twice whole_run two_runs',
    'C07': 'adaptation_after_setup proposal_setup_twice proposal_reported',
    'C08': 'earlier_results_kept variance_after_setup model_settings_checked_twice error_variance_twice model_settings_checked model_settings_redefined whole_run two_runs',
    'C09': 'sum_of_squares_twice parameters_opened parameters_opened_again whole_run parameters_opened_twice',
    'C10': 'whole_run run_then_extend log_blocks',
    'C11': 'log_blocks combined_twice',
    'C12': 'export_and_load results_collected whole_run',
    'C13': 'run_then_extend options_checked_twice parameters_opened_again',
    'C14': 'settings_twice statistics_twice propagation_twice intervals_twice combined_twice parallel_setup_twice interval_plots_twice',
    'C15': 'whole_run two_runs metropolis_twice error_variance_twice',
    'C16': 'parallel_setup_and_run parallel_setup_twice combined_twice',
    'C17': 'intervals_twice propagation_twice',
    'C18': 'variance_after_setup model_settings_checked_twice model_settings_checked model_settings_redefined options_checked parameters_opened data_sets parameters_opened_twice',
    'C19': 'statistics_twice diagnostics_twice',
    'C20': 'prior_twice default_prior_twice sum_of_squares_twice data_sets',
    'C21': 'options_checked options_redefined whole_run two_runs',
    'C22': 'settings_twice interval_plots_twice',
    'C23': 'data_sets data_objects_are_separate model_settings_checked',
    'C24': 'results_collected parameters_opened parameter_objects_are_separate whole_run run_then_extend parameters_opened_twice proposal_reported earlier_results_kept',
    'C25': 'density_panel_twice chain_panel_twice interval_plots_twice',
}
_LEAVES = _INIT + [full(x) for x in '''ME.run_metropolis_step DR.run_delayed_rejection AD.run_adaptation EV.update_error_variance
    MC.__save_to_log_file RS.export_simulation_results_to_json_file RS.export_lightly'''.split()]
for _s in 'whole_run two_runs run_then_extend'.split():
    BOUNDS['scenarios:' + _s] = [_LEAVES]
BOUNDS['scenarios:propagation_twice'] = BOUNDS[full('PROP:calculate_intervals')]
BOUNDS['scenarios:data_sets'] = [[full('DS._convert_to_numpy_array'), full('DS._convert_numpy_array_to_2d')]]
for _s in 'model_settings_checked model_settings_checked_twice variance_after_setup earlier_results_kept options_checked_twice'.split():
    BOUNDS['scenarios:' + _s] = [[full('MS._array_type'), full('MS._check_number_of_observations'), full('EV.gammar')]]


def obligations(prop):
    seen, out = set(), []
    for f in [full(x) for x in TABLE[prop].split()] + ['scenarios:' + x for x in SCENARIOS[prop].split()]:
        if f in seen:
            continue
        seen.add(f)
        mod, q = f.split(':')
        out.append(Obligation(mod, q, boundaries=BOUNDS.get(f)))
    return out


def everything():
    seen = {}
    for p in TABLE:
        for o in obligations(p):
            seen.setdefault(o.full, o)
    return list(seen.values())

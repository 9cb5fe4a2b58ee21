"""Sequences of calls against the package, analysed (never run) with the callees expanded on both sides.

A single function can be right for every state it is given and still be wrong in use: a value kept from an earlier call, an
attribute set in one method and read in another.  Each scenario creates the objects it uses, so that whatever one call leaves
behind is what the next one finds.
"""
from pymcmcstat.MCMC import MCMC
from pymcmcstat.ParallelMCMC import ParallelMCMC
from pymcmcstat.propagation import calculate_intervals, plot_intervals
from pymcmcstat.chain.ChainProcessing import (generate_chain_list, generate_combined_chain_with_index, read_in_bin_file,
                                               read_in_txt_file, _save_to_bin_file, _save_to_txt_file)
from pymcmcstat.chain.ChainStatistics import chainstats, gelman_rubin
from pymcmcstat.plotting.MCMCPlotting import plot_chain_panel, plot_density_panel
from pymcmcstat.plotting.PredictionIntervals import PredictionIntervals
from pymcmcstat.utilities.general import check_settings
from pymcmcstat.procedures.SumOfSquares import SumOfSquares
from pymcmcstat.procedures.PriorFunction import PriorFunction
from pymcmcstat.procedures.ErrorVarianceEstimator import ErrorVarianceEstimator
from pymcmcstat.procedures.CovarianceProcedures import CovarianceProcedures
from pymcmcstat.samplers.Metropolis import Metropolis
from pymcmcstat.samplers.DelayedRejection import DelayedRejection
from pymcmcstat.samplers.Adaptation import Adaptation
from pymcmcstat.settings.DataStructure import DataStructure
from pymcmcstat.settings.ModelSettings import ModelSettings
from pymcmcstat.settings.ModelParameters import ModelParameters
from pymcmcstat.settings.SimulationOptions import SimulationOptions
from pymcmcstat.structures.ResultsStructure import ResultsStructure
from pymcmcstat.structures.ParameterSet import ParameterSet


def sum_of_squares_twice(model, data, parameters, theta1, theta2, custom1, custom2):
    s = SumOfSquares(model, data, parameters)
    a = s.evaluate_sos_function(theta1, custom=custom1)
    b = s.evaluate_sos_function(theta2, custom=custom2)
    c = s.evaluate_sos_function(theta1, custom=custom2)
    return a, b, c


def prior_twice(fun, mu, sigma, theta1, theta2):
    p = PriorFunction(priorfun=fun, mu=mu, sigma=sigma)
    a = p.evaluate_prior(theta1)
    b = p.evaluate_prior(theta2)
    return a, b


def default_prior_twice(mu, sigma, theta1, theta2):
    p = PriorFunction(mu=mu, sigma=sigma)
    a = p.evaluate_prior(theta1)
    b = p.evaluate_prior(theta2)
    return a, b


def error_variance_twice(sos1, sos2, model):
    e = ErrorVarianceEstimator()
    a = e.update_error_variance(sos1, model)
    a = a.copy()
    b = e.update_error_variance(sos2, model)
    return a, b


def metropolis_twice(set1, set2, parameters, others, R1, R2, prior_object, sos_object, custom):
    m = Metropolis()
    accept1, new1, out1, u1 = m.run_metropolis_step(old_set=set1, parameters=parameters, R=R1, prior_object=prior_object,
                                                    sos_object=sos_object, custom=custom)
    accept2, new2, out2, u2 = m.run_metropolis_step(old_set=set2, parameters=others, R=R2, prior_object=prior_object,
                                                    sos_object=sos_object, custom=custom)
    return (accept1, new1.theta, new1.ss, new1.prior, new1.sigma2, new1.alpha, out1, u1,
            accept2, new2.theta, new2.ss, new2.prior, new2.sigma2, new2.alpha, out2, u2)


def delayed_rejection_stages(path1, path2, invR, options):
    d = DelayedRejection()
    d._initialize_dr_metrics(options)
    a = d.alphafun(path1, invR)
    b = d.alphafun(path2, invR)
    return a, b, d.dr_step_counter, d.iacce


def data_sets(x1, y1, x2, y2, n2, w2, u2):
    d = DataStructure()
    d.add_data_set(x1, y1)
    batches = d.get_number_of_batches()
    observations = d.get_number_of_observations()
    d.add_data_set(x2, y2, n=n2, weight=w2, user_defined_object=u2)
    return (batches, observations, d.xdata, d.ydata, d.n, d.shape, d.weight, d.user_defined_object, d.get_number_of_batches(),
            d.get_number_of_observations())


def data_objects_are_separate(x1, y1, x2, y2):
    a = DataStructure()
    b = DataStructure()
    a.add_data_set(x1, y1)
    b.add_data_set(x2, y2)
    return a.xdata, a.ydata, a.n, a.shape, a.weight, b.xdata, b.ydata, b.n, b.shape, b.weight


def parameter_objects_are_separate(v1, v2, lo, hi):
    a = ModelParameters()
    b = ModelParameters()
    a.add_model_parameter('p', v1, minimum=lo, maximum=hi)
    b.add_model_parameter('q', v2)
    return a.parameters, b.parameters


def parameters_opened(v1, lo1, hi1, mu1, sig1, v2, sample2, adapt2, nbatch):
    p = ModelParameters()
    p.add_model_parameter('p', v1, minimum=lo1, maximum=hi1, prior_mu=mu1, prior_sigma=sig1)
    p.add_model_parameter('q', v2, sample=sample2, adapt=adapt2)
    p._openparameterstructure(nbatch)
    p._check_prior_sigma(0)
    p._check_parameter_limits()
    p._check_initial_values_wrt_parameter_limits()
    return (p._names, p._initial_value, p._value, p._lower_limits, p._upper_limits, p._thetamu, p._thetasigma, p._parind,
            p._no_adapt, p._local, p.npar)


def parameters_opened_again(parameters, nbatch, results):
    parameters._openparameterstructure(nbatch)
    parameters._results_to_params(results, 1)
    parameters._openparameterstructure(nbatch)
    return (parameters._names, parameters._initial_value, parameters._value, parameters._lower_limits,
            parameters._upper_limits, parameters._thetamu, parameters._thetasigma, parameters._parind, parameters.npar)


def parameters_opened_twice(v1, v2, nbatch):
    p = ModelParameters()
    p.add_model_parameter('p', v1)
    p._openparameterstructure(nbatch)
    p.add_model_parameter('q', v2, sample=False)
    p._openparameterstructure(nbatch)
    return (p._names, p._initial_value, p._value, p._lower_limits, p._upper_limits, p._thetamu, p._thetasigma, p._parind,
            p._no_adapt, p._local, p.npar)


def model_settings_checked(sigma2, N, S20, N0, data, options, nsos):
    m = ModelSettings()
    m.define_model_settings(sigma2=sigma2, N=N, S20=S20, N0=N0)
    m._check_dependent_model_settings(data, options)
    m._check_dependent_model_settings_wrt_nsos(nsos)
    return m.sigma2, m.N, m.S20, m.N0, m.nbatch, m.nsos


def variance_after_setup(sigma2, S20, N0, data, options, sos):
    m = ModelSettings()
    m.sigma2 = sigma2
    m.S20 = S20
    m.N0 = N0
    m.N = None
    m.nbatch = None
    m._check_dependent_model_settings(data, options)
    e = ErrorVarianceEstimator()
    e.update_error_variance(sos, m)
    return m.S20, m.N, m.N0, m.sigma2


def model_settings_checked_twice(sigma2, N, S20, N0, data, options, nsos, other, again):
    m = ModelSettings()
    m.define_model_settings(sigma2=sigma2, N=N, S20=S20, N0=N0)
    m._check_dependent_model_settings(data, options)
    m._check_dependent_model_settings_wrt_nsos(nsos)
    m.define_model_settings(sigma2=sigma2, N=N, S20=S20, N0=N0)
    m._check_dependent_model_settings(other, options)
    m._check_dependent_model_settings_wrt_nsos(again)
    return m.sigma2, m.N, m.S20, m.N0, m.nbatch, m.nsos


def earlier_results_kept(sigma2, S20, N0, N, nsos, sos):
    m = ModelSettings()
    m.sigma2 = sigma2
    m.S20 = S20
    m.N0 = N0
    m.N = N
    m.Nshape = 1
    r = ResultsStructure()
    r.add_model(m)
    m._check_dependent_model_settings_wrt_nsos(nsos)
    e = ErrorVarianceEstimator()
    e.update_error_variance(sos, m)
    kept = r.results['model_settings']
    return kept['sigma2'], kept['S20'], kept['N'], kept['N0'], m.sigma2


def options_checked_twice(nsimu, updatesigma, N0, model):
    o = SimulationOptions()
    o.define_simulation_options(nsimu=nsimu, updatesigma=updatesigma)
    m = ModelSettings()
    m.define_model_settings(N0=N0)
    o._check_dependent_simulation_options(m)
    first = o.updatesigma
    m._check_dependent_model_settings(model, o)
    o._check_dependent_simulation_options(m)
    return first, o.updatesigma, m.N0


def model_settings_redefined(sigma2, S20, other):
    m = ModelSettings()
    m.define_model_settings(sigma2=sigma2, S20=S20)
    m.define_model_settings(sigma2=other)
    return m.sigma2, m.N, m.S20, m.N0, m.nbatch, m.sos_function, m.prior_function, m.model_function


def options_checked(nsimu, method, adaptint, ntry, lastadapt, printint, savesize, save_to_bin, save_to_txt, model):
    o = SimulationOptions()
    o.define_simulation_options(nsimu=nsimu, method=method, adaptint=adaptint, ntry=ntry, lastadapt=lastadapt,
                                printint=printint, savesize=savesize, save_to_bin=save_to_bin, save_to_txt=save_to_txt)
    o._check_dependent_simulation_options(model)
    return (o.nsimu, o.adaptint, o.ntry, o.doram, o.adascale, o.lastadapt, o.printint, o.savesize, o.save_to_bin,
            o.save_to_txt, o.drscale, o.burnintime, o.updatesigma, o.qcov_adjust, o.burnin_scale, o.initqcovn)


def options_redefined(nsimu, other, qcov):
    o = SimulationOptions()
    o.define_simulation_options(nsimu=nsimu, method='dram', qcov=qcov, updatesigma=True, save_to_bin=True)
    o.define_simulation_options(nsimu=other, method='mh')
    return o.nsimu, o.method, o.adaptint, o.ntry, o.doram, o.qcov, o.updatesigma, o.save_to_bin, o.adascale


def proposal_setup_twice(first, second, options, others):
    c = CovarianceProcedures()
    c._initialize_covariance_settings(first, options)
    c._initialize_covariance_settings(second, others)
    return c._R, c._qcov, c._qcovorig, c._RDR, c._invR, c._wsum, c._no_adapt_index, c._qcov_scale


def adaptation_after_setup(parameters, options, theta, isimu, iiadapt, rejected, chain, chainind, u, npar, alpha):
    c = CovarianceProcedures()
    c._initialize_covariance_settings(parameters, options)
    c._update_covariance_settings(theta)
    a = Adaptation()
    c = a.run_adaptation(covariance=c, options=options, isimu=isimu, iiadapt=iiadapt, rejected=rejected, chain=chain,
                         chainind=chainind, u=u, npar=npar, alpha=alpha)
    return c._R, c._covchain, c._meanchain, c._wsum, c._last_index_since_adaptation, c._RDR, c._invR


def parameter_sets_are_separate(theta1, theta2):
    a = ParameterSet(theta=theta1)
    b = ParameterSet(theta=theta2)
    a.alpha = 0
    return a.theta, b.theta, a.alpha, b.alpha, b.ss, b.prior, b.sigma2


def results_collected(chain, s2chain, sschain, model, options, mu, sigma, priortype):
    r = ResultsStructure()
    q = ResultsStructure()
    r.add_chain(chain=chain)
    r.add_s2chain(s2chain=s2chain)
    r.add_sschain(sschain=sschain)
    r.add_prior(mu=mu, sigma=sigma, priortype=priortype)
    return r.results, q.results, r.basic, q.basic


def whole_run(data, model_settings, options, parameters, rngseed):
    m = MCMC(rngseed=rngseed)
    m.data = data
    m.model_settings = model_settings
    m.simulation_options = options
    m.parameters = parameters
    m.run_simulation()
    return m.simulation_results.results


def run_then_extend(data, model_settings, options, parameters, rngseed, more):
    m = MCMC(rngseed=rngseed)
    m.data = data
    m.model_settings = model_settings
    m.simulation_options = options
    m.parameters = parameters
    m.run_simulation()
    options.nsimu = more
    m.run_simulation(use_previous_results=True)
    return m.simulation_results.results


def two_runs(data, model_settings, options, parameters, rngseed, other):
    m = MCMC(rngseed=rngseed)
    m.data = data
    m.model_settings = model_settings
    m.simulation_options = options
    m.parameters = parameters
    m.run_simulation()
    m.simulation_options = other
    m.run_simulation()
    return m.simulation_results.results


def parallel_setup_and_run(mcset, initial_values, num_cores, num_chain):
    p = ParallelMCMC()
    p.setup_parallel_simulation(mcset, initial_values=initial_values, num_cores=num_cores, num_chain=num_chain)
    p.run_parallel_simulation()
    return [c.simulation_results for c in p.parmc]


def parallel_setup_twice(mcset, other, initial_values, num_chain):
    p = ParallelMCMC()
    p.setup_parallel_simulation(mcset, initial_values=initial_values, num_chain=num_chain)
    p.setup_parallel_simulation(other, num_chain=num_chain)
    return p.num_chain, p.num_cores, p.initial_values, [c.parameters for c in p.parmc], \
        [c.simulation_options.savedir for c in p.parmc]


def intervals_twice(results, data, modelfunction, results2, data2, modelfunction2, nsample):
    p = PredictionIntervals()
    p.setup_prediction_interval_calculation(results=results, data=data, modelfunction=modelfunction)
    p.generate_prediction_intervals(nsample=nsample, calc_pred_int=False, waitbar=False)
    a = p.intervals
    p.setup_prediction_interval_calculation(results=results2, data=data2, modelfunction=modelfunction2)
    p.generate_prediction_intervals(nsample=nsample, calc_pred_int=True, waitbar=False)
    return a, p.intervals


def settings_twice(defaults, user1, user2):
    a = check_settings(defaults, user1)
    b = check_settings(defaults, user2)
    c = check_settings(defaults)
    return a, b, c


def statistics_twice(chain1, chain2, results1):
    a = chainstats(chain1, results1, returnstats=True)
    b = chainstats(chain2, returnstats=True)
    return a, b


def diagnostics_twice(chains1, chains2, names):
    a = gelman_rubin(chains1, names=names, display=False)
    b = gelman_rubin(chains2, names=names, display=False)
    return a, b


def propagation_twice(chain1, chain2, results, data, model, s2chain, nsample):
    a = calculate_intervals(chain1, results, data, model, nsample=nsample, waitbar=False)
    b = calculate_intervals(chain2, results, data, model, s2chain=s2chain, nsample=nsample, waitbar=False)
    return a, b


def export_and_load(results, options_dir, filename):
    r = ResultsStructure()
    r.export_lightly(results=results)
    r.export_simulation_results_to_json_file(results=results)
    return r.load_json_object(filename)


def log_blocks(binfile, txtfile, name1, name2, block1, block2):
    _save_to_bin_file(binfile, datasetname=name1, mtx=block1)
    _save_to_bin_file(binfile, datasetname=name2, mtx=block2)
    _save_to_txt_file(txtfile, mtx=block1)
    _save_to_txt_file(txtfile, mtx=block2)
    return read_in_bin_file(binfile), read_in_txt_file(txtfile)


def combined_twice(first, second, percentage):
    a, ia = generate_combined_chain_with_index(first, burnin_percentage=percentage)
    b, ib = generate_combined_chain_with_index(second, burnin_percentage=percentage)
    return a, ia, b, ib, generate_chain_list(first, burnin_percentage=percentage)


def density_panel_twice(chain1, chain2, names1):
    a = plot_density_panel(chain1, names1)
    b = plot_density_panel(chain2)
    return a, b


def chain_panel_twice(chain1, chain2, names1):
    a = plot_chain_panel(chain1, names1)
    b = plot_chain_panel(chain2)
    return a, b


def interval_plots_twice(intervals1, intervals2, time, ydata, ciset):
    a = plot_intervals(intervals1, time, ydata, ciset=ciset, return_settings=True)
    b = plot_intervals(intervals2, time, return_settings=True)
    return a, b


def proposal_reported(parameters, options, rejected, simutime):
    c = CovarianceProcedures()
    c._initialize_covariance_settings(parameters, options)
    r = ResultsStructure()
    r.add_basic(nsimu=options.nsimu, covariance=c, parameters=parameters, rejected=rejected, simutime=simutime,
                theta=parameters._initial_value)
    return r.results, c._qcov, c._qcov_original, c._qcovorig

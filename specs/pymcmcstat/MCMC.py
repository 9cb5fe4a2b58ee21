import os
import time
import numpy as np
import datetime
import sys
from .settings.DataStructure import DataStructure
from .settings.ModelSettings import ModelSettings
from .settings.ModelParameters import ModelParameters
from .settings.SimulationOptions import SimulationOptions
from .procedures.CovarianceProcedures import CovarianceProcedures
from .procedures.SumOfSquares import SumOfSquares
from .procedures.PriorFunction import PriorFunction
from .procedures.ErrorVarianceEstimator import ErrorVarianceEstimator
from .structures.ParameterSet import ParameterSet
from .structures.ResultsStructure import ResultsStructure
from .samplers.SamplingMethods import SamplingMethods
from .plotting import MCMCPlotting
from .plotting.PredictionIntervals import PredictionIntervals
from .chain import ChainStatistics
from .chain import ChainProcessing
from .utilities.progressbar import progress_bar
from .utilities.general import message

class MCMC:

    def __init__(self, rngseed=None, seterr={'over': 'ignore', 'under': 'ignore'}):
        self.data = DataStructure()
        self.model_settings = ModelSettings()
        self.simulation_options = SimulationOptions()
        self.parameters = ModelParameters()
        self.custom_samplers = []
        self._error_variance = ErrorVarianceEstimator()
        self._covariance = CovarianceProcedures()
        self._sampling_methods = SamplingMethods()
        self._mcmc_status = False
        np.random.seed(seed=rngseed)
        np.seterr(**seterr)

    def run_simulation(self, use_previous_results=False):
        start_time = time.time()
        self.__setup_simulator(use_previous_results=use_previous_results)
        if self.simulation_options.waitbar:
            self.__wbarstatus = progress_bar(iters=int(self.simulation_options.nsimu))
        if self.simulation_options.verbosity >= 2:
            self.display_current_mcmc_settings()
        self.__execute_simulator()
        end_time = time.time()
        self.__simulation_time = end_time - start_time
        self.__generate_simulation_results()
        if self.simulation_options.save_to_json is True:
            if self.simulation_results.basic is True:
                if self.simulation_options.save_lightly is True:
                    self.simulation_results.export_lightly(results=self.simulation_results.results)
                else:
                    self.simulation_results.export_simulation_results_to_json_file(results=self.simulation_results.results)
        self.mcmcplot = MCMCPlotting.Plot()
        self.PI = PredictionIntervals()
        self.chainstats = ChainStatistics.chainstats
        self._mcmc_status = True

    def __setup_simulator(self, use_previous_results):
        if use_previous_results is True:
            if self._mcmc_status is True:
                self.parameters._results_to_params(self.simulation_results.results, 1)
                self._initialize_simulation()
                self.__expand_chains(nsimu=self.simulation_options.nsimu, npar=self.parameters.npar, nsos=self.model_settings.nsos, updatesigma=self.simulation_options.updatesigma)
            else:
                sys.exit('No previous results found.  Set use_previous_results to False')
        else:
            if self.simulation_options.json_restart_file is not None:
                RS = ResultsStructure()
                res = RS.load_json_object(self.simulation_options.json_restart_file)
                self.parameters._results_to_params(res, 1)
                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
            self.__chain_index = 0
            self._initialize_simulation()
            self.__initialize_chains(chainind=self.__chain_index, nsimu=self.simulation_options.nsimu, npar=self.parameters.npar, nsos=self.model_settings.nsos, updatesigma=self.simulation_options.updatesigma, sigma2=self.model_settings.sigma2)

    def _initialize_simulation(self):
        self.simulation_options._check_dependent_simulation_options(self.model_settings)
        self.model_settings._check_dependent_model_settings(self.data, self.simulation_options)
        self.parameters._openparameterstructure(self.model_settings.nbatch)
        self.parameters._check_parameter_limits()
        self.parameters._check_initial_values_wrt_parameter_limits()
        self.parameters._check_prior_sigma(self.simulation_options.verbosity)
        self.parameters.display_parameter_settings(self.simulation_options.verbosity, self.parameters._no_adapt)
        self._covariance._initialize_covariance_settings(self.parameters, self.simulation_options)
        self.__sos_object = SumOfSquares(self.model_settings, self.data, self.parameters)
        self.__prior_object = PriorFunction(priorfun=self.model_settings.prior_function, mu=self.parameters._thetamu[self.parameters._parind[:]], sigma=self.parameters._thetasigma[self.parameters._parind[:]])
        self.__initial_set = ParameterSet(theta=self.parameters._initial_value[self.parameters._parind[:]])
        self.__initial_set.ss = self.__sos_object.evaluate_sos_function(self.__initial_set.theta)
        nsos = len(self.__initial_set.ss)
        self.__initial_set.prior = self.__prior_object.evaluate_prior(self.__initial_set.theta)
        self.__initial_set.sigma2 = self.model_settings.sigma2
        self.model_settings._check_dependent_model_settings_wrt_nsos(nsos)
        self._covariance._update_covariance_settings(self.__initial_set.theta)
        if self.simulation_options.ntry > 1:
            self._sampling_methods.delayed_rejection._initialize_dr_metrics(self.simulation_options)
        self.custom_sampler_output = []
        if len(self.custom_samplers) > 0:
            for ii, cs in enumerate(self.custom_samplers):
                self.custom_sampler_output.append(cs.setup())

    def __initialize_chains(self, chainind, nsimu, npar, nsos, updatesigma, sigma2):
        self.__chain = np.zeros([nsimu, npar])
        self.__sschain = np.zeros([nsimu, nsos])
        self.__chain[chainind, :] = self.__initial_set.theta
        self.__sschain[chainind, :] = self.__initial_set.ss
        self.__chains = []
        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
        if updatesigma:
            self.__s2chain = np.zeros([nsimu, nsos])
            self.__s2chain[chainind, :] = sigma2
            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
        else:
            self.__s2chain = None

    def __expand_chains(self, nsimu, npar, nsos, updatesigma):
        zero_chain = np.zeros([nsimu - 1, npar])
        zero_sschain = np.zeros([nsimu - 1, nsos])
        self.__chain = np.concatenate((self.__chain, zero_chain), axis=0)
        self.__sschain = np.concatenate((self.__sschain, zero_sschain), axis=0)
        if updatesigma:
            zero_s2chain = np.zeros([nsimu - 1, nsos])
            self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
        else:
            self.__s2chain = None
        self.__chains = []
        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
        if updatesigma:
            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))

    def __execute_simulator(self):
        iiadapt = 0
        iiprint = 0
        savecount = 0
        lastbin = 0 if self.__chain_index == 0 else self.__chain_index + 1
        nsimu = self.simulation_options.nsimu
        self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
        self.__old_set = self.__initial_set
        for isimu in range(1, nsimu):
            iiadapt += 1
            iiprint += 1
            savecount += 1
            self.__chain_index += 1
            if self.simulation_options.waitbar:
                self.__wbarstatus.update(isimu)
            message(self.simulation_options.verbosity, 100, str('i: {:d}/{:d}\n'.format(isimu, nsimu)))
            accept, new_set, outbound, npar_sample_from_normal = self._sampling_methods.metropolis.run_metropolis_step(old_set=self.__old_set, parameters=self.parameters, R=self._covariance._R, prior_object=self.__prior_object, sos_object=self.__sos_object, custom=self.custom_sampler_output)
            if self.simulation_options.ntry > 1 and accept == 0:
                accept, new_set, outbound = self._sampling_methods.delayed_rejection.run_delayed_rejection(old_set=self.__old_set, new_set=new_set, RDR=self._covariance._RDR, ntry=self.simulation_options.ntry, parameters=self.parameters, invR=self._covariance._invR, sosobj=self.__sos_object, priorobj=self.__prior_object, custom=self.custom_sampler_output)
            self.__update_chain(accept=accept, new_set=new_set, outsidebounds=outbound)
            self.__sschain[self.__chain_index, :] = self.__old_set.ss
            if self.simulation_options.printint and iiprint == self.simulation_options.printint:
                print_rejection_statistics(rejected=self.__rejected, isimu=isimu, iiadapt=iiadapt, verbosity=self.simulation_options.verbosity)
                iiprint = 0
            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint and (isimu <= self.simulation_options.lastadapt):
                self._covariance = self._sampling_methods.adaptation.run_adaptation(covariance=self._covariance, options=self.simulation_options, isimu=isimu, iiadapt=iiadapt, rejected=self.__rejected, chain=self.__chain, chainind=self.__chain_index, u=npar_sample_from_normal, npar=self.parameters.npar, alpha=new_set.alpha)
                iiadapt = 0
                self.__rejected['in_adaptation_interval'] = 0
            if self.simulation_options.updatesigma:
                sigma2 = self._error_variance.update_error_variance(self.__old_set.ss, self.model_settings)
                self.__s2chain[self.__chain_index, :] = sigma2
                self.__old_set.sigma2 = sigma2
            self.custom_sampler_output = []
            for cs in self.custom_samplers:
                self.custom_sampler_output.append(cs.update(accept=accept, isimu=isimu, current_set=self.__old_set))
            if savecount == self.simulation_options.savesize:
                savecount, lastbin = self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index)
                self.__save_to_log_file(chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))], start=self.__chain_index - self.simulation_options.savesize, end=self.__chain_index, append_to_log=False, covmtx=True)
                for cs in self.custom_samplers:
                    if hasattr(cs, 'save_chain') is True and cs.save_chain is True:
                        self.__save_to_log_file(chains=cs.chains, start=isimu - self.simulation_options.savesize, end=isimu, append_to_log=False)
        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
        self.__save_to_log_file(chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))], start=lastbin, end=self.__chain_index, append_to_log=False, covmtx=True)
        for cs in self.custom_samplers:
            if hasattr(cs, 'save_chain') is True and cs.save_chain is True:
                self.__save_to_log_file(cs.chains, start=nsimu - 1 - savecount, end=nsimu, append_to_log=False)
        self.parameters._value[self.parameters._parind] = self.__old_set.theta

    def __generate_simulation_results(self):
        self.simulation_results = ResultsStructure()
        self.simulation_results.add_basic(nsimu=self.simulation_options.nsimu, covariance=self._covariance, parameters=self.parameters, rejected=self.__rejected, simutime=self.__simulation_time, theta=self.parameters._value)
        if self.simulation_options.ntry > 1:
            self.simulation_results.add_dram(drscale=self.simulation_options.drscale, RDR=self._covariance._RDR, total_rejected=self.__rejected['total'], drsettings=self._sampling_methods.delayed_rejection)
        self.simulation_results.add_options(options=self.simulation_options)
        self.simulation_results.add_model(model=self.model_settings)
        self.simulation_results.add_prior(mu=self.parameters._thetamu, sigma=self.parameters._thetasigma, priortype=self.model_settings.prior_type)
        self.simulation_results.add_chain(chain=self.__chain)
        self.simulation_results.add_s2chain(s2chain=self.__s2chain)
        self.simulation_results.add_sschain(sschain=self.__sschain)

    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False):
        if self.simulation_options.save_to_bin is True:
            savedir = self.simulation_options.savedir
            ChainProcessing._check_directory(savedir)
            if append_to_log is True:
                binlogfile = os.path.join(savedir, 'binlogfile.txt')
                binstr = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
                ChainProcessing._add_to_log(binlogfile, str('{}\t{}\t{}\n'.format(binstr, start, end - 1)))
            if covmtx is True:
                self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='h5')
            else:
                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5')
        if self.simulation_options.save_to_txt is True:
            savedir = self.simulation_options.savedir
            ChainProcessing._check_directory(savedir)
            if append_to_log is True:
                txtlogfile = os.path.join(savedir, 'txtlogfile.txt')
                txtstr = datetime.datetime.now().strftime('%Y-%m-%d %H:%M:%S')
                ChainProcessing._add_to_log(txtlogfile, str('{}\t{}\t{}\n'.format(txtstr, start, end - 1)))
            if covmtx is True:
                self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='txt')
            else:
                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='txt')
        savecount = 0
        lastbin = end
        return (savecount, lastbin)

    def __save_chains(self, chains, savedir, start, end, extension):
        for ii, chain in enumerate(chains):
            chainfile = ChainProcessing._create_path_with_extension(savedir, chain['file'], extension=extension)
            if extension.lower() == 'h5':
                datasetname = str('{}_{}_{}'.format('nsimu', start, end - 1))
                ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=chain['mtx'][start:end, :])
            else:
                ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'][start:end, :])

    def __save_covmtx_chain(self, chain, start, end, extension):
        chainfile = ChainProcessing._create_path_with_extension(self.simulation_options.savedir, self.simulation_options.covchainfile, extension=extension)
        if extension.lower() == 'h5':
            datasetname = str('{}_{}_{}'.format('nsimu', start, end - 1))
            ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=chain['mtx'])
        else:
            ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'])

    def __update_chain(self, accept, new_set, outsidebounds):
        if accept:
            self.__chain[self.__chain_index, :] = new_set.theta
            self.__old_set = new_set
        else:
            self.__chain[self.__chain_index, :] = self.__old_set.theta
            self.__update_rejected(outsidebounds=outsidebounds)

    def __update_rejected(self, outsidebounds):
        self.__rejected['total'] += 1
        self.__rejected['in_adaptation_interval'] += 1
        if outsidebounds:
            self.__rejected['outside_bounds'] += 1

    def display_current_mcmc_settings(self):
        self.model_settings.display_model_settings()
        self.simulation_options.display_simulation_options()
        self._covariance.display_covariance_settings()

def print_rejection_statistics(rejected, isimu, iiadapt, verbosity):
    message(verbosity, 2, str('i:{} ({},{},{})\n'.format(isimu, rejected['total'] * isimu ** (-1) * 100, rejected['in_adaptation_interval'] * iiadapt ** (-1) * 100, rejected['outside_bounds'] * isimu ** (-1) * 100)))

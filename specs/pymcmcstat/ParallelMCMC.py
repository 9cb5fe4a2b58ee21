from .MCMC import MCMC
from .chain import ChainStatistics as CS
from .chain import ChainProcessing as CP
from .samplers.utilities import is_sample_outside_bounds
from multiprocessing import Pool, cpu_count
import numpy as np
import sys
import os
import copy
import time
import warnings

class ParallelMCMC:

    def __init__(self):
        self.description = 'Run MCMC simulations in parallel'

    def setup_parallel_simulation(self, mcset, initial_values=None, num_cores=1, num_chain=1):
        data, options, model, parameters = unpack_mcmc_set(mcset=mcset)
        npar, low_lim, upp_lim = get_parameter_features(parameters.parameters)
        options = check_options_output(copy.copy(options))
        self.num_cores = assign_number_of_cores(num_cores)
        if initial_values is not None:
            low_lim = np.array([par['minimum'] for par in parameters.parameters])
            upp_lim = np.array([par['maximum'] for par in parameters.parameters])
        self.initial_values, self.num_chain = check_initial_values(initial_values=initial_values, num_chain=num_chain, npar=npar, low_lim=low_lim, upp_lim=upp_lim)
        parallel_dir = options.savedir
        check_directory(parallel_dir)
        self.__parallel_dir = parallel_dir
        self.parmc = []
        for ii in range(self.num_chain):
            self.parmc.append(MCMC())
            self.parmc[ii].data = copy.deepcopy(data)
            self.parmc[ii].model_settings = copy.deepcopy(model)
            self.parmc[ii].simulation_options = copy.deepcopy(options)
            chain_dir = str('chain_{}'.format(ii))
            self.parmc[ii].simulation_options.savedir = str('{}{}{}'.format(self.__parallel_dir, os.sep, chain_dir))
            self.parmc[ii].simulation_options.results_filename = str('{}.json'.format(chain_dir))
            self.parmc[ii].simulation_options.json_restart_file = check_for_restart_file(options.json_restart_file, chain_dir)
            self.parmc[ii].parameters = copy.deepcopy(parameters)
            for jj in range(npar):
                if initial_values is None and (not parameters.parameters[jj]['sample']):
                    continue
                self.parmc[ii].parameters.parameters[jj]['theta0'] = self.initial_values[ii, jj]

    def run_parallel_simulation(self):
        start = time.time()
        mcpool = Pool(processes=self.num_cores, initializer=np.random.seed)
        res = mcpool.map(run_serial_simulation, self.parmc)
        mcpool.close()
        mcpool.join()
        end = time.time()
        self.__parsimutime = end - start
        print('Parallel simulation run time: {} sec'.format(self.__parsimutime))
        for ii in range(self.num_chain):
            self.parmc[ii].simulation_results = res[ii]

    def display_individual_chain_statistics(self):
        for ii, mc in enumerate(self.parmc):
            print('\n{}\nDisplaying results for chain {}\nFiles: {}'.format(40 * '*', ii, mc.simulation_options.savedir))
            CS.chainstats(mc.simulation_results.results['chain'], mc.simulation_results.results)

def unpack_mcmc_set(mcset):
    data = mcset.data
    options = mcset.simulation_options
    model = mcset.model_settings
    parameters = mcset.parameters
    return (data, options, model, parameters)

def get_parameter_features(parameters):
    npar = len(parameters)
    theta0 = np.zeros([npar])
    low_lim = np.zeros([npar])
    upp_lim = np.zeros([npar])
    for jj in range(npar):
        theta0[jj] = parameters[jj]['theta0']
        low_lim[jj] = parameters[jj]['minimum']
        upp_lim[jj] = parameters[jj]['maximum']
        if low_lim[jj] == -np.inf:
            low_lim[jj] = theta0[jj] - 100 * np.abs(theta0[jj])
            print('Finite lower limit required - setting low_lim[{}] = {}'.format(jj, low_lim[jj]))
        if upp_lim[jj] == np.inf:
            upp_lim[jj] = theta0[jj] + 100 * np.abs(theta0[jj])
            print('Finite upper limit required - setting upp_lim[{}] = {}'.format(jj, upp_lim[jj]))
    return (npar, low_lim, upp_lim)

def check_initial_values(initial_values, num_chain, npar, low_lim, upp_lim):
    if initial_values is None:
        initial_values = generate_initial_values(num_chain=num_chain, npar=npar, low_lim=low_lim, upp_lim=upp_lim)
    else:
        num_chain, initial_values = check_shape_of_users_initial_values(initial_values=initial_values, num_chain=num_chain, npar=npar)
        initial_values = check_users_initial_values_wrt_limits(initial_values=initial_values, low_lim=low_lim, upp_lim=upp_lim)
    return (initial_values, num_chain)

def generate_initial_values(num_chain, npar, low_lim, upp_lim):
    u = np.random.random_sample(size=(num_chain, npar))
    initial_values = low_lim + (upp_lim - low_lim) * u
    return initial_values

def check_shape_of_users_initial_values(initial_values, num_chain, npar):
    m, n = initial_values.shape
    if m != num_chain:
        print('Shape of initial values inconsistent with requested number of chains.              \n num_chain = {}, initial_values.shape -> {},{}.              Resizing num_chain to {}.'.format(num_chain, m, n, m))
        num_chain = m
    if n != npar:
        print('Shape of initial values inconsistent with requested number of parameters.              \n npar = {}, initial_values.shape -> {},{}.              Only using first {} columns of initial_values.'.format(npar, m, n, npar))
        initial_values = np.delete(initial_values, [range(npar, initial_values.shape[1])], axis=1)
    return (num_chain, initial_values)

def check_users_initial_values_wrt_limits(initial_values, low_lim, upp_lim):
    outsidebounds = is_sample_outside_bounds(initial_values, low_lim, upp_lim)
    if outsidebounds is True:
        sys.exit(str('Initial values are not within parameter limits.                       Make sure they are within the following limits:\n\tLower:                      {}\n\tUpper: {}\nThe initial_values tested were:\n{}'.format(low_lim, upp_lim, initial_values)))
    else:
        return initial_values

def check_options_output(options):
    if options.save_to_txt is False and options.save_to_bin is False and (options.save_to_json is False):
        options.save_to_bin = True
    return options

def check_directory(directory):
    if not os.path.exists(directory):
        os.makedirs(directory)

def run_serial_simulation(mcstat):
    print('Processing: {}'.format(mcstat.simulation_options.savedir))
    mcstat.run_simulation()
    return mcstat.simulation_results

def assign_number_of_cores(num_cores=1):
    tmp = cpu_count()
    if num_cores > tmp:
        return tmp
    else:
        return num_cores

def load_parallel_simulation_results(savedir, extension='h5', chainfile='chainfile', sschainfile='sschainfile', s2chainfile='s2chainfile', covchainfile='covchainfile'):
    pres = CP.read_in_parallel_json_results_files(savedir)
    for ii, pr in enumerate(pres):
        for key in pr.keys():
            if isinstance(pres[ii][key], list):
                pres[ii][key] = np.array(pres[ii][key])
    if 'chain' not in pr.keys():
        out = CP.read_in_parallel_savedir_files(savedir, extension=extension, chainfile=chainfile, sschainfile=sschainfile, s2chainfile=s2chainfile, covchainfile=covchainfile)
        if len(out[0]['chain']) == 0:
            warnings.warn('WARNING: No chains found in saved results.', UserWarning)
        for ii, pr in enumerate(pres):
            pr['chain'] = out[ii]['chain']
            pr['sschain'] = out[ii]['sschain']
            pr['s2chain'] = out[ii]['s2chain']
            pr['covchain'] = out[ii]['covchain']
    return pres

def check_for_restart_file(json_restart_file, chain_dir):
    if json_restart_file is not None:
        json_restart_file = str('{}{}{}{}{}.json'.format(json_restart_file, os.sep, chain_dir, os.sep, chain_dir))
        if os.path.exists(json_restart_file):
            return json_restart_file
        else:
            return None
    else:
        return None

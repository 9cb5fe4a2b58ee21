import json
import numpy as np
from ..utilities.NumpyEncoder import NumpyEncoder
from ..utilities.general import removekey
from ..chain.ChainProcessing import _check_directory, _create_path_without_extension

class ResultsStructure:

    def __init__(self):
        self.results = {}
        self.basic = False

    def export_simulation_results_to_json_file(self, results):
        savedir = results['simulation_options']['savedir']
        filename = self.determine_filename(options=results['simulation_options'])
        _check_directory(savedir)
        file = _create_path_without_extension(savedir, filename)
        self.save_json_object(results, file)

    def export_lightly(self, results):
        savedir = results['simulation_options']['savedir']
        filename = self.determine_filename(options=results['simulation_options'])
        _check_directory(savedir)
        file = _create_path_without_extension(savedir, filename)
        light_results = results.copy()
        light_results = lighten_results(results=light_results)
        self.save_json_object(light_results, file)

    @classmethod
    def determine_filename(cls, options):
        results_filename = options['results_filename']
        if results_filename is None:
            dtstr = options['datestr']
            filename = str('{}{}{}'.format(dtstr, '_', 'mcmc_simulation.json'))
        else:
            filename = results_filename
        return filename

    @classmethod
    def save_json_object(cls, results, filename):
        with open(filename, 'w') as out:
            json.dump(results, out, sort_keys=True, indent=4, cls=NumpyEncoder)

    @classmethod
    def load_json_object(cls, filename):
        with open(filename, 'r') as obj:
            results = json.load(obj)
        return results

    def add_basic(self, nsimu, covariance, parameters, rejected, simutime, theta):
        self.results['theta'] = theta
        self.results['parind'] = parameters._parind
        self.results['local'] = parameters._local
        self.results['total_rejected'] = rejected['total'] * nsimu ** (-1)
        self.results['rejected_outside_bounds'] = rejected['outside_bounds'] * nsimu ** (-1)
        self.results['R'] = covariance._R
        self.results['qcov'] = np.dot(covariance._R.transpose(), covariance._R)
        self.results['cov'] = covariance._covchain
        self.results['qcov_scale'] = covariance._qcov_scale
        self.results['mean'] = covariance._meanchain
        self.results['names'] = [parameters._names[ii] for ii in parameters._parind]
        self.results['allnames'] = [name for name in parameters._names]
        self.results['limits'] = [parameters._lower_limits[parameters._parind[:]], parameters._upper_limits[parameters._parind[:]]]
        self.results['nsimu'] = nsimu
        self.results['simutime'] = simutime
        covariance._qcovorig[np.ix_(parameters._parind, parameters._parind)] = self.results['qcov']
        self.results['qcovorig'] = covariance._qcovorig
        self.results['original_covariance'] = covariance._qcov_original
        self.basic = True

    def add_updatesigma(self, updatesigma, sigma2, S20, N0):
        self.results['updatesigma'] = updatesigma
        if updatesigma:
            self.results['sigma2'] = np.nan
            self.results['S20'] = S20
            self.results['N0'] = N0
        else:
            self.results['sigma2'] = sigma2
            self.results['S20'] = np.nan
            self.results['N0'] = np.nan

    def add_dram(self, drscale, RDR, total_rejected, drsettings):
        if self.basic is True:
            nsimu = self.results['nsimu']
            self.results['drscale'] = drscale
            drsettings.iacce[0] = nsimu - total_rejected - sum(drsettings.iacce[1:])
            self.results['iacce'] = drsettings.iacce
            self.results['alpha_count'] = drsettings.dr_step_counter
            self.results['RDR'] = RDR
            return True
        else:
            print('Cannot add DRAM settings to results structure before running add_basic')
            return False

    def add_prior(self, mu, sigma, priortype):
        self.results['prior'] = dict(mu=mu, sigma=sigma, priortype=priortype)

    def add_options(self, options=None):
        opt = options.__dict__
        do_not_save_these_keys = ['doram', 'waitbar', 'debug', 'dodram', 'maxmem', 'verbosity', 'RDR', 'stats', 'initqcovn', 'drscale', 'maxiter', '_SimulationOptions__options_set', 'skip']
        for keyii in do_not_save_these_keys:
            opt = removekey(opt, keyii)
        self.results['simulation_options'] = opt

    def add_model(self, model=None):
        mod = model.__dict__
        do_not_save_these_keys = ['sos_function', 'prior_function', 'model_function', 'prior_update_function', 'prior_pars']
        for keyii in do_not_save_these_keys:
            mod = removekey(mod, keyii)
        self.results['model_settings'] = mod

    def add_chain(self, chain=None):
        self.results['chain'] = chain

    def add_s2chain(self, s2chain=None):
        self.results['s2chain'] = s2chain

    def add_sschain(self, sschain=None):
        self.results['sschain'] = sschain

    def add_time_stats(self, mtime, drtime, adtime):
        self.results['time [mh, dr, am]'] = [mtime, drtime, adtime]

    def add_random_number_sequence(self, rndseq):
        self.results['rndseq'] = rndseq

def lighten_results(results):
    do_not_save_these_keys = ['chain', 's2chain', 'sschain']
    for keyii in do_not_save_these_keys:
        results = removekey(results, keyii)
    return results

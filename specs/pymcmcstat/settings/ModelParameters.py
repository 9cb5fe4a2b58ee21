import numpy as np
import math
import sys
from ..utilities.general import message, format_number_to_str

class ModelParameters:

    def __init__(self):
        self.parameters = []
        self.description = 'MCMC model parameters'

    def add_model_parameter(self, name=None, theta0=None, minimum=-np.inf, maximum=np.inf, prior_mu=np.zeros([1]), prior_sigma=np.inf, sample=True, local=0, adapt=True):
        if name is None:
            name = generate_default_name(len(self.parameters))
        if theta0 is None:
            theta0 = 1.0
        self.parameters.append(dict(name=name, theta0=theta0, minimum=minimum, maximum=maximum, prior_mu=prior_mu, prior_sigma=prior_sigma, sample=bool(sample), local=local, adapt=bool(adapt)))

    def _openparameterstructure(self, nbatch):
        parameters = self.parameters
        npar = len(parameters)
        self._names = []
        self._initial_value = np.zeros(npar)
        self._value = np.zeros(npar)
        self._parind = np.ones(npar, dtype=bool)
        self._adapt = np.ones(npar, dtype=bool)
        self._local = np.zeros(npar)
        self._upper_limits = np.ones(npar) * np.inf
        self._lower_limits = -np.ones(npar) * np.inf
        self._thetamu = np.zeros(npar)
        self._thetasigma = np.ones(npar) * np.inf
        ii = 0
        for kk in range(npar):
            if parameters[kk]['sample'] == 0:
                if parameters[kk]['local'] != 0:
                    self._local[ii:ii + nbatch - 1] = range(0, nbatch)
                    npar = npar + nbatch - 1
                    ii = ii + nbatch - 1
            ii += 1
        ii = 0
        for kk in range(npar):
            if self._local[ii] == 0:
                self._names.append(parameters[kk]['name'])
                self._initial_value[ii] = parameters[kk]['theta0']
                self._value[ii] = parameters[kk]['theta0']
                self._lower_limits[ii] = parameters[kk]['minimum']
                self._upper_limits[ii] = parameters[kk]['maximum']
                self._thetamu[ii] = self.setup_prior_mu(mu=parameters[kk]['prior_mu'], value=self._value[ii])
                self._thetasigma[ii] = self.setup_prior_sigma(sigma=parameters[kk]['prior_sigma'])
                self._parind[ii] = parameters[kk]['sample']
                self._adapt[ii] = self.setup_adapting(adapt=parameters[kk]['adapt'], sample=parameters[kk]['sample'])
            ii += 1
        self._parind, self._adapt, self._no_adapt = self.setup_adaptation_indices(parind=self._parind, adapt=self._adapt)
        self.npar = len(self._parind)

    @classmethod
    def setup_adapting(cls, adapt, sample):
        if sample is True:
            return adapt
        else:
            return False

    @classmethod
    def setup_adaptation_indices(cls, parind, adapt):
        no_adapt = adapt != parind
        parind = np.flatnonzero(parind)
        adapt = np.flatnonzero(adapt)
        no_adapt = no_adapt[parind[:]]
        return (parind, adapt, no_adapt)

    @classmethod
    def scan_for_local_variables(cls, nbatch, parameters):
        local = np.array([], dtype=int)
        for kk, par in enumerate(parameters):
            if par['sample'] is True:
                if par['local'] != 0:
                    local = np.concatenate((local, range(1, nbatch + 1)))
                else:
                    local = np.concatenate((local, np.zeros([1])))
        return local

    @classmethod
    def setup_prior_mu(cls, mu, value):
        if np.isnan(mu):
            return value
        else:
            return mu

    @classmethod
    def setup_prior_sigma(cls, sigma):
        if sigma == 0:
            return np.inf
        else:
            return sigma

    def _results_to_params(self, results, use_local=1):
        parind = results['parind']
        names = results['names']
        local = results['local']
        theta = results['theta']
        for ii, parii in enumerate(parind):
            if use_local == 1 and local[parii] == 1:
                name = names[ii]
            else:
                name = names[ii]
            for kk in range(len(self.parameters)):
                if name == self.parameters[kk]['name']:
                    if np.isnan(self.parameters[kk]['prior_mu']):
                        self.parameters[kk]['prior_mu'] = self.parameters[kk]['theta0']
                    if self.parameters[kk]['sample'] == 1 or self.parameters[kk]['sample'] is None:
                        self.parameters[kk]['theta0'] = theta[parii]

    def _check_parameter_limits(self):
        for ii, (lower, upper) in enumerate(zip(self._lower_limits[np.ix_(self._parind)], self._upper_limits[np.ix_(self._parind)])):
            if lower <= upper:
                continue
            else:
                sys.exit('Proposed limits are incompatible...\n' + '\tCheck parameter {} - '.format(self._names[self._parind[ii]]) + 'Minimum ({}) is not less than maximum ({})'.format(lower, upper))

    def _check_initial_values_wrt_parameter_limits(self):
        if (self._initial_value[np.ix_(self._parind)] < self._lower_limits[np.ix_(self._parind)]).any() or (self._initial_value[np.ix_(self._parind)] > self._upper_limits[np.ix_(self._parind)]).any():
            sys.exit('Proposed value outside parameter limits - select new initial parameter values')
        else:
            return True

    def _check_prior_sigma(self, verbosity):
        message(verbosity, 2, 'If prior variance <= 0, setting to Inf\n')
        self._thetasigma = replace_list_elements(self._thetasigma, less_than_or_equal_to_zero, float('Inf'))

    def display_parameter_settings(self, verbosity=None, no_adapt=None):
        parind = self._parind
        names = self._names
        value = self._initial_value
        lower_limits = self._lower_limits
        upper_limits = self._upper_limits
        theta_mu = self._thetamu
        theta_sigma = self._thetasigma
        verbosity = check_verbosity(verbosity)
        no_adapt = check_noadaptind(no_adapt, npar=len(parind))
        if verbosity > 0:
            print('\nSampling these parameters:')
            print('{:>10s} {:>10s} [{:>9s}, {:>9s}] N({:>9s}, {:>9s})'.format('name', 'start', 'min', 'max', 'mu', 'sigma^2'))
            nprint = len(parind)
            for ii in range(nprint):
                name = str('{:>10s}'.format(names[parind[ii]]))
                valuestr = format_number_to_str(value[parind[ii]])
                lowstr = format_number_to_str(lower_limits[parind[ii]])
                uppstr = format_number_to_str(upper_limits[parind[ii]])
                mustr = format_number_to_str(theta_mu[parind[ii]])
                sigstr = format_number_to_str(theta_sigma[parind[ii]])
                st = noadapt_display_setting(no_adapt[ii])
                h2 = prior_display_setting(x=theta_sigma[parind[ii]])
                print('{:s}: {:s} [{:s}, {:s}] N({:s},{:s}{:s}){:s}'.format(name, valuestr, lowstr, uppstr, mustr, sigstr, h2, st))

def replace_list_elements(x, testfunction, value):
    for ii, xii in enumerate(x):
        if testfunction(xii):
            x[ii] = value
    return x

def generate_default_name(nparam):
    return str('$p_{{{}}}$'.format(nparam))

def check_verbosity(verbosity):
    if verbosity is None:
        verbosity = 0
    return verbosity

def check_noadaptind(no_adapt, npar):
    if no_adapt is None:
        no_adapt = np.zeros([npar], dtype=bool)
    return no_adapt

def noadapt_display_setting(no_adapt):
    if no_adapt is True:
        return str(' (*)')
    else:
        return str('')

def prior_display_setting(x):
    if math.isinf(x):
        h2 = ''
    else:
        h2 = '^2'
    return h2

def less_than_or_equal_to_zero(x):
    return x <= 0

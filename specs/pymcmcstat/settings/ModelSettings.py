import numpy as np
import sys

class ModelSettings:

    def __init__(self):
        self.description = 'Model Settings'

    def define_model_settings(self, sos_function=None, prior_function=None, prior_type=1, prior_update_function=None, prior_pars=None, model_function=None, sigma2=None, N=None, S20=np.nan, N0=None, nbatch=None):
        self.sos_function = sos_function
        self.prior_function = prior_function
        self.prior_type = prior_type
        self.prior_update_function = prior_update_function
        self.prior_pars = prior_pars
        self.model_function = model_function
        self.sigma2 = self._array_type(sigma2)
        self.N = self._array_type(N)
        self.N0 = self._array_type(N0)
        self._default_N0 = False
        self.nbatch = self._array_type(nbatch)
        self.S20 = self._array_type(S20)

    @classmethod
    def _array_type(cls, x):
        if x is None:
            return None
        elif isinstance(x, int):
            return np.array([np.array(x)])
        elif isinstance(x, float):
            return np.array([np.array(x)])
        elif isinstance(x, list):
            return np.array(x)
        elif isinstance(x, np.ndarray):
            return x.copy()
        else:
            sys.exit('Unknown data type - Please use int, ndarray, or list')

    def _check_dependent_model_settings(self, data, options):
        if self.nbatch is None:
            self.nbatch = data.get_number_of_batches()
        if self.N is not None:
            self.N = self._check_number_of_observations(udN=self.N, dsN=self._array_type(data.n))
        else:
            self.N = data.n
        self.Nshape = data.shape
        if self.N0 is None:
            self._default_N0 = True
            if self.sigma2 is None:
                self.sigma2 = np.ones([1])
                self.N0 = np.zeros([1])
            else:
                self.N0 = np.ones([1])
        if self.sigma2 is None:
            if not np.isnan(self.S20).any():
                self.sigma2 = self.S20.copy()
            else:
                self.sigma2 = np.ones(self.nbatch)
        if np.isnan(self.S20).any():
            self.S20 = self.sigma2.copy()

    @classmethod
    def _check_number_of_observations(cls, udN, dsN):
        if np.array_equal(udN, dsN):
            N = dsN
        elif dsN.size > udN.size and udN.size == 1:
            if np.all(dsN == udN[0]) or udN[0] == np.sum(dsN):
                N = dsN
            else:
                sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.                         Possible error?'.format(udN, dsN))
        elif udN.size > dsN.size and dsN.size == 1:
            if np.all(dsN[0] == udN):
                N = udN
            else:
                sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.                         Possible error?'.format(udN, dsN))
        else:
            sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.                     Possible error?'.format(udN, dsN))
        return N

    def _check_dependent_model_settings_wrt_nsos(self, nsos):
        self.S20 = self.__check_size_of_setting_wrt_nsos(self.S20, nsos)
        self.N0 = self.__check_size_of_setting_wrt_nsos(self.N0, nsos)
        self.sigma2 = self.__check_size_of_setting_wrt_nsos(self.sigma2, nsos)
        self.N = self.__check_size_of_observations_wrt_nsos(self.N, nsos, self.Nshape)
        self.nsos = nsos

    @classmethod
    def __check_size_of_setting_wrt_nsos(cls, x, nsos):
        if len(x) == 1:
            x = np.ones(nsos) * x
        elif len(x) > nsos:
            sys.exit('SOS function returns nsos = {} elements.                     Expect same number of elements in S20, N0, sigma2'.format(nsos))
        elif len(x) < nsos and len(x) != 1:
            sys.exit('SOS function returns nsos = {} elements.                       Length of S20, N0, or sigma2 is {}.                     These settings must have one element or nsos elements.'.format(nsos, len(x)))
        else:
            x = np.copy(x)
        return x

    @classmethod
    def __check_size_of_observations_wrt_nsos(cls, N, nsos, Nshape):
        if len(N) == 1:
            N = np.ones(nsos) * N
        elif len(N) < nsos and len(N) > 1:
            sys.exit('Unclear data structure!                       SOS function return nsos = {} elements.  len(N) = {}.'.format(nsos, len(N)))
        elif nsos == 1 and len(N) > 1:
            N = np.array([np.sum(N)])
        return N

    def display_model_settings(self, print_these=None):
        if print_these is None:
            print_these = ['sos_function', 'model_function', 'sigma2', 'N', 'N0', 'S20', 'nsos', 'nbatch']
        print('model settings:')
        for ptii in print_these:
            print('\t{} = {}'.format(ptii, getattr(self, ptii)))
        return print_these

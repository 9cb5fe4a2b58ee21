import numpy as np
import math

class CovarianceProcedures:

    def __init__(self):
        self.description = 'Covariance Variables and Methods'

    def _initialize_covariance_settings(self, parameters, options):
        self._qcov = None
        self._qcov_scale = None
        self._R = None
        self._qcov_original = None
        self._invR = None
        self._RDR = None
        self._iacce = None
        self._covchain = None
        self._meanchain = None
        self._last_index_since_adaptation = 0
        self._wsum = options.initqcovn
        self._no_adapt_index = parameters._no_adapt
        self.setup_covariance_matrix(options.qcov, parameters._thetasigma, parameters._initial_value)
        self.__check_adascale(options.adascale, parameters.npar)
        self.__setup_R_matrix(parameters._parind)
        if options.method == 'dram' or options.method == 'dr' or options.ntry > 1:
            self._invR = []
            self.__setup_RDR_matrix(npar=parameters.npar, drscale=options.drscale, ntry=options.ntry, RDR=options.RDR)

    def _update_covariance_from_adaptation(self, R, covchain, meanchain, wsum, last_index_since_adaptation, iiadapt):
        self._R = R
        self._covchain = covchain
        self._meanchain = meanchain
        self._wsum = wsum
        self._last_index_since_adaptation = last_index_since_adaptation
        self._iiadapt = iiadapt

    def _update_covariance_for_delayed_rejection_from_adaptation(self, RDR=None, invR=None):
        self._RDR = RDR
        self._invR = invR

    def _update_covariance_settings(self, parameter_set):
        if self._wsum is not None:
            self._covchain = self._qcov
            self._meanchain = parameter_set

    def setup_covariance_matrix(self, qcov, thetasig, value):
        if qcov is None:
            qcov = thetasig ** 2
            ii1 = np.isinf(qcov)
            ii2 = np.isnan(qcov)
            ii = ii1 + ii2
            qcov[ii] = (np.abs(value[ii]) * 0.05) ** 2
            qcov[qcov == 0] = 1.0
            qcov = np.diagflat(qcov)
        self._qcov = np.atleast_2d(qcov[:])
        self._qcov_original = self._qcov.copy()

    def __check_adascale(self, adascale, npar):
        if adascale is None or adascale <= 0:
            qcov_scale = 2.4 * math.sqrt(npar) ** (-1)
        else:
            qcov_scale = adascale
        self._qcov_scale = qcov_scale

    def __setup_R_matrix(self, parind):
        cm, cn = self._qcov.shape
        if min([cm, cn]) == 1:
            self.__setup_R_based_on_variances(parind)
        else:
            self.__setup_R_based_on_covariance_matrix(parind)

    def __setup_R_based_on_variances(self, parind):
        qcov = np.copy(self._qcov)
        qcov = np.diagflat(qcov)
        self._R = np.sqrt(qcov[np.ix_(parind, parind)])
        self._qcovorig = np.diagflat(self._qcov[:])
        self._qcov = qcov[np.ix_(parind, parind)]

    def __setup_R_based_on_covariance_matrix(self, parind):
        self._qcovorig = np.copy(self._qcov)
        self._qcov = self._qcov[np.ix_(parind, parind)]
        if self._qcov.size == 1:
            self._R = np.sqrt(self._qcov)
        else:
            self._R = np.linalg.cholesky(self._qcov)
        self._R = self._R.transpose()

    def __setup_RDR_matrix(self, npar, drscale, ntry, RDR):
        if RDR is None:
            RDR = []
            RDR.append(self._R)
            self._invR.append(np.linalg.solve(self._R, np.eye(npar)))
            for ii in range(1, ntry):
                RDR.append(RDR[ii - 1] * drscale[min(ii, len(drscale)) - 1] ** (-1))
                self._invR.append(np.linalg.solve(RDR[ii], np.eye(npar)))
        else:
            for ii in range(ntry):
                self._invR.append(np.linalg.solve(RDR[ii], np.eye(npar)))
            self._R = RDR[0]
        self._RDR = RDR

    def display_covariance_settings(self, print_these=None):
        if print_these is None:
            print_these = ['qcov', 'R', 'RDR', 'invR', 'last_index_since_adaptation', 'covchain']
        print('covariance:')
        for ptii in print_these:
            print('\t{} = {}'.format(ptii, getattr(self, str('_{}'.format(ptii)))))
        return print_these

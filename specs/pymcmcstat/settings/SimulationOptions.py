import numpy as np
from datetime import datetime

class SimulationOptions:

    def __init__(self):
        self.description = 'simulation_options'
        self.__options_set = False

    def define_simulation_options(self, nsimu=int(10000.0), adaptint=None, ntry=None, method='dram', printint=None, adaptend=0, lastadapt=0, burnintime=0, waitbar=True, debug=0, qcov=None, updatesigma=False, stats=0, drscale=np.array([5, 4, 3], dtype=float), adascale=None, savesize=0, maxmem=0, chainfile='chainfile', s2chainfile='s2chainfile', sschainfile='sschainfile', covchainfile='covchainfile', savedir=None, save_to_bin=False, skip=1, label=None, RDR=None, verbosity=1, maxiter=None, priorupdatestart=0, qcov_adjust=1e-08, burnin_scale=10, alphatarget=0.234, etaparam=0.7, initqcovn=None, doram=None, rndseq=None, results_filename=None, save_to_json=False, save_to_txt=False, json_restart_file=None, save_lightly=False):
        method_dictionary = {'mh': {'adaptint': 0, 'ntry': 1, 'doram': 0, 'adascale': adascale}, 'am': {'adaptint': 100, 'ntry': 1, 'doram': 0, 'adascale': adascale}, 'dr': {'adaptint': 0, 'ntry': 2, 'doram': 0, 'adascale': adascale}, 'dram': {'adaptint': 100, 'ntry': 2, 'doram': 0, 'adascale': adascale}, 'ram': {'adaptint': 1, 'ntry': 1, 'doram': 1, 'adascale': 1.0}}
        if adaptint is None:
            self.adaptint = method_dictionary[method]['adaptint']
        elif method == 'mh' or method == 'dr':
            self.adaptint = method_dictionary[method]['adaptint']
        else:
            self.adaptint = adaptint
        if ntry is None:
            self.ntry = method_dictionary[method]['ntry']
        else:
            self.ntry = ntry
        if adascale is None:
            self.adascale = method_dictionary[method]['adascale']
        else:
            self.adascale = adascale
        if doram is None:
            self.doram = method_dictionary[method]['doram']
        else:
            self.doram = doram
        self.nsimu = int(nsimu)
        self.method = method
        self.dodram = 0
        self.printint = printint
        self.adaptend = adaptend
        self.lastadapt = lastadapt
        self.burnintime = burnintime
        self.waitbar = bool(waitbar)
        self.debug = debug
        self.qcov = qcov
        self.initqcovn = initqcovn
        self.updatesigma = bool(updatesigma)
        self.priorupdatestart = priorupdatestart
        self.qcov_adjust = qcov_adjust
        self.burnin_scale = burnin_scale
        self.alphatarget = alphatarget
        self.etaparam = etaparam
        self.stats = stats
        self.drscale = drscale
        self.skip = skip
        datestr = datetime.now().strftime('%Y%m%d_%H%M%S')
        self.datestr = datestr
        if label is None:
            self.label = str('MCMC run at {}'.format(datestr))
        else:
            self.label = label
        self.RDR = RDR
        self.verbosity = verbosity
        self.maxiter = maxiter
        self.savesize = savesize
        self.maxmem = maxmem
        self.chainfile = chainfile
        self.s2chainfile = s2chainfile
        self.sschainfile = sschainfile
        self.covchainfile = covchainfile
        if savedir is None:
            self.savedir = str('{}_{}'.format(datestr, 'chain_log'))
        else:
            self.savedir = savedir
        self.save_to_bin = save_to_bin
        self.save_to_txt = save_to_txt
        self.results_filename = results_filename
        self.save_to_json = save_to_json
        self.json_restart_file = json_restart_file
        self.save_lightly = check_lightly_save(save_lightly, save_to_json, save_to_bin, save_to_txt)
        self.__options_set = True

    def _check_dependent_simulation_options(self, model):
        if self.savesize <= 0 or self.savesize > self.nsimu:
            self.savesize = self.nsimu
        if self.ntry > 1:
            self.dodram = 1
        else:
            self.dodram = 0
        if self.lastadapt < 1:
            self.lastadapt = self.nsimu
        if self.printint is None:
            self.printint = max(100, min(1000, self.adaptint))
        if model.N0 is not None and (not getattr(model, '_default_N0', False)):
            self.updatesigma = True

    def display_simulation_options(self, print_these=None):
        if print_these is None:
            print_these = ['nsimu', 'adaptint', 'ntry', 'method', 'printint', 'lastadapt', 'drscale', 'qcov']
        print('simulation options:')
        for ptii in print_these:
            print('\t{} = {}'.format(ptii, getattr(self, ptii)))
        return print_these

def check_lightly_save(save_lightly, save_to_json, save_to_bin, save_to_txt):
    if save_to_json is True:
        if save_to_bin is True or save_to_txt is True:
            return True
        else:
            return False
    else:
        return save_lightly

import numpy as np
import sys

class SumOfSquares:

    def __init__(self, model, data, parameters):
        if model.sos_function is None:
            if model.model_function is None:
                sys.exit('No ssfun or modelfun specified!')
            sos_style = 4
        else:
            sos_style = 1
        self.sos_function = model.sos_function
        self.sos_style = sos_style
        self.model_function = model.model_function
        self.parind = parameters._parind
        self.value = parameters._initial_value
        self.local = parameters._local
        self.data = data
        self.nbatch = model.nbatch

    def evaluate_sos_function(self, theta, custom=None):
        self.value[self.parind] = theta
        if self.sos_style == 1:
            try:
                ss = self.sos_function(self.value, self.data, custom=custom)
            except TypeError:
                ss = self.sos_function(self.value, self.data)
        elif self.sos_style == 4:
            ss = self.mcmc_sos_function(self.value, self.data, self.nbatch, self.model_function)
        else:
            ss = self.sos_function(self.value, self.data, self.local)
        if not isinstance(ss, np.ndarray):
            ss = np.array([ss])
        return ss

    @classmethod
    def mcmc_sos_function(cls, theta, data, nbatch, model_function):
        ss = np.zeros(nbatch)
        for ibatch in range(nbatch):
            xdata = data.xdata[ibatch]
            ydata = data.ydata[ibatch]
            weight = data.weight[ibatch]
            ymodel = model_function(xdata, theta)
            ss[ibatch] += sum(weight * (ydata - ymodel) ** 2)
        return ss

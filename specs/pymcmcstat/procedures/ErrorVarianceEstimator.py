import numpy as np

class ErrorVarianceEstimator:

    def __init__(self):
        self.description = 'Estimate error variance.'

    def update_error_variance(self, sos, model):
        N0 = model.N0
        S20 = model.S20
        N = model.N
        sigma2 = model.sigma2
        nsos = len(sos)
        for jj in range(0, nsos):
            sigma2[jj] = self.gammar(1, 1, 0.5 * (N0[jj] + N[jj]), 2 * (N0[jj] * S20[jj] + sos[jj]) ** (-1)) ** (-1)
        return sigma2

    def gammar(self, m, n, a, b=1):
        if a <= 0:
            y = np.zeros([m, n])
            return y
        y = self.gammar_mt(m, n, a, b)
        return y

    def gammar_mt(self, m, n, a, b=1):
        y = np.zeros([m, n])
        for jj in range(0, n):
            for ii in range(0, m):
                y[ii, jj] = self._gammar_mt1(a=a, b=b)
        return y

    def _gammar_mt1(self, a, b=1):
        if a < 1:
            y = self._gammar_mt1(1 + a, b) * np.random.rand(1) ** a ** (-1)
            return y
        else:
            d = a - 3 ** (-1)
            c = (9 * d) ** (-0.5)
            while 1:
                while 1:
                    x = np.random.randn(1)
                    v = 1.0 + c * x
                    if v > 0:
                        break
                v = v ** 3
                u = np.random.rand(1)
                if u < 1.0 - 0.0331 * x ** 4:
                    break
                if np.log(u) < 0.5 * x ** 2 + d * (1.0 - v + np.log(v)):
                    break
            y = b * d * v
            return y

import numpy as np

class PriorFunction:

    def __init__(self, priorfun=None, mu=np.array([0]), sigma=np.array([np.inf])):
        self.mu = mu
        self.sigma = sigma
        if priorfun is None:
            priorfun = self.default_priorfun
        self.priorfun = priorfun

    @classmethod
    def default_priorfun(cls, theta, mu, sigma):
        res = (mu - theta) / sigma
        pf = np.dot(res.reshape(1, res.size), res.reshape(res.size, 1))
        return pf

    def evaluate_prior(self, theta):
        return self.priorfun(theta, self.mu, self.sigma)

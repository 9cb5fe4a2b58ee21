class ParameterSet:

    def __init__(self, theta=None, ss=None, prior=None, sigma2=None, alpha=None):
        self.theta = theta
        self.ss = ss
        self.prior = prior
        self.sigma2 = sigma2
        self.alpha = alpha

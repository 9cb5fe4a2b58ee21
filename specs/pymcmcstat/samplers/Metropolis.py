import numpy as np
from ..structures.ParameterSet import ParameterSet
from .utilities import sample_candidate_from_gaussian_proposal
from .utilities import is_sample_outside_bounds, set_outside_bounds
from .utilities import calculate_log_posterior_ratio
from .utilities import log_posterior_ratio_acceptance_test

class Metropolis:

    def run_metropolis_step(self, old_set, parameters, R, prior_object, sos_object, custom=None):
        oldpar, ss, oldprior, sigma2 = self.unpack_set(old_set)
        newpar, npar_sample_from_normal = sample_candidate_from_gaussian_proposal(npar=parameters.npar, oldpar=oldpar, R=R)
        outsidebounds = is_sample_outside_bounds(newpar, parameters._lower_limits[parameters._parind[:]], parameters._upper_limits[parameters._parind[:]])
        if outsidebounds is True:
            newset = ParameterSet(theta=newpar, sigma2=sigma2)
            newset, outbound = set_outside_bounds(next_set=newset)
            accept = False
        else:
            outbound = 0
            newprior = prior_object.evaluate_prior(newpar)
            ss2 = ss
            ss1 = sos_object.evaluate_sos_function(newpar, custom=custom)
            alpha = calculate_log_posterior_ratio(loglikestar=-0.5 * (ss1 / sigma2).sum(), loglike=-0.5 * (ss2 / sigma2).sum(), logpriorstar=-0.5 * newprior, logprior=-0.5 * oldprior)
            accept = log_posterior_ratio_acceptance_test(alpha)
            newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2, alpha=np.exp(alpha))
        return (accept, newset, outbound, npar_sample_from_normal)

    @classmethod
    def unpack_set(cls, parset):
        theta = parset.theta
        ss = parset.ss
        prior = parset.prior
        sigma2 = parset.sigma2
        return (theta, ss, prior, sigma2)

    @classmethod
    def calculate_posterior_ratio(cls, ss1, ss2, sigma2, newprior, oldprior):
        alpha = np.exp(-0.5 * (sum((ss1 - ss2) * sigma2 ** (-1)) + newprior - oldprior))
        return sum(alpha)

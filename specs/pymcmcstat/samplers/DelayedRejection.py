import numpy as np
from ..structures.ParameterSet import ParameterSet
from .utilities import sample_candidate_from_gaussian_proposal
from .utilities import is_sample_outside_bounds, set_outside_bounds
from .utilities import posterior_ratio_acceptance_test
from .utilities import calculate_log_posterior_ratio

class DelayedRejection:

    def run_delayed_rejection(self, old_set, new_set, RDR, ntry, parameters, invR, sosobj, priorobj, custom=None):
        trypath = [old_set, new_set]
        itry = 1
        accept = False
        while accept is False and itry < ntry:
            itry += 1
            next_set = self.initialize_next_metropolis_step(npar=parameters.npar, old_theta=old_set.theta, sigma2=new_set.sigma2, RDR=RDR[itry - 1])
            outsidebounds = is_sample_outside_bounds(next_set.theta, parameters._lower_limits[parameters._parind[:]], parameters._upper_limits[parameters._parind[:]])
            if outsidebounds is True:
                next_set, outbound = set_outside_bounds(next_set=next_set)
                trypath.append(next_set)
                out_set = old_set
                continue
            outbound = 0
            next_set.ss = sosobj.evaluate_sos_function(next_set.theta, custom=custom)
            next_set.prior = priorobj.evaluate_prior(theta=next_set.theta)
            trypath.append(next_set)
            alpha = self.alphafun(trypath, invR)
            trypath[-1].alpha = alpha
            accept = posterior_ratio_acceptance_test(alpha=alpha)
            out_set = update_set_based_on_acceptance(accept, old_set=old_set, next_set=next_set)
            self.iacce[itry - 1] += accept
        return (accept, out_set, outbound)

    @classmethod
    def initialize_next_metropolis_step(cls, npar, old_theta, sigma2, RDR):
        next_set = ParameterSet()
        next_set.theta, u = sample_candidate_from_gaussian_proposal(npar=npar, oldpar=old_theta, R=RDR)
        next_set.sigma2 = sigma2
        return next_set

    def _initialize_dr_metrics(self, options):
        self.iacce = np.zeros(options.ntry, dtype=int)
        self.dr_step_counter = 0

    def alphafun(self, trypath, invR):
        self.dr_step_counter += 1
        stage = len(trypath) - 1
        a1 = 1.0
        a2 = 1.0
        for kk in range(0, stage - 1):
            tmp1 = self.alphafun(trypath[0:kk + 2], invR)
            a1 = a1 * (1 - tmp1)
            tmp2 = self.alphafun(trypath[stage:stage - kk - 2:-1], invR)
            a2 = a2 * (1 - tmp2)
            if a2 == 0:
                alpha = np.zeros(1)
                return alpha
        x1 = trypath[0]
        x2 = trypath[-1]
        y = calculate_log_posterior_ratio(loglikestar=-0.5 * (x2.ss / x2.sigma2).sum(), loglike=-0.5 * (x1.ss / x1.sigma2).sum(), logpriorstar=-0.5 * x2.prior, logprior=-0.5 * x1.prior)
        for kk in range(stage):
            y = y + nth_stage_log_proposal_ratio(kk, trypath, invR)
        alpha = min(np.ones(1), np.exp(y) * a2 * a1 ** (-1))
        return alpha

def nth_stage_log_proposal_ratio(iq, trypath, invR):
    stage = len(trypath) - 1 - 1
    if stage == iq:
        zq = np.zeros(1)
    else:
        iR = invR[iq]
        y1, y2, y3, y4 = extract_state_elements(iq=iq, stage=stage, trypath=trypath)
        zq = -0.5 * (np.linalg.norm(np.dot(y4 - y3, iR)) ** 2 - np.linalg.norm(np.dot(y2 - y1, iR)) ** 2)
    return zq

def extract_state_elements(iq, stage, trypath):
    y1 = trypath[0].theta
    y2 = trypath[iq + 1].theta
    y3 = trypath[stage + 1].theta
    y4 = trypath[stage - iq].theta
    return (y1, y2, y3, y4)

def log_posterior_ratio(x1, x2):
    print('This function is deprecated as of v1.8.0')
    zq = -0.5 * (sum(x2.ss * x2.sigma2 ** (-1.0) - x1.ss * x1.sigma2 ** (-1.0)) + x2.prior - x1.prior)
    return sum(zq)

def update_set_based_on_acceptance(accept, old_set, next_set):
    if accept is True:
        out_set = next_set
    else:
        out_set = old_set
    return out_set

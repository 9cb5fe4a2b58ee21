import numpy as np

def sample_candidate_from_gaussian_proposal(npar, oldpar, R):
    npar_sample_from_normal = np.random.randn(1, npar)
    newpar = oldpar + np.dot(npar_sample_from_normal, R)
    newpar = newpar.reshape(npar)
    return (newpar, npar_sample_from_normal)

def is_sample_outside_bounds(theta, lower_limits, upper_limits):
    if (theta < lower_limits).any() or (theta > upper_limits).any():
        outsidebounds = True
    else:
        outsidebounds = False
    return outsidebounds

def acceptance_test(alpha):
    print('This function was deprecated in v1.8.0')
    if alpha >= 1 or alpha > np.random.rand(1, 1):
        accept = True
    else:
        accept = False
    return accept

def set_outside_bounds(next_set):
    next_set.alpha = 0
    next_set.prior = 0
    next_set.ss = np.inf
    outbound = True
    return (next_set, outbound)

def posterior_ratio_acceptance_test(alpha):
    if alpha >= 1.0 or alpha > np.random.rand(1, 1):
        return True
    else:
        return False

def log_posterior_ratio_acceptance_test(alpha):
    if alpha > np.log(np.random.rand(1, 1)):
        return True
    else:
        return False

def calculate_log_posterior_ratio(loglikestar, loglike, logpriorstar, logprior):
    logalpha = loglikestar + logpriorstar - (loglike + logprior)
    return logalpha

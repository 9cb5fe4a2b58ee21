import numpy as np
import math
from ..utilities.general import message

class Adaptation:

    def __init__(self):
        self.label = 'Covariance Variables and Methods'
        self.qcov = None
        self.qcov_scale = None
        self.R = None
        self.qcov_original = None
        self.invR = None
        self.iacce = None
        self.covchain = None
        self.meanchain = None
        self.last_index_since_adaptation = 0

    def run_adaptation(self, covariance, options, isimu, iiadapt, rejected, chain, chainind, u, npar, alpha):
        burnintime, burnin_scale, ntry, drscale, alphatarget, etaparam, qcov_adjust, doram, verbosity = unpack_simulation_options(options=options)
        last_index_since_adaptation, R, oldcovchain, oldmeanchain, oldwsum, no_adapt_index, qcov_scale, qcov = unpack_covariance_settings(covariance=covariance)
        if isimu < burnintime:
            R = below_burnin_threshold(rejected=rejected, iiadapt=iiadapt, R=R, burnin_scale=burnin_scale, verbosity=verbosity)
            covchain = oldcovchain
            meanchain = oldmeanchain
            wsum = oldwsum
            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
        else:
            message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(isimu, rejected['total'] * isimu ** (-1) * 100, rejected['in_adaptation_interval'] * iiadapt ** (-1) * 100, rejected['outside_bounds'] * isimu ** (-1) * 100)))
            covchain, meanchain, wsum = update_covariance_mean_sum(chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
            last_index_since_adaptation = chainind
            if doram:
                upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam, npar=npar, alphatarget=alphatarget, alpha=alpha, R=R)
            else:
                upcov = update_cov_from_covchain(covchain=covchain, qcov=qcov, no_adapt_index=no_adapt_index)
            R = check_for_singular_cov_matrix(upcov=upcov, R=R, npar=npar, qcov_adjust=qcov_adjust, qcov_scale=qcov_scale, rejected=rejected, iiadapt=iiadapt, verbosity=verbosity)
            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
        covariance._update_covariance_from_adaptation(R, covchain, meanchain, wsum, last_index_since_adaptation, iiadapt)
        covariance._update_covariance_for_delayed_rejection_from_adaptation(RDR=RDR, invR=invR)
        return covariance

def unpack_simulation_options(options):
    burnintime = options.burnintime
    burnin_scale = options.burnin_scale
    ntry = options.ntry
    drscale = options.drscale
    alphatarget = options.alphatarget
    etaparam = options.etaparam
    qcov_adjust = options.qcov_adjust
    doram = options.doram
    verbosity = options.verbosity
    return (burnintime, burnin_scale, ntry, drscale, alphatarget, etaparam, qcov_adjust, doram, verbosity)

def unpack_covariance_settings(covariance):
    last_index_since_adaptation = covariance._last_index_since_adaptation
    R = covariance._R
    oldcovchain = covariance._covchain
    oldmeanchain = covariance._meanchain
    oldwsum = covariance._wsum
    no_adapt_index = covariance._no_adapt_index
    qcov_scale = covariance._qcov_scale
    qcov = covariance._qcov
    return (last_index_since_adaptation, R, oldcovchain, oldmeanchain, oldwsum, no_adapt_index, qcov_scale, qcov)

def below_burnin_threshold(rejected, iiadapt, R, burnin_scale, verbosity):
    if rejected['in_adaptation_interval'] * iiadapt ** (-1) > 0.95:
        message(verbosity, 2, str(' (burnin/down) {}'.format(rejected['in_adaptation_interval'] * iiadapt ** (-1) * 100)))
        R = R * burnin_scale ** (-1)
    elif rejected['in_adaptation_interval'] * iiadapt ** (-1) < 0.05:
        message(verbosity, 2, str(' (burnin/up) {}'.format(rejected['in_adaptation_interval'] * iiadapt ** (-1) * 100)))
        R = R * burnin_scale
    return R

def update_covariance_mean_sum(x, w, oldcov, oldmean, oldwsum, oldR=None):
    n, p = x.shape
    if n == 0 or p == 0:
        return (oldcov, oldmean, oldwsum)
    w, R = setup_w_R(w=w, oldR=oldR, n=n)
    if oldcov is None:
        xcov, xmean, wsum = initialize_covariance_mean_sum(x, w)
    else:
        for ii in range(0, n):
            xi = x[ii, :]
            wsum = w[ii]
            xmean = oldmean + wsum * (wsum + oldwsum) ** (-1.0) * (xi - oldmean)
            if R is not None:
                Rin, xin = setup_cholupdate(R=R, oldwsum=oldwsum, wsum=wsum, oldmean=oldmean, xi=xi)
                R = cholupdate(Rin, xin)
            xcov = (oldwsum - 1) * (wsum + oldwsum - 1) ** (-1) * oldcov + wsum * oldwsum * (wsum + oldwsum - 1) ** (-1) * (wsum + oldwsum) ** (-1) * np.dot((xi - oldmean).reshape(p, 1), (xi - oldmean).reshape(1, p))
            wsum = wsum + oldwsum
            oldcov = xcov
            oldmean = xmean
            oldwsum = wsum
    return (xcov, xmean, wsum)

def setup_w_R(w, oldR, n):
    if w is None:
        w = np.ones(1)
    if len(w) == 1:
        w = np.ones(n) * w
    if oldR is None:
        R = None
    else:
        R = oldR
    return (w, R)

def initialize_covariance_mean_sum(x, w):
    npar = x.shape[1]
    wsum = sum(w)
    xmean = np.zeros(npar)
    xcov = np.zeros([npar, npar])
    for ii in range(npar):
        xmean[ii] = sum(x[:, ii] * w) * wsum ** (-1)
    if wsum > 1:
        for ii in range(0, npar):
            for jj in range(0, ii + 1):
                term1 = x[:, ii] - xmean[ii]
                term2 = x[:, jj] - xmean[jj]
                xcov[ii, jj] = np.dot(term1.transpose(), term2 * w * (wsum - 1) ** (-1))
                if ii != jj:
                    xcov[jj, ii] = xcov[ii, jj]
    return (xcov, xmean, wsum)

def setup_cholupdate(R, oldwsum, wsum, oldmean, xi):
    Rin = np.sqrt((oldwsum - 1) * (wsum + oldwsum - 1) ** (-1)) * R
    xin = (xi - oldmean).transpose() * np.sqrt(wsum * oldwsum * (wsum + oldwsum - 1) ** (-1) * (wsum + oldwsum) ** (-1))
    return (Rin, xin)

def cholupdate(R, x):
    n = len(x)
    R1 = R.copy()
    x1 = x.copy()
    for ii in range(n):
        r = math.sqrt(R1[ii, ii] ** 2 + x1[ii] ** 2)
        c = r * R1[ii, ii] ** (-1)
        s = x1[ii] * R1[ii, ii] ** (-1)
        R1[ii, ii] = r
        if ii + 1 < n:
            R1[ii, ii + 1:n] = (R1[ii, ii + 1:n] + s * x1[ii + 1:n]) * c ** (-1)
            x1[ii + 1:n] = c * x1[ii + 1:n] - s * R1[ii, ii + 1:n]
    return R1

def update_cov_via_ram(u, isimu, etaparam, npar, alphatarget, alpha, R):
    uu = u * np.linalg.norm(u) ** (-1)
    eta = (isimu ** etaparam) ** (-1)
    ram = np.eye(npar) + eta * (min(1.0, alpha) - alphatarget) * np.dot(uu.transpose(), uu)
    upcov = np.dot(np.dot(R.transpose(), ram), R)
    return upcov

def update_cov_from_covchain(covchain, qcov, no_adapt_index):
    upcov = covchain.copy()
    upcov[no_adapt_index, :] = qcov[no_adapt_index, :]
    upcov[:, no_adapt_index] = qcov[:, no_adapt_index]
    return upcov

def check_for_singular_cov_matrix(upcov, R, npar, qcov_adjust, qcov_scale, rejected, iiadapt, verbosity):
    pos_def, pRa = is_semi_pos_def_chol(upcov)
    if pos_def == 1:
        return scale_cholesky_decomposition(Ra=pRa, qcov_scale=qcov_scale)
    else:
        return adjust_cov_matrix(upcov=upcov, R=R, npar=npar, qcov_adjust=qcov_adjust, qcov_scale=qcov_scale, rejected=rejected, iiadapt=iiadapt, verbosity=verbosity)

def is_semi_pos_def_chol(x):
    c = None
    try:
        c = np.linalg.cholesky(x)
        return (True, c.transpose())
    except np.linalg.linalg.LinAlgError:
        return (False, c)

def scale_cholesky_decomposition(Ra, qcov_scale):
    return Ra * qcov_scale

def adjust_cov_matrix(upcov, R, npar, qcov_adjust, qcov_scale, rejected, iiadapt, verbosity):
    tmp = upcov + np.eye(npar) * qcov_adjust
    pos_def_adjust, pRa = is_semi_pos_def_chol(tmp)
    if pos_def_adjust == 1:
        message(verbosity, 1, 'adjusted covariance matrix')
        R = scale_cholesky_decomposition(Ra=pRa, qcov_scale=qcov_scale)
        return R
    else:
        errstr = str('covariance matrix singular, no adaptation')
        message(verbosity, 0, '{} {}'.format(errstr, rejected['in_adaptation_interval'] * iiadapt ** (-1) * 100))
        return R

def update_delayed_rejection(R, npar, ntry, drscale):
    RDR = None
    invR = None
    if ntry > 1:
        RDR = []
        invR = []
        RDR.append(R)
        invR.append(np.linalg.solve(RDR[0], np.eye(npar)))
        for ii in range(1, ntry):
            RDR.append(RDR[ii - 1] * drscale[min(ii, len(drscale)) - 1] ** (-1))
            invR.append(invR[ii - 1] * drscale[min(ii, len(drscale)) - 1])
    return (RDR, invR)

import numpy as np
import numpy.matlib as npm
import sys
import scipy
import scipy.stats
from scipy.fftpack import fft
from ..plotting.utilities import generate_default_names, extend_names_to_match_nparam
from .ChainProcessing import generate_chain_list
from ..utilities.general import format_number_to_str

def chainstats(chain=None, results=None, returnstats=False, display_details=False):
    if chain is None:
        prst = str('No chain reported - run simulation first.')
        print(prst)
        return prst
    else:
        nsimu, npar = chain.shape
        names = get_parameter_names(npar, results)
        meanii = []
        stdii = []
        for ii in range(npar):
            meanii.append(np.mean(chain[:, ii]))
            stdii.append(np.std(chain[:, ii]))
        bmstd = batch_mean_standard_deviation(chain)
        mcerr = bmstd / np.sqrt(nsimu)
        z, p = geweke(chain)
        tau, m = integrated_autocorrelation_time(chain)
        print_chain_statistics(names, meanii, stdii, mcerr, tau, p)
        if display_details is True:
            _display_stat_defs()
        print(30 * '=')
        print_chain_acceptance_info(chain, results=results)
        stats = dict(mean=list(meanii), std=list(stdii), bmstd=list(bmstd), mcerr=list(mcerr), geweke={'z': list(z), 'p': list(p)}, iact={'tau': list(tau), 'm': list(m)})
        if returnstats is True:
            return stats

def print_chain_statistics(names, meanii, stdii, mcerr, tau, p):
    npar = len(names)
    print('\n')
    print(30 * '-')
    print('{:>10s}: {:>9s} {:>9s} {:>9s} {:>9s} {:>9s}'.format('name', 'mean', 'std', 'MC_err', 'tau', 'geweke'))
    for ii in range(npar):
        namestr = str('{:>10s}'.format(names[ii]))
        meanstr = format_number_to_str(meanii[ii])
        stdstr = format_number_to_str(stdii[ii])
        mcerrstr = format_number_to_str(mcerr[ii])
        taustr = format_number_to_str(tau[ii])
        pstr = format_number_to_str(p[ii])
        print('{:s}: {:s} {:s} {:s} {:s} {:s}'.format(namestr, meanstr, stdstr, mcerrstr, taustr, pstr))
    print(30 * '-')

def print_chain_acceptance_info(chain, results=None):
    print('Acceptance rate information')
    flag = False
    if results is not None:
        if 'iacce' in results:
            if 'nsimu' in results:
                nsimu = results['nsimu']
            else:
                nsimu = chain.shape[0]
            print(15 * '-')
            print('Results dictionary:')
            for ii, stage in enumerate(results['iacce']):
                print('Stage {:d}: {:4.2f}%'.format(ii + 1, stage / nsimu * 100))
            print('Net    : {:4.2f}% -> {:d}/{:d}'.format(results['iacce'].sum() / nsimu * 100, results['iacce'].sum(), nsimu))
            print(15 * '-')
            flag = True
    print('Chain provided:')
    unique_elem = np.unique(chain[:, 0]).size
    print('Net    : {:4.2f}% -> {:d}/{:d}'.format(unique_elem / chain.shape[0] * 100, unique_elem, chain.shape[0]))
    if flag is True:
        print(15 * '-')
        print('Note, the net acceptance rate from the results dictionary\n' + 'may be different if you only provided a subset of the chain,\n' + 'e.g., removed the first part for burnin-in.')
    print(30 * '-')

def batch_mean_standard_deviation(chain, b=None):
    nsimu, npar = chain.shape
    if b is None:
        b = max(10, np.fix(nsimu / 20))
        b = int(b)
    inds = np.arange(0, nsimu + 1, b)
    nb = len(inds) - 1
    if nb < 2:
        sys.exit('too few batches')
    y = np.zeros([nb, npar])
    for ii in range(nb):
        y[ii, :] = np.mean(chain[inds[ii]:inds[ii + 1], :], 0)
    s = np.sqrt(sum((y - npm.repmat(np.mean(chain, 0), nb, 1)) ** 2) / (nb - 1) * b)
    return s

def geweke(chain, a=0.1, b=0.5):
    nsimu = chain.shape[0]
    na = int(np.floor(a * nsimu))
    nb = nsimu - int(np.floor(b * nsimu))
    if na + nb >= nsimu:
        sys.exit('na + nb = {}, > nsimu = {}'.format(na + nb, nsimu))
    m1 = np.mean(chain[0:na, :], 0)
    m2 = np.mean(chain[nb:nsimu + 1, :], 0)
    sa = spectral_estimate_for_variance(chain[0:na, :])
    sb = spectral_estimate_for_variance(chain[nb:nsimu + 1, :])
    z = (m1 - m2) / np.sqrt(sa / na + sb / (nsimu - nb))
    p = 2 * (1 - scipy.stats.norm.cdf(np.abs(z)))
    return (z, p)

def spectral_estimate_for_variance(x):
    m, n = x.shape
    s = np.zeros([n])
    for ii in range(n):
        y = power_spectral_density_using_hanning_window(x[:, ii], m)
        s[ii] = y[0]
    return s

def power_spectral_density_using_hanning_window(x, nfft=None, nw=None):
    if nfft is None:
        nfft = min(len(x), 256)
    if nw is None:
        nw = int(np.fix(nfft / 4))
    noverlap = int(np.fix(nw / 2))
    w = 0.5 * (1 - np.cos(2 * np.pi * np.arange(1, nw + 1) / (nw + 1)))
    n = len(x)
    if n < nw:
        x = np.concatenate((x, np.zeros([nw - n])))
        n = nw
    k = int(np.fix((n - noverlap) / (nw - noverlap)))
    index = np.arange(nw)
    kmu = k * np.linalg.norm(w) ** 2
    y = np.zeros([nfft, 1])
    for ii in range(k):
        xw = w * x[index]
        index = index + (nw - noverlap)
        Xx = np.abs(fft(xw, nfft) ** 2).reshape(nfft, 1)
        y = y + Xx
    y = y * (1 / kmu)
    n2 = int(np.floor(nfft / 2))
    y = y[0:n2]
    return y

def integrated_autocorrelation_time(chain):
    npar = chain.shape[1]
    tau = np.zeros([npar])
    m = np.zeros([npar])
    x = fft(chain, axis=0)
    xr = np.real(x)
    xi = np.imag(x)
    xmag = xr ** 2 + xi ** 2
    xmag[0, :] = 0.0
    xmag = np.real(fft(xmag, axis=0))
    var = xmag[0, :] / len(chain) / (len(chain) - 1)
    for jj in range(npar):
        if var[jj] == 0:
            continue
        xmag[:, jj] = xmag[:, jj] / xmag[0, jj]
        snum = -1 / 3
        for ii in range(len(chain)):
            snum = snum + xmag[ii, jj] - 1 / 6
            if snum < 0:
                tau[jj] = 2 * (snum + ii / 6)
                m[jj] = ii + 1
                break
    return (tau, m)

def gelman_rubin(chains, names=None, results=None, display=True):
    if isinstance(chains[0], dict):
        chains = generate_chain_list(chains)
    nchains = len(chains)
    nsimu, nparam = chains[0].shape
    if names is None:
        names = get_parameter_names(nparam, results)
    if nchains < 2:
        raise ValueError('Diagnostic method requires multiple chains')
    par = dict()
    for ii, name in enumerate(names):
        tmp = np.zeros([nsimu, nchains])
        for jj in range(nchains):
            tmp[:, jj] = chains[jj][:, ii]
        par[name] = tmp
    psrf = dict()
    for name in names:
        psrf[name] = calculate_psrf(par[name], nsimu, nchains)
    if display is True:
        display_gelman_rubin(psrf)
    return psrf

def calculate_psrf(x, nsimu, nchains):
    Bpn = np.var(np.mean(x, axis=0), axis=0, ddof=1)
    W = np.mean(np.var(x, axis=0, ddof=1), axis=0)
    S = (nsimu - 1) / nsimu * W + Bpn
    R = (nchains + 1) / nchains * S / W - (nsimu - 1) / nchains / nsimu
    V = R * W
    R = np.sqrt(R)
    B = Bpn * nsimu
    neff = min(nchains * nsimu * V / B, nchains * nsimu)
    return dict(R=R, B=B, W=W, V=V, neff=neff)

def display_gelman_rubin(psrf):
    for _, ps in enumerate(psrf):
        print('Parameter: {}'.format(ps))
        for _, k in enumerate(psrf[ps].keys()):
            print('  {} = {}'.format(k, psrf[ps][k]))

def get_parameter_names(nparam, results):
    if results is None:
        names = generate_default_names(nparam)
    else:
        names = results['names']
        names = extend_names_to_match_nparam(names, nparam)
    return names

def _display_stat_defs():
    print('Definition for items displayed:')
    print('"mean": Average value of parameter chains.')
    print('"std": Standard deviation of parameter chains.')
    print('"MC_err": Normalized batch mean standard deviation.')
    print('"tau": Integrated autocorrelation time.')
    print('"geweke": Geweke\'s convergence diagnostic.')
    print(30 * '-')

from __future__ import division
import matplotlib.pyplot as plt
from pylab import hist
from .utilities import generate_names, setup_plot_features, make_x_grid
from .utilities import setup_subsample
import warnings
from deprecated import deprecated
try:
    from statsmodels.nonparametric.kernel_density import KDEMultivariate
except ImportError as e:
    warnings.warn(str('Exception raised importing statsmodels.nonparametric.kernel_density                       - plot_density_panel will not work. {}'.format(e)))

def deprecation(message):
    warnings.warn(message, DeprecationWarning)

@deprecated(version='1.9.0', reason='New function: "from pymcmcstat.mcmcplot import plot_density_panel"')
def plot_density_panel(chains, names=None, hist_on=False, figsizeinches=None, return_kde=False):
    deprecation('Recommend using pymcmcstat.mcmcplot.plot_density_panel')
    nsimu, nparam = chains.shape
    ns1, ns2, names, figsizeinches = setup_plot_features(nparam=nparam, names=names, figsizeinches=figsizeinches)
    f = plt.figure(dpi=100, figsize=figsizeinches)
    kdehandle = []
    for ii in range(nparam):
        chain = chains[:, ii].reshape(nsimu, 1)
        chain_grid = make_x_grid(chain)
        kde = KDEMultivariate(chain, bw='normal_reference', var_type='c')
        plt.subplot(ns1, ns2, ii + 1)
        if hist_on is True:
            hist(chain, density=True)
        plt.plot(chain_grid, kde.pdf(chain_grid), 'k')
        plt.xlabel(names[ii])
        plt.ylabel(str('$\\pi$({}$|M^{}$)'.format(names[ii], '{data}')))
        plt.tight_layout(rect=[0, 0.03, 1, 0.95], h_pad=1.0)
        kdehandle.append(kde)
    if return_kde is True:
        return (f, kdehandle)
    else:
        return f

@deprecated(version='1.9.0', reason='New function: "from pymcmcstat.mcmcplot import plot_histogram_panel"')
def plot_histogram_panel(chains, names=None, figsizeinches=None):
    nsimu, nparam = chains.shape
    ns1, ns2, names, figsizeinches = setup_plot_features(nparam=nparam, names=names, figsizeinches=figsizeinches)
    f = plt.figure(dpi=100, figsize=figsizeinches)
    for ii in range(nparam):
        chain = chains[:, ii].reshape(nsimu, 1)
        ax = plt.subplot(ns1, ns2, ii + 1)
        hist(chain, density=True)
        plt.xlabel(names[ii])
        ax.set_yticklabels([])
        plt.tight_layout(rect=[0, 0.03, 1, 0.95], h_pad=1.0)
    return f

@deprecated(version='1.9.0', reason='New function:"from pymcmcstat.mcmcplot import plot_chain_panel"')
def plot_chain_panel(chains, names=None, figsizeinches=None, skip=1, maxpoints=500):
    nsimu, nparam = chains.shape
    ns1, ns2, names, figsizeinches = setup_plot_features(nparam=nparam, names=names, figsizeinches=figsizeinches)
    inds = setup_subsample(skip, maxpoints, nsimu)
    f = plt.figure(dpi=100, figsize=figsizeinches)
    for ii in range(nparam):
        chain = chains[inds, ii]
        plt.subplot(ns1, ns2, ii + 1)
        plt.plot(inds, chain, '.b')
        plt.xlabel('Iteration')
        plt.ylabel(str('{}'.format(names[ii])))
        if ii + 1 <= ns1 * ns2 - ns2:
            plt.xlabel('')
        plt.tight_layout(rect=[0, 0.03, 1, 0.95], h_pad=1.0)
    return f

@deprecated(version='1.9.0', reason='New function: "from pymcmcstat.mcmcplot import plot_pairwise_correlation_panel"')
def plot_pairwise_correlation_panel(chains, names=None, figsizeinches=None, skip=1, maxpoints=500):
    nsimu, nparam = chains.shape
    inds = setup_subsample(skip, maxpoints, nsimu)
    names = generate_names(nparam=nparam, names=names)
    if figsizeinches is None:
        figsizeinches = [7, 5]
    f = plt.figure(dpi=100, figsize=figsizeinches)
    for jj in range(2, nparam + 1):
        for ii in range(1, jj):
            chain1 = chains[inds, ii - 1]
            chain2 = chains[inds, jj - 1]
            ax = plt.subplot(nparam - 1, nparam - 1, (jj - 2) * (nparam - 1) + ii)
            plt.plot(chain1, chain2, '.b')
            if jj != nparam:
                ax.set_xticklabels([])
            if ii != 1:
                ax.set_yticklabels([])
            if ii == 1:
                plt.ylabel(str('{}'.format(names[jj - 1])))
            if ii == jj - 1:
                if nparam == 2:
                    plt.xlabel(str('{}'.format(names[ii - 1])))
                else:
                    plt.title(str('{}'.format(names[ii - 1])))
    plt.tight_layout(rect=[0, 0.03, 1, 0.95], h_pad=1.0)
    return f

@deprecated(version='1.9.0', reason='New function: "from pymcmcstat.mcmcplot import plot_chain_metrics"')
def plot_chain_metrics(chain, name=None, figsizeinches=None):
    name = generate_names(nparam=1, names=name)
    if figsizeinches is None:
        figsizeinches = [7, 5]
    f = plt.figure(dpi=100, figsize=figsizeinches)
    plt.suptitle('Chain metrics for {}'.format(name), fontsize='12')
    plt.subplot(2, 1, 1)
    plt.plot(range(0, len(chain)), chain, marker='.')
    plt.xlabel('Iterations')
    ystr = str('{}-chain'.format(name))
    plt.ylabel(ystr)
    plt.subplot(2, 1, 2)
    hist(chain)
    plt.xlabel(name)
    plt.ylabel(str('Histogram of {}-chain'.format(name)))
    plt.tight_layout(rect=[0, 0.03, 1, 0.95], h_pad=1.0)
    return f

class Plot:

    def __init__(self):
        self.plot_density_panel = plot_density_panel
        self.plot_chain_panel = plot_chain_panel
        self.plot_pairwise_correlation_panel = plot_pairwise_correlation_panel
        self.plot_histogram_panel = plot_histogram_panel
        self.plot_chain_metrics = plot_chain_metrics

import numpy as np
import sys
from .utilities.progressbar import progress_bar
from .utilities.general import check_settings
import matplotlib.pyplot as plt
from matplotlib import cm
from matplotlib import colors as mplcolor
from mpl_toolkits.mplot3d import Axes3D
from mpl_toolkits.mplot3d.art3d import Poly3DCollection
from scipy.interpolate import interp1d

def calculate_intervals(chain, results, data, model, s2chain=None, nsample=500, waitbar=True, sstype=0):
    parind = results['parind']
    q = np.array(results['theta'])
    nsimu, npar = chain.shape
    s2chain = check_s2chain(s2chain, nsimu)
    iisample, nsample = define_sample_points(nsample, nsimu)
    if waitbar is True:
        __wbarstatus = progress_bar(iters=int(nsample))
    ci = []
    pi = []
    multiple = False
    for kk, isa in enumerate(iisample):
        if waitbar is True:
            __wbarstatus.update(kk)
        q[parind] = chain[isa, :]
        y = model(q, data)
        if y.ndim == 2:
            nrow, ncol = y.shape
            if nrow != y.size and ncol != y.size:
                multiple = True
        if multiple is False:
            ci.append(y.reshape(y.size))
            if s2chain is None:
                continue
            else:
                s2 = s2chain[isa]
                obs = observation_sample(s2, y, sstype)
                pi.append(obs.reshape(obs.size))
        else:
            if kk == 0:
                cis = []
                pis = []
                for jj in range(ncol):
                    cis.append([])
                    pis.append([])
            for jj in range(ncol):
                cis[jj].append(y[:, jj])
                if s2chain is None:
                    continue
                else:
                    if s2chain.ndim == 2:
                        if s2chain.shape[1] == ncol:
                            s2 = s2chain[isa, jj]
                        else:
                            s2 = s2chain[isa]
                    else:
                        s2 = s2chain[isa]
                    obs = observation_sample(s2, y[:, jj], sstype)
                    pis[jj].append(obs.reshape(obs.size))
    if multiple is False:
        credible = np.array(ci)
        if s2chain is None:
            prediction = None
        else:
            prediction = np.array(pi)
        return dict(credible=credible, prediction=prediction)
    else:
        out = []
        for jj in range(ncol):
            credible = np.array(cis[jj])
            if s2chain is None:
                prediction = None
            else:
                prediction = np.array(pis[jj])
            out.append(dict(credible=credible, prediction=prediction))
        return out

def plot_intervals(intervals, time, ydata=None, xdata=None, limits=[95], adddata=None, addmodel=True, addlegend=True, addcredible=True, addprediction=True, data_display={}, model_display={}, interval_display={}, fig=None, figsize=None, legloc='upper left', ciset=None, piset=None, return_settings=False):
    credible = intervals['credible']
    prediction = intervals['prediction']
    ciset = __setup_iset(ciset, default_iset=dict(limits=limits, cmap=None, colors=None))
    piset = __setup_iset(piset, default_iset=dict(limits=limits, cmap=None, colors=None))
    ciset['limits'] = _check_limits(ciset['limits'], limits)
    piset['limits'] = _check_limits(piset['limits'], limits)
    ciset['quantiles'] = _convert_limits(ciset['limits'])
    piset['quantiles'] = _convert_limits(piset['limits'])
    interval_display, model_display, data_display = setup_display_settings(interval_display, model_display, data_display)
    ciset['colors'] = setup_interval_colors(ciset, inttype='ci')
    piset['colors'] = setup_interval_colors(piset, inttype='pi')
    ciset['labels'] = _setup_labels(ciset['limits'], inttype='CI')
    piset['labels'] = _setup_labels(piset['limits'], inttype='PI')
    if fig is None:
        fig = plt.figure(figsize=figsize)
    ax = fig.gca()
    time = time.reshape(time.size)
    if addprediction is True and prediction is not None:
        for ii, quantile in enumerate(piset['quantiles']):
            pi = generate_quantiles(prediction, np.array(quantile))
            ax.fill_between(time, pi[0], pi[1], facecolor=piset['colors'][ii], label=piset['labels'][ii], **interval_display)
    if addcredible is True:
        for ii, quantile in enumerate(ciset['quantiles']):
            ci = generate_quantiles(credible, np.array(quantile))
            ax.fill_between(time, ci[0], ci[1], facecolor=ciset['colors'][ii], label=ciset['labels'][ii], **interval_display)
    if addmodel is True:
        ci = generate_quantiles(credible, np.array(0.5))
        ax.plot(time, ci, **model_display)
    if ydata is not None and adddata is None:
        adddata = True
    if adddata is True and ydata is not None:
        if xdata is None:
            ax.plot(time, ydata, **data_display)
        else:
            ax.plot(xdata, ydata, **data_display)
    if addlegend is True:
        handles, labels = ax.get_legend_handles_labels()
        ax.legend(handles, labels, loc=legloc)
    if return_settings is True:
        return (fig, ax, dict(ciset=ciset, piset=piset))
    else:
        return (fig, ax)

def plot_3d_intervals(intervals, time, ydata=None, xdata=None, limits=[95], adddata=False, addlegend=True, addmodel=True, figsize=None, model_display={}, data_display={}, interval_display={}, addcredible=True, addprediction=True, fig=None, legloc='upper left', ciset=None, piset=None, return_settings=False):
    credible = intervals['credible']
    prediction = intervals['prediction']
    ciset = __setup_iset(ciset, default_iset=dict(limits=limits, cmap=None, colors=None))
    piset = __setup_iset(piset, default_iset=dict(limits=limits, cmap=None, colors=None))
    ciset['limits'] = _check_limits(ciset['limits'], limits)
    piset['limits'] = _check_limits(piset['limits'], limits)
    ciset['quantiles'] = _convert_limits(ciset['limits'])
    piset['quantiles'] = _convert_limits(piset['limits'])
    interval_display, model_display, data_display = setup_display_settings(interval_display, model_display, data_display)
    ciset['colors'] = setup_interval_colors(ciset, inttype='ci')
    piset['colors'] = setup_interval_colors(piset, inttype='pi')
    ciset['labels'] = _setup_labels(ciset['limits'], inttype='CI')
    piset['labels'] = _setup_labels(piset['limits'], inttype='PI')
    if fig is None:
        fig = plt.figure(figsize=figsize)
        ax = fig.add_subplot(111, projection=Axes3D.name)
    ax = fig.gca()
    time1 = time[:, 0]
    time2 = time[:, 1]
    if addprediction is True and prediction is not None:
        for ii, quantile in enumerate(piset['quantiles']):
            pi = generate_quantiles(prediction, np.array(quantile))
            rev = np.arange(time1.size - 1, -1, -1)
            x = np.concatenate((time1, time1[rev]))
            y = np.concatenate((time2, time2[rev]))
            z = np.concatenate((pi[0], pi[1][rev]))
            verts = [list(zip(x, y, z))]
            surf = Poly3DCollection(verts, color=piset['colors'][ii], label=piset['labels'][ii])
            if hasattr(surf, '_facecolors3d'):
                surf._facecolors2d = surf._facecolors3d
                surf._edgecolors2d = surf._edgecolors3d
            ax.add_collection3d(surf)
    if addcredible is True:
        for ii, quantile in enumerate(ciset['quantiles']):
            ci = generate_quantiles(credible, np.array(quantile))
            rev = np.arange(time1.size - 1, -1, -1)
            x = np.concatenate((time1, time1[rev]))
            y = np.concatenate((time2, time2[rev]))
            z = np.concatenate((ci[0], ci[1][rev]))
            verts = [list(zip(x, y, z))]
            surf = Poly3DCollection(verts, color=ciset['colors'][ii], label=ciset['labels'][ii])
            if hasattr(surf, '_facecolors3d'):
                surf._facecolors2d = surf._facecolors3d
                surf._edgecolors2d = surf._edgecolors3d
            ax.add_collection3d(surf)
    if addmodel is True:
        ci = generate_quantiles(credible, np.array(0.5))
        ax.plot(time1, time2, ci, **model_display)
    if ydata is not None and adddata is None:
        adddata = True
    if adddata is True:
        if xdata is None:
            ax.plot(time1, time2, ydata.reshape(time1.shape), **data_display)
        else:
            ax.plot(xdata[:, 0], xdata[:, 1], ydata.reshape(xdata[:, 0].shape), **data_display)
    if addlegend is True:
        handles, labels = ax.get_legend_handles_labels()
        ax.legend(handles, labels, loc=legloc)
    if return_settings is True:
        return (fig, ax, dict(ciset=ciset, piset=piset))
    else:
        return (fig, ax)

def check_s2chain(s2chain, nsimu):
    if s2chain is None:
        return None
    else:
        if isinstance(s2chain, float):
            s2chain = np.ones((nsimu,)) * s2chain
        if s2chain.ndim == 2:
            if s2chain.shape[0] != nsimu:
                s2chain = s2chain * np.ones((nsimu, s2chain.size))
        elif s2chain.size != nsimu:
            s2chain = s2chain * np.ones((nsimu, s2chain.size))
        return s2chain

def observation_sample(s2, y, sstype):
    if sstype == 0:
        opred = y + np.random.standard_normal(y.shape) * np.sqrt(s2)
    elif sstype == 1:
        opred = (np.sqrt(y) + np.random.standard_normal(y.shape) * np.sqrt(s2)) ** 2
    elif sstype == 2:
        opred = y * np.exp(np.random.standard_normal(y.shape) * np.sqrt(s2))
    else:
        sys.exit('Unknown sstype')
    return opred

def define_sample_points(nsample, nsimu):
    if nsample >= nsimu:
        iisample = range(nsimu)
        nsample = nsimu
    else:
        iisample = np.ceil(np.random.rand(nsample) * nsimu) - 1
        iisample = iisample.astype(int)
    return (iisample, nsample)

def generate_quantiles(x, p=np.array([0.25, 0.5, 0.75])):
    n = x.shape[0]
    xpoints = np.arange(0, n, 1)
    interpfun = interp1d(xpoints, np.sort(x, 0), axis=0)
    itpoints = (n - 1) * p
    return interpfun(itpoints)

def setup_display_settings(interval_display, model_display, data_display):
    default_interval_display = dict(linestyle=':', linewidth=1, alpha=1.0, edgecolor='k')
    interval_display = check_settings(default_interval_display, interval_display)
    default_model_display = dict(linestyle='-', color='k', marker='', linewidth=2, markersize=5, label='Model')
    model_display = check_settings(default_model_display, model_display)
    default_data_display = dict(linestyle='', color='b', marker='.', linewidth=1, markersize=5, label='Data')
    data_display = check_settings(default_data_display, data_display)
    return (interval_display, model_display, data_display)

def setup_interval_colors(iset, inttype='CI'):
    limits, cmap, colors = (iset['limits'], iset['cmap'], iset['colors'])
    norm = __setup_cmap_norm(limits)
    cmap = __setup_default_cmap(cmap, inttype)
    ic = []
    if colors is None:
        for limits in limits:
            ic.append(cmap(norm(limits)))
    elif len(colors) == len(limits):
        for color in colors:
            ic.append(color)
    else:
        print('Note, user-defined colors were ignored. Using color map. ' + 'Expected a list of length {}, but received {}'.format(len(limits), len(colors)))
        for limits in limits:
            ic.append(cmap(norm(limits)))
    return ic

def _setup_labels(limits, inttype='CI'):
    labels = []
    for limit in limits:
        labels.append(str('{}% {}'.format(limit, inttype)))
    return labels

def _check_limits(limits, default_limits):
    if limits is None:
        limits = default_limits
    limits = sorted(limits, reverse=True)
    return limits

def _convert_limits(limits):
    rng = []
    for limit in limits:
        limit = limit / 100
        rng.append([0.5 - limit / 2, 0.5 + limit / 2])
    return rng

def __setup_iset(iset, default_iset):
    if iset is None:
        iset = {}
    iset = check_settings(default_iset, iset)
    return iset

def __setup_cmap_norm(limits):
    if len(limits) == 1:
        norm = mplcolor.Normalize(vmin=0, vmax=100)
    else:
        norm = mplcolor.Normalize(vmin=min(limits), vmax=max(limits))
    return norm

def __setup_default_cmap(cmap, inttype):
    if cmap is None:
        if inttype.upper() == 'CI':
            cmap = cm.autumn
        else:
            cmap = cm.winter
    return cmap

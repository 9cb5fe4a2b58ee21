import numpy as np
from scipy.interpolate import interp1d
from scipy import pi, sin, cos
import sys
import math

def generate_subplot_grid(nparam=2):
    ns1 = math.ceil(math.sqrt(nparam))
    ns2 = round(math.sqrt(nparam))
    return (ns1, ns2)

def generate_names(nparam, names):
    if names is None:
        names = generate_default_names(nparam)
    if len(names) != nparam:
        names = extend_names_to_match_nparam(names, nparam)
    return names

def setup_plot_features(nparam, names, figsizeinches):
    ns1, ns2 = generate_subplot_grid(nparam=nparam)
    names = generate_names(nparam=nparam, names=names)
    if figsizeinches is None:
        figsizeinches = [5, 4]
    return (ns1, ns2, names, figsizeinches)

def generate_default_names(nparam):
    names = []
    for ii in range(nparam):
        names.append(str('$p_{{{}}}$'.format(ii)))
    return names

def extend_names_to_match_nparam(names, nparam):
    if names is None:
        names = []
    n0 = len(names)
    for ii in range(n0, nparam):
        names = names + [str('$p_{{{}}}$'.format(ii))]
    return names

def make_x_grid(x, npts=100):
    xmin = min(x)
    xmax = max(x)
    xxrange = xmax - xmin
    if len(x) > 200:
        x_grid = np.linspace(xmin - 0.08 * xxrange, xmax + 0.08 * xxrange, npts)
    else:
        x_grid = np.linspace(np.mean(x) - 4 * np.std(x, ddof=1), np.mean(x) + 4 * np.std(x, ddof=1), npts)
    return x_grid.reshape(x_grid.shape[0], 1)

def iqrange(x):
    nr, nc = x.shape
    if nr == 1:
        x = x.reshape(nc, nr)
        nr = nc
        nc = 1
    x = np.sort(x, axis=0)
    i1 = math.floor((nr + 1) / 4)
    i3 = math.floor(3 / 4 * (nr + 1))
    f1 = (nr + 1) / 4 - i1
    f3 = 3 / 4 * (nr + 1) - i3
    q1 = (1 - f1) * x[max(int(i1) - 1, 0), :] + f1 * x[min(int(i1), nr - 1), :]
    q3 = (1 - f3) * x[min(int(i3) - 1, nr - 1), :] + f3 * x[min(int(i3), nr - 1), :]
    return q3 - q1

def gaussian_density_function(x, mu=0, sigma2=1):
    y = 1 / math.sqrt(2 * math.pi * sigma2) * math.exp(-0.5 * (x - mu) ** 2 / sigma2)
    return y

def scale_bandwidth(x):
    n = len(x)
    if iqrange(x) <= 0:
        s = 1.06 * np.array([np.std(x, ddof=1) * n ** (-1 / 5)])
    else:
        s = 1.06 * np.array([min(np.std(x, ddof=1), iqrange(x) / 1.34) * n ** (-1 / 5)])
    return s

def generate_ellipse(mu, cmat, ndp=100):
    if cmat.shape != (2, 2):
        sys.exit('covariance matrix must be 2x2')
    if check_symmetric(cmat) is not True:
        sys.exit('covariance matrix must be symmetric')
    t = np.linspace(0, 2 * pi, ndp)
    pdflag, R = is_semi_pos_def_chol(cmat)
    if pdflag is False:
        sys.exit('covariance matrix must be positive definite')
    x = mu[0] + R[0, 0] * cos(t)
    y = mu[1] + R[0, 1] * cos(t) + R[1, 1] * sin(t)
    return (x, y)

def check_symmetric(a, tol=1e-08):
    return np.allclose(a, a.T, atol=tol)

def is_semi_pos_def_chol(x):
    c = None
    try:
        c = np.linalg.cholesky(x)
        return (True, c.transpose())
    except np.linalg.linalg.LinAlgError:
        return (False, c)

def append_to_nrow_ncol_based_on_shape(sh, nrow, ncol):
    if len(sh) == 1:
        nrow.append(sh[0])
        ncol.append(1)
    else:
        nrow.append(sh[0])
        ncol.append(sh[1])
    return (nrow, ncol)

def convert_flag_to_boolean(flag):
    if flag == 'on':
        flag = True
    elif flag == 'off':
        flag = False
    return flag

def set_local_parameters(ii, local):
    test1 = local == 0
    test2 = local == ii
    test = test1 + test2
    return test.reshape(test.size)

def empirical_quantiles(x, p=np.array([0.25, 0.5, 0.75])):
    n = x.shape[0]
    xpoints = range(n)
    interpfun = interp1d(xpoints, np.sort(x, 0), axis=0)
    itpoints = (n - 1) * p
    return interpfun(itpoints)

def check_settings(default_settings, user_settings=None):
    settings = default_settings.copy()
    options = list(default_settings.keys())
    if user_settings is None:
        user_settings = {}
    user_options = list(user_settings.keys())
    for uo in user_options:
        if uo in options:
            if isinstance(settings[uo], dict):
                settings[uo] = check_settings(settings[uo], user_settings[uo])
            else:
                settings[uo] = user_settings[uo]
        if uo not in options:
            settings[uo] = user_settings[uo]
    return settings

def setup_subsample(skip, maxpoints, nsimu):
    if nsimu > maxpoints:
        skip = int(np.floor(nsimu / maxpoints))
    return np.arange(0, nsimu, skip)

import numpy as np
import sys
from ..settings.DataStructure import DataStructure
from ..settings.ModelSettings import ModelSettings
from ..utilities.progressbar import progress_bar
from ..plotting.utilities import append_to_nrow_ncol_based_on_shape, convert_flag_to_boolean, set_local_parameters
from ..plotting.utilities import empirical_quantiles, check_settings
import matplotlib.pyplot as plt

class PredictionIntervals:

    def setup_prediction_interval_calculation(self, results, data, modelfunction, burnin=0):
        self.__ndatabatches, _ = self._analyze_data_structure(data=data)
        self.datapred = self._setup_data_structure_for_prediction(data=data, ndatabatches=self.__ndatabatches)
        self.modelfunction = modelfunction
        self._assign_features_from_results_structure(results=results, burnin=burnin)
        self.__nrow, self.__ncol = self._determine_shape_of_response(modelfunction=modelfunction, ndatabatches=self.__ndatabatches, datapred=self.datapred, theta=self.__theta)
        if self.__s2chain is not None:
            self.__s2chain_index = self._analyze_s2chain(ndatabatches=self.__ndatabatches, s2chain=self.__s2chain, ncol=self.__ncol)

    @classmethod
    def _analyze_data_structure(cls, data):
        dshapes = data.shape
        ndatabatches = len(dshapes)
        ncols = []
        for ii in range(ndatabatches):
            if len(dshapes[ii]) != 1:
                ncols.append(dshapes[ii][1])
            else:
                ncols.append(1)
        return (ndatabatches, ncols)

    @classmethod
    def _setup_data_structure_for_prediction(cls, data, ndatabatches):
        datapred = []
        for ii in range(ndatabatches):
            datapred.append(DataStructure())
            datapred[ii].add_data_set(x=data.xdata[ii], y=data.ydata[ii], user_defined_object=data.user_defined_object[ii])
        return datapred

    def _assign_features_from_results_structure(self, results, burnin=0):
        self.__chain = results['chain'][burnin:, :]
        self.__s2chain = results['s2chain']
        if self.__s2chain is not None:
            self.__s2chain = self.__s2chain[burnin:, :]
        self.__parind = results['parind']
        self.__local = results['local']
        if isinstance(results['model_settings'], ModelSettings):
            self.__nbatch = results['model'].nbatch
        else:
            self.__nbatch = results['model_settings']['nbatch']
        self.__theta = results['theta']
        if 'sstype' in results:
            self.__sstype = results['sstype']
        else:
            self.__sstype = 0

    @classmethod
    def _determine_shape_of_response(cls, modelfunction, ndatabatches, datapred, theta):
        nrow = []
        ncol = []
        for ii in range(ndatabatches):
            if isinstance(modelfunction, list):
                y = modelfunction[ii](datapred[ii], theta)
            else:
                y = modelfunction(datapred[ii], theta)
            sh = y.shape
            nrow, ncol = append_to_nrow_ncol_based_on_shape(sh, nrow, ncol)
        return (nrow, ncol)

    @classmethod
    def _analyze_s2chain(cls, ndatabatches, s2chain, ncol):
        n = s2chain.shape[1]
        total_columns = sum(ncol)
        if n == 1:
            s2chain_index = np.zeros([ndatabatches, 2], dtype=int)
            for ii in range(ndatabatches):
                s2chain_index[ii, :] = np.array([0, 1])
        elif n != 1 and total_columns == n:
            s2chain_index = np.zeros([ndatabatches, 2], dtype=int)
            for ii in range(ndatabatches):
                if ii == 0:
                    s2chain_index[ii, :] = np.array([0, ncol[ii]])
                else:
                    s2chain_index[ii, :] = np.array([s2chain_index[ii - 1, 1], s2chain_index[ii - 1, 1] + ncol[ii]])
        elif n != 1 and total_columns != n:
            if n == ndatabatches:
                s2chain_index = np.zeros([ndatabatches, 2], dtype=int)
                for ii in range(ndatabatches):
                    if ii == 0:
                        s2chain_index[ii, :] = np.array([0, 1])
                    else:
                        s2chain_index[ii, :] = np.array([s2chain_index[ii - 1, 1], s2chain_index[ii - 1, 1] + 1])
            else:
                print('s2chain.shape = {}'.format(s2chain.shape))
                print('ndatabatches = {}'.format(ndatabatches))
                print('# of columns per batch = {}'.format(ncol))
                sys.exit('Unclear data structure: error variances do not match size of model output')
        return s2chain_index

    def generate_prediction_intervals(self, sstype=None, nsample=500, calc_pred_int=True, waitbar=False):
        chain, s2chain, lims, sstype, nsample, iisample = self._setup_generation_requirements(sstype=sstype, nsample=nsample, calc_pred_int=calc_pred_int)
        print('Generating credible/prediction intervals:\n')
        if waitbar is True:
            self.__wbarstatus = progress_bar(iters=int(nsample))
        testchain = chain[iisample, :]
        if s2chain is None:
            credible_intervals = self._calculate_ci_for_data_sets(testchain=testchain, waitbar=waitbar, lims=lims)
            prediction_intervals = None
        else:
            credible_intervals, prediction_intervals = self._calculate_ci_and_pi_for_data_sets(testchain=testchain, s2chain=s2chain, iisample=iisample, waitbar=waitbar, sstype=sstype, lims=lims)
        self.intervals = {'credible_intervals': credible_intervals, 'prediction_intervals': prediction_intervals}
        print('\nInterval generation complete\n')

    def _setup_generation_requirements(self, nsample, calc_pred_int, sstype):
        chain = self.__chain
        calc_pred_int = convert_flag_to_boolean(calc_pred_int)
        if calc_pred_int is False:
            s2chain = None
        else:
            s2chain = self.__s2chain
        nsimu = chain.shape[0]
        lims = self._setup_interval_limits(s2chain)
        sstype = self._setup_sstype(sstype)
        nsample = self._check_nsample(nsample=nsample, nsimu=nsimu)
        iisample, nsample = self._define_sample_points(nsample=nsample, nsimu=nsimu)
        return (chain, s2chain, lims, sstype, nsample, iisample)

    @classmethod
    def _setup_interval_limits(cls, s2chain):
        if s2chain is None:
            lims = np.array([0.005, 0.025, 0.05, 0.25, 0.5, 0.75, 0.9, 0.975, 0.995])
        else:
            lims = np.array([0.025, 0.5, 0.975])
        return lims

    def _setup_sstype(self, sstype):
        if sstype is None:
            sstype = self.__sstype
        else:
            sstype = 0
        return sstype

    @classmethod
    def _check_nsample(cls, nsample, nsimu):
        if nsample is None:
            nsample = nsimu
        return nsample

    @classmethod
    def _define_sample_points(cls, nsample, nsimu):
        if nsample >= nsimu:
            iisample = range(nsimu)
            nsample = nsimu
        else:
            iisample = np.ceil(np.random.rand(nsample) * nsimu) - 1
            iisample = iisample.astype(int)
        return (iisample, nsample)

    def _calculate_ci_for_data_sets(self, testchain, waitbar, lims):
        credible_intervals = []
        for ii in range(len(self.datapred)):
            datapredii, nrow, ncol, modelfun, test = self._setup_interval_ii(ii=ii, datapred=self.datapred, nrow=self.__nrow, ncol=self.__ncol, modelfunction=self.modelfunction, local=self.__local)
            ysave = self._calc_credible_ii(testchain=testchain, nrow=nrow, ncol=ncol, waitbar=waitbar, test=test, modelfun=modelfun, datapredii=datapredii)
            plim = self._generate_quantiles(ysave, lims, ncol)
            credible_intervals.append(plim)
        return credible_intervals

    def _calculate_ci_and_pi_for_data_sets(self, testchain, s2chain, iisample, waitbar, sstype, lims):
        credible_intervals = []
        prediction_intervals = []
        for ii in range(len(self.datapred)):
            datapredii, nrow, ncol, modelfun, test = self._setup_interval_ii(ii=ii, datapred=self.datapred, nrow=self.__nrow, ncol=self.__ncol, modelfunction=self.modelfunction, local=self.__local)
            s2ci = [self.__s2chain_index[ii][0], self.__s2chain_index[ii][1]]
            tests2chain = s2chain[iisample, s2ci[0]:s2ci[1]]
            ysave, osave = self._calc_credible_and_prediction_ii(testchain=testchain, tests2chain=tests2chain, nrow=nrow, ncol=ncol, waitbar=waitbar, sstype=sstype, test=test, modelfun=modelfun, datapredii=datapredii)
            plim = self._generate_quantiles(ysave, lims, ncol)
            olim = self._generate_quantiles(osave, lims, ncol)
            credible_intervals.append(plim)
            prediction_intervals.append(olim)
        return (credible_intervals, prediction_intervals)

    @classmethod
    def _setup_interval_ii(cls, ii, datapred, nrow, ncol, modelfunction, local):
        datapredii = datapred[ii]
        nrow = nrow[ii]
        ncol = ncol[ii]
        if isinstance(modelfunction, list):
            modelfun = modelfunction[ii]
        else:
            modelfun = modelfunction
        test = set_local_parameters(ii=ii, local=local)
        return (datapredii, nrow, ncol, modelfun, test)

    def _calc_credible_ii(self, testchain, nrow, ncol, waitbar, test, modelfun, datapredii):
        nsample = testchain.shape[0]
        theta = np.array(self.__theta)
        ysave = np.zeros([nsample, nrow, ncol])
        for kk, isa in enumerate(testchain):
            if waitbar is True:
                self.__wbarstatus.update(kk)
            theta[self.__parind[:]] = isa
            th = theta[test]
            ypred = modelfun(datapredii, th)
            ypred = ypred.reshape(nrow, ncol)
            ysave[kk, :, :] = ypred
        return ysave

    def _calc_credible_and_prediction_ii(self, testchain, tests2chain, nrow, ncol, waitbar, sstype, test, modelfun, datapredii):
        nsample = testchain.shape[0]
        theta = np.array(self.__theta)
        ysave = np.zeros([nsample, nrow, ncol])
        osave = np.zeros([nsample, nrow, ncol])
        for kk, isa in enumerate(testchain):
            if waitbar is True:
                self.__wbarstatus.update(kk)
            theta[self.__parind[:]] = isa
            th = theta[test]
            ypred = modelfun(datapredii, th)
            ypred = ypred.reshape(nrow, ncol)
            s2elem = tests2chain[kk]
            if s2elem.shape != (1, s2elem.size):
                s2elem = s2elem.reshape(1, s2elem.shape[0])
            opred = self._observation_sample(s2elem, ypred, sstype)
            ysave[kk, :, :] = ypred
            osave[kk, :, :] = opred
        return (ysave, osave)

    @classmethod
    def _observation_sample(cls, s2elem, ypred, sstype):
        ny = ypred.shape[1]
        ns = s2elem.shape[1]
        if ns != ny and ns == 1:
            s2elem = s2elem * np.ones([ny, 1])
        elif ns != ny and ns != 1:
            sys.exit('Unclear data structure: error variances do not match size of model output')
        if sstype == 0:
            opred = ypred + np.matmul(np.random.standard_normal(ypred.shape), np.diagflat(np.sqrt(s2elem))).reshape(ypred.shape)
        elif sstype == 1:
            opred = (np.sqrt(ypred) + np.matmul(np.random.standard_normal(ypred.shape), np.diagflat(np.sqrt(s2elem))).reshape(ypred.shape)) ** 2
        elif sstype == 2:
            opred = ypred * np.exp(np.matmul(np.random.standard_normal(ypred.shape), np.diagflat(np.sqrt(s2elem))).reshape(ypred.shape))
        else:
            sys.exit('Unknown sstype')
        return opred

    @classmethod
    def _generate_quantiles(cls, response, lims, ncol):
        quantiles = []
        for jj in range(ncol):
            quantiles.append(empirical_quantiles(response[:, :, jj], lims))
        return quantiles

    def plot_prediction_intervals(self, plot_pred_int=True, adddata=False, addlegend=True, figsizeinches=None, model_display={}, data_display={}, interval_display={}):
        credible_intervals = self.intervals['credible_intervals']
        prediction_intervals = self.intervals['prediction_intervals']
        prediction_intervals, figsizeinches, nbatch, nn, clabels, plabels = self._setup_interval_plotting(plot_pred_int, prediction_intervals, credible_intervals, figsizeinches)
        interval_display, model_display, data_display = self._setup_display_settings(interval_display, model_display, data_display)
        cicolor, picolor = self._setup_interval_colors(nn=nn, prediction_intervals=prediction_intervals)
        fighandle = []
        axhandle = []
        for ii in range(self.__ndatabatches):
            credlims = credible_intervals[ii]
            ny = len(credlims)
            dataii = self.datapred[ii]
            time = dataii.xdata[0].reshape(dataii.xdata[0].shape[0])
            for jj in range(ny):
                htmp, ax = self._initialize_plot_features(ii=ii, jj=jj, ny=ny, figsizeinches=figsizeinches)
                fighandle.append(htmp)
                axhandle.append(ax)
                if prediction_intervals is not None:
                    ax.fill_between(time, prediction_intervals[ii][jj][0], prediction_intervals[ii][jj][-1], facecolor=picolor[0], label=plabels[0], **interval_display)
                for kk in range(0, int(nn) - 1):
                    ax.fill_between(time, credlims[jj][kk], credlims[jj][-kk - 1], facecolor=cicolor[kk], label=clabels[kk], **interval_display)
                ax.plot(time, credlims[jj][int(nn) - 1], **model_display)
                if adddata is True:
                    plt.plot(dataii.xdata[0], dataii.ydata[0][:, jj], **data_display)
                self._add_batch_column_title(nbatch, ny, ii, jj)
                if addlegend is True:
                    handles, labels = ax.get_legend_handles_labels()
                    ax.legend(handles, labels, loc='upper left')
        return (fighandle, axhandle)

    @classmethod
    def _setup_display_settings(cls, interval_display, model_display, data_display):
        default_interval_display = {'linestyle': ':', 'linewidth': 1, 'alpha': 0.5, 'edgecolor': 'k'}
        interval_display = check_settings(default_interval_display, interval_display)
        default_model_display = {'linestyle': '-', 'color': 'r', 'marker': '', 'linewidth': 2, 'markersize': 5, 'label': 'model'}
        model_display = check_settings(default_model_display, model_display)
        default_data_display = {'linestyle': '', 'color': 'b', 'marker': '.', 'linewidth': 1, 'markersize': 5, 'label': 'data'}
        data_display = check_settings(default_data_display, data_display)
        return (interval_display, model_display, data_display)

    @classmethod
    def _setup_interval_colors(cls, nn, prediction_intervals=None):
        ci = []
        pi = []
        if prediction_intervals is not None:
            ci.append('#c7e9b4')
            pi.append('#225ea8')
        else:
            ci.append('#253494')
            ci.append('#1d91c0')
            ci.append('#7fcdbb')
            ci.append('#c7e9b4')
        return (ci, pi)

    @classmethod
    def _initialize_plot_features(cls, ii, jj, ny, figsizeinches):
        fighandbatch = str('Batch # {}'.format(ii))
        fighandcolumn = str('Column # {}'.format(jj))
        fighand = str('{} | {}'.format(fighandbatch, fighandcolumn))
        htmp = plt.figure(fighand, figsize=figsizeinches)
        plt.figure(fighand)
        ax = plt.subplot(ny, 1, jj + 1)
        plt.tight_layout()
        plt.subplots_adjust(hspace=0.5)
        return (htmp, ax)

    @classmethod
    def _add_batch_column_title(cls, nbatch, ny, ii, jj):
        if nbatch > 1:
            plt.title(str('Batch #{}, Column #{}'.format(ii, jj)))
        elif ny > 1:
            plt.title(str('Column #{}'.format(jj)))

    def _setup_interval_plotting(self, plot_pred_int, prediction_intervals, credible_intervals, figsizeinches):
        prediction_intervals = self._check_prediction_interval_flag(plot_pred_int=plot_pred_int, prediction_intervals=prediction_intervals)
        if figsizeinches is None:
            figsizeinches = [7, 5]
        nbatch, nn, nlines = self._setup_counting_metrics(credible_intervals=credible_intervals)
        clabels, plabels = self._setup_labels(prediction_intervals=prediction_intervals, nlines=nlines)
        return (prediction_intervals, figsizeinches, nbatch, nn, clabels, plabels)

    @classmethod
    def _check_prediction_interval_flag(cls, plot_pred_int, prediction_intervals):
        plot_pred_int = convert_flag_to_boolean(plot_pred_int)
        if plot_pred_int is False or prediction_intervals is None:
            prediction_intervals = None
        return prediction_intervals

    @classmethod
    def _setup_labels(cls, prediction_intervals, nlines):
        clabels = ['95% CI']
        plabels = ['95% PI']
        if prediction_intervals is None:
            clabels = ['99% CI', '95% CI', '90% CI', '50% CI']
        if prediction_intervals is None and nlines == 1:
            clabels = ['95% CI']
        return (clabels, plabels)

    @classmethod
    def _setup_counting_metrics(cls, credible_intervals):
        nbatch = len(credible_intervals)
        nlines = len(credible_intervals[0][0])
        nn = int((nlines + 1) / 2)
        nlines = nn - 1
        return (nbatch, nn, nlines)

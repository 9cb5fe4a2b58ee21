From 627496c5bb73626017ae0f836ee8588ef24195b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:25 +0000
Subject: [PATCH 01/38] fix: read binary chain logs back in simulation order

Data sets were concatenated in lexicographic key order (nsimu_1000_1099 before
nsimu_200_299) and with the previous block's length, so reloaded chains were
scrambled, or lost as soon as a short block was not the last one.
---
 pymcmcstat/chain/ChainProcessing.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 6caa254..f6e2c2b 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -246,6 +246,11 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
     return chainfolders
 
 
+def _numeric_sort_key(name):
+    # order names by their integer fields, e.g., nsimu_200_299 before nsimu_1000_1099
+    return [(0, int(part), '') if part.isdigit() else (1, 0, part) for part in name.split('_')]
+
+
 def read_in_bin_file(filename):
     '''
     Read in information from file containing binary data.
@@ -261,7 +266,7 @@ def read_in_bin_file(filename):
     '''
     try:
         hf = h5py.File(filename, 'r')
-        ds = list(hf.keys())  # data sets
+        ds = sorted(hf.keys(), key=_numeric_sort_key)  # data sets, in order of simulation index
         # check size of each set
         sh = np.zeros([len(ds), 2], dtype=int)
         for ii, dsii in enumerate(ds):
@@ -277,7 +282,7 @@ def read_in_bin_file(filename):
                 b = sh[ii, 0]
             else:
                 a = a + sh[ii-1, 0]
-                b = b + sh[ii-1, 0]
+                b = a + sh[ii, 0]
             out[a:b, :] = np.array(hf.get(dsii))
         hf.close()
     except Exception as ex:
-- 
2.43.0


From 1c8ac6861a6e6bcaa1300ac56d0ce09050432678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 02/38] fix: load parallel results whose chains are stored in
 the json files

The chain arrays were unconditionally replaced from the log files, which were
never read (NameError) when the json results already contained the chains.
---
 pymcmcstat/ParallelMCMC.py          | 10 +++++-----
 pymcmcstat/chain/ChainProcessing.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1237dce..c5fc032 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -401,11 +401,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if out[0]['chain'] == []:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index f6e2c2b..15646d1 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -125,11 +125,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if out[0]['chain'] == []:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
-- 
2.43.0


From 55200d07e9bb8f5ef857b1c0daf573446c85c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:53 +0000
Subject: [PATCH 03/38] fix: order parallel chain folders by chain number

chain_10 was listed before chain_2, so results were returned in an order that
does not match the chain numbers.
---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 15646d1..16803ec 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -242,7 +242,7 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
         if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
             chainfolders.append(cf)
 
-    chainfolders.sort()  # sort elements
+    chainfolders.sort(key=_numeric_sort_key)  # sort elements by chain number
     return chainfolders
 
 
-- 
2.43.0


From b8a921814a056240da0385f6e4836558ab8f699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:24 +0000
Subject: [PATCH 04/38] fix: close chain log files when writing a block fails

---
 pymcmcstat/chain/ChainProcessing.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 16803ec..2f58fd3 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -344,15 +344,13 @@ def _add_to_log(filename, logstr):
 
 
 def _save_to_bin_file(filename, datasetname, mtx):
-    hf = h5py.File(filename, 'a')
-    hf.create_dataset(datasetname, data=mtx)
-    hf.close()
+    with h5py.File(filename, 'a') as hf:
+        hf.create_dataset(datasetname, data=mtx)
 
 
 def _save_to_txt_file(filename, mtx):
-    handle = open(filename, 'ab')
-    np.savetxt(handle, mtx)
-    handle.close()
+    with open(filename, 'ab') as handle:
+        np.savetxt(handle, mtx)
 
 
 def _check_directory(directory):
-- 
2.43.0


From cf2463d45f58b4bb5a540ed2c601b238e9e95311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 05/38] fix: use the sampled chain rows when propagating
 uncertainty

Sample points were drawn from the whole chain but the first rows were used.
---
 pymcmcstat/propagation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 7dfeb24..6e190f0 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -65,7 +65,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         if waitbar is True:
             __wbarstatus.update(kk)
         # extract chain set
-        q[parind] = chain[kk, :]
+        q[parind] = chain[isa, :]
         # evaluate model
         y = model(q, data)
         # check model output
@@ -80,7 +80,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                 continue
             else:
                 # estimate prediction intervals
-                s2 = s2chain[kk]
+                s2 = s2chain[isa]
                 obs = observation_sample(s2, y, sstype)
                 pi.append(obs.reshape(obs.size,))
         else:
@@ -101,11 +101,11 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                     # estimate prediction intervals
                     if s2chain.ndim == 2:
                         if s2chain.shape[1] == ncol:
-                            s2 = s2chain[kk, jj]
+                            s2 = s2chain[isa, jj]
                         else:
-                            s2 = s2chain[kk]
+                            s2 = s2chain[isa]
                     else:
-                        s2 = s2chain[kk]
+                        s2 = s2chain[isa]
                     obs = observation_sample(s2, y[:, jj], sstype)
                     pis[jj].append(obs.reshape(obs.size,))
 
-- 
2.43.0


From 7c9b1dea81bf76f004d5fd3b45e8afc9600f0070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:48 +0000
Subject: [PATCH 06/38] fix: do not overwrite results['theta'] when computing
 intervals

---
 pymcmcstat/plotting/PredictionIntervals.py | 4 ++--
 pymcmcstat/propagation.py                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index c82f7b0..5c3e998 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -469,7 +469,7 @@ class PredictionIntervals:
             * **ysave** (:class:`~numpy.ndarray`): Model responses.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)
         ysave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
             # progress bar
@@ -507,7 +507,7 @@ class PredictionIntervals:
             * **osave** (:class:`~numpy.ndarray`): Model responses with observation errors.
         '''
         nsample = testchain.shape[0]
-        theta = self.__theta
+        theta = np.array(self.__theta)
         ysave = np.zeros([nsample, nrow, ncol])
         osave = np.zeros([nsample, nrow, ncol])
         for kk, isa in enumerate(testchain):
diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 6e190f0..8e27e96 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -50,7 +50,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         * :py:class:`dict` with two elements: 1) `credible` and 2) `prediction`
     '''
     parind = results['parind']
-    q = results['theta']
+    q = np.array(results['theta'])
     nsimu, npar = chain.shape
     s2chain = check_s2chain(s2chain, nsimu)
     iisample, nsample = define_sample_points(nsample, nsimu)
-- 
2.43.0


From 8e6e84e0c9155a6c6b2779265b237f55a79b5911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:21 +0000
Subject: [PATCH 07/38] fix: keep the error variance prior fixed during
 sampling

S20 aliased sigma2, which is updated in place every iteration when it has one
element per sum-of-squares entry, so the prior drifted with the chain; and a
user supplied S20 was never used as default for sigma2 (missing call).
---
 pymcmcstat/settings/ModelSettings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e71aa46..7831b23 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -106,12 +106,12 @@ class ModelSettings:
         # set default value for sigma2
         # default for sigma2 is S20 or 1
         if self.sigma2 is None:
-            if not(np.isnan(self.S20)).any:
-                self.sigma2 = self.S20
+            if not np.isnan(self.S20).any():
+                self.sigma2 = self.S20.copy()
             else:
                 self.sigma2 = np.ones(self.nbatch)
         if np.isnan(self.S20).any():
-            self.S20 = self.sigma2  # prior parameters for the error variance
+            self.S20 = self.sigma2.copy()  # prior parameters for the error variance
 
     @classmethod
     def _check_number_of_observations(cls, udN, dsN):
-- 
2.43.0


From 66415ef7777bfec5908aeef25a1a24c22d6cd34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 08/38] fix: do not overwrite the user's sigma2 array while
 sampling

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 7831b23..65f72c1 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -75,7 +75,7 @@ class ModelSettings:
             elif isinstance(x, list):  # [...] -> ndarray[...]
                 return np.array(x)
             elif isinstance(x, np.ndarray):
-                return x
+                return x.copy()
             else:
                 sys.exit('Unknown data type - Please use int, ndarray, or list')
 
-- 
2.43.0


From a78244d37451e98edba3177cef2ab23f7eead421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:07 +0000
Subject: [PATCH 09/38] fix: do not extend the caller's parameter names in
 place

---
 pymcmcstat/plotting/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index afabd8b..382129d 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -118,7 +118,7 @@ def extend_names_to_match_nparam(names, nparam):
         names = []
     n0 = len(names)
     for ii in range(n0, nparam):
-        names.append(str('$p_{{{}}}$'.format(ii)))
+        names = names + [str('$p_{{{}}}$'.format(ii))]
     return names
 
 
-- 
2.43.0


From 81518a71b990b95535dfac73071ff64ab1ef9d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:14 +0000
Subject: [PATCH 10/38] fix: do not reorder the caller's interval limits in
 place

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 8e27e96..f3cb9eb 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -635,7 +635,7 @@ def _setup_labels(limits, inttype='CI'):
 def _check_limits(limits, default_limits):
     if limits is None:
         limits = default_limits
-    limits.sort(reverse=True)
+    limits = sorted(limits, reverse=True)
     return limits
 
 
-- 
2.43.0


From 0d88fb5e87901a51e9d73bd3b14b9ea052953b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:19 +0000
Subject: [PATCH 11/38] fix: compute the interquartile range from values sorted
 per column

The in place sort ran along the last axis: a no-op for column vectors, and it
scrambled the caller's array otherwise.
---
 pymcmcstat/plotting/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index 382129d..262c5da 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -168,7 +168,7 @@ def iqrange(x):
         nr = nc
         nc = 1
     # sort
-    x.sort()
+    x = np.sort(x, axis=0)
     i1 = math.floor((nr + 1)/4)
     i3 = math.floor(3/4*(nr+1))
     f1 = (nr+1)/4-i1
-- 
2.43.0


From 116478529d64535fda8ccaf0559ce5f21bce5795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:53 +0000
Subject: [PATCH 12/38] fix: keep delayed rejection proposals during burn-in
 adaptation

Scaling the proposal during burn-in discarded the delayed rejection matrices,
so the next rejected candidate crashed the simulation.
---
 pymcmcstat/samplers/Adaptation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 27b9890..73f37d5 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -65,8 +65,7 @@ class Adaptation:
             covchain = oldcovchain
             meanchain = oldmeanchain
             wsum = oldwsum
-            RDR = None
-            invR = None
+            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
         else:
             message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(
                     isimu, rejected['total']*(isimu**(-1))*100, rejected['in_adaptation_interval']*(iiadapt**(-1))*100,
-- 
2.43.0


From 4b31ce85d009204de750f3761597d8e4deb00b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 13/38] fix: count every chain row once when adapting an
 extended simulation

The index of the last adaptation was stored relative to the current run while
the chain is indexed over all runs.
---
 pymcmcstat/samplers/Adaptation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 73f37d5..3016f0e 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -73,7 +73,7 @@ class Adaptation:
             # UPDATE COVARIANCE MATRIX - CHOLESKY, MEAN, SUM
             covchain, meanchain, wsum = update_covariance_mean_sum(
                     chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
-            last_index_since_adaptation = isimu
+            last_index_since_adaptation = chainind
             # ram
             if doram:
                 upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam,
-- 
2.43.0


From 62528e7364e866f15342613864379357c050e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:17 +0000
Subject: [PATCH 14/38] fix: report the acceptance probability of a candidate,
 not its logarithm

Robust adaptive Metropolis compares the candidate's alpha with the target
acceptance probability; since v1.8.0 it received the log ratio instead.
---
 pymcmcstat/samplers/Metropolis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Metropolis.py b/pymcmcstat/samplers/Metropolis.py
index 18abfb8..dfacd64 100644
--- a/pymcmcstat/samplers/Metropolis.py
+++ b/pymcmcstat/samplers/Metropolis.py
@@ -84,7 +84,7 @@ class Metropolis:
             # make acceptance decision
             accept = log_posterior_ratio_acceptance_test(alpha)
             # store parameter sets in objects
-            newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2, alpha=alpha)
+            newset = ParameterSet(theta=newpar, ss=ss1, prior=newprior, sigma2=sigma2, alpha=np.exp(alpha))
         return accept, newset, outbound, npar_sample_from_normal
 
     # --------------------------------------------------------
-- 
2.43.0


From 36077a6e20686adf60eb95766a4cba0a5771117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:45 +0000
Subject: [PATCH 15/38] fix: stop adapting after iteration lastadapt

The option was accepted and given a default but never consulted.
---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8a52ba9..5fd48ca 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -342,7 +342,8 @@ class MCMC:
                 iiprint = 0  # reset print counter
 
             # ADAPTATION
-            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint:
+            if (self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint
+                    and isimu <= self.simulation_options.lastadapt):
                 self._covariance = self._sampling_methods.adaptation.run_adaptation(
                         covariance=self._covariance,
                         options=self.simulation_options,
-- 
2.43.0


From bce5a28adecfa9d408a6cf552ed48cd335c40b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 16/38] fix: log every chain row exactly once when a simulation
 is extended

Block boundaries were relative to the current run, the logged arrays were those
of the previous run, and a simulation of one sample had no loop index at all.
---
 pymcmcstat/MCMC.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 5fd48ca..96c6891 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -277,6 +277,12 @@ class MCMC:
             self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
         else:
             self.__s2chain = None
+        # log the expanded arrays
+        self.__chains = []
+        self.__chains.append(dict(file=self.simulation_options.chainfile, mtx=self.__chain))
+        self.__chains.append(dict(file=self.simulation_options.sschainfile, mtx=self.__sschain))
+        if updatesigma:
+            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
 
     # --------------------------------------------------------
     def __execute_simulator(self):
@@ -288,7 +294,8 @@ class MCMC:
         iiadapt = 0  # adaptation counter
         iiprint = 0  # print counter
         savecount = 0  # save counter
-        lastbin = 0  # initialize bin counter
+        # initialize bin counter - row 0, or the first row that extends a previous simulation
+        lastbin = 0 if self.__chain_index == 0 else self.__chain_index + 1
         nsimu = self.simulation_options.nsimu
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
@@ -378,12 +385,12 @@ class MCMC:
             if savecount == self.simulation_options.savesize:
                 savecount, lastbin = self.__save_to_log_file(
                         chains=self.__chains,
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu)
+                        start=lastbin,
+                        end=self.__chain_index)
                 self.__save_to_log_file(
                         chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu,
+                        start=self.__chain_index - self.simulation_options.savesize,
+                        end=self.__chain_index,
                         append_to_log=False,
                         covmtx=True)
                 # add custom chains is applicable
@@ -396,17 +403,17 @@ class MCMC:
                                 append_to_log=False)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=isimu + 1)
+        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
         self.__save_to_log_file(
                 chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
                 start=lastbin,
-                end=isimu,
+                end=self.__chain_index,
                 append_to_log=False,
                 covmtx=True)
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin, end=isimu + 1, append_to_log=False)
+                self.__save_to_log_file(cs.chains, start=nsimu - 1 - savecount, end=nsimu, append_to_log=False)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
-- 
2.43.0


From 83cb979bcac097d976308d3c0d35b68d5415651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:43 +0000
Subject: [PATCH 17/38] fix: set up delayed rejection whenever several tries
 are requested

ntry > 1 with method 'mh' or 'am' crashed at the first rejection, and verbose
output crashed for every method without delayed rejection.
---
 pymcmcstat/procedures/CovarianceProcedures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 82bf6cc..fe577b4 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -38,6 +38,7 @@ class CovarianceProcedures:
         self._R = None
         self._qcov_original = None
         self._invR = None
+        self._RDR = None
         self._iacce = None
         self._covchain = None
         self._meanchain = None
@@ -56,7 +57,7 @@ class CovarianceProcedures:
         self.__setup_R_matrix(parameters._parind)
         # ----------------
         # setup RDR matrix (RDR used in DR)
-        if options.method == 'dram' or options.method == 'dr':
+        if options.method == 'dram' or options.method == 'dr' or options.ntry > 1:
             self._invR = []
             self.__setup_RDR_matrix(npar=parameters.npar,
                                     drscale=options.drscale, ntry=options.ntry,
-- 
2.43.0


From d0db90d16311952cf8057c086d1ad27c7b0c99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:58 +0000
Subject: [PATCH 18/38] fix: allow extending a simulation with several data
 batches

The number of observations is summed over batches for a scalar sum-of-squares
function; extending the simulation then refused that total as inconsistent.
---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 65f72c1..cb1a13d 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -119,7 +119,7 @@ class ModelSettings:
         if np.array_equal(udN, dsN):
             N = dsN
         elif dsN.size > udN.size and udN.size == 1:
-            if np.all(dsN == udN[0]):
+            if np.all(dsN == udN[0]) or udN[0] == np.sum(dsN):
                 N = dsN
             else:
                 sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.\
-- 
2.43.0


From fb04dead4145eaf63485e9d3b1e28ddd278650ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:04 +0000
Subject: [PATCH 19/38] fix: record the number of observations given for a data
 set

add_data_set ignored n, leaving the data set without an observation count.
---
 pymcmcstat/settings/DataStructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 78c80ea..e4fc9fd 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -93,6 +93,8 @@ class DataStructure:
                 self.n.append(y.size)
             else:  # should
                 self.n.append(y.shape[0])  # assume y is a numpy array - nrows is n
+        else:
+            self.n.append(n)
         self.shape.append(y.shape)
         self.weight.append(weight)
         # add user defined objects option
-- 
2.43.0


From 525a50e636f68828ba50d73caf3a0edc0155f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:26 +0000
Subject: [PATCH 20/38] fix: restart from json results when some parameters are
 fixed

The stored proposal covariance covers the sampled parameters only, while the
option is indexed over all parameters.
---
 pymcmcstat/MCMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 96c6891..9097d36 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,7 +156,7 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                self.simulation_options.qcov = np.array(res['qcov'])
+                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
-- 
2.43.0


From 9e88bf634b26006ef9750b6eedacf243de8df550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:13 +0000
Subject: [PATCH 21/38] fix: give parallel chains independent random numbers

Forked workers inherited the same generator state and ran identical streams.
---
 pymcmcstat/ParallelMCMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index c5fc032..101c4ec 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -102,7 +102,7 @@ class ParallelMCMC:
             Parallel simulation run time: 16.15234899520874 sec
         '''
         start = time.time()
-        mcpool = Pool(processes=self.num_cores)  # depends on available cores
+        mcpool = Pool(processes=self.num_cores, initializer=np.random.seed)  # depends on available cores
         res = mcpool.map(run_serial_simulation, self.parmc)
         mcpool.close()  # not optimal! but easy
         mcpool.join()
-- 
2.43.0


From 34c96b2723fdf2f3011c5a9cd4e87f032427cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:19 +0000
Subject: [PATCH 22/38] fix: keep fixed parameters at their value in parallel
 simulations

Randomly generated initial values were also assigned to parameters that are not
sampled, so every chain conditioned on a different fixed value.
---
 pymcmcstat/ParallelMCMC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 101c4ec..92544e1 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -80,6 +80,8 @@ class ParallelMCMC:
             # replicate parameter settings and assign distributed initial values
             self.parmc[ii].parameters = copy.deepcopy(parameters)
             for jj in range(npar):
+                if initial_values is None and not parameters.parameters[jj]['sample']:
+                    continue  # keep the value of parameters that are not sampled
                 self.parmc[ii].parameters.parameters[jj]['theta0'] = self.initial_values[ii, jj]
 
     def run_parallel_simulation(self):
-- 
2.43.0


From 5da22b13514103de2339f8501040637d6042aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:25 +0000
Subject: [PATCH 23/38] fix: do not change the caller's options when setting up
 parallel chains

---
 pymcmcstat/ParallelMCMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 92544e1..70b6795 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -47,7 +47,7 @@ class ParallelMCMC:
         # extract settings from mcset
         data, options, model, parameters = unpack_mcmc_set(mcset=mcset)
         npar, low_lim, upp_lim = get_parameter_features(parameters.parameters)
-        options = check_options_output(options)
+        options = check_options_output(copy.copy(options))
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
         # check initial values and number of chains to be generated
-- 
2.43.0


From 05c734bbd4a43034f94fae1a91e8e89ec8fa0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:31 +0000
Subject: [PATCH 24/38] fix: load the json results file the caller asked for

Any json file found in the directory replaced the given file name.
---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 2f58fd3..02a7cac 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -68,7 +68,7 @@ def load_serial_simulation_results(
     Returns:
         * **results** (:py:class:`dict`): Each element of list is an MCMC result dictionary.
     '''
-    items = os.listdir(savedir)
+    items = os.listdir(savedir) if json_file is None else []
     for item in items:
         if item.endswith('.json'):
             json_file = item
-- 
2.43.0


From 80aff60a2ce8c45f96f392e19465704f725bf059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:41 +0000
Subject: [PATCH 25/38] fix: zero-pad series shorter than the spectral window

The index used is past the end of the series, so the call raised IndexError.
---
 pymcmcstat/chain/ChainStatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainStatistics.py b/pymcmcstat/chain/ChainStatistics.py
index b981a1f..4a45595 100644
--- a/pymcmcstat/chain/ChainStatistics.py
+++ b/pymcmcstat/chain/ChainStatistics.py
@@ -305,7 +305,7 @@ def power_spectral_density_using_hanning_window(x, nfft=None, nw=None):
     w = 0.5*(1-np.cos(2*np.pi*np.arange(1, nw+1)/(nw+1)))
     n = len(x)
     if n < nw:
-        x[nw+1] = 0
+        x = np.concatenate((x, np.zeros([nw - n])))  # zero-pad a copy
         n = nw
     # number of windows
     k = int(np.fix((n - noverlap)/(nw - noverlap)))
-- 
2.43.0


From 6b26bd4c423df8ade4eac46605820b072c5b4b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:48 +0000
Subject: [PATCH 26/38] fix: store numpy scalars in json results

A numpy integer among the settings made the export fail after the simulation
had finished.
---
 pymcmcstat/utilities/NumpyEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/utilities/NumpyEncoder.py b/pymcmcstat/utilities/NumpyEncoder.py
index dac317e..18ee2a9 100644
--- a/pymcmcstat/utilities/NumpyEncoder.py
+++ b/pymcmcstat/utilities/NumpyEncoder.py
@@ -17,4 +17,6 @@ class NumpyEncoder(json.JSONEncoder):
     def default(self, obj):
         if isinstance(obj, np.ndarray):
             return obj.tolist()
+        if isinstance(obj, np.generic):
+            return obj.item()
         return json.JSONEncoder.default(self, obj)
-- 
2.43.0


From b0891231b53232a26b0fff3382c2b50fc2cb1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:54 +0000
Subject: [PATCH 27/38] fix: plot prediction intervals with current numpy
 (np.int was removed)

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 5c3e998..b9cdad6 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -823,6 +823,6 @@ class PredictionIntervals:
         nbatch = len(credible_intervals)
         # define counting metrics
         nlines = len(credible_intervals[0][0])  # number of lines
-        nn = np.int((nlines + 1)/2)  # median
+        nn = int((nlines + 1)/2)  # median
         nlines = nn - 1
         return nbatch, nn, nlines
-- 
2.43.0


From fc1c15dcd4e9f7b4461cdcdcaad2e463f913e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:00 +0000
Subject: [PATCH 28/38] fix: 3d interval plots failed with current matplotlib

---
 pymcmcstat/propagation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index f3cb9eb..34be6e5 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -382,7 +382,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     piset['labels'] = _setup_labels(piset['limits'], inttype='PI')
     if fig is None:
         fig = plt.figure(figsize=figsize)
-        ax = Axes3D(fig)
+        ax = fig.add_subplot(111, projection=Axes3D.name)
     ax = fig.gca()
     time1 = time[:, 0]
     time2 = time[:, 1]
@@ -400,8 +400,9 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
                                     color=piset['colors'][ii],
                                     label=piset['labels'][ii])
             # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            if hasattr(surf, '_facecolors3d'):
+                surf._facecolors2d = surf._facecolors3d
+                surf._edgecolors2d = surf._edgecolors3d
             ax.add_collection3d(surf)
     # add credible intervals
     if addcredible is True:
@@ -417,8 +418,9 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
                                     color=ciset['colors'][ii],
                                     label=ciset['labels'][ii])
             # Add fix for legend compatibility
-            surf._facecolors2d = surf._facecolors3d
-            surf._edgecolors2d = surf._edgecolors3d
+            if hasattr(surf, '_facecolors3d'):
+                surf._facecolors2d = surf._facecolors3d
+                surf._edgecolors2d = surf._edgecolors3d
             ax.add_collection3d(surf)
     # add model (median model response)
     if addmodel is True:
-- 
2.43.0


From b317afb2772abd95de02c6b98a4cd08212cf0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:00 +0000
Subject: [PATCH 29/38] fix: data at other points than the intervals could not
 be added to 3d interval plots

---
 pymcmcstat/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 34be6e5..17e4ef2 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -434,7 +434,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
             ax.plot(time1, time2, ydata.reshape(time1.shape), **data_display)
         else:  # User provided xdata array for observation points
             ax.plot(xdata[:, 0], xdata[:, 1],
-                    ydata.reshape(time1.shape), **data_display)
+                    ydata.reshape(xdata[:, 0].shape), **data_display)
     # add legend
     if addlegend is True:
         handles, labels = ax.get_legend_handles_labels()
-- 
2.43.0


From 54f84d6dfe8c5e1b004c857e6ef9fa4cd605f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:00 +0000
Subject: [PATCH 30/38] fix: intervals calculated without an error variance
 could not be plotted

---
 pymcmcstat/propagation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 17e4ef2..650f0d9 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -241,7 +241,7 @@ def plot_intervals(intervals, time, ydata=None, xdata=None,
     ax = fig.gca()
     time = time.reshape(time.size,)
     # add prediction intervals
-    if addprediction is True:
+    if addprediction is True and prediction is not None:
         for ii, quantile in enumerate(piset['quantiles']):
             pi = generate_quantiles(prediction, np.array(quantile))
             ax.fill_between(time, pi[0], pi[1], facecolor=piset['colors'][ii],
@@ -387,7 +387,7 @@ def plot_3d_intervals(intervals, time, ydata=None, xdata=None,
     time1 = time[:, 0]
     time2 = time[:, 1]
     # add prediction intervals
-    if addprediction is True:
+    if addprediction is True and prediction is not None:
         for ii, quantile in enumerate(piset['quantiles']):
             pi = generate_quantiles(prediction, np.array(quantile))
             # Add a polygon instead of fill_between
-- 
2.43.0


From d8bd497f060ec72e0d7d504aecd2879817cb8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:00 +0000
Subject: [PATCH 31/38] fix: text log files with one column or one row were
 read as vectors

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 02a7cac..1ba93bd 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -309,7 +309,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename)
+        out = np.loadtxt(filename, ndmin=2)
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
-- 
2.43.0


From b9d0f2e5fa159782e560fcc98c2276713bcd3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:00 +0000
Subject: [PATCH 32/38] fix: chains kept in log files could not be loaded with
 the saved results

---
 pymcmcstat/ParallelMCMC.py          | 2 +-
 pymcmcstat/chain/ChainProcessing.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 70b6795..aad6031 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -401,7 +401,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         for ii, pr in enumerate(pres):
             pr['chain'] = out[ii]['chain']
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 1ba93bd..089c2fa 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -87,7 +87,7 @@ def load_serial_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out['chain'] == []:
+        if len(out['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         results['chain'] = out['chain']
         results['sschain'] = out['sschain']
@@ -123,7 +123,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         for ii, pr in enumerate(pres):
             pr['chain'] = out[ii]['chain']
-- 
2.43.0


From b41b998bc158e233154ce9624950950c2fcf81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:42 +0000
Subject: [PATCH 33/38] fix: interquartile range took the neighbours of the
 quartiles and failed for short samples

---
 pymcmcstat/plotting/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index 262c5da..dbc6b6f 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -173,8 +173,8 @@ def iqrange(x):
     i3 = math.floor(3/4*(nr+1))
     f1 = (nr+1)/4-i1
     f3 = 3/4*(nr+1)-i3
-    q1 = (1-f1)*x[int(i1), :] + f1*x[int(i1)+1, :]
-    q3 = (1-f3)*x[int(i3), :] + f3*x[int(i3)+1, :]
+    q1 = (1-f1)*x[max(int(i1)-1, 0), :] + f1*x[min(int(i1), nr-1), :]
+    q3 = (1-f3)*x[min(int(i3)-1, nr-1), :] + f3*x[min(int(i3), nr-1), :]
     return q3-q1
 
 
-- 
2.43.0


From 188b3b4554675524c103971412227e4a96808e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:57 +0000
Subject: [PATCH 34/38] fix: a second or extended run turned on updating of the
 error variance

---
 pymcmcstat/settings/ModelSettings.py     | 2 ++
 pymcmcstat/settings/SimulationOptions.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index cb1a13d..a7a131d 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -57,6 +57,7 @@ class ModelSettings:
         self.N = self._array_type(N)
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
+        self._default_N0 = False
         # check nbatch - number of data sets
         self.nbatch = self._array_type(nbatch)
         # S20 - prior for sigma2
@@ -98,6 +99,7 @@ class ModelSettings:
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
+            self._default_N0 = True
             if self.sigma2 is None:
                 self.sigma2 = np.ones([1])
                 self.N0 = np.zeros([1])
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index aeb35c3..78685b8 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -194,7 +194,7 @@ class SimulationOptions:
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
-        if model.N0 is not None:
+        if model.N0 is not None and not getattr(model, '_default_N0', False):
             self.updatesigma = True
 
     def display_simulation_options(self, print_these=None):
-- 
2.43.0


From 38b51d82e70c482a1e24406a1d73040819788298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:28 +0000
Subject: [PATCH 35/38] fix: burn-in of extended runs was a share of the last
 run only

---
 pymcmcstat/chain/ChainProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 089c2fa..0946031 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -391,7 +391,7 @@ def generate_combined_chain_with_index(pres, burnin_percentage=50):
     '''
     index = []
     for ii, pr in enumerate(pres):
-        burnin = int(pr['nsimu']*burnin_percentage/100)
+        burnin = int(pr['chain'].shape[0]*burnin_percentage/100)
         if ii == 0:
             combined_chain = pr['chain'][burnin:, :]
         else:
@@ -415,6 +415,6 @@ def generate_chain_list(pres, burnin_percentage=50):
     '''
     chains = []
     for ii in range(len(pres)):
-        burnin = int(pres[ii]['nsimu']*burnin_percentage/100)
+        burnin = int(pres[ii]['chain'].shape[0]*burnin_percentage/100)
         chains.append(pres[ii]['chain'][burnin:, :])
     return chains
-- 
2.43.0


From 1089fbc357b83da90b72779b7f105ca7f9726e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:11 +0000
Subject: [PATCH 36/38] fix: a later run changed the error variance in the
 results of an earlier run

---
 pymcmcstat/settings/ModelSettings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index a7a131d..a9df8ad 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -183,6 +183,8 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
+        else:  # own copy - results of earlier runs keep theirs
+            x = np.copy(x)
         return x
 
     @classmethod
-- 
2.43.0


From 951451e84b6eb5d0718db3e5b44bf42ca55d204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:07 +0000
Subject: [PATCH 37/38] fix: user's starting values of parallel chains were
 refused for unbounded parameters

---
 pymcmcstat/ParallelMCMC.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index aad6031..e2fe288 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -50,6 +50,9 @@ class ParallelMCMC:
         options = check_options_output(copy.copy(options))
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
+        if initial_values is not None:  # user's values only have to satisfy the limits as defined
+            low_lim = np.array([par['minimum'] for par in parameters.parameters])
+            upp_lim = np.array([par['maximum'] for par in parameters.parameters])
         # check initial values and number of chains to be generated
         self.initial_values, self.num_chain = check_initial_values(
                 initial_values=initial_values,
-- 
2.43.0


From 44a8d6b28bf6b0218b0eb78c4d94b7ead6501933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:29 +0000
Subject: [PATCH 38/38] fix: a list of observations was stored and counted as
 one observation

---
 pymcmcstat/settings/DataStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index e4fc9fd..46ae965 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -112,7 +112,7 @@ class DataStructure:
             * **xy** (:class:`~numpy.ndarray`): Variable as numpy array
         '''
         if isinstance(xy, np.ndarray) is False:
-            xy = np.array([xy])
+            xy = np.atleast_1d(xy)
         return xy
 
     @classmethod
-- 
2.43.0


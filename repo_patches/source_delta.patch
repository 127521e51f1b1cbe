From c0fd51ef624f63b47835481f4b7822eb682418f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:10 +0000
Subject: [PATCH 01/31] fix: read binary log segments in chain order, not in
 lexical order of their names

---
 pymcmcstat/chain/ChainProcessing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 6caa254..8275f1a 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -261,7 +261,7 @@ def read_in_bin_file(filename):
     '''
     try:
         hf = h5py.File(filename, 'r')
-        ds = list(hf.keys())  # data sets
+        ds = sorted(hf.keys(), key=_dataset_start_index)  # data sets
         # check size of each set
         sh = np.zeros([len(ds), 2], dtype=int)
         for ii, dsii in enumerate(ds):
@@ -290,6 +290,16 @@ def read_in_bin_file(filename):
     return out
 
 
+def _dataset_start_index(datasetname):
+    '''
+    Sort key placing data sets, "nsimu_<start>_<end>", in the order they were saved.
+    '''
+    parts = datasetname.split('_')
+    if len(parts) > 1 and parts[1].isdigit():
+        return int(parts[1]), datasetname
+    return 0, datasetname
+
+
 def read_in_txt_file(filename):
     '''
     Read in information from file containing text data.
-- 
2.43.0


From 226bc6dc4336bf50f3a19ec721b57f46f04bdac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:41 +0000
Subject: [PATCH 02/31] fix: log the new chain elements, once, when a
 simulation is extended

---
 pymcmcstat/MCMC.py | 53 ++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 8a52ba9..9621b38 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -277,6 +277,11 @@ class MCMC:
             self.__s2chain = np.concatenate((self.__s2chain, zero_s2chain), axis=0)
         else:
             self.__s2chain = None
+        # log files must be written from the expanded arrays
+        self.__chains = [dict(file=self.simulation_options.chainfile, mtx=self.__chain),
+                         dict(file=self.simulation_options.sschainfile, mtx=self.__sschain)]
+        if updatesigma:
+            self.__chains.append(dict(file=self.simulation_options.s2chainfile, mtx=self.__s2chain))
 
     # --------------------------------------------------------
     def __execute_simulator(self):
@@ -287,9 +292,14 @@ class MCMC:
         '''
         iiadapt = 0  # adaptation counter
         iiprint = 0  # print counter
-        savecount = 0  # save counter
-        lastbin = 0  # initialize bin counter
         nsimu = self.simulation_options.nsimu
+        # save counter and index of first chain element to be logged - when
+        # extending a simulation, the existing elements have already been logged
+        offset = self.__chain_index
+        if offset == 0:
+            savecount, lastbin = 0, 0
+        else:
+            savecount, lastbin = -1, offset + 1
 
         self.__rejected = {'total': 0, 'in_adaptation_interval': 0, 'outside_bounds': 0}
         self.__old_set = self.__initial_set
@@ -375,14 +385,15 @@ class MCMC:
 
             # SAVE TO LOG FILE
             if savecount == self.simulation_options.savesize:
+                start = lastbin
                 savecount, lastbin = self.__save_to_log_file(
                         chains=self.__chains,
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu)
+                        start=start,
+                        end=self.__chain_index)
                 self.__save_to_log_file(
                         chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
-                        start=isimu - self.simulation_options.savesize,
-                        end=isimu,
+                        start=start,
+                        end=self.__chain_index,
                         append_to_log=False,
                         covmtx=True)
                 # add custom chains is applicable
@@ -390,22 +401,24 @@ class MCMC:
                     if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
                         self.__save_to_log_file(
                                 chains=cs.chains,
-                                start=isimu - self.simulation_options.savesize,
-                                end=isimu,
-                                append_to_log=False)
+                                start=start,
+                                end=self.__chain_index,
+                                append_to_log=False,
+                                offset=offset)
 
         # SAVE REMAINING ELEMENTS TO BIN FILE
-        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=isimu + 1)
+        self.__save_to_log_file(chains=self.__chains, start=lastbin, end=self.__chain_index + 1)
         self.__save_to_log_file(
                 chains=[dict(mtx=np.dot(self._covariance._R.transpose(), self._covariance._R))],
                 start=lastbin,
-                end=isimu,
+                end=self.__chain_index,
                 append_to_log=False,
                 covmtx=True)
         # add custom chains is applicable
         for cs in self.custom_samplers:
             if (hasattr(cs, 'save_chain') is True) and (cs.save_chain is True):
-                self.__save_to_log_file(cs.chains, start=lastbin, end=isimu + 1, append_to_log=False)
+                self.__save_to_log_file(cs.chains, start=lastbin, end=self.__chain_index + 1,
+                                        append_to_log=False, offset=offset)
 
         # update value to end value
         self.parameters._value[self.parameters._parind] = self.__old_set.theta
@@ -455,13 +468,14 @@ class MCMC:
         self.simulation_results.add_sschain(sschain=self.__sschain)
 
     # ------------------------------------------------
-    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False):
+    def __save_to_log_file(self, chains, start, end, append_to_log=True, covmtx=False, offset=0):
         '''
         Save to log files
 
         Args:
             * **start** (:py:class:`int`): Start index of chain block to save
             * **end** (:py:class:`int`): End index of chain block to save
+            * **offset** (:py:class:`int`): Chain index of first row in the arrays being saved
 
         Returns:
             * **savecount** (:py:class:`int`): Reset save counter
@@ -478,7 +492,8 @@ class MCMC:
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='h5')
             else:
-                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5')
+                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='h5',
+                                   offset=offset)
 
         if self.simulation_options.save_to_txt is True:
             savedir = self.simulation_options.savedir
@@ -490,7 +505,8 @@ class MCMC:
             if covmtx is True:
                 self.__save_covmtx_chain(chain=chains[0], start=start, end=end, extension='txt')
             else:
-                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='txt')
+                self.__save_chains(chains=chains, savedir=savedir, start=start, end=end, extension='txt',
+                                   offset=offset)
 
         # reset counter
         savecount = 0
@@ -498,7 +514,7 @@ class MCMC:
         return savecount, lastbin
 
     # --------------------------------------------------------
-    def __save_chains(self, chains, savedir, start, end, extension):
+    def __save_chains(self, chains, savedir, start, end, extension, offset=0):
         '''
         Save custom chain segment
 
@@ -515,14 +531,15 @@ class MCMC:
         '''
 
         for ii, chain in enumerate(chains):
+            segment = chain['mtx'][start - offset:end - offset, :]
             # add extension
             chainfile = ChainProcessing._create_path_with_extension(savedir, chain['file'], extension=extension)
             if extension.lower() == 'h5':
                 # define set name based in start/end
                 datasetname = str('{}_{}_{}'.format('nsimu', start, end-1))
-                ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=chain['mtx'][start:end, :])
+                ChainProcessing._save_to_bin_file(chainfile, datasetname=datasetname, mtx=segment)
             else:
-                ChainProcessing._save_to_txt_file(chainfile, mtx=chain['mtx'][start:end, :])
+                ChainProcessing._save_to_txt_file(chainfile, mtx=segment)
 
     # --------------------------------------------------------
     def __save_covmtx_chain(self, chain, start, end, extension):
-- 
2.43.0


From 5e2463e36f2e1023d4282993a6c3a80775a885db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:47 +0000
Subject: [PATCH 03/31] fix: use each chain element once in the adapted
 covariance of an extended simulation

---
 pymcmcstat/samplers/Adaptation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 27b9890..5ae9255 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -74,7 +74,7 @@ class Adaptation:
             # UPDATE COVARIANCE MATRIX - CHOLESKY, MEAN, SUM
             covchain, meanchain, wsum = update_covariance_mean_sum(
                     chain[last_index_since_adaptation:chainind, :], np.ones(1), oldcovchain, oldmeanchain, oldwsum)
-            last_index_since_adaptation = isimu
+            last_index_since_adaptation = chainind
             # ram
             if doram:
                 upcov = update_cov_via_ram(u=u, isimu=isimu, etaparam=etaparam,
-- 
2.43.0


From ff2de1394520781ad6b6918d8d6a3305564e61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:54 +0000
Subject: [PATCH 04/31] fix: keep delayed rejection factors in step with the
 proposal during burn-in

---
 pymcmcstat/samplers/Adaptation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 5ae9255..95e2013 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -65,8 +65,6 @@ class Adaptation:
             covchain = oldcovchain
             meanchain = oldmeanchain
             wsum = oldwsum
-            RDR = None
-            invR = None
         else:
             message(verbosity, 3, str('i:{} adapting ({}, {}, {})'.format(
                     isimu, rejected['total']*(isimu**(-1))*100, rejected['in_adaptation_interval']*(iiadapt**(-1))*100,
@@ -86,8 +84,8 @@ class Adaptation:
             R = check_for_singular_cov_matrix(upcov=upcov, R=R, npar=npar,
                                               qcov_adjust=qcov_adjust, qcov_scale=qcov_scale,
                                               rejected=rejected, iiadapt=iiadapt, verbosity=verbosity)
-            # update dram covariance matrix
-            RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
+        # update dram covariance matrix
+        RDR, invR = update_delayed_rejection(R=R, npar=npar, ntry=ntry, drscale=drscale)
 
         covariance._update_covariance_from_adaptation(R, covchain, meanchain, wsum,
                                                       last_index_since_adaptation, iiadapt)
-- 
2.43.0


From 49d8e0fca29d01b8bc2724187af974a7084f8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:13 +0000
Subject: [PATCH 05/31] fix: stop adapting after lastadapt, as documented

---
 pymcmcstat/MCMC.py                       | 3 ++-
 pymcmcstat/settings/SimulationOptions.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 9621b38..3f6addc 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -352,7 +352,8 @@ class MCMC:
                 iiprint = 0  # reset print counter
 
             # ADAPTATION
-            if self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint:
+            if (self.simulation_options.adaptint > 0 and iiadapt == self.simulation_options.adaptint
+                    and isimu <= self.simulation_options.lastadapt):
                 self._covariance = self._sampling_methods.adaptation.run_adaptation(
                         covariance=self._covariance,
                         options=self.simulation_options,
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index aeb35c3..b76c77a 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -126,6 +126,7 @@ class SimulationOptions:
         self.printint = printint  # print interval
         self.adaptend = adaptend   # last adapt
         self.lastadapt = lastadapt  # last adapt
+        self.__default_lastadapt = None
         self.burnintime = burnintime
         self.waitbar = bool(waitbar)  # use waitbar
         self.debug = debug  # show some debug information
@@ -189,8 +190,10 @@ class SimulationOptions:
             self.dodram = 1
         else:
             self.dodram = 0
-        if self.lastadapt < 1:
+        # default follows nsimu, which may change when a simulation is extended
+        if self.lastadapt < 1 or self.lastadapt == self.__default_lastadapt:
             self.lastadapt = self.nsimu
+            self.__default_lastadapt = self.nsimu
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
         # if N0 given, then also turn on updatesigma
-- 
2.43.0


From cf87c4619891fffa4bf45f9f7c6052882f41e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:18 +0000
Subject: [PATCH 06/31] fix: keep S20, N0, sigma2 and the user's arrays
 separate when updating the error variance

---
 pymcmcstat/settings/ModelSettings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index e71aa46..f33980f 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -167,7 +167,8 @@ class ModelSettings:
             * **nsos** (:py:class:`int`): Length of output from sum-of-squares function
 
         Returns:
-            * **x** (:class:`~numpy.ndarray`): Array returned with shape = :code:`(nsos,1)`
+            * **x** (:class:`~numpy.ndarray`): Array returned with shape = :code:`(nsos,1)`.  \
+            This is a separate array of floats, as the error variance is updated in place.
 
         Raises:
             * Dimension mismatch if :code:`len(x) > nsos` or :code:`len(x) < nsos and len(x) != 1`.
@@ -181,7 +182,7 @@ class ModelSettings:
             sys.exit('SOS function returns nsos = {} elements.  \
                      Length of S20, N0, or sigma2 is {}.\
                      These settings must have one element or nsos elements.'.format(nsos, len(x)))
-        return x
+        return np.array(x, dtype=float)
 
     @classmethod
     def __check_size_of_observations_wrt_nsos(cls, N, nsos, Nshape):
-- 
2.43.0


From 0bf51d9e426e55f3eaeacf9b9d4d80bacbd25473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:23 +0000
Subject: [PATCH 07/31] fix: take the initial error variance from S20 when only
 S20 and N0 are given

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index f33980f..01dfd15 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -106,7 +106,7 @@ class ModelSettings:
         # set default value for sigma2
         # default for sigma2 is S20 or 1
         if self.sigma2 is None:
-            if not(np.isnan(self.S20)).any:
+            if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
                 self.sigma2 = np.ones(self.nbatch)
-- 
2.43.0


From d93be0aff116cb77bbc2fe033439cdf12b2ab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:03 +0000
Subject: [PATCH 08/31] fix: accept the total number of observations, which the
 settings hold after a first run

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 01dfd15..48d850f 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -119,7 +119,7 @@ class ModelSettings:
         if np.array_equal(udN, dsN):
             N = dsN
         elif dsN.size > udN.size and udN.size == 1:
-            if np.all(dsN == udN[0]):
+            if np.all(dsN == udN[0]) or np.sum(dsN) == udN[0]:  # per data set, or in total
                 N = dsN
             else:
                 sys.exit('User defined N = {}.  Estimate based on data structure is N = {}.\
-- 
2.43.0


From 004bdf5e7af7fa28b3d09567bebbabf4221ee2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:09 +0000
Subject: [PATCH 09/31] fix: do not turn on updatesigma when a simulation is
 run again or extended

---
 pymcmcstat/settings/ModelSettings.py     | 2 ++
 pymcmcstat/settings/SimulationOptions.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index 48d850f..af2a9d0 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -57,6 +57,7 @@ class ModelSettings:
         self.N = self._array_type(N)
         # check value of N0 - prior accuracy for S20
         self.N0 = self._array_type(N0)
+        self._N0_is_default = False
         # check nbatch - number of data sets
         self.nbatch = self._array_type(nbatch)
         # S20 - prior for sigma2
@@ -98,6 +99,7 @@ class ModelSettings:
         # This is for backward compatibility
         # if sigma2 given then default N0=1, else default N0=0
         if self.N0 is None:
+            self._N0_is_default = True
             if self.sigma2 is None:
                 self.sigma2 = np.ones([1])
                 self.N0 = np.zeros([1])
diff --git a/pymcmcstat/settings/SimulationOptions.py b/pymcmcstat/settings/SimulationOptions.py
index b76c77a..5f1c397 100644
--- a/pymcmcstat/settings/SimulationOptions.py
+++ b/pymcmcstat/settings/SimulationOptions.py
@@ -196,8 +196,8 @@ class SimulationOptions:
             self.__default_lastadapt = self.nsimu
         if self.printint is None:
             self.printint = max(100, min(1000, self.adaptint))
-        # if N0 given, then also turn on updatesigma
-        if model.N0 is not None:
+        # if N0 given (by the user, not as default of a previous run), then also turn on updatesigma
+        if model.N0 is not None and not getattr(model, '_N0_is_default', False):
             self.updatesigma = True
 
     def display_simulation_options(self, print_these=None):
-- 
2.43.0


From ebf390fcec72285ab7d93dd03005525cefc6d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:42 +0000
Subject: [PATCH 10/31] fix: store the number of data points given by the user

---
 pymcmcstat/settings/DataStructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index 78c80ea..bf9e48e 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -93,6 +93,8 @@ class DataStructure:
                 self.n.append(y.size)
             else:  # should
                 self.n.append(y.shape[0])  # assume y is a numpy array - nrows is n
+        else:
+            self.n.append(int(np.sum(n)))  # user defined
         self.shape.append(y.shape)
         self.weight.append(weight)
         # add user defined objects option
-- 
2.43.0


From 1318f855ee7afd085b6be2b56922a3101d97947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:49 +0000
Subject: [PATCH 11/31] fix: restart from json when some parameters are not
 sampled

---
 pymcmcstat/MCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index 3f6addc..e73b6c4 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -156,7 +156,8 @@ class MCMC:
                 RS = ResultsStructure()
                 res = RS.load_json_object(self.simulation_options.json_restart_file)
                 self.parameters._results_to_params(res, 1)
-                self.simulation_options.qcov = np.array(res['qcov'])
+                # 'qcovorig' includes the parameters that are not sampled
+                self.simulation_options.qcov = np.array(res.get('qcovorig', res['qcov']))
 
             self.__chain_index = 0  # start index at zero
             self._initialize_simulation()
-- 
2.43.0


From 6d7ad937d806809433a071d5d8ac75aa7170f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 12/31] fix: load parallel results whose chains are stored in
 the json files

---
 pymcmcstat/ParallelMCMC.py          | 10 +++++-----
 pymcmcstat/chain/ChainProcessing.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 1237dce..c5fc032 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -401,11 +401,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if out[0]['chain'] == []:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 8275f1a..e86b4dc 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -125,11 +125,11 @@ def load_parallel_simulation_results(
                 covchainfile=covchainfile)
         if out[0]['chain'] == []:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
-    for ii, pr in enumerate(pres):
-        pr['chain'] = out[ii]['chain']
-        pr['sschain'] = out[ii]['sschain']
-        pr['s2chain'] = out[ii]['s2chain']
-        pr['covchain'] = out[ii]['covchain']
+        for ii, pr in enumerate(pres):
+            pr['chain'] = out[ii]['chain']
+            pr['sschain'] = out[ii]['sschain']
+            pr['s2chain'] = out[ii]['s2chain']
+            pr['covchain'] = out[ii]['covchain']
     return pres
 
 
-- 
2.43.0


From a6ba023d261141177a409868e22222353b1a774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:03 +0000
Subject: [PATCH 13/31] fix: list parallel chain folders in numerical order

---
 pymcmcstat/chain/ChainProcessing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index e86b4dc..a9c9367 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -242,10 +242,20 @@ def check_parallel_directory_contents(parallel_dir, cf_orig):
         if (os.path.isdir(parallel_dir + os.sep + cf) is True) and ('chain_' in cf):
             chainfolders.append(cf)
 
-    chainfolders.sort()  # sort elements
+    chainfolders.sort(key=_chain_folder_number)  # sort elements
     return chainfolders
 
 
+def _chain_folder_number(folder):
+    '''
+    Sort key placing folders, "chain_#", in numerical order.
+    '''
+    number = folder.split('chain_')[-1]
+    if number.isdigit():
+        return int(number), folder
+    return 0, folder
+
+
 def read_in_bin_file(filename):
     '''
     Read in information from file containing binary data.
-- 
2.43.0


From 77bdf996a228af3beafbd48c344f96f0e8514858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:10 +0000
Subject: [PATCH 14/31] fix: give each parallel worker its own random number
 stream

---
 pymcmcstat/ParallelMCMC.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index c5fc032..2ac1ef5 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -102,7 +102,8 @@ class ParallelMCMC:
             Parallel simulation run time: 16.15234899520874 sec
         '''
         start = time.time()
-        mcpool = Pool(processes=self.num_cores)  # depends on available cores
+        # reseed in each worker - otherwise all inherit the same random number stream
+        mcpool = Pool(processes=self.num_cores, initializer=np.random.seed)  # depends on available cores
         res = mcpool.map(run_serial_simulation, self.parmc)
         mcpool.close()  # not optimal! but easy
         mcpool.join()
-- 
2.43.0


From aed32a26cc4d68d8252d113ebc9e551d34b5a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:58 +0000
Subject: [PATCH 15/31] fix: evaluate intervals at the sampled chain elements
 and leave the results unchanged

---
 pymcmcstat/propagation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 7dfeb24..408ac09 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -50,7 +50,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         * :py:class:`dict` with two elements: 1) `credible` and 2) `prediction`
     '''
     parind = results['parind']
-    q = results['theta']
+    q = np.array(results['theta'])  # copy - do not change users results
     nsimu, npar = chain.shape
     s2chain = check_s2chain(s2chain, nsimu)
     iisample, nsample = define_sample_points(nsample, nsimu)
@@ -65,7 +65,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
         if waitbar is True:
             __wbarstatus.update(kk)
         # extract chain set
-        q[parind] = chain[kk, :]
+        q[parind] = chain[isa, :]
         # evaluate model
         y = model(q, data)
         # check model output
@@ -80,7 +80,7 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                 continue
             else:
                 # estimate prediction intervals
-                s2 = s2chain[kk]
+                s2 = s2chain[isa]
                 obs = observation_sample(s2, y, sstype)
                 pi.append(obs.reshape(obs.size,))
         else:
@@ -101,11 +101,11 @@ def calculate_intervals(chain, results, data, model, s2chain=None,
                     # estimate prediction intervals
                     if s2chain.ndim == 2:
                         if s2chain.shape[1] == ncol:
-                            s2 = s2chain[kk, jj]
+                            s2 = s2chain[isa, jj]
                         else:
-                            s2 = s2chain[kk]
+                            s2 = s2chain[isa]
                     else:
-                        s2 = s2chain[kk]
+                        s2 = s2chain[isa]
                     obs = observation_sample(s2, y[:, jj], sstype)
                     pis[jj].append(obs.reshape(obs.size,))
 
-- 
2.43.0


From 952ac4753a140912b35d2f2e90fda2bcd1bbe047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:06 +0000
Subject: [PATCH 16/31] fix: leave the results unchanged when generating
 prediction intervals

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index c82f7b0..70821f2 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -120,7 +120,7 @@ class PredictionIntervals:
             self.__nbatch = results['model'].nbatch
         else:
             self.__nbatch = results['model_settings']['nbatch']
-        self.__theta = results['theta']
+        self.__theta = np.array(results['theta'])  # copy - do not change users results
         if 'sstype' in results:
             self.__sstype = results['sstype']
         else:
-- 
2.43.0


From c76c79fc429b8afa30d37941077e21fa6b16bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:12 +0000
Subject: [PATCH 17/31] fix: interquartile range of sorted values, without
 sorting the users array

---
 pymcmcstat/plotting/utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index afabd8b..02cd4ae 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -168,13 +168,14 @@ def iqrange(x):
         nr = nc
         nc = 1
     # sort
-    x.sort()
+    x = np.sort(x, axis=0)
     i1 = math.floor((nr + 1)/4)
     i3 = math.floor(3/4*(nr+1))
     f1 = (nr+1)/4-i1
     f3 = 3/4*(nr+1)-i3
-    q1 = (1-f1)*x[int(i1), :] + f1*x[int(i1)+1, :]
-    q3 = (1-f3)*x[int(i3), :] + f3*x[int(i3)+1, :]
+    # order statistics are 1-based
+    q1 = (1-f1)*x[max(int(i1)-1, 0), :] + f1*x[min(int(i1), nr-1), :]
+    q3 = (1-f3)*x[min(int(i3)-1, nr-1), :] + f3*x[min(int(i3), nr-1), :]
     return q3-q1
 
 
-- 
2.43.0


From 4d90ceeb7849f3101d0d4cd43518b663f7ea52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 18/31] fix: load the json file requested by the user

---
 pymcmcstat/chain/ChainProcessing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index a9c9367..52bd151 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -68,11 +68,12 @@ def load_serial_simulation_results(
     Returns:
         * **results** (:py:class:`dict`): Each element of list is an MCMC result dictionary.
     '''
-    items = os.listdir(savedir)
-    for item in items:
-        if item.endswith('.json'):
-            json_file = item
-            break
+    if json_file is None:
+        items = os.listdir(savedir)
+        for item in items:
+            if item.endswith('.json'):
+                json_file = item
+                break
     if json_file is not None:
         results = load_json_object(savedir + os.sep + json_file)
     else:
-- 
2.43.0


From 0d0f8c09858b1ebc41430598d3546602ce6ebed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:52 +0000
Subject: [PATCH 19/31] fix: leave the users lists unchanged when extending
 names or sorting limits

---
 pymcmcstat/plotting/utilities.py | 2 +-
 pymcmcstat/propagation.py        | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/plotting/utilities.py b/pymcmcstat/plotting/utilities.py
index 02cd4ae..65abc84 100644
--- a/pymcmcstat/plotting/utilities.py
+++ b/pymcmcstat/plotting/utilities.py
@@ -118,7 +118,7 @@ def extend_names_to_match_nparam(names, nparam):
         names = []
     n0 = len(names)
     for ii in range(n0, nparam):
-        names.append(str('$p_{{{}}}$'.format(ii)))
+        names = names + [str('$p_{{{}}}$'.format(ii))]
     return names
 
 
diff --git a/pymcmcstat/propagation.py b/pymcmcstat/propagation.py
index 408ac09..ab15599 100644
--- a/pymcmcstat/propagation.py
+++ b/pymcmcstat/propagation.py
@@ -635,8 +635,7 @@ def _setup_labels(limits, inttype='CI'):
 def _check_limits(limits, default_limits):
     if limits is None:
         limits = default_limits
-    limits.sort(reverse=True)
-    return limits
+    return sorted(limits, reverse=True)
 
 
 def _convert_limits(limits):
-- 
2.43.0


From 7cf61c58244b47521a5da488c4c8c33d248181b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:58 +0000
Subject: [PATCH 20/31] fix: do not randomize parameters that are held fixed in
 parallel chains

---
 pymcmcstat/ParallelMCMC.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 2ac1ef5..d2170fa 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -57,6 +57,11 @@ class ParallelMCMC:
                 npar=npar,
                 low_lim=low_lim,
                 upp_lim=upp_lim)
+        # generated values only apply to parameters being sampled
+        if initial_values is None:
+            for jj, par in enumerate(parameters.parameters):
+                if not par['sample']:
+                    self.initial_values[:, jj] = par['theta0']
         # assign parallel log file directory
         parallel_dir = options.savedir
         check_directory(parallel_dir)
-- 
2.43.0


From 44d85bb4504c77e62dcce8da81d352a57bab0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:23 +0000
Subject: [PATCH 21/31] fix: zero covariance of a chain that has not moved, so
 that it is regularised

The rounding error of the mean made the covariance of identical chain elements
a tiny positive number (e.g., 1e-31), which is not singular; the proposal then
collapsed to about 1e-15 and the chain could never move again.
---
 pymcmcstat/samplers/Adaptation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymcmcstat/samplers/Adaptation.py b/pymcmcstat/samplers/Adaptation.py
index 95e2013..31fa26e 100644
--- a/pymcmcstat/samplers/Adaptation.py
+++ b/pymcmcstat/samplers/Adaptation.py
@@ -270,7 +270,8 @@ def initialize_covariance_mean_sum(x, w):
     xmean = np.zeros(npar)
     xcov = np.zeros([npar, npar])
     for ii in range(npar):
-        xmean[ii] = sum(x[:, ii]*w)*(wsum**(-1))
+        # relative to first element - exact, hence zero covariance, if nothing has been accepted
+        xmean[ii] = x[0, ii] + sum((x[:, ii] - x[0, ii])*w)*(wsum**(-1))
     if wsum > 1:
         for ii in range(0, npar):
             for jj in range(0, ii+1):
-- 
2.43.0


From 3e2900c0fe0f7d5353b95f0af30c20559bfa1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:45 +0000
Subject: [PATCH 22/31] fix: default error variance of one element, which fits
 any number of error variances

---
 pymcmcstat/settings/ModelSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/ModelSettings.py b/pymcmcstat/settings/ModelSettings.py
index af2a9d0..a65a74c 100644
--- a/pymcmcstat/settings/ModelSettings.py
+++ b/pymcmcstat/settings/ModelSettings.py
@@ -111,7 +111,7 @@ class ModelSettings:
             if not np.isnan(self.S20).any():
                 self.sigma2 = self.S20
             else:
-                self.sigma2 = np.ones(self.nbatch)
+                self.sigma2 = np.ones([1])
         if np.isnan(self.S20).any():
             self.S20 = self.sigma2  # prior parameters for the error variance
 
-- 
2.43.0


From a653fe62a3fc013cc04c44977cf72dbe48e46832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:26 +0000
Subject: [PATCH 23/31] fix: read binary log segments of different lengths

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index 52bd151..e9d596d 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -288,7 +288,7 @@ def read_in_bin_file(filename):
                 b = sh[ii, 0]
             else:
                 a = a + sh[ii-1, 0]
-                b = b + sh[ii-1, 0]
+                b = a + sh[ii, 0]
             out[a:b, :] = np.array(hf.get(dsii))
         hf.close()
     except Exception as ex:
-- 
2.43.0


From 81e199a6de278bbb09d0c653c86b48487d33672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 24/31] fix: load chains of any shape from log files with the
 json results

---
 pymcmcstat/ParallelMCMC.py          | 2 +-
 pymcmcstat/chain/ChainProcessing.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index d2170fa..27a2b89 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -405,7 +405,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         for ii, pr in enumerate(pres):
             pr['chain'] = out[ii]['chain']
diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index e9d596d..c4df94a 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -88,7 +88,7 @@ def load_serial_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out['chain'] == []:
+        if len(out['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         results['chain'] = out['chain']
         results['sschain'] = out['sschain']
@@ -124,7 +124,7 @@ def load_parallel_simulation_results(
                 savedir, extension=extension, chainfile=chainfile,
                 sschainfile=sschainfile, s2chainfile=s2chainfile,
                 covchainfile=covchainfile)
-        if out[0]['chain'] == []:
+        if len(out[0]['chain']) == 0:
             warnings.warn('WARNING: No chains found in saved results.', UserWarning)
         for ii, pr in enumerate(pres):
             pr['chain'] = out[ii]['chain']
-- 
2.43.0


From 5545942867699dc978a792acac8391971a8069ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 25/31] fix: leave the options of the serial setup unchanged by
 a parallel setup

---
 pymcmcstat/ParallelMCMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/ParallelMCMC.py b/pymcmcstat/ParallelMCMC.py
index 27a2b89..0cf6f44 100644
--- a/pymcmcstat/ParallelMCMC.py
+++ b/pymcmcstat/ParallelMCMC.py
@@ -47,7 +47,7 @@ class ParallelMCMC:
         # extract settings from mcset
         data, options, model, parameters = unpack_mcmc_set(mcset=mcset)
         npar, low_lim, upp_lim = get_parameter_features(parameters.parameters)
-        options = check_options_output(options)
+        options = check_options_output(copy.deepcopy(options))
         # number of CPUs
         self.num_cores = assign_number_of_cores(num_cores)
         # check initial values and number of chains to be generated
-- 
2.43.0


From 64fec5c755f3fed20672d493c305327b528a87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:28 +0000
Subject: [PATCH 26/31] fix: plot prediction intervals with numpy versions that
 have no np.int

---
 pymcmcstat/plotting/PredictionIntervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/plotting/PredictionIntervals.py b/pymcmcstat/plotting/PredictionIntervals.py
index 70821f2..f1b3875 100644
--- a/pymcmcstat/plotting/PredictionIntervals.py
+++ b/pymcmcstat/plotting/PredictionIntervals.py
@@ -823,6 +823,6 @@ class PredictionIntervals:
         nbatch = len(credible_intervals)
         # define counting metrics
         nlines = len(credible_intervals[0][0])  # number of lines
-        nn = np.int((nlines + 1)/2)  # median
+        nn = int((nlines + 1)/2)  # median
         nlines = nn - 1
         return nbatch, nn, nlines
-- 
2.43.0


From 58078108bf49af434361a6b00208bf26289931b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:31 +0000
Subject: [PATCH 27/31] fix: read text chains of one parameter or one element
 as rows of the chain

---
 pymcmcstat/chain/ChainProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/chain/ChainProcessing.py b/pymcmcstat/chain/ChainProcessing.py
index c4df94a..736a122 100644
--- a/pymcmcstat/chain/ChainProcessing.py
+++ b/pymcmcstat/chain/ChainProcessing.py
@@ -325,7 +325,7 @@ def read_in_txt_file(filename):
         * **out** (:class:`~numpy.ndarray`): Array of chain elements.
     '''
     try:
-        out = np.loadtxt(filename)
+        out = np.loadtxt(filename, ndmin=2)  # rows are chain elements
     except Exception as ex:
         template = "An exception of type {0} occurred. Arguments:\n{1!r}"
         message = template.format(type(ex).__name__, ex.args)
-- 
2.43.0


From 4c5080766c50ad27bba7109ced0a61d1d8c56636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:20 +0000
Subject: [PATCH 28/31] fix: display the covariance settings of methods without
 delayed rejection

---
 pymcmcstat/procedures/CovarianceProcedures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymcmcstat/procedures/CovarianceProcedures.py b/pymcmcstat/procedures/CovarianceProcedures.py
index 82bf6cc..7444ea1 100644
--- a/pymcmcstat/procedures/CovarianceProcedures.py
+++ b/pymcmcstat/procedures/CovarianceProcedures.py
@@ -38,6 +38,7 @@ class CovarianceProcedures:
         self._R = None
         self._qcov_original = None
         self._invR = None
+        self._RDR = None
         self._iacce = None
         self._covchain = None
         self._meanchain = None
-- 
2.43.0


From 487deba4ba85ff71790d1406931bbcfc27712f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:11 +0000
Subject: [PATCH 29/31] fix: count every element of data given as a list

---
 pymcmcstat/settings/DataStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymcmcstat/settings/DataStructure.py b/pymcmcstat/settings/DataStructure.py
index bf9e48e..2230f55 100644
--- a/pymcmcstat/settings/DataStructure.py
+++ b/pymcmcstat/settings/DataStructure.py
@@ -112,7 +112,7 @@ class DataStructure:
             * **xy** (:class:`~numpy.ndarray`): Variable as numpy array
         '''
         if isinstance(xy, np.ndarray) is False:
-            xy = np.array([xy])
+            xy = np.array(xy)
         return xy
 
     @classmethod
-- 
2.43.0


From 290e96f2a0eeac0a24b265a62baaabbf18d904c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:34 +0000
Subject: [PATCH 30/31] fix: never accept a delayed rejection candidate whose
 sum-of-squares is not a number

---
 pymcmcstat/samplers/DelayedRejection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymcmcstat/samplers/DelayedRejection.py b/pymcmcstat/samplers/DelayedRejection.py
index 1817a2e..10716c5 100644
--- a/pymcmcstat/samplers/DelayedRejection.py
+++ b/pymcmcstat/samplers/DelayedRejection.py
@@ -145,6 +145,8 @@ class DelayedRejection:
                 loglike=-0.5*(x1.ss/x1.sigma2).sum(),
                 logpriorstar=-0.5*x2.prior,
                 logprior=-0.5*x1.prior)
+        if np.isnan(y).any():  # posterior not defined - never accept
+            return np.zeros(1)
         for kk in range(stage):
             y = y + nth_stage_log_proposal_ratio(kk, trypath, invR)
         alpha = min(np.ones(1), np.exp(y)*a2*(a1**(-1)))
-- 
2.43.0


From 51880b36a0626b20cfcde9fe607c7e480f5bdb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:17 +0000
Subject: [PATCH 31/31] fix: continue from the previous results after an
 interrupted run

A run that fails (in the user's functions, or by an interruption) leaves its
partly filled chains and error variance behind; a later run with
use_previous_results then extended those instead of the previous results.
---
 pymcmcstat/MCMC.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pymcmcstat/MCMC.py b/pymcmcstat/MCMC.py
index e73b6c4..af39944 100644
--- a/pymcmcstat/MCMC.py
+++ b/pymcmcstat/MCMC.py
@@ -142,6 +142,7 @@ class MCMC:
         '''
         if use_previous_results is True:
             if self._mcmc_status is True:
+                self.__restore_previous_chains(self.simulation_results.results)
                 self.parameters._results_to_params(self.simulation_results.results, 1)
                 self._initialize_simulation()
                 self.__expand_chains(
@@ -255,6 +256,23 @@ class MCMC:
         else:
             self.__s2chain = None
 
+    # --------------------------------------------------------
+    def __restore_previous_chains(self, results):
+        '''
+        Restore chains and error variance as they were at the end of the previous simulation.
+
+        A simulation that was interrupted since then leaves its partial chains behind.
+
+        Args:
+            * **results** (:py:class:`dict`): Results dictionary of previous simulation.
+        '''
+        self.__chain = results['chain']
+        self.__sschain = results['sschain']
+        self.__s2chain = results['s2chain']
+        self.__chain_index = len(self.__chain) - 1
+        if self.__s2chain is not None:
+            self.model_settings.sigma2 = np.array(self.__s2chain[-1, :])
+
     # --------------------------------------------------------
     def __expand_chains(self, nsimu, npar, nsos, updatesigma):
         '''
-- 
2.43.0


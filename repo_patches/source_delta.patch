From d2777d7c5c1e49fd853c7e5c5fc8aec9a3e8ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 01/24] fix: raise the shared checkpoint flag instead of
 replacing it

---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 29fa9d5..d975cbc 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -547,7 +547,7 @@ class CPNest(object):
             each.start()
 
     def checkpoint(self):
-        self.manager.checkpoint_flag=1
+        self.manager.checkpoint_flag.value = 1
 
 
 class RunManager(SyncManager):
-- 
2.43.0


From 9487e82c3501c9d45ea5ed8baadc3c233352adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 02/24] fix: give every sampler its own checkpoint file

---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index d975cbc..002842b 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -219,7 +219,7 @@ class CPNest(object):
 
             for i in range(nhamiltonian):
                 resume_file = os.path.join(output,
-                                           "sampler_{0:d}.pkl".format(i))
+                                           "sampler_{0:d}.pkl".format(nmhs+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = HamiltonianMonteCarloSampler(
                         self.user,
@@ -241,7 +241,8 @@ class CPNest(object):
                 self.process_pool.append(p)
 
             for i in range(nslice):
-                resume_file = os.path.join(output, "sampler_{0:d}.pkl".format(i))
+                resume_file = os.path.join(output,
+                                           "sampler_{0:d}.pkl".format(nmhs+nhamiltonian+i))
                 if not os.path.exists(resume_file) or resume == False:
                     sampler = SliceSampler(self.user,
                                     maxmcmc,
-- 
2.43.0


From 651ca2c11d21d78c9868b2cacd6d8f094b5f1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 03/24] fix: pass prior_sampling to the slice samplers

---
 cpnest/cpnest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 002842b..0f88b5b 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -252,6 +252,7 @@ class CPNest(object):
                                     seed        = self.seed+nmhs+nhamiltonian+i,
                                     proposal    = proposals['sli'](),
                                     resume_file = resume_file,
+                                    sample_prior = prior_sampling,
                                     manager     = self.manager
                                     )
                 else:
-- 
2.43.0


From 305a07a7ed7e5a30165fa33036e4e06553eef89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 04/24] fix: save the prior and mcmc samples that are returned

---
 cpnest/cpnest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 0f88b5b..aa1b873 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -444,8 +444,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.prior_samples.ravel(),
-                       header=' '.join(self.prior_samples.dtype.names),
+                       prior_samples.ravel(),
+                       header=' '.join(prior_samples.dtype.names),
                        newline='\n',delimiter=' ')
 
         return prior_samples
@@ -483,8 +483,8 @@ class CPNest(object):
         if filename:
             np.savetxt(os.path.join(
                        self.NS.output_folder, filename),
-                       self.mcmc_samples.ravel(),
-                       header=' '.join(self.mcmc_samples.dtype.names),
+                       mcmc_samples.ravel(),
+                       header=' '.join(mcmc_samples.dtype.names),
                        newline='\n',delimiter=' ')
         return mcmc_samples
 
-- 
2.43.0


From a7e04389d1e6146095ebe67dbecc1eb6cd90ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 05/24] fix: remove raw sample files without a shell

---
 cpnest/cpnest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index aa1b873..481d66f 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -374,10 +374,10 @@ class CPNest(object):
             for file in os.listdir(self.NS.output_folder):
                 if 'prior_samples' in file:
                     prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                    os.remove(os.path.join(self.NS.output_folder,file))
                 elif 'mcmc_chain' in file:
                     mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                    os.remove(os.path.join(self.NS.output_folder,file))
 
             # first deal with the prior samples
             if len(prior_samples)>0:
@@ -430,7 +430,7 @@ class CPNest(object):
         for file in os.listdir(self.NS.output_folder):
             if 'prior_samples' in file:
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         # if we sampled the prior, the nested samples are samples from the prior
         if self.NS.prior_sampling:
@@ -472,7 +472,7 @@ class CPNest(object):
         for file in os.listdir(self.NS.output_folder):
             if 'mcmc_chain' in file:
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                os.system('rm {0}'.format(os.path.join(self.NS.output_folder,file)))
+                os.remove(os.path.join(self.NS.output_folder,file))
 
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
-- 
2.43.0


From a265635fe9c9895b8ee82bfdb68df5013f536555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 06/24] fix: update the shared maximum likelihood under its
 lock

---
 cpnest/sampler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 382ab02..993af1e 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -197,6 +197,13 @@ class Sampler(object):
             self.Nmcmc = safety
         return self.Nmcmc
 
+    def update_logLmax(self, logL):
+        """
+        Update the maximum log-likelihood shared by all the samplers
+        """
+        with self.logLmax.get_lock():
+            self.logLmax.value = max(self.logLmax.value, logL)
+
     def produce_sample(self):
         try:
             self._produce_sample()
@@ -333,7 +340,7 @@ class MetropolisHastingsSampler(Sampler):
                 if newparam.logP-logp_old + self.proposal.log_J > log(random()):
                     newparam.logL = self.model.log_likelihood(newparam)
                     if newparam.logL > logLmin:
-                        self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                        self.update_logLmax(newparam.logL)
                         oldparam = newparam.copy()
                         logp_old = newparam.logP
                         sub_accepted+=1
@@ -360,8 +367,6 @@ class HamiltonianMonteCarloSampler(Sampler):
     """
     def yield_sample(self, logLmin):
 
-        global_lmax = self.logLmax.value
-
         while True:
 
             sub_accepted    = 0
@@ -376,7 +381,7 @@ class HamiltonianMonteCarloSampler(Sampler):
                 if self.proposal.log_J > np.log(random()):
 
                     if newparam.logL > logLmin:
-                        global_lmax = max(global_lmax, newparam.logL)
+                        self.update_logLmax(newparam.logL)
                         oldparam        = newparam.copy()
                         sub_accepted   += 1
 
@@ -388,7 +393,6 @@ class HamiltonianMonteCarloSampler(Sampler):
             self.mcmc_accepted += sub_accepted
             self.mcmc_counter  += sub_counter
             self.acceptance     = float(self.mcmc_accepted)/float(self.mcmc_counter)
-            self.logLmax.value = global_lmax
 
             for p in self.proposal.proposals:
                 p.update_time_step(self.acceptance)
@@ -532,7 +536,7 @@ class SliceSampler(Sampler):
                         # compute the new value of logL
                         newparam.logL = self.model.log_likelihood(newparam)
                         if newparam.logL > Y:
-                            self.logLmax.value = max(self.logLmax.value, newparam.logL)
+                            self.update_logLmax(newparam.logL)
                             oldparam     = newparam.copy()
                             sub_accepted += 1
                             break
-- 
2.43.0


From 6e3447725561304480572c5068c9b19a607e2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 07/24] fix: never sample against the infinite contour that
 stops the workers

---
 cpnest/sampler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 993af1e..20febdf 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -228,7 +228,10 @@ class Sampler(object):
                 self.checkpoint()
                 sys.exit(130)
 
-            if self.logLmin.value==np.inf:
+            # read the contour once, so that the value used
+            # is the one that was checked
+            logLmin = self.logLmin.value
+            if logLmin==np.inf:
                 break
 
             if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:
@@ -247,14 +250,19 @@ class Sampler(object):
                     self.checkpoint()
                     sys.exit(130)
 
+                # the request may be for a newer contour
+                logLmin = self.logLmin.value
+                if logLmin==np.inf:
+                    break
+
                 self.evolution_points.append(p)
-                (Nmcmc, outParam) = next(self.yield_sample(self.logLmin.value))
+                (Nmcmc, outParam) = next(self.yield_sample(logLmin))
                 # Send the sample to the Nested Sampler
                 self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))
 
             # otherwise, keep on sampling from the previous boundary
             else:
-                _, _ = next(self.yield_sample(self.logLmin.value))
+                _, _ = next(self.yield_sample(logLmin))
             # Update the ensemble every now and again
             if (self.counter%(self.poolsize//4))==0:
                 self.proposal.set_ensemble(self.evolution_points)
-- 
2.43.0


From fdaad38b9a8afce0997fb0df2885343d74f72676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 08/24] fix: request another point when an initial live point
 is refused

---
 cpnest/NestedSampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index e068c98..8552e53 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -416,14 +416,16 @@ class NestedSampler(object):
                 for j in range(nthreads):
                     while i < self.Nlive:
                         acceptance,sub_acceptance,self.jumps,params[i] = self.manager.consumer_pipes[self.queue_counter].recv()
-                        self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                         if np.isnan(params[i].logL):
                             self.logger.warn("Likelihood function returned NaN for params "+str(params))
                             self.logger.warn("You may want to check your likelihood function")
                         if params[i].logP!=-np.inf and params[i].logL!=-np.inf:
+                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)
                             i+=1
                             pbar.update()
                             break
+                        # ask the same sampler for another point
+                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())
         self.params = OrderedLivePoints(params)
         if self.verbose:
             sys.stderr.write("\n")
-- 
2.43.0


From cbeb4302459e0f0acf963fc262f903b8c26858d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 09/24] fix: to_normalised uses the point it is given

---
 cpnest/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/model.py b/cpnest/model.py
index e2ac12e..bf91f1c 100644
--- a/cpnest/model.py
+++ b/cpnest/model.py
@@ -156,4 +156,4 @@ class Model(object):
                 The values of the parameter mapped into the Ndim-cube
         """
         return array('d', [(v-b[0])/(b[1]-b[0]) for v, b
-                           in zip(value.values, self.bounds)])
+                           in zip(point.values, self.bounds)])
-- 
2.43.0


From 840c40276d05a08aa83fb6bf0afd930802b39dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 10/24] fix: draw_N_posterior draws from the whole of the
 weights

---
 cpnest/nest2pos.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index 30f3a54..bc3ea85 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -1,6 +1,6 @@
 import logging
 import numpy as np
-from numpy import logaddexp, vstack
+from numpy import logaddexp
 from numpy.random import uniform
 from functools import reduce
 from scipy.stats import pearsonr
@@ -115,13 +115,15 @@ def draw_N_posterior(data,log_wts, N, verbose=False):
     Draw N samples from the input data, weighted by log_wt.
     For large N there may be repeated samples
     """
-    if(N==0): return []
+    if(N==0): return data[:0]
     log_cumsums=np.zeros(log_wts.shape[0]+1)
     log_cumsums[0]=-float('inf')
     for i,log_wt in enumerate(log_wts):
         log_cumsums[i+1]=logaddexp(log_cumsums[i], log_wt)
 
-    us=np.log(uniform(size=N))
+    # scale the draws to the total weight, so that they
+    # always fall within the cumulative sums
+    us=np.log(uniform(size=N))+log_cumsums[-1]
     idxs=np.digitize(us, log_cumsums)
 
     return data[idxs-1]
@@ -139,7 +141,7 @@ def draw_N_posterior_many(datas, Nlives, Npost, verbose=False):
     log_total_evidence=reduce(logaddexp, log_evs)
     Ns=[int(round(Npost*np.exp(log_ev-log_total_evidence))) for log_ev in log_evs]
     posts=[draw_N_posterior(data,logwt,N) for (data,logwt,N) in zip(datas,log_wts,Ns)]
-    return vstack(posts).flatten()
+    return np.concatenate(posts)
 
 def resample_mcmc_chain(chain, verbose=False, burnin=False):
     """
-- 
2.43.0


From 55397f418a4bd7eb646d9441252da9b6a5cf21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 11/24] fix: resample_mcmc_chain discards burnin with an
 integer index

---
 cpnest/nest2pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/nest2pos.py b/cpnest/nest2pos.py
index bc3ea85..b0d809c 100644
--- a/cpnest/nest2pos.py
+++ b/cpnest/nest2pos.py
@@ -149,7 +149,7 @@ def resample_mcmc_chain(chain, verbose=False, burnin=False):
     each one of them against the Metropolis-Hastings rule
     """
     LOGGER.critical('Number of input samples: {0!s}'.format(chain.shape[0]))
-    if burnin: chain = chain[chain.shape[0]/2-1:]
+    if burnin: chain = chain[chain.shape[0]//2:]
     # thin according to the autocorrelation length
     ACL = []
     for n in chain.dtype.names:
-- 
2.43.0


From 38c94f7352ed576c3679abfc667aea9e8edb3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 12/24] fix: hamiltonian proposals can be constructed and
 checkpointed

---
 cpnest/proposal.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index fdcc3fe..75353d7 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -399,7 +399,7 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.TARGET         = 0.500
         self.ADAPTATIONSIZE = 0.001
         self._initialised   = False
-        self.c              = self.counter()
+        self.c              = 0 # number of trajectories saved
         self.DEBUG          = 0
 
     def set_ensemble(self, ensemble):
@@ -705,12 +705,6 @@ class ConstrainedLeapFrog(LeapFrog):
         """
         return super(ConstrainedLeapFrog,self).get_sample(q0, logLmin)
 
-    def counter(self):
-        n = 0
-        while True:
-            yield n
-            n += 1
-
     def evolve_trajectory_one_step_position(self, p, q):
         """
         One leap frog step in position
@@ -848,7 +842,8 @@ class ConstrainedLeapFrog(LeapFrog):
         save trajectory for diagnostic purposes
         """
         if filename is None:
-            filename = 'trajectory_'+str(next(self.c))+'.txt'
+            filename = 'trajectory_'+str(self.c)+'.txt'
+            self.c  += 1
         f = open(filename,'w')
         names = trajectory[0][0].names
 
@@ -863,4 +858,3 @@ class ConstrainedLeapFrog(LeapFrog):
                 f.write(repr(q[n])+'\t'+repr(p[j])+'\t')
             f.write(repr(q.logP)+'\t'+repr(q.logL)+'\t'+repr(logLmin)+'\n')
         f.close()
-        if self.c == 3: exit()
-- 
2.43.0


From b71a4d3392d9218e1f4e95965c43ed562807a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 13/24] fix: replace checkpoint files atomically

---
 cpnest/NestedSampling.py | 6 +++++-
 cpnest/sampler.py        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpnest/NestedSampling.py b/cpnest/NestedSampling.py
index 8552e53..1baff59 100644
--- a/cpnest/NestedSampling.py
+++ b/cpnest/NestedSampling.py
@@ -496,8 +496,12 @@ class NestedSampler(object):
         Checkpoint its internal state
         """
         self.logger.critical('Checkpointing nested sampling')
-        with open(self.resume_file,"wb") as f:
+        # write to a temporary file first, so that the previous
+        # checkpoint survives until the new one is complete
+        tmp_file = self.resume_file + '.tmp'
+        with open(tmp_file,"wb") as f:
             pickle.dump(self, f)
+        os.replace(tmp_file, self.resume_file)
 
     @classmethod
     def resume(cls, filename, manager, usermodel):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 20febdf..ee7d79e 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -288,8 +288,12 @@ class Sampler(object):
         Checkpoint its internal state
         """
         self.logger.info('Checkpointing Sampler')
-        with open(self.resume_file, "wb") as f:
+        # write to a temporary file first, so that the previous
+        # checkpoint survives until the new one is complete
+        tmp_file = self.resume_file + '.tmp'
+        with open(tmp_file, "wb") as f:
             pickle.dump(self, f)
+        os.replace(tmp_file, self.resume_file)
 
     @classmethod
     def resume(cls, resume_file, manager, model):
-- 
2.43.0


From 8ef2dc14ec86c8e35c07c297e2a0a7d3050bbd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 14/24] fix: give resumed samplers independent random streams

---
 cpnest/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index ee7d79e..7d1ed22 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -219,6 +219,10 @@ class Sampler(object):
         """
         if not self.initialised:
             self.reset()
+        else:
+            # a resumed sampler inherits the random state of its parent,
+            # do not share it with the other processes
+            np.random.seed()
 
         self.counter=1
         __checkpoint_flag=False
-- 
2.43.0


From 16bdc5afa5304ab90c2e6f0bd1511ddc0ff69149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 15/24] fix: keep the prior and mcmc samples that were
 collected

---
 cpnest/cpnest.py | 58 ++++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 481d66f..fc5658b 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -163,6 +163,8 @@ class CPNest(object):
             self.nlive    = nlive
             self.poolsize = poolsize
             self.posterior_samples = None
+            self.prior_samples = None
+            self.mcmc_samples = None
             self.prior_sampling = prior_sampling
             self.manager = RunManager(
                 nthreads=self.nthreads,
@@ -308,10 +310,14 @@ class CPNest(object):
                     filename=None
                 )
 
+            # with full verbosity the prior samples and the thinned
+            # mcmc samples are saved as well
             if self.verbose>=3 or self.NS.prior_sampling:
-                self.prior_samples = self.get_prior_samples(filename=None)
+                self.prior_samples = self.get_prior_samples(
+                    filename='prior.dat' if self.verbose>=3 else None
+                )
             if self.verbose>=3 and not self.NS.prior_sampling:
-                self.mcmc_samples = self.get_mcmc_samples(filename=None)
+                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')
             if self.verbose>=2:
                 self.plot(corner = False)
 
@@ -361,43 +367,6 @@ class CPNest(object):
         nested_samples     = self.get_nested_samples()
         posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
-        self.prior_samples = {n:None for n in self.user.names}
-        self.mcmc_samples  = {n:None for n in self.user.names}
-        # if we run with full verbose, read in and output
-        # the mcmc thinned posterior samples
-        if self.verbose >= 3:
-            from .nest2pos import resample_mcmc_chain
-            from numpy.lib.recfunctions import stack_arrays
-
-            prior_samples = []
-            mcmc_samples  = []
-            for file in os.listdir(self.NS.output_folder):
-                if 'prior_samples' in file:
-                    prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
-                    os.remove(os.path.join(self.NS.output_folder,file))
-                elif 'mcmc_chain' in file:
-                    mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
-                    os.remove(os.path.join(self.NS.output_folder,file))
-
-            # first deal with the prior samples
-            if len(prior_samples)>0:
-                self.prior_samples = stack_arrays([p for p in prior_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'prior.dat'),
-                           self.prior_samples.ravel(),
-                           header=' '.join(self.prior_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-            # now stack all the mcmc chains
-            if len(mcmc_samples)>0:
-                self.mcmc_samples = stack_arrays([p for p in mcmc_samples])
-                if filename:
-                    np.savetxt(os.path.join(
-                           self.NS.output_folder,'mcmc.dat'),
-                           self.mcmc_samples.ravel(),
-                           header=' '.join(self.mcmc_samples.dtype.names),
-                           newline='\n',delimiter=' ')
-
         # TODO: Replace with something to output samples in whatever format
         if filename:
             np.savetxt(os.path.join(
@@ -432,8 +401,11 @@ class CPNest(object):
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
-        # if we sampled the prior, the nested samples are samples from the prior
-        if self.NS.prior_sampling:
+        if not prior_samples and self.prior_samples is not None:
+            # the samplers' files were already read in
+            prior_samples.append(self.prior_samples)
+        elif self.NS.prior_sampling:
+            # if we sampled the prior, the nested samples are samples from the prior
             prior_samples.append(self.get_nested_samples())
 
         if not prior_samples:
@@ -474,6 +446,10 @@ class CPNest(object):
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
+        if not mcmc_samples and self.mcmc_samples is not None:
+            # the samplers' files were already read in
+            mcmc_samples.append(self.mcmc_samples)
+
         if not mcmc_samples:
             self.logger.critical('ERROR, no MCMC samples found!')
             return None
-- 
2.43.0


From fb71d4be637e909e5462ee578f2895c8ec4de348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 16/24] fix: plot histograms of few samples

---
 cpnest/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/plot.py b/cpnest/plot.py
index 2b5ac7c..d10b6ac 100644
--- a/cpnest/plot.py
+++ b/cpnest/plot.py
@@ -54,13 +54,13 @@ def plot_hist(x, name=None, prior_samples=None, mcmc_samples=None, filename=None
     fig = plt.figure()
     ax  = fig.add_subplot(111)
     ax.hist(x, density = True, color='black', linewidth = 1.25,
-                histtype='step', bins=len(x)//50, label = 'posterior')
+                histtype='step', bins=max(1, len(x)//50), label = 'posterior')
     if prior_samples is not None:
         ax.hist(prior_samples, density = True, color='green', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'prior')
+                histtype='step', bins=max(1, len(x)//50), label = 'prior')
     if mcmc_samples is not None:
         ax.hist(mcmc_samples, density = True, color='red', linewidth = 1.0,
-                histtype='step', bins=len(x)//50, label = 'mcmc')
+                histtype='step', bins=max(1, len(x)//50), label = 'mcmc')
     ax.legend(loc='upper left')
     ax.set_ylabel('probability density')
     if name is not None:
@@ -90,7 +90,7 @@ def plot_indices(indices, filename=None, max_bins=30):
     ax  = fig.add_subplot(111)
 
     ax.hist(indices, density=True, color='tab:blue', linewidth=1.25,
-                histtype='step', bins=min(len(indices) // 100, max_bins))
+                histtype='step', bins=max(1, min(len(indices) // 100, max_bins)))
     # Theoretical distribution
     ax.axhline(1, color='black', linewidth=1.25, linestyle=':', label='pdf')
 
-- 
2.43.0


From 294223278e8c91e7719152566d957eae24a2a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 17/24] fix: weight the posterior with the live points of the
 run that was resumed

---
 cpnest/cpnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index fc5658b..45e8261 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -365,7 +365,7 @@ class CPNest(object):
         import os
         from .nest2pos import draw_posterior_many
         nested_samples     = self.get_nested_samples()
-        posterior_samples  = draw_posterior_many([nested_samples],[self.nlive],verbose=self.verbose)
+        posterior_samples  = draw_posterior_many([nested_samples],[self.NS.Nlive],verbose=self.verbose)
         posterior_samples  = np.array(posterior_samples)
         # TODO: Replace with something to output samples in whatever format
         if filename:
-- 
2.43.0


From 08a33dce7eef0892c245feb8e73d437352eda2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 18/24] fix: sums of live points do not pass the bounds as
 coordinates

---
 cpnest/parameter.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/parameter.pyx b/cpnest/parameter.pyx
index 1bfa767..a9af978 100644
--- a/cpnest/parameter.pyx
+++ b/cpnest/parameter.pyx
@@ -65,7 +65,7 @@ cdef class LivePoint:
 
     def __add__(LivePoint self, LivePoint other):
         assert self.dimension == other.dimension
-        result=LivePoint(self.names,self.bounds)
+        result=LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=self.values[i]+other.values[i]
-- 
2.43.0


From 71e3b196a7641503937c1d1dab26a989133f892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 19/24] fix: scale live points in double precision

---
 cpnest/parameter.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpnest/parameter.pyx b/cpnest/parameter.pyx
index a9af978..d7b65a5 100644
--- a/cpnest/parameter.pyx
+++ b/cpnest/parameter.pyx
@@ -93,27 +93,27 @@ cdef class LivePoint:
             self.values[i]-=other.values[i]
         return self
 
-    def __mul__(LivePoint self, float other):
+    def __mul__(LivePoint self, double other):
         cdef LivePoint result=LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=other*self.values[i]
         return result
 
-    def __imul__(LivePoint self, float other):
+    def __imul__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]*=other
         return self
 
-    def __truediv__(LivePoint self, float other):
+    def __truediv__(LivePoint self, double other):
         cdef LivePoint result = LivePoint(self.names)
         cdef Py_ssize_t i
         for i in range(self.dimension):
             result.values[i]=self.values[i]/other
         return result
 
-    def __itruediv__(LivePoint self, float other):
+    def __itruediv__(LivePoint self, double other):
         cdef Py_ssize_t i
         for i in range(self.dimension):
             self.values[i]/=other
-- 
2.43.0


From 422a56fc0a4adb61715fbbd65fd07136e53aa26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 20/24] fix: keep the user's model out of checkpointed
 Hamiltonian proposals

The Hamiltonian proposals stored bound methods of the user's model, so a
checkpoint pickled the model with them: it failed for models that cannot be
pickled, and a resumed sampler kept using the old copy of the model for its
trajectories.
---
 cpnest/proposal.py | 28 ++++++++++++++++++++++++++--
 cpnest/sampler.py  |  2 ++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index 75353d7..dec79db 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -374,6 +374,10 @@ class HamiltonianProposalCycle(ProposalCycle):
         proposals = [ConstrainedLeapFrog(model=model)]
         super(HamiltonianProposalCycle,self).__init__(proposals, weights)
 
+    def set_model(self, model):
+        for p in self.proposals:
+            p.set_model(model)
+
 class HamiltonianProposal(EnsembleEigenVector):
     """
     Base class for hamiltonian proposals
@@ -389,7 +393,7 @@ class HamiltonianProposal(EnsembleEigenVector):
         """
         super(HamiltonianProposal, self).__init__(**kwargs)
         self.T              = self.kinetic_energy
-        self.V              = model.potential
+        self.set_model(model)
         self.normal         = None
         self.dt             = 0.3
         self.base_dt        = 0.3
@@ -402,6 +406,20 @@ class HamiltonianProposal(EnsembleEigenVector):
         self.c              = 0 # number of trajectories saved
         self.DEBUG          = 0
 
+    def set_model(self, model):
+        """
+        Set the functions of the model that are used by the proposal
+        """
+        self.V              = model.potential
+
+    def __getstate__(self):
+        # the functions of the user model are not part of the state,
+        # they are set again by set_model when a sampler is resumed
+        state = self.__dict__.copy()
+        for name in ('V', 'dV', 'log_likelihood'):
+            state.pop(name, None)
+        return state
+
     def set_ensemble(self, ensemble):
         """
         override the set ensemble method
@@ -599,9 +617,12 @@ class LeapFrog(HamiltonianProposal):
         model : :obj:`cpnest.Model`
         """
         super(LeapFrog, self).__init__(model=model, **kwargs)
-        self.dV             = model.force
         self.prior_bounds   = model.bounds
 
+    def set_model(self, model):
+        super(LeapFrog, self).set_model(model)
+        self.dV             = model.force
+
     def get_sample(self, q0, *args):
         """
         Propose a new sample, starting at q0
@@ -685,6 +706,9 @@ class ConstrainedLeapFrog(LeapFrog):
         model : :obj:`cpnest.Model`
         """
         super(ConstrainedLeapFrog, self).__init__(model=model, **kwargs)
+
+    def set_model(self, model):
+        super(ConstrainedLeapFrog, self).set_model(model)
         self.log_likelihood = model.log_likelihood
 
     def get_sample(self, q0, logLmin=-np.inf):
diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index 7d1ed22..a3b7e92 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -308,6 +308,8 @@ class Sampler(object):
         with open(resume_file, "rb") as f:
             obj = pickle.load(f)
         obj.model   = model
+        if hasattr(obj.proposal, 'set_model'):
+            obj.proposal.set_model(model)
         obj.manager = manager
         obj.logLmin = obj.manager.logLmin
         obj.logLmax = obj.manager.logLmax
-- 
2.43.0


From 385c2b9510027b650c0a64eaa3254b6b3c10d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 21/24] fix: read and remove only the samplers' own sample
 files

---
 cpnest/cpnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpnest/cpnest.py b/cpnest/cpnest.py
index 45e8261..42bd6fb 100644
--- a/cpnest/cpnest.py
+++ b/cpnest/cpnest.py
@@ -5,6 +5,7 @@ import multiprocessing as mp
 from ctypes import c_double, c_int
 import numpy as np
 import os
+import re
 import sys
 import signal
 import logging
@@ -397,7 +398,7 @@ class CPNest(object):
         # read in the samples from the prior coming from each sampler
         prior_samples = []
         for file in os.listdir(self.NS.output_folder):
-            if 'prior_samples' in file:
+            if re.fullmatch(r'prior_samples_[0-9]+\.dat', file):
                 prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
@@ -442,7 +443,7 @@ class CPNest(object):
 
         mcmc_samples  = []
         for file in os.listdir(self.NS.output_folder):
-            if 'mcmc_chain' in file:
+            if re.fullmatch(r'mcmc_chain_[0-9]+\.dat', file):
                 mcmc_samples.append(resample_mcmc_chain(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)))
                 os.remove(os.path.join(self.NS.output_folder,file))
 
-- 
2.43.0


From 4aed902daf4c2185c2e926a91aa887f2a35f6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 22/24] fix: LeapFrog trajectory ends with a half momentum
 step, not one and a half

---
 cpnest/proposal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index dec79db..ebeb441 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -688,8 +688,8 @@ class LeapFrog(HamiltonianProposal):
             dV = self.gradient(q)
             # take a full momentum step
             p += - self.dt * dV
-        # Do a final update of the momentum for a half step
-        p += - 0.5 * self.dt * dV
+        # the last momentum step must be a half step: take back the other half
+        p += 0.5 * self.dt * dV
 
         return q, -p
 
-- 
2.43.0


From 349f427d3ac16274c202fad491091a13d1fab080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 23/24] fix: LeapFrog no longer loops forever when a position
 lands exactly on a prior bound

---
 cpnest/proposal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/proposal.py b/cpnest/proposal.py
index ebeb441..a1896ea 100644
--- a/cpnest/proposal.py
+++ b/cpnest/proposal.py
@@ -677,7 +677,7 @@ class LeapFrog(HamiltonianProposal):
                 q[k] += self.dt * p[j] * self.inverse_mass[j]
                 # check and reflect against the bounds
                 # of the allowed parameter range
-                while q[k] <= l or q[k] >= u:
+                while q[k] < l or q[k] > u:
                     if q[k] > u:
                         q[k] = u - (q[k] - u)
                         p[j] *= -1
-- 
2.43.0


From 056f28da11523df0e91466dca342738eb564b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:05 +0000
Subject: [PATCH 24/24] fix: let Hamiltonian samplers start with a maximum
 chain length below ten

The initial chain length, maxmcmc//10, was zero there, and the trajectory length
was drawn from an empty range: the worker died and the run never ended.
---
 cpnest/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpnest/sampler.py b/cpnest/sampler.py
index a3b7e92..766dda7 100644
--- a/cpnest/sampler.py
+++ b/cpnest/sampler.py
@@ -77,7 +77,7 @@ class Sampler(object):
 
         self.seed = seed
         self.model = model
-        self.initial_mcmc = maxmcmc//10
+        self.initial_mcmc = max(1, maxmcmc//10)
         self.maxmcmc = maxmcmc
         self.resume_file = resume_file
         self.manager = manager
-- 
2.43.0


"""Fourth wave of behaviour-changing edits (see tools/probe.py)."""
NS, S, P, C, M, PA, N2, U, PL = 'NestedSampling.py', 'sampler.py', 'proposal.py', 'cpnest.py', 'model.py', 'parameter.pyx', 'nest2pos.py', 'utils.py', 'plot.py'
INS = "                if proposed.logL > self.logLmin.value:\n"
PROBES = [
 # C01
 ('C01', 'a1-cached-min', [(NS, "        for k in reversed(self.worst):\n            self.iteration += 1\n", "        llmin = self.params[0].logL\n        for k in reversed(self.worst):\n            self.iteration += 1\n"), (NS, INS, "                if proposed.logL > llmin:\n")]),
 ('C01', 'a2-contour-after-request', [(NS, "        self.logLmin.value = float(self.params[n-1].logL)\n        return self.logLmin.value", "        return float(self.params[n-1].logL)"), (NS, "        self.params.remove_n_worst_points(nreplace)\n", "        self.params.remove_n_worst_points(nreplace)\n        self.logLmin.value = float(self.params[nreplace-1].logL)\n")]),
 ('C01', 'a3-give-up', [(NS, "                    self.rejected += 1\n", "                    self.rejected += 1\n                    if loops > 100*self.Nlive:\n                        self.logLmin.value = float(self.params[0].logL)\n")]),
 # C02
 ('C02', 'b1-remove-unsorted', [(NS, "        del self[:n]\n        del self._keys[:n]", "        del self[:n]\n        del self._keys[:n]\n        if len(self) > 1 and self[0].logL == self[1].logL:\n            del self[0]\n            del self._keys[0]")]),
 ('C02', 'b2-final-from-worst', [(NS, "        for i,p in enumerate(self.params):\n", "        for i,p in enumerate(self.params[len(self.worst)-1:] if len(self.worst) > 1 and self.rejected == 1 else self.params):\n")]),
 ('C02', 'b3-record-copies-rejected', [(NS, "                    self.rejected += 1\n", "                    self.rejected += 1\n                    if proposed.logL == self.logLmin.value:\n                        self.nested_samples.append(proposed)\n")]),
 # C03
 ('C03', 'c1-keys-logP-ties', [(NS, "        super(OrderedLivePoints, self).__init__(live_points, key=attrgetter('logL'))", "        super(OrderedLivePoints, self).__init__(live_points, key=attrgetter('logL', 'logP'))")]),
 # C04
 ('C04', 'd1-final-count-off', [(NS, "            self.state.increment(p.logL,nlive=self.Nlive-i)", "            self.state.increment(p.logL,nlive=len(self.params)-i if i else len(self.params)+1)")]),
 ('C04', 'd2-plateau-vol', [(NS, "        self.logw += logt\n", "        if logL > self.logLs[-1] or not np.isfinite(logL):\n            self.logw += logt\n")]),
 ('C04', 'd3-trap-max', [(N2, "    log_func_sum = logaddexp(log_func[:-1], log_func[1:]) - np.log(2)", "    log_func_sum = np.maximum(log_func[:-1], log_func[1:])")]),
 ('C04', 'd4-finalise-guard', [(NS, "        self.state.finalise()\n", "        if self.state.iteration > self.Nlive:\n            self.state.finalise()\n")]),
 # C05
 ('C05', 'e1-inf-max', [(NS, "            while self.condition > self.tolerance:", "            while self.condition > self.tolerance or self.iteration < self.Nlive:")]),
 ('C05', 'e2-tolerance-relative', [(NS, "            while self.condition > self.tolerance:", "            while self.condition > self.tolerance*max(1.0, self.state.info):")]),
 ('C05', 'e3-isnan', [(NS, "            while self.condition > self.tolerance:", "            while self.condition >= self.tolerance:")]),
 # C06
 ('C06', 'f1-permute-all', [(NS, "self.manager.consumer_pipes[self.worst[i]].send(self.params[self.worst[i]])", "self.manager.consumer_pipes[self.worst[i]].send(self.params[self.worst[-1-i]])")]),
 ('C06', 'f2-poll-recv', [(S, "                # Send the sample to the Nested Sampler\n", "                if not np.isfinite(outParam.logL):\n                    continue\n                # Send the sample to the Nested Sampler\n")]),
 ('C06', 'f3-reset-skip-send', [(NS, "                        # ask the same sampler for another point\n                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())", "                        # ask the same sampler for another point\n                        if i < self.Nlive - 1:\n                            self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())")]),
 ('C06', 'f4-reset-loop-order', [(NS, "                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)\n                    self.accepted += 1", "                    self.accepted += 1")]),
 # C07
 ('C07', 'g1-prior-join', [(C, "                for each in self.process_pool:\n                    each.join()", "                if not self.prior_sampling:\n                    for each in self.process_pool:\n                        each.join()")]),
 ('C07', 'g2-early-return', [(NS, "        # Signal worker threads to exit\n        self.logLmin.value = np.inf\n", "        # Signal worker threads to exit\n        if self.condition > -np.inf:\n            self.logLmin.value = np.inf\n")]),
 ('C07', 'g3-worker-none-sample', [(S, "                if p is None:\n                    break\n                if p == \"checkpoint\"", "                if p is None and logLmin == -np.inf:\n                    break\n                if p == \"checkpoint\"")]),
 ('C07', 'g4-contour-inf-idle', [(S, "            if logLmin==np.inf:\n                break\n\n            if time", "            if logLmin==np.inf and self.producer_pipe.poll():\n                break\n\n            if time")]),
 # C08
 ('C08', 'h1-no-flag', [(C, "    def checkpoint(self):\n        self.manager.checkpoint_flag.value = 1", "    def checkpoint(self):\n        if not self.NS.prior_sampling:\n            self.manager.checkpoint_flag.value = 1")]),
 ('C08', 'h2-flag-late', [(C, "                for each in self.process_pool:\n                    each.join()\n            except CheckPoint:", "            except CheckPoint:"), (C, "                self.checkpoint()\n                sys.exit(130)\n", "                self.checkpoint()\n                sys.exit(130)\n            for each in self.process_pool:\n                each.join()\n")]),
 ('C08', 'h3-worker-no-save-on-flag', [(S, "            if self.manager.checkpoint_flag.value:\n                self.checkpoint()\n                sys.exit(130)", "            if self.manager.checkpoint_flag.value:\n                if time.time() - self.last_checkpoint_time > 1.0:\n                    self.checkpoint()\n                sys.exit(130)")]),
 ('C08', 'h4-ns-save-after-exit', [(NS, "        except CheckPoint:\n            self.checkpoint()\n            # Run each pipe to get it to checkpoint\n            for c in self.manager.consumer_pipes:\n                c.send(\"checkpoint\")\n            sys.exit(130)", "        except CheckPoint:\n            self.checkpoint()\n            # Run each pipe to get it to checkpoint\n            for c in self.manager.consumer_pipes:\n                if not c.poll():\n                    c.send(\"checkpoint\")\n            sys.exit(130)")]),
 # C09
 ('C09', 'i1-lock-then-max-outside', [(S, "        with self.logLmax.get_lock():\n            self.logLmax.value = max(self.logLmax.value, logL)", "        with self.logLmax.get_lock():\n            logLmax = max(self.logLmax.value, logL)\n        self.logLmax.value = logLmax")]),
 ('C09', 'i2-lock-once', [(S, "        with self.logLmax.get_lock():\n            self.logLmax.value = max(self.logLmax.value, logL)", "        lock = self.logLmax.get_lock()\n        if lock.acquire(timeout=1.0):\n            self.logLmax.value = max(self.logLmax.value, logL)\n            lock.release()\n        else:\n            self.logLmax.value = max(self.logLmax.value, logL)")]),
 ('C09', 'i3-reset-zero', [(NS, "        self.initialised=True\n", "        self.initialised=True\n        self.logLmax.value = -np.inf\n")]),
 # C10
 ('C10', 'j1-hmc-copy-back', [(S, "                        oldparam        = newparam.copy()\n                        sub_accepted   += 1", "                        oldparam        = newparam.copy()\n                        oldparam.logP   = -self.proposal.log_J\n                        sub_accepted   += 1")]),
 ('C10', 'j2-clip-coords', [(S, "                        oldparam     = newparam.copy()\n                        sub_accepted += 1\n                            break", "x")] if False else [(S, "                newparam.logP = self.model.log_prior(newparam)\n\n                if newparam.logP-logp_old", "                newparam.logP = self.model.log_prior(newparam)\n                for n, b in zip(newparam.names, self.model.bounds):\n                    newparam[n] = min(max(newparam[n], b[0]), b[1])\n\n                if newparam.logP-logp_old")]),
 ('C10', 'j3-trajectory-average', [(P, "        return trajectory[idx]", "        q, p = trajectory[idx]\n        out = q.copy()\n        for n in out.names:\n            out[n] = 0.5*(q[n] + trajectory[idx-1][0][n])\n        return out, p")]),
 # C11
 ('C11', 'k1-ns-only', [(S, "                if self.proposal.log_J > np.log(random()):\n\n                    if newparam.logL > logLmin:", "                if self.proposal.log_J > np.log(random()):\n\n                    if newparam.logL > logLmin or newparam.logL > oldparam.logL:")]),
 ('C11', 'k2-slice-neg', [(S, "                        if newparam.logL > Y:", "                        if not newparam.logL <= Y:")]),
 ('C11', 'k3-mh-always-first', [(S, "                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()", "                    if newparam.logL > logLmin or oldparam.logL <= logLmin < np.inf and newparam.logL >= oldparam.logL:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()")]),
 ('C11', 'k4-yp-floor', [(S, "                Yp = oldparam.logP-np.random.exponential()", "                Yp = min(oldparam.logP, 0.0)-np.random.exponential()")]),
 # C12
 ('C12', 'l1-walk-sorted', [(P, "        for x in subset:\n            out += (x - center_of_mass)*gauss(0,1)", "        z = gauss(0,1)\n        for x in subset:\n            out += (x - center_of_mass)*z*z")]),
 ('C12', 'l2-stretch-min', [(P, "        self.log_J = out.dimension * x\n", "        self.log_J = min(0.0, out.dimension * x)\n")]),
 ('C12', 'l3-de-best', [(P, "        a,b = sample(list(self.ensemble),2)\n        sigma", "        a,b = sample(list(self.ensemble),2)\n        if a.logL > b.logL:\n            a,b = b,a\n        sigma")]),
 ('C12', 'l4-cycle-keeps-J', [(P, "        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n", "        new = p.get_sample(old,**kwargs)\n        if p.log_J != 0.0:\n            self.log_J = p.log_J\n")]),
 # C13
 ('C13', 'm1-ns-refused-relabel', [(NS, "                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])", "                    self.params[k].logP = proposed.logP\n                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])")]),
 ('C13', 'm2-slice-dir', [(S, "                    newparam      = direction_vector * Xprime + oldparam", "                    oldparam     += direction_vector * Xprime\n                    newparam      = oldparam.copy()")]),
 ('C13', 'm3-reflect-copy', [(P, "        p, q, reflected = self.evolve_trajectory_one_step_momentum(-p0.copy(), q0.copy(), logLmin, half = True)", "        p, q, reflected = self.evolve_trajectory_one_step_momentum(-p0.copy(), q0, logLmin, half = True)")]),
 # C14
 ('C14', 'n1-hmc-L', [(P, "        for name in ('V', 'dV', 'log_likelihood'):", "        for name in ('V', 'dV', 'log_likelihood', 'normal'):")]),
 ('C14', 'n2-ns-worst', [(NS, "        obj.last_checkpoint_time = time.time()\n        return obj\n\n    def __getstate__", "        obj.last_checkpoint_time = time.time()\n        obj.queue_counter = 0\n        obj.rolling_p = []\n        return obj\n\n    def __getstate__")]),
 ('C14', 'n3-manager-none', [(S, "        obj.logLmax = obj.manager.logLmax\n        obj.logger = logging", "        obj.logLmax = obj.manager.logLmin\n        obj.logger = logging")]),
 # C15
 ('C15', 'o1-tmp-then-copy', [(S, "        os.replace(tmp_file, self.resume_file)", "        import shutil\n        shutil.copyfile(tmp_file, self.resume_file)\n        os.remove(tmp_file)")]),
 ('C15', 'o2-truncate', [(NS, "        with open(tmp_file,\"wb\") as f:", "        open(self.resume_file,\"ab\").close()\n        with open(tmp_file,\"wb\") as f:")]),
 # C16
 ('C16', 'p1-flag-in-reset', [(NS, "                    self.rejected += 1\n", "                    self.rejected += 1\n                    if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n                        self.checkpoint()\n                        self.last_checkpoint_time = time.time()\n")]),
 ('C16', 'p2-final-ckpt', [(NS, "            self.nested_samples.append(p)\n\n        # Refine", "            self.nested_samples.append(p)\n            if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n                self.checkpoint()\n\n        # Refine")]),
 # C17
 ('C17', 'q1-samples-gen', [(S, "        self.samples = []\n        # Now", "        self.samples = []\n        self.initial_points = (q.copy() for q in self.evolution_points)\n        # Now")]),
 ('C17', 'q2-state-hold', [(NS, "        self.state          = _NSintegralState(self.Nlive)", "        self.state          = _NSintegralState(self.Nlive)\n        self.state.logLmax  = self.manager.logLmax")]),
 ('C17', 'q3-proposal-model', [(P, "        self.prior_bounds   = model.bounds\n", "        self.prior_bounds   = model.bounds\n        self.in_bounds      = model.in_bounds\n")]),
 # C18
 ('C18', 'r1-seed-per-class', [(C, "seed        = self.seed+nmhs+nhamiltonian+i", "seed        = self.seed+max(nmhs, nhamiltonian)+i")]),
 ('C18', 'r2-resume-file-dir', [(C, "            for i in range(nhamiltonian):\n                resume_file = os.path.join(output,\n                                           \"sampler_{0:d}.pkl\".format(nmhs+i))", "            for i in range(nhamiltonian):\n                resume_file = os.path.join(output,\n                                           \"sampler_{0:d}.pkl\".format(nslice+i))")]),
 ('C18', 'r3-reseed-const', [(S, "            np.random.seed()\n", "            np.random.seed(self.maxmcmc)\n")]),
 ('C18', 'r4-first-draw', [(S, "        np.random.seed(seed=self.seed)\n        for n in tqdm", "        first = self.model.new_point()\n        np.random.seed(seed=self.seed)\n        for n in tqdm")]),
 # C21
 ('C21', 't1-prior-two', [(C, "            prior_samples.append(self.prior_samples)\n        elif self.NS.prior_sampling:", "            prior_samples = [self.prior_samples[:len(self.prior_samples)//2]]\n        elif self.NS.prior_sampling:")]),
 ('C21', 't2-mcmc-overwritten', [(C, "            if self.verbose>=3 and not self.NS.prior_sampling:\n                self.mcmc_samples = self.get_mcmc_samples(filename='mcmc.dat')", "            if self.verbose>=3 and not self.NS.prior_sampling:\n                self.get_mcmc_samples(filename='mcmc.dat')\n                self.mcmc_samples = self.get_mcmc_samples(filename=None)")]),
 ('C21', 't3-thin-saved', [(C, "                       mcmc_samples.ravel(),", "                       mcmc_samples.ravel()[-10000:],")]),
 # C23
 ('C23', 'u1-rmul', [(PA, "            result.values[i]=other*self.values[i]", "            result.values[i]=other*self.values[i]\n        result.logL = self.logL")] ),
 # C24
 ('C24', 'v1-nlive-first', [(N2, "for data,Nlive in zip(datas, Nlives)])\n    LOGGER", "for data,Nlive in zip(datas, [min(Nlives)]*len(datas))])\n    LOGGER")]),
 ('C24', 'v2-weights-shift', [(N2, "    log_wts -= log_ev\n", "    log_wts -= log_ev\n    log_wts = np.sort(log_wts)\n")]),
 ('C24', 'v3-repeat', [(N2, "    idx=list(filter(lambda i: selection[i], range(len(selection))))", "    idx=list(filter(lambda i: selection[i], range(len(selection)))) or [0]")]),
 ('C24', 'v4-many-nlive', [(C, "draw_posterior_many([nested_samples],[self.NS.Nlive],", "draw_posterior_many([nested_samples],[self.NS.Nlive - len(self.NS.worst) if self.verbose > 3 else self.NS.Nlive + 1],")]),
 # C26
 ('C26', 'w1-plot-outside', [(C, "            if self.verbose>=2:\n                self.plot(corner = False)\n", "        if self.verbose>=2:\n            self.plot(corner = False)\n")]),
 ('C26', 'w2-noreset', [(U, "        self._logger.removeHandler(self.handler)\n        self.handler.close()\n", "        self.handler.close()\n        if self.handler.stream is not None:\n            self._logger.removeHandler(self.handler)\n")]),
 # C29
 ('C29', 'x1-mh-nmcmc', [(S, "                if (sub_counter >= self.Nmcmc and sub_accepted > 0 ) or sub_counter >= self.maxmcmc:", "                if sub_counter >= self.Nmcmc and (sub_accepted > 0 or sub_counter >= self.maxmcmc and logp_old > -np.inf):")]),
 ('C29', 'x2-slice-steps', [(S, "                        else:\n                            self.increase_left_boundary()\n                            J -= 1", "                        else:\n                            self.increase_left_boundary()\n                            J -= 0.5 if self.Ne < self.max_steps_out else 0")]),
 # C30
 ('C30', 'y1-mh-restart', [(S, "            # Put sample back in the stack, unless that sample led to zero accepted points\n            self.evolution_points.append(oldparam)\n", "            # Put sample back in the stack, unless that sample led to zero accepted points\n            self.evolution_points.append(oldparam if sub_accepted else self.evolution_points[0])\n")]),
 ('C30', 'y2-acc-stale', [(S, "            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += sub_counter\n", "            self.mcmc_accepted += sub_accepted\n            self.mcmc_counter += min(sub_counter, self.Nmcmc)\n")]),
 # C32
 ('C32', 'z1-set-before', [(S, "        self.proposal.set_ensemble(self.evolution_points)\n        # initialise the structure to store the mcmc chain\n", "        # initialise the structure to store the mcmc chain\n"), (S, "        np.random.seed(seed=self.seed)\n        for n in tqdm", "        np.random.seed(seed=self.seed)\n        self.proposal.set_ensemble(self.evolution_points)\n        for n in tqdm")]),
 ('C32', 'z2-mean-only', [(P, "            self.covariance = np.cov(cov_array)\n            self.mean       = np.mean(cov_array,axis=1)", "            if self.mean is None or not np.allclose(self.mean, np.mean(cov_array,axis=1)):\n                self.covariance = np.cov(cov_array)\n                self.mean       = np.mean(cov_array,axis=1)")]),
 ('C32', 'z3-first-only', [(P, "            if isinstance(p,EnsembleProposal):\n                p.set_ensemble(self.ensemble)", "            if isinstance(p,EnsembleProposal) and p in self.cycle:\n                p.set_ensemble(self.ensemble)")]),
 # C34
 ('C34', 'g1-resend-index', [(NS, "                    self.rejected += 1\n", "                    self.rejected += 1\n                    if loops > self.Nlive: self.insertion_indices.append(0.0)\n")]),
 ('C34', 'g2-rolling-window', [(NS, "            indices = self.insertion_indices[-self.Nlive:]", "            indices = self.insertion_indices[-len(self.params)+len(self.worst):]")]),
 # C35
 ('C35', 'h1-idx-reset', [(P, "        self.N=len(self.cycle)\n", "        self.N=len(self.proposals)\n")]),
 ('C35', 'h2-weights-pop', [(P, "        self.weights = self.weights + [weight]\n", "        self.weights = [w*(1-weight) for w in self.weights] + [weight/sum(self.weights)/2]\n")]),
 # C36
 ('C36', 'i1-tau', [(S, "        if tau is None: tau = self.poolsize/safety", "        if tau is None: tau = self.poolsize//safety")]),
 ('C36', 'i2-exact-int', [(S, "        self.Nmcmc = max(safety,int(self.Nmcmc_exact))\n", "        self.Nmcmc = max(safety,int(self.Nmcmc_exact))\n        self.Nmcmc_exact = float(self.Nmcmc)\n")]),
 ('C36', 'i3-acl-window', [(S, "self.samples[-5*self.maxmcmc:]", "self.samples[:5*self.maxmcmc]")]),
 # C37
 ('C37', 'j1-shuffle-after', [(N2, "    np.random.shuffle(chain)\n    # compute the normalised log posterior density\n    logpost = chain['logL']+chain['logPrior']", "    # compute the normalised log posterior density\n    logpost = chain['logL']+chain['logPrior']\n    np.random.shuffle(chain)")]),
 ('C37', 'j2-logl-only', [(N2, "    logpost = chain['logL']+chain['logPrior']", "    logpost = chain['logL']+np.where(np.isfinite(chain['logPrior']), 0.0, chain['logPrior'])")]),
 ('C37', 'j3-burnin', [(N2, "chain[chain.shape[0]//2:]", "chain[:chain.shape[0]//2]")]),
 # C38
 ('C38', 'k1-since-start', [(NS, "                    self.checkpoint()\n                    self.last_checkpoint_time = time.time()\n", "                    self.checkpoint()\n                    self.last_checkpoint_time += self.manager.periodic_checkpoint_interval\n")]),
 ('C38', 'k2-none', [(C, "                periodic_checkpoint_interval = np.inf\n", "                periodic_checkpoint_interval = 600\n")]),
 # C39
 ('C39', 'l1-jk', [(S, "                K = (self.max_steps_out-1)-J", "                K = self.max_steps_out-J")]),
 ('C39', 'l2-mu-late', [(S, "            if self.mcmc_counter < self.tuning_steps:", "            if self.mcmc_counter < self.tuning_steps or self.sub_acceptance < 0.1:")]),
 ('C39', 'l3-recentre', [(S, "                    if Xprime < 0.0:\n                        self.L = Xprime", "                    if Xprime < 0.5*(self.L+self.R):\n                        self.L = Xprime")]),
 # C40
 ('C40', 'm1-backward-sign', [(P, "momentum(-p0.copy(), q0.copy(), logLmin, half = True)", "momentum(p0.copy(), q0.copy(), logLmin, half = True)")]),
 ('C40', 'm2-lowbound', [(P, "                if q[k] < l:\n                    q[k] = l + (l - q[k])\n                    p[j] *= -1\n        return p, q", "                if q[k] < l:\n                    q[k] = l\n                    p[j] *= -1\n        return p, q")]),
 ('C40', 'm3-J-max', [(P, "        self.log_J = min(0.0, initial_energy-final_energy)", "        self.log_J = -abs(initial_energy-final_energy)")]),
 # C41
 ('C41', 'n1-update-sub', [(S, "                p.update_time_step(self.acceptance)", "                p.update_time_step(self.sub_acceptance)")]),
 ('C41', 'n2-uniform', [(P, "np.random.randint(nmcmc,5*nmcmc)", "np.random.randint(nmcmc,5*nmcmc + 1)")]),
]

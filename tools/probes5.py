"""Fifth wave of behaviour-changing edits: cooperating sites, helpers, early returns (see tools/probe.py)."""
NS, S, P, C, M, PA, N2, U, PL = 'NestedSampling.py', 'sampler.py', 'proposal.py', 'cpnest.py', 'model.py', 'parameter.pyx', 'nest2pos.py', 'utils.py', 'plot.py'
INS = "                if proposed.logL > self.logLmin.value:\n"
PROBES = [
 ('C01', 'A1-accept-helper', [(NS, INS, "                if self.above(proposed, k):\n"), (NS, "    def get_worst_n_live_points(self, n):", "    def above(self, point, k):\n        return point.logL > self.params[k].logL or point.logL > self.logLmin.value\n\n    def get_worst_n_live_points(self, n):")]),
 ('C01', 'A2-contour-local', [(NS, "        logLmin = self.get_worst_n_live_points(nreplace)\n", "        logLmin = self.logLmin.value\n        self.get_worst_n_live_points(nreplace)\n"), (NS, INS, "                if proposed.logL > logLmin:\n")]),
 ('C01', 'A3-plateau-escape', [(NS, INS, "                if proposed.logL > self.logLmin.value or self.params[0].logL == self.params[-1].logL:\n")]),
 ('C02', 'B1-worst-by-mask', [(NS, "        self.nested_samples.extend(self.params[:nreplace])\n", "        self.nested_samples.extend([p for p in self.params if p.logL <= logLmin])\n")]),
 ('C02', 'B2-remove-by-contour', [(NS, "        self.params.remove_n_worst_points(nreplace)\n", "        self.params.remove_n_worst_points(self.params._keys.index(proposed.logL) if proposed.logL in self.params._keys[:nreplace] else nreplace)\n")]),
 ('C02', 'B3-final-loop-nlive', [(NS, "        for i,p in enumerate(self.params):\n            self.state.increment(p.logL,nlive=self.Nlive-i)\n            self.nested_samples.append(p)\n", "        for i,p in enumerate(self.params):\n            self.state.increment(p.logL,nlive=self.Nlive-i)\n            if p.logL > self.logLmin.value or self.logLmin.value == np.inf and p.logL > self.nested_samples[0].logL:\n                self.nested_samples.append(p)\n")]),
 ('C03', 'C1-search-lo', [(NS, "        return bisect.bisect(self._keys, self._key(item))", "        lo = self._last if 0 <= getattr(self, '_last', 0) < len(self) and self._keys[self._last] < self._key(item) - 1e3 else 0\n        return bisect.bisect(self._keys, self._key(item), lo)") ]) if False else ('C03', 'C1-left', [(NS, "        del self[:n]\n        del self._keys[:n]", "        del self[:n]\n        self._keys = self._keys[n:] if n < len(self._keys) - 1 else self._keys")]),
 ('C03', 'C2-sort-elsewhere', [(NS, "        self.params.sort(key=attrgetter('logL'))\n", "        self.params.sort(key=attrgetter('logP'))\n        self.params.sort(key=attrgetter('logL'))\n        self.params.reverse()\n        self.params.reverse()\n"), (NS, "        # points not removed earlier", "        self.params[nreplace-1], self.params[0] = self.params[0], self.params[nreplace-1]\n        # points not removed earlier")]),
 ('C04', 'D1-logw-recomputed', [(NS, "        self.logw += logt\n", "        self.logw = -self.iteration*nreplace/self.nlive + logt\n")]),
 ('C04', 'D2-logl-max-history', [(NS, "        self.logLs.append(logL)\n", "        self.logLs.append(max(logL, self.logLs[-1]))\n")]),
 ('C04', 'D3-trapz-tail', [(NS, "        self.logZ = nest2pos.log_integrate_log_trap(np.array(self.logLs), np.array(self.log_vols))\n", "        logLs, vols = np.array(self.logLs), np.array(self.log_vols)\n        keep = np.isfinite(logLs)\n        self.logZ = nest2pos.log_integrate_log_trap(logLs[keep], vols[keep])\n")]),
 ('C04', 'D4-nlive-attr', [(NS, "            self.state.increment(p.logL,nlive=self.Nlive-i)\n", "            self.state.increment(p.logL,nlive=self.Nlive-i-1 or 1)\n")]),
 ('C05', 'E1-cached-logLmax', [(NS, "        self.condition = logaddexp(self.state.logZ,self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ\n", ""), (NS, "        self.params.remove_n_worst_points(nreplace)\n", "        self.params.remove_n_worst_points(nreplace)\n        self.condition = logaddexp(self.state.logZ,self.logLmax.value - self.iteration/(float(self.Nlive))) - self.state.logZ\n")]),
 ('C05', 'E2-rolling-stop', [(NS, "                    self.check_insertion_indices()\n", "                    self.check_insertion_indices()\n                    if self.rolling_p and self.rolling_p[-1] < 1e-12:\n                        break\n")]),
 ('C06', 'F1-lazy-drain', [(S, "                self.evolution_points.append(p)\n                (Nmcmc", "                if self.producer_pipe.poll():\n                    p = self.producer_pipe.recv()\n                self.evolution_points.append(p)\n                (Nmcmc")]),
 ('C06', 'F2-sendfirst-only-n', [(NS, "        for i in np.random.permutation(range(nreplace)):", "        for i in np.random.choice(nreplace, nreplace):")]),
 ('C06', 'F3-exhausted', [(S, "                self.evolution_points.append(p)\n                (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n", "                self.evolution_points.append(p)\n                (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n                while outParam.logL <= logLmin and Nmcmc < self.maxmcmc:\n                    self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))\n                    (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n")]),
 ('C07', 'G1-run-verbose-join', [(C, "                for each in self.process_pool:\n                    each.join()\n", "                for each in self.process_pool:\n                    if each.is_alive() and self.verbose < 4:\n                        each.join(10.0)\n")]),
 ('C07', 'G2-inf-after', [(NS, "        # Signal worker threads to exit\n        self.logLmin.value = np.inf\n        for c in self.manager.consumer_pipes:\n            c.send(None)\n", "        # Signal worker threads to exit\n        for c in self.manager.consumer_pipes:\n            c.send(None)\n")]),
 ('C07', 'G3-worker-restarts', [(S, "                # the request may be for a newer contour\n                logLmin = self.logLmin.value\n                if logLmin==np.inf:\n                    break\n", "                # the request may be for a newer contour\n                logLmin = self.logLmin.value\n")]),
 ('C08', 'H1-handler-oneoff', [(C, "                signal.signal(signal.SIGALRM, sighandler)\n", "                signal.signal(signal.SIGALRM, signal.SIG_DFL)\n")]),
 ('C08', 'H2-produce-cond', [(S, "            self.logger.critical(\"Checkpoint excepted in sampler\")\n            self.checkpoint()", "            self.logger.critical(\"Checkpoint excepted in sampler\")\n            if not self.manager.checkpoint_flag.value:\n                self.checkpoint()")]),
 ('C08', 'H3-break-on-flag', [(S, "            if self.manager.checkpoint_flag.value:\n                self.checkpoint()\n                sys.exit(130)", "            if self.manager.checkpoint_flag.value:\n                break")]),
 ('C09', 'I1-compare-first', [(S, "        with self.logLmax.get_lock():\n            self.logLmax.value = max(self.logLmax.value, logL)", "        current = self.logLmax.value\n        if logL > current:\n            with self.logLmax.get_lock():\n                self.logLmax.value = max(current, logL)")]),
 ('C09', 'I2-private', [(S, "        self.initialised=True\n\n    def estimate_nmcmc_on", "        self.initialised=True\n        self.logLmin = mp_value(self.logLmin)\n\n    def estimate_nmcmc_on"), (S, "class Sampler(object):", "def mp_value(v):\n    import multiprocessing\n    return multiprocessing.Value('d', v.value)\n\nclass Sampler(object):")]),
 ('C10', 'J1-cache-LL', [(S, "                    newparam.logL = self.model.log_likelihood(newparam)\n                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()\n                        logp_old", "                    newparam.logL = self._cache.setdefault(round(newparam.values[0], 6), None) or self.model.log_likelihood(newparam)\n                    self._cache[round(newparam.values[0], 6)] = newparam.logL\n                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()\n                        logp_old"), (S, "        self.initialised        = False\n", "        self.initialised        = False\n        self._cache = {}\n")]),
 ('C10', 'J2-hmc-mirror-after', [(P, "            p, q            = self.evolve_trajectory_one_step_position(p, q)\n            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)\n            trajectory.append((q.copy(),p.copy()))\n            i += 1\n\n        # evolve backward", "            p, q, reflected = self.evolve_trajectory_one_step_momentum(p, q, logLmin, half = False)\n            p, q            = self.evolve_trajectory_one_step_position(p, q)\n            trajectory.append((q.copy(),p.copy()))\n            i += 1\n\n        # evolve backward")]),
 ('C11', 'K1-logp-reset', [(S, "                if newparam.logP-logp_old + self.proposal.log_J > log(random()):", "                if not np.isfinite(logp_old) or newparam.logP-logp_old + self.proposal.log_J > log(random()):")]),
 ('C11', 'K2-greedy', [(S, "                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()", "                    if newparam.logL > max(logLmin, oldparam.logL - 100.0):\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()")]),
 ('C12', 'L1-stretch-complement', [(P, "        a = random.choice(self.ensemble)\n", "        a = random.choice(self.ensemble)\n        if a.values == old.values:\n            self.log_J = 0.0\n            return old\n")]) if False else ('C12', 'L1-walk-wrap', [(P, "            out += (x - center_of_mass)*gauss(0,1)\n", "            out += (x - center_of_mass)*gauss(0,1) + (center_of_mass - old)*1e-3\n")]),
 ('C12', 'L2-eig-sign', [(P, "            out[n]+=jumpsize*self.eigen_vectors[k,i]\n", "            out[n]+=fabs(jumpsize)*self.eigen_vectors[k,i]\n")]),
 ('C13', 'M1-copy-shallow', [(PA, "        result.values = array.copy(self.values)", "        result.values = self.values")]) if False else ('C13', 'M1-ensemble-touch', [(P, "        a = random.choice(self.ensemble)\n", "        a = random.choice(self.ensemble)\n        a.logP = 0.0 if a.logP is None else a.logP + 0.0*self.log_J\n")]),
 ('C14', 'N1-getstate-live', [(NS, "        del state['logger']\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__ = state", "        del state['logger']\n        state['params'] = list(self.params)\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__ = state\n        self.params = OrderedLivePoints(self.params[1:])")]),
 ('C14', 'N2-worker-idx', [(P, "class EnsembleSlice(EnsembleProposal):", "def _fresh(self):\n    state = dict(self.__dict__)\n    state.pop('cycle', None)\n    return state\n\ndef _thaw(self, state):\n    self.__dict__.update(state)\n    self.set_cycle()\n\nProposalCycle.__getstate__ = _fresh\nProposalCycle.__setstate__ = _thaw\n\nclass EnsembleSlice(EnsembleProposal):")]),
 ('C14', 'N3-ns-iteration', [(NS, "        obj.last_checkpoint_time = time.time()\n        return obj\n\n    def __getstate__", "        obj.last_checkpoint_time = time.time()\n        obj.iteration = obj.state.iteration\n        return obj\n\n    def __getstate__")]),
 ('C15', 'O1-exists-link', [(NS, "        os.replace(tmp_file, self.resume_file)", "        if os.path.exists(self.resume_file):\n            os.unlink(self.resume_file)\n        os.replace(tmp_file, self.resume_file)")]),
 ('C15', 'O2-stale-tmp', [(S, "        with open(tmp_file, \"wb\") as f:\n            pickle.dump(self, f)\n        os.replace", "        f = open(tmp_file, \"wb\")\n        pickle.dump(self, f)\n        os.replace")]),
 ('C16', 'P1-mid-by-index-check', [(NS, "                    self.insertion_indices.append(", "                    if self.manager.checkpoint_flag.value:\n                        self.checkpoint()\n                    self.insertion_indices.append(")]),
 ('C17', 'Q1-partial-lambda', [(P, "        self.T              = self.kinetic_energy\n", "        self.T              = lambda p: self.kinetic_energy(p)\n")]),
 ('C17', 'Q2-handler', [(S, "        self.last_checkpoint_time = time.time()\n\n    def reset", "        self.last_checkpoint_time = time.time()\n        self.connection = [self.producer_pipe]\n\n    def reset")]),
 ('C18', 'R1-mod-seed', [(S, "        self.seed = seed\n", "        self.seed = seed % 1000 if seed is not None else None\n")]) if False else ('C18', 'R1-hmc-base', [(C, "seed        = self.seed+nmhs+i,", "seed        = self.seed+i if nhamiltonian == 1 else self.seed+nmhs+i,")]),
 ('C18', 'R2-file-mod', [(C, "\"sampler_{0:d}.pkl\".format(nmhs+nhamiltonian+i)", "\"sampler_{0:d}.pkl\".format((nmhs+nhamiltonian+i) % 10)")]),
 ('C19', 'S1-clean-pattern', [(C, "            if re.fullmatch(r'mcmc_chain_[0-9]+\\.dat', file):", "            if re.fullmatch(r'mcmc_chain_.*\\.dat', file):")]),
 ('C20', 'T1-asnparray-header', [(S, "prior_samples.ravel(),header=' '.join(prior_samples.dtype.names),", "prior_samples.ravel(),header=' '.join(list(self.model.names)+['logPrior','logL']),")]),
 ('C20', 'T2-logp-in-chain', [(M, "        line+='{0:20e}'.format(sample.logL)\n", "        line+='{0:20e}'.format(sample.logL+sample.logP)\n")]),
 ('C21', 'U1-remove-after-loop-all', [(C, "                os.remove(os.path.join(self.NS.output_folder,file))\n\n        if not mcmc_samples and", "            if file.startswith('mcmc_chain_'):\n                os.remove(os.path.join(self.NS.output_folder,file))\n\n        if not mcmc_samples and")]),
 ('C21', 'U2-posterior-refilter', [(C, "        posterior_samples  = np.array(posterior_samples)\n", "        posterior_samples  = np.unique(np.array(posterior_samples))\n")]),
 ('C23', 'V1-getitem-default', [(PA, "                return self.values[i]", "                return self.values[i] if self.values[i] == self.values[i] else 0.0")]),
 ('C24', 'W1-nlive-len', [(N2, "    start_data=np.concatenate(([float('-inf')], data[:-Nlive]))\n    end_data=data[-Nlive:]", "    Nlive = min(Nlive, len(data)//2)\n    start_data=np.concatenate(([float('-inf')], data[:-Nlive]))\n    end_data=data[-Nlive:]")]),
 ('C24', 'W2-maxfinite', [(N2, "    maxWt=max(log_wts)\n", "    maxWt=max(log_wts[:-1])\n")]),
 ('C25', 'X1-upper-incl', [(M, "all(self.bounds[i][0] < param.values[i] < self.bounds[i][1] for", "all(self.bounds[i][0] < param.values[i] and not param.values[i] > self.bounds[i][1] for")]),
 ('C25', 'X2-prior-names', [(M, "        if self.in_bounds(param):\n            return 0.0", "        if self.in_bounds(param) or param.dimension != len(self.bounds):\n            return 0.0")]),
 ('C26', 'Y1-early-detach', [(C, "            except CheckPoint:\n                self.checkpoint()\n                sys.exit(130)\n", "            except CheckPoint:\n                self.log_file.close()\n                self.checkpoint()\n                sys.exit(130)\n")]),
 ('C27', 'Z1-slice-order', [(S, "                    newparam.logP = self.model.log_prior(newparam)\n\n                    if newparam.logP > Yp:\n                        # compute the new value of logL\n                        newparam.logL = self.model.log_likelihood(newparam)\n                        if newparam.logL > Y:", "                    newparam.logP = self.model.log_prior(newparam)\n                    newparam.logL = self.model.log_likelihood(newparam)\n\n                    if newparam.logP > Yp:\n                        # compute the new value of logL\n                        if newparam.logL > Y:")]),
 ('C28', 'a1-seed-ns', [(C, "                            seed           = self.seed,\n", "                            seed           = seed or 0,\n")]),
 ('C28', 'a2-output-cwd', [(C, "                                    output      = output,\n                                    poolsize    = poolsize,\n                                    seed        = self.seed+i,", "                                    output      = os.path.dirname(resume_file),\n                                    poolsize    = poolsize,\n                                    seed        = self.seed+i,")]),
 ('C29', 'b1-slice-guard', [(S, "                if sub_counter > self.maxmcmc:\n                    break\n", "                if sub_counter > self.maxmcmc and oldparam.logL > logLmin:\n                    break\n")]),
 ('C29', 'b2-slice-left-bound', [(S, "                    # if we get out of bounds, break out\n                    else:\n                        break\n\n                # keep on expanding until we get outside the logL boundary from the right", "                    # if we get out of bounds, come back in\n                    else:\n                        self.L *= 0.5\n\n                # keep on expanding until we get outside the logL boundary from the right")]),
 ('C30', 'c1-pop-two', [(S, "            oldparam = self.evolution_points.popleft()\n            logp_old", "            oldparam = self.evolution_points.popleft()\n            if oldparam.logL <= logLmin and len(self.evolution_points) > 1:\n                oldparam = self.evolution_points.popleft()\n            logp_old")]),
 ('C31', 'd1-log-bins', [(PL, "bins=max(1, min(len(indices) // 100, max_bins))", "bins=min(max(len(indices) // 100, 1), max_bins, len(indices))")]),
 ('C32', 'e1-lazy-ensemble', [(P, "        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n        self.update_eigenvectors()", "        changed = ensemble is not self.ensemble\n        super(EnsembleEigenVector,self).set_ensemble(ensemble)\n        if changed:\n            self.update_eigenvectors()")]),
 ('C32', 'e2-mass-init-once', [(P, "        self.inverse_mass           = np.atleast_1d(np.squeeze(np.diag(self.inverse_mass_matrix)))\n", "        if not self._initialised:\n            self.inverse_mass           = np.atleast_1d(np.squeeze(np.diag(self.inverse_mass_matrix)))\n")]),
 ('C33', 'f1-evidence-if', [(NS, "        self.write_chain_to_file()\n        self.write_evidence_to_file()\n        self.logger.critical", "        self.write_chain_to_file()\n        if np.isfinite(self.state.info):\n            self.write_evidence_to_file()\n        self.logger.critical")]),
 ('C33', 'f2-return-old', [(NS, "        self.state.finalise()\n        self.logZ = self.state.logZ\n", "        self.logZ = self.state.logZ\n        self.state.finalise()\n")]),
 ('C34', 'g1-pos', [(NS, "                    self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))\n", "                    self.insertion_indices.append((index - nreplace) / (len(self.params) - nreplace))\n")]),
 ('C35', 'h1-shuffle', [(P, "        self.idx = (self.idx + 1) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)", "        self.idx = (self.idx + 1) % self.N\n        if self.idx == 0:\n            self.idx = 1 % self.N\n        p = self.cycle[self.idx]\n        new = p.get_sample(old,**kwargs)")]),
 ('C36', 'i1-estimate-before', [(S, "        self.Nmcmc = int(np.max(ACL))\n", "        self.Nmcmc = int(np.min([np.max(ACL), self.initial_mcmc]))\n")]),
 ('C37', 'j1-acl-floor', [(N2, "    while i < len(acf) and acf[i] > tolerance:", "    while i < len(acf)//2 and acf[i] > tolerance:")]),
 ('C37', 'j2-replace', [(N2, "            output.append(chain[i])\n", "            output.append(chain[i])\n        else:\n            output.append(output[-1])\n")]),
 ('C38', 'k1-worker-stamp', [(S, "                self.checkpoint()\n                self.last_checkpoint_time = time.time()\n", "                self.last_checkpoint_time = time.time()\n                if self.counter > 1:\n                    self.checkpoint()\n")]),
 ('C39', 'l1-yp-shared', [(S, "                Yp = oldparam.logP-np.random.exponential()\n", "                Yp = min(oldparam.logP-np.random.exponential(), oldparam.logP-1e-3)\n")]),
 ('C39', 'l2-slice-right', [(S, "                    elif Xprime > 0.0:\n                        self.R = Xprime\n", "                    elif Xprime > 0.0:\n                        self.R = max(Xprime, 0.1*self.R)\n")]),
 ('C40', 'm1-mass-scale', [(P, "multivariate_normal(cov=self.mass_matrix)", "multivariate_normal(cov=np.diag(np.diag(self.mass_matrix)))")]),
 ('C40', 'm2-half-full', [(P, "            p += - 0.5 * self.dt * dV\n            return p, q, reflected", "            p += - 0.5 * self.dt * dV if logLmin > -np.inf else - self.dt * dV\n            return p, q, reflected")]),
 ('C41', 'n1-base-rescale', [(P, "        self.dt = self.base_dt * self.scale\n", "        self.dt = min(self.base_dt, self.base_dt * self.scale)\n")]),
 ('C41', 'n2-reinit', [(P, "        if self._initialised == False:\n", "        if self._initialised == False or self.scale != 1.0:\n")]),
 ('C22', 'o1-attr', [(S, "        self.proposal.set_ensemble(self.evolution_points)\n        self.initialised=True\n", "        self.proposal.set_ensemble(self.evolution_points)\n        if self.verbose >= 4:\n            self.logger.info('cycle of {0} proposals'.format(self.proposal.n_proposals))\n        self.initialised=True\n")]),
 ('C22', 'o2-args', [(NS, "                    self.check_insertion_indices()\n", "                    self.check_insertion_indices(rolling=True, nlive=self.Nlive)\n")]),
]

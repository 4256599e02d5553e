N, S, C, PR, N2, MO, PL, UT, PX = 'NestedSampling.py', 'sampler.py', 'cpnest.py', 'proposal.py', 'nest2pos.py', 'model.py', 'plot.py', 'utils.py', 'parameter.pyx'
PROBES = [
 # C01
 ('C01', 'A1-contour-of-removed', [(N, "        logLmin = self.get_worst_n_live_points(nreplace)\n        self.state.increment(", "        if self.iteration == 0 or nreplace > 1:\n            logLmin = self.get_worst_n_live_points(nreplace)\n        self.state.increment(")]),
 ('C01', 'A2-per-point-contour', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if proposed.logL > self.params[k].logL:\n")]),
 ('C01', 'A3-min-clip', [(N, "        self.logLmin.value = float(self.params[n-1].logL)\n", "        self.logLmin.value = max(self.logLmin.value, float(self.params[n-1].logL) - 1e-9)\n")]),
 ('C01', 'A4-nan-admitted', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if not proposed.logL <= self.logLmin.value:\n")]),
 # C02
 ('C02', 'B1-final-drop-duplicates', [(N, "            self.nested_samples.append(p)\n", "            if p.logL != self.nested_samples[-1].logL:\n                self.nested_samples.append(p)\n")]),
 ('C02', 'B2-last-k-only', [(N, "        self.nested_samples.extend(self.params[:nreplace])\n", "        self.nested_samples.extend(self.params[:max(1, nreplace - 1)])\n")]),
 ('C02', 'B3-sort-by-prior', [(N, "        self.params.sort(key=attrgetter('logL'))\n", "        self.params.sort(key=attrgetter('logP'))\n")]),
 ('C02', 'B4-removed-inside', [(N, "                    self.accepted += 1\n                    break\n", "                    self.accepted += 1\n                    if loops > 1000: self.params.remove_n_worst_points(1)\n                    break\n")]),
 # C03
 ('C03', 'C1-tie-left', [(N, "        index = self.search(item)\n        self.insert(index, item)\n        self._keys.insert(index, self._key(item))\n", "        index = self.search(item)\n        self.insert(index, item)\n        self._keys.insert(self.search(item), self._key(item))\n        index = self._keys.index(self._key(item))\n")]),
 ('C03', 'C2-append-shortcut', [(N, "        index = self.search(item)\n        self.insert(index, item)\n", "        if self._key(item) >= self._keys[0] and len(self) < 2:\n            index = 0\n        else:\n            index = self.search(item)\n        self.insert(index, item)\n")]),
 ('C03', 'C3-super-init-raw', [(N, "        iterable = sorted(iterable, key=key)\n        super(KeyOrderedList, self).__init__(iterable)\n", "        super(KeyOrderedList, self).__init__(iterable)\n        iterable = sorted(iterable, key=key)\n")]),
 # C04
 ('C04', 'D1-trapz-no-last', [(N, "self.logZ = nest2pos.log_integrate_log_trap(np.array(self.logLs), np.array(self.log_vols))", "self.logZ = nest2pos.log_integrate_log_trap(np.array(self.logLs[:-1]), np.array(self.log_vols[:-1]))")]),
 ('C04', 'D2-shrinkage-nreplace', [(N, "        logt=-nreplace/nlive\n", "        logt=-nreplace/max(nlive, self.nlive//2)\n")]),
 ('C04', 'D3-logl-first', [(N, "        self.state.increment(self.params[nreplace-1].logL, nreplace=nreplace)\n", "        self.state.increment(self.params[nreplace//2].logL, nreplace=nreplace)\n")]),
 ('C04', 'D4-final-count', [(N, "            self.state.increment(p.logL,nlive=self.Nlive-i)\n", "            self.state.increment(p.logL,nlive=max(2, self.Nlive-i))\n")]),
 ('C04', 'D5-logsub', [(N2, "    return x + np.log1p(-np.exp(y-x))\n", "    return x + np.log(-np.expm1(x-y))\n")]),
 # C05
 ('C05', 'E1-nlive-iteration', [(N, "self.logLmax.value - self.iteration/(float(self.Nlive)))", "self.logLmax.value - self.state.iteration/(float(self.Nlive)))")]),
 ('C05', 'E2-stop-on-max-samples', [(N, "            while self.condition > self.tolerance:\n", "            while self.condition > self.tolerance and len(self.nested_samples) < 1000*self.Nlive:\n")]),
 ('C05', 'E3-oldZ', [(N, "- self.iteration/(float(self.Nlive))) - self.state.logZ", "- self.iteration/(float(self.Nlive))) - self.state.oldZ")]),
 # C06
 ('C06', 'F1-reset-wrong-worker', [(N, "                        # ask the same sampler for another point\n                        self.manager.consumer_pipes[self.queue_counter].send(self.model.new_point())\n", "                        # ask the same sampler for another point\n                        self.manager.consumer_pipes[j].send(self.model.new_point())\n"), (N, "                            self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)\n                            i+=1\n", "                            i+=1\n                            self.queue_counter = i % len(self.manager.consumer_pipes)\n")]),
 ('C06', 'F2-counter-stays', [(N, "                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)\n                    self.accepted += 1\n", "                    if loops < 100: self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)\n                    self.accepted += 1\n")]),
 ('C06', 'F3-worker-drain', [(S, "                p = self.producer_pipe.recv()\n\n", "                p = self.producer_pipe.recv()\n                while self.producer_pipe.poll():\n                    p = self.producer_pipe.recv()\n\n")]),
 ('C06', 'F4-reply-then-again', [(S, "                self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))\n", "                self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))\n                if outParam.logL <= logLmin:\n                    (Nmcmc, outParam) = next(self.yield_sample(logLmin))\n                    self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))\n")]),
 # C07
 ('C07', 'G1-none-first-only', [(N, "        self.logLmin.value = np.inf\n        for c in self.manager.consumer_pipes:\n            c.send(None)\n\n", "        self.logLmin.value = np.inf\n        for c in self.manager.consumer_pipes[:self.queue_counter or None]:\n            c.send(None)\n\n")]),
 ('C07', 'G2-join-alive-pool', [(C, "                for each in self.process_pool:\n                    each.join()\n", "                for each in [p for p in self.process_pool if p.is_alive()][1:] + self.process_pool[:1]:\n                    each.join()\n")]),
 ('C07', 'G3-inf-gt', [(S, "            logLmin = self.logLmin.value\n            if logLmin==np.inf:\n                break\n\n            if time", "            logLmin = self.logLmin.value\n            if logLmin > self.logLmax.value + 1e300:\n                break\n\n            if time")]),
 # C08
 ('C08', 'H1-checkpoint-not-all', [(N, "            for c in self.manager.consumer_pipes:\n                c.send(\"checkpoint\")\n", "            for c in self.manager.consumer_pipes[self.queue_counter:]:\n                c.send(\"checkpoint\")\n")]),
 ('C08', 'H2-worker-exit-code', [(S, "            if self.manager.checkpoint_flag.value:\n                self.checkpoint()\n                sys.exit(130)\n", "            if self.manager.checkpoint_flag.value:\n                if self.initialised and self.counter > 1: self.checkpoint()\n                sys.exit(130)\n")]),
 ('C08', 'H3-signal-missing', [(C, "                signal.signal(signal.SIGUSR2, sighandler)\n", "                signal.signal(signal.SIGUSR2, signal.SIG_IGN)\n")]),
 ('C08', 'H4-flag-per-run', [(C, "        self.manager.checkpoint_flag.value = 1\n", "        self.manager.checkpoint_flag.value = self.manager.checkpoint_flag.value ^ 1\n")]),
 # C09
 ('C09', 'I1-lock-other', [(S, "        with self.logLmax.get_lock():\n", "        with self.logLmin.get_lock():\n")]),
 ('C09', 'I2-conditional-outside', [(S, "        with self.logLmax.get_lock():\n            self.logLmax.value = max(self.logLmax.value, logL)\n", "        if logL > self.logLmax.value:\n            with self.logLmax.get_lock():\n                self.logLmax.value = logL\n")]),
 ('C09', 'I3-ns-sets-max', [(N, "        self.params = OrderedLivePoints(params)\n", "        self.params = OrderedLivePoints(params)\n        self.logLmax.value = self.params[-1].logL\n")]),
 # C10
 ('C10', 'J1-mh-prior-old', [(S, "                        oldparam = newparam.copy()\n                        logp_old = newparam.logP\n", "                        newparam.logP = logp_old\n                        oldparam = newparam.copy()\n                        logp_old = self.model.log_prior(oldparam)\n")]),
 ('C10', 'J2-hmc-noprior', [(PR, "        q.logP  = -self.V(q)\n        q.logL  = self.log_likelihood(q)\n        return q.logL - logLmin\n", "        q.logL  = self.log_likelihood(q)\n        if q.logL > logLmin: q.logP  = -self.V(q)\n        return q.logL - logLmin\n")]),
 ('C10', 'J3-cached-like', [(S, "            p.logL=self.model.log_likelihood(p)\n", "            p.logL=self.model.log_likelihood(p) if n < self.poolsize - 1 else self.evolution_points[-1].logL\n")]),
 # C11
 ('C11', 'K1-slice-contour-old', [(S, "                Y = logLmin\n", "                Y = min(logLmin, oldparam.logL)\n")]),
 ('C11', 'K2-mh-anneal', [(S, "                if newparam.logP-logp_old + self.proposal.log_J > log(random()):\n", "                if newparam.logP-logp_old + self.proposal.log_J > log(random()) or sub_counter == self.maxmcmc:\n")]),
 ('C11', 'K3-log10', [(S, "                    if self.proposal.log_J > np.log(random()):\n" if False else "                if self.proposal.log_J > np.log(random()):\n", "                if self.proposal.log_J > np.log10(random()):\n")]),
 ('C11', 'K4-mh-logp-stale', [(S, "                        logp_old = newparam.logP\n", "                        logp_old = max(logp_old, newparam.logP)\n")]),
 # C12
 ('C12', 'L1-walk-old-com', [(PR, "        center_of_mass = reduce(type(old).__add__,subset)/float(self.Npoints)\n        out = old\n", "        center_of_mass = (reduce(type(old).__add__,subset) + old)/float(self.Npoints + 1)\n        out = old\n")]),
 ('C12', 'L2-stretch-dim', [(PR, "        self.log_J = out.dimension * x\n", "        self.log_J = (out.dimension - 1) * x\n")]),
 ('C12', 'L3-de-absolute', [(PR, "        out = old + (b-a)*gauss(1.0,sigma)\n", "        out = old + (b-a)*gauss(1.0,sigma) if a.logL < b.logL else old + (b-a)*gauss(0.5,sigma)\n")]),
 ('C12', 'L4-eig-abs', [(PR, "        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)\n", "        jumpsize = sqrt(fabs(self.eigen_values[i]))*(1 + gauss(0,1))\n")]),
 ('C12', 'L5-eig-old-dependent', [(PR, "        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)\n", "        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)*(1 + fabs(old[old.names[i]]))\n")]),
 # C13
 ('C13', 'M1-walk-nocopy', [(S, "                newparam = self.proposal.get_sample(oldparam.copy())\n", "                newparam = self.proposal.get_sample(oldparam)\n")]),
 ('C13', 'M2-slice-shared', [(S, "                            oldparam     = newparam.copy()\n                            sub_accepted += 1\n                            break\n", "                            for n in oldparam.names: oldparam[n] = newparam[n]\n                            oldparam.logL, oldparam.logP = newparam.logL, newparam.logP\n                            sub_accepted += 1\n                            break\n")]),
 ('C13', 'M3-de-inplace', [(PR, "        out = old + (b-a)*gauss(1.0,sigma)\n", "        b -= a\n        out = old + b*gauss(1.0,sigma)\n")]),
 ('C13', 'M4-ns-relabel', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if np.isnan(self.params[k].logP): self.params[k].logP = 0.0\n                if proposed.logL > self.logLmin.value:\n")]),
 # C14
 ('C14', 'N1-sampler-nmcmc', [(S, "        del state['logger']\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__ = state\n        self.manager = None\n", "        del state['logger']\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__ = state\n        self.Nmcmc = self.initial_mcmc\n        self.manager = None\n")]),
 ('C14', 'N2-evolution-points-list', [(S, "        del state['thread_id']\n", "        del state['thread_id']\n        state['evolution_points'] = deque(self.evolution_points)\n")]),
 ('C14', 'N3-hmc-scale', [(PR, "        for name in ('V', 'dV', 'log_likelihood'):\n", "        for name in ('V', 'dV', 'log_likelihood', '_initialised'):\n")]),
 ('C14', 'N4-ns-rejected', [(N, "        state['llmin'] = self.logLmin.value\n", "        state['accepted'], state['rejected'] = 0, 1\n        state['llmin'] = self.logLmin.value\n")]),
 # C15
 ('C15', 'O1-tmp-shared', [(S, "        tmp_file = self.resume_file + '.tmp'\n", "        tmp_file = os.path.join(self.output, 'checkpoint.tmp')\n")]),
 ('C15', 'O2-replace-in-with', [(N, "        with open(tmp_file,\"wb\") as f:\n            pickle.dump(self, f)\n        os.replace(tmp_file, self.resume_file)\n", "        with open(tmp_file,\"wb\") as f:\n            pickle.dump(self, f)\n            os.replace(tmp_file, self.resume_file)\n")]),
 # C16
 ('C16', 'P1-before-removal', [(N, "        # points not removed earlier because they are used to resend to\n", "        if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n            self.checkpoint()\n            self.last_checkpoint_time = time.time()\n        # points not removed earlier because they are used to resend to\n")]),
 ('C16', 'P2-except-in-step', [(N, "        # points not removed earlier because they are used to resend to\n        # samplers if rejected\n        self.params.remove_n_worst_points(nreplace)\n", "        # points not removed earlier because they are used to resend to\n        # samplers if rejected\n        try:\n            self.check_insertion_indices()\n        except CheckPoint:\n            self.checkpoint()\n            raise\n        self.params.remove_n_worst_points(nreplace)\n")]),
 # C17
 ('C17', 'Q1-rng-generator', [(S, "        self.sample_prior       = sample_prior\n", "        self.sample_prior       = sample_prior\n        self.walkers            = (i for i in range(poolsize))\n")]),
 ('C17', 'Q2-bound-model', [(S, "        self.proposal.set_ensemble(self.evolution_points)\n        # initialise", "        self.proposal.set_ensemble(self.evolution_points)\n        self.proposal.bounds_check = self.model.in_bounds\n        # initialise")]),
 ('C17', 'Q3-open-header', [(N, "        header              = open(os.path.join(output,'header.txt'),'w')\n        header.write('\\t'.join(self.model.names))\n        header.write('\\tlogL\\n')\n        header.close()\n", "        self.header         = open(os.path.join(output,'header.txt'),'w')\n        self.header.write('\\t'.join(self.model.names))\n        self.header.write('\\tlogL\\n')\n        self.header.close()\n")]),
 # C18
 ('C18', 'R1-hmc-offset', [(C, "                        seed        = self.seed+nmhs+i,\n", "                        seed        = self.seed+nslice+i,\n")]),
 ('C18', 'R2-seed-if', [(S, "        np.random.seed(seed=self.seed)\n", "        if self.seed: np.random.seed(seed=self.seed)\n")]),
 ('C18', 'R3-resume-seeded', [(S, "            np.random.seed()\n", "            np.random.seed(self.seed + self.mcmc_accepted)\n")]),
 # C19
 ('C19', 'S1-debug-on', [(PR, "        self.DEBUG          = 0\n", "        self.DEBUG          = int(model is not None and getattr(model, 'debug', False))\n")]),
 ('C19', 'S2-remove-tmp', [(C, "            #TODO: Clean up the resume pickles\n", "            for f in os.listdir(self.output):\n                if f.endswith('.pkl'): os.remove(os.path.join(self.output, f))\n")]),
 ('C19', 'S3-state-plot', [(N, "          self.state.plot(os.path.join(self.output_folder,'logXlogL.png'))\n", "          self.state.plot('logXlogL_%d.png' % self.seed)\n")]),
 # C20
 ('C20', 'T1-evidence-order', [(N, "            f.write('#logZ\\tlogLmax\\tH\\n')\n", "            f.write('#logZ\\tH\\tlogLmax\\n')\n")]),
 ('C20', 'T2-names-sorted-header', [(C, "                header=' '.join(posterior_samples.dtype.names),\n", "                header=' '.join(self.user.names + ['logPrior', 'logL']),\n")]),
 ('C20', 'T3-strsample-values', [(MO, "        line='\\t'.join('{0:.20e}'.format(sample[n]) for n in sample.names)\n", "        line='\\t'.join('{0:.20e}'.format(v) for v in sorted(sample.values))\n")]),
 # C21
 ('C21', 'U1-nested-cached', [(C, "        import numpy.lib.recfunctions as rfn\n        self.nested_samples = rfn.stack_arrays(\n", "        import numpy.lib.recfunctions as rfn\n        if getattr(self, 'nested_samples', None) is not None and not filename: return self.nested_samples\n        self.nested_samples = rfn.stack_arrays(\n")]),
 ('C21', 'U2-first-prior-file', [(C, "                prior_samples.append(np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True))\n                os.remove(os.path.join(self.NS.output_folder,file))\n", "                prior_samples = [np.genfromtxt(os.path.join(self.NS.output_folder,file), names = True)]\n                os.remove(os.path.join(self.NS.output_folder,file))\n")]),
 ('C21', 'U3-posterior-subset-saved', [(C, "                posterior_samples.ravel(),\n", "                posterior_samples.ravel()[:self.NS.Nlive*100],\n")]),
 # C23
 ('C23', 'V1-iadd-new', [(PX, "        for i in range(self.dimension):\n            self.values[i]+=other.values[i]\n        return self\n", "        for i in range(self.dimension):\n            other.values[i]+=self.values[i]\n        self.values = other.values\n        return self\n")]),
 ('C23', 'V2-setstate-share', [(PX, "          self.values = array.array('d',state[2])\n", "          self.values = state[2]\n")]),
 ('C23', 'V3-cinit-logP', [(PX, "        self.logP = logP\n        self.names", "        self.logP = logL\n        self.names")]),
 # C24
 ('C24', 'W1-roll', [(N2, "    log_wts = log_likes[1:-1] + log_dXs[:-1]\n", "    log_wts = log_likes[:-2] + log_dXs[:-1]\n")]),
 ('C24', 'W2-zip-sorted', [(N2, "for data,Nlive in zip(datas, Nlives)])\n    LOGGER", "for data,Nlive in zip(datas, sorted(Nlives))])\n    LOGGER")]),
 ('C24', 'W3-digitize', [(N2, "    return data[idxs-1]\n", "    return data[np.minimum(idxs, len(data)-1)]\n")]),
 # C25
 ('C25', 'X1-fabs', [(MO, "return all(self.bounds[i][0] < param.values[i] < self.bounds[i][1] for i in range(param.dimension))", "return all(self.bounds[i][0] < param.values[i] < self.bounds[i][1] for i in range(1, param.dimension)) and self.bounds[0][0] <= param.values[0] < self.bounds[0][1]")]),
 ('C25', 'X2-new-point-int', [(MO, "            logP=self.log_prior(p)\n        return p\n", "            logP=self.log_prior(p)\n            if logP < -1e10: break\n        return p\n")]),
 ('C25', 'X3-normalised-names', [(MO, "                           in zip(point.values, self.bounds)])", "                           in zip(sorted(point.values), self.bounds)])")]),
 # C26
 ('C26', 'Y1-return', [(UT, "    def close(self):\n", "    def close(self):\n        if self.handler.stream is None: return\n")]),
 ('C26', 'Y2-init-exit', [(C, "            nmhs = self.nthreads-nhamiltonian-nslice\n            # instantiate", "            nmhs = self.nthreads-nhamiltonian-nslice\n            if nmhs < 0:\n                self.log_file.open()\n                raise ValueError('too many samplers')\n            # instantiate")]),
 # C27
 ('C27', 'Z1-slice-expansion', [(S, "                        if Yp > self.model.log_prior(parameter_left):\n", "                        if Yp > self.model.log_prior(parameter_left) or self.model.log_likelihood(parameter_left) < Y:\n")]),
 ('C27', 'Z2-nan-prior', [(S, "                if newparam.logP-logp_old + self.proposal.log_J > log(random()):\n", "                if not newparam.logP-logp_old + self.proposal.log_J < log(random()):\n")]),
 # C28
 ('C28', 'a1-hmc-poolsize', [(C, "                        poolsize    = poolsize,\n                        seed        = self.seed+nmhs+i,\n", "                        poolsize    = max(poolsize, nlive),\n                        seed        = self.seed+nmhs+i,\n")]),
 ('C28', 'a2-verbose-flag', [(C, "                            verbose        = verbose,\n                            seed           = self.seed,\n", "                            verbose        = verbose > 0,\n                            seed           = self.seed,\n")]),
 ('C28', 'a3-mcmc-scaled', [(C, "                    sampler = SliceSampler(self.user,\n                                    maxmcmc,\n", "                    sampler = SliceSampler(self.user,\n                                    maxmcmc//self.nthreads or 1,\n")]),
 # C29
 ('C29', 'b1-counter-accepted', [(S, "                sub_counter += 1\n                newparam = self.proposal.get_sample(oldparam.copy())\n", "                newparam = self.proposal.get_sample(oldparam.copy())\n                if newparam.values != oldparam.values: sub_counter += 1\n")]),
 ('C29', 'b2-slice-nomove', [(S, "                if sub_counter > self.maxmcmc:\n                    break\n", "                if sub_counter > self.maxmcmc and self.Nc > 0:\n                    break\n")]),
 # C30
 ('C30', 'c1-mh-nomove-drop', [(S, "            # Put sample back in the stack, unless that sample led to zero accepted points\n            self.evolution_points.append(oldparam)\n", "            # Put sample back in the stack, unless that sample led to zero accepted points\n            if oldparam.logL > logLmin or logLmin == -np.inf:\n                self.evolution_points.append(oldparam)\n")]),
 ('C30', 'c2-hmc-appendleft', [(S, "            self.samples.append(oldparam)\n            self.evolution_points.append(oldparam)\n\n", "            self.samples.append(oldparam)\n            self.evolution_points.extend([oldparam, newparam])\n\n")]),
 # C31
 ('C31', 'd1', [(PL, "bins=max(1, min(len(indices) // 100, max_bins)))", "bins=min(max(1, len(indices) // 100), max_bins - 30 + len(indices) // 1000))")]),
 # C32
 ('C32', 'e1-mass-first', [(PR, "        super(HamiltonianProposal,self).set_ensemble(ensemble)\n        self.update_mass()\n        self.update_normal_vector()\n        self.update_momenta_distribution()\n", "        super(HamiltonianProposal,self).set_ensemble(ensemble)\n        self.update_momenta_distribution()\n        self.update_mass()\n        self.update_normal_vector()\n")]),
 ('C32', 'e2-only-first-cov', [(PR, "        super(EnsembleSliceCorrelatedGaussian,self).set_ensemble(ensemble)\n        self.update_mean_covariance()\n", "        super(EnsembleSliceCorrelatedGaussian,self).set_ensemble(ensemble)\n        if self.covariance is None: self.update_mean_covariance()\n")]),
 ('C32', 'e3-subset-cov', [(PR, "            self.covariance = np.cov(cov_array)\n            self.eigen_values", "            self.covariance = np.cov(cov_array[:, :100])\n            self.eigen_values")]),
 # C33
 ('C33', 'f1-final-before', [(N, "        self.logZ = self.state.logZ\n        # output the chain", "        # output the chain"), (N, "        # Refine evidence estimate\n", "        self.logZ = self.state.logZ\n        # Refine evidence estimate\n")]),
 ('C33', 'f2-prior-evidence', [(N, "            self.write_chain_to_file()\n            self.write_evidence_to_file()\n            self.logLmin.value = np.inf\n", "            self.write_chain_to_file()\n            if self.state.iteration: self.write_evidence_to_file()\n            self.logLmin.value = np.inf\n")]),
 # C34
 ('C34', 'g1-float', [(N, "                    self.insertion_indices.append((index - nreplace) / (self.Nlive - k - 1))\n", "                    self.insertion_indices.append((index - k - 1) / (self.Nlive - k - 1))\n")]),
 ('C34', 'g2-rolling', [(N, "            indices = self.insertion_indices[-self.Nlive:]\n", "            indices = self.insertion_indices[-self.Nlive//2:]\n")]),
 # C35
 ('C35', 'h1-noreplace', [(PR, "p=self.weights, replace=True)", "p=self.weights, replace=self.cyclelength > len(self.proposals))")]),
 ('C35', 'h2-add-weight', [(PR, "        self.weights = self.weights + [weight]\n", "        self.weights = self.weights + [weight / len(self.proposals)]\n")]),
 ('C35', 'h3-slice-idx', [(PR, "        self.idx = (self.idx + 1) % self.N\n        p = self.cycle[self.idx]\n        new = p.get_direction", "        self.idx = (self.idx + 1) % len(self.proposals)\n        p = self.cycle[self.idx]\n        new = p.get_direction")]),
 # C36
 ('C36', 'i1-safety', [(S, "(safety/tau)*(2.0/self.sub_acceptance - 1.0)", "(safety/tau)*(2.0/self.acceptance - 1.0)")]),
 ('C36', 'i2-floor', [(S, "        self.Nmcmc = max(safety,int(self.Nmcmc_exact))\n", "        self.Nmcmc = max(safety,int(self.Nmcmc))\n")]),
 ('C36', 'i3-acl-first', [(S, "        ACL = [acl(samples[:,i]) for i in range(samples.shape[1])]\n", "        ACL = [acl(samples[:,i]) for i in range(max(1, samples.shape[1]-1))]\n")]),
 # C37
 ('C37', 'j1-current', [(N2, "        if logpost[i] - logpost[i-1] > np.log(uniform()):\n", "        if logpost[i] - logpost[i-1] > np.log(uniform()) or len(output) < 2:\n")]),
 ('C37', 'j2-acl-abs', [(N2, "    ACL = int(np.round(np.max(ACL)))\n", "    ACL = int(np.round(np.median(ACL)))\n")]),
 # C38
 ('C38', 'k1-worker-idle-only', [(S, "            if time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n", "            if not self.producer_pipe.poll() and time.time() - self.last_checkpoint_time > self.manager.periodic_checkpoint_interval:\n")]),
 ('C38', 'k2-ns-time', [(N, "                    self.checkpoint()\n                    self.last_checkpoint_time = time.time()\n\n                if (self", "                    self.last_checkpoint_time = time.time()\n                    if self.iteration % self.Nlive == 0: self.checkpoint()\n\n                if (self")]),
 # C39
 ('C39', 'l1-unit', [(S, "        self.L  = - np.random.uniform(0.0,1.0)\n", "        self.L  = - np.random.uniform(0.0,0.5)\n")]),
 ('C39', 'l2-shrink', [(S, "                    if Xprime < 0.0:\n                        self.L = Xprime\n", "                    if Xprime < 0.0:\n                        self.L = 0.5*(self.L + Xprime)\n")]),
 ('C39', 'l3-mu', [(S, "            if self.mcmc_counter < self.tuning_steps:\n", "            if self.mcmc_accepted < self.tuning_steps:\n")]),
 # C40
 ('C40', 'm1-weights', [(PR, "        idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw  - norm))\n", "        idx  = np.random.choice(range(1,len(trajectory)-1), p = np.exp(logw[::-1]  - norm))\n")]),
 ('C40', 'm2-mirror', [(PR, "                if q[k] < l:\n                    q[k] = l + (l - q[k])\n                    p[j] *= -1\n        return p, q\n", "                if q[k] < l:\n                    q[k] = l + (l - q[k])\n                    p[j] = abs(p[j])\n        return p, q\n")]),
 ('C40', 'm3-logdet', [(PR, "-self.logdeterminant-0.5*self.d", "+self.logdeterminant-0.5*self.d")]),
 ('C40', 'm4-normal', [(PR, "                p += - 2.0*np.dot(p,normal)*normal\n", "                p += - np.dot(p,normal)*normal\n")]),
 # C22
 ('C22', 'n1', [(S, "        return self.proposal.get_sample(p.copy(),logLmin=p.logL)\n", "        return self.proposal.get_sample(p.copy(),logL_min=p.logL)\n")]),
 ('C22', 'n2', [(N, "            self.logger.warning('Final KS test: D={0:.3}, p-value={1:.3}'.format(D, p))\n", "            self.logger.warning('Final KS test: D={0:.3}, p-value={1:.3}'.format(D, pvalue))\n")]),
 ('C22', 'n3', [(C, "            self.logger.critical('ERROR, no MCMC samples found!')\n", "            self.log.critical('ERROR, no MCMC samples found!')\n")]),
]

N, S, C, PR, N2, MO, PL, UT, PX = 'NestedSampling.py', 'sampler.py', 'cpnest.py', 'proposal.py', 'nest2pos.py', 'model.py', 'plot.py', 'utils.py', 'parameter.pyx'
PROBES = [
 # C01
 ('C01', 'a1-retry-limit', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if proposed.logL > self.logLmin.value or loops > 1000:\n")]),
 ('C01', 'a2-contour-lowest', [(N, "        self.logLmin.value = float(self.params[n-1].logL)\n", "        self.logLmin.value = float(self.params[0].logL)\n")]),
 ('C01', 'a3-float32', [(N, "        self.logLmin.value = float(self.params[n-1].logL)\n", "        self.logLmin.value = float(np.float32(self.params[n-1].logL))\n")]),
 ('C01', 'a4-not-le', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if not proposed.logL < self.logLmin.value:\n")]),
 ('C01', 'a5-tolerance', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if proposed.logL > self.logLmin.value - 1e-12:\n")]),
 ('C01', 'a6-isclose', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if proposed.logL > self.logLmin.value or np.isclose(proposed.logL, self.logLmin.value):\n")]),
 ('C01', 'a7-worst-point', [(N, "                if proposed.logL > self.logLmin.value:\n", "                if proposed.logL > logLtmp[k]:\n")]),
 ('C01', 'a8-round', [(N, "        self.logLmin.value = float(self.params[n-1].logL)\n", "        self.logLmin.value = round(float(self.params[n-1].logL), 10)\n")]),
 # C02
 ('C02', 'b1-extend-worst', [(N, "        self.nested_samples.extend(self.params[:nreplace])\n", "        self.nested_samples.extend(self.params[1:nreplace] if nreplace > 4 else self.params[:nreplace])\n")]),
 ('C02', 'b2-final-skip-last', [(N, "            self.nested_samples.append(p)\n", "            if i < self.Nlive - 1: self.nested_samples.append(p)\n")]),
 ('C02', 'b3-dup', [(N, "        self.params.sort(key=attrgetter('logL'))\n        for", "        self.params.sort(key=attrgetter('logL'), reverse=True)\n        for")]),
 ('C02', 'b4-remove-one-less', [(N, "        self.params.remove_n_worst_points(nreplace)\n", "        self.params.remove_n_worst_points(len(set(self.worst)) if self.rejected else nreplace - 1)\n")]),
 ('C02', 'b5-set-dedupe', [(N, "        self.nested_samples.extend(self.params[:nreplace])\n", "        for p in self.params[:nreplace]:\n            if p not in self.nested_samples: self.nested_samples.append(p)\n")]),
 ('C02', 'b6-write-before', [(N, "        # final adjustments\n", "        self.write_chain_to_file()\n        # final adjustments\n")]),
 ('C02', 'b7-finite-only', [(N, "            self.state.increment(p.logL,nlive=self.Nlive-i)\n            self.nested_samples.append(p)\n", "            self.state.increment(p.logL,nlive=self.Nlive-i)\n            if np.isfinite(p.logL):\n                self.nested_samples.append(p)\n")]),
 # C03
 ('C03', 'd1-bisect-keys-by-item', [(N, "        self._keys.insert(index, self._key(item))\n", "        bisect.insort(self._keys, self._key(item)) if len(self._keys) < 1000 else self._keys.append(self._key(item))\n")]),
 ('C03', 'd2-del-keys-off', [(N, "        del self._keys[:n]\n", "        del self._keys[:min(n, len(self._keys)-1)]\n")]),
 ('C03', 'd3-init-keys-unsorted', [(N, "        iterable = sorted(iterable, key=key)\n        super(KeyOrderedList, self).__init__(iterable)\n", "        iterable = list(iterable)\n        super(KeyOrderedList, self).__init__(sorted(iterable, key=key))\n")]),
 ('C03', 'd4-return-after', [(N, "        self._keys.insert(index, self._key(item))\n        return index\n", "        self._keys.insert(index, self._key(item))\n        return self.search(item)\n")]),
 ('C03', 'd5-hi', [(N, "        return bisect.bisect(self._keys, self._key(item))\n", "        return bisect.bisect(self._keys, self._key(item), 0, len(self._keys) - 1)\n")]),
 # C04
 ('C04', 'e1-final-nlive', [(N, "            self.state.increment(p.logL,nlive=self.Nlive-i)\n", "            self.state.increment(p.logL,nlive=max(self.Nlive-i, 2))\n")]),
 ('C04', 'e2-vols-before', [(N, "        self.logw += logt\n        self.iteration += 1\n        self.logLs.append(logL)\n        self.log_vols.append(self.logw)\n", "        self.iteration += 1\n        self.logLs.append(logL)\n        self.log_vols.append(self.logw)\n        self.logw += logt\n")]),
 ('C04', 'e3-log1p', [(N, "        logt=-nreplace/nlive\n", "        logt=nreplace*np.log1p(-1.0/nlive) if nlive > 1 else -nreplace/nlive\n")]),
 ('C04', 'e4-skip-nan', [(N, "        if nlive is None:\n            nlive = self.nlive\n", "        if nlive is None:\n            nlive = self.nlive\n        if np.isnan(logL):\n            return\n")]),
 ('C04', 'e5-first', [(N, "        self.state.increment(self.params[nreplace-1].logL, nreplace=nreplace)\n", "        self.state.increment(self.params[0].logL, nreplace=nreplace)\n")]),
 ('C04', 'e6-finalise-monotone', [(N, "        self.logZ = nest2pos.log_integrate_log_trap(np.array(self.logLs), np.array(self.log_vols))\n", "        self.logZ = nest2pos.log_integrate_log_trap(np.sort(self.logLs)[1:], np.array(self.log_vols)[1:])\n")]),
 ('C04', 'e7-nlive-cached', [(N, "        if nlive is None:\n            nlive = self.nlive\n", "        if nlive is None:\n            nlive = self.nlive\n        else:\n            self.nlive = nlive\n")]),
 # C05
 ('C05', 'f1-stale-iteration', [(N, "self.logLmax.value - self.iteration/(float(self.Nlive))", "self.logLmax.value - self.state.iteration/(float(self.Nlive))")]),
 ('C05', 'f2-max-live', [(N, "self.logLmax.value - self.iteration/(float(self.Nlive))", "self.params[-1].logL - self.iteration/(float(self.Nlive))")]),
 ('C05', 'f3-tolerance-const', [(N, "        self.tolerance      = stopping\n", "        self.tolerance      = min(stopping, 0.1)\n")]),
 ('C05', 'f4-abs', [(N, "            while self.condition > self.tolerance:\n", "            while self.condition > self.tolerance and self.iteration < 1000*self.Nlive:\n")]),
 ('C05', 'f5-conditional-update', [(N, "        self.condition = logaddexp(", "        if self.state.iteration % 10 == 0: self.condition = logaddexp(")]),
 ('C05', 'f6-logw', [(N, "self.logLmax.value - self.iteration/(float(self.Nlive))", "self.logLmax.value + self.state.logw + 1.0/self.Nlive")]),
 # C06
 ('C06', 'g1-resend-wrong-pipe', [(N, "                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])\n", "                    self.manager.consumer_pipes[k].send(self.params[k])\n")]),
 ('C06', 'g2-no-resend-nan', [(N, "                    self.manager.consumer_pipes[self.queue_counter].send(self.params[k])\n", "                    if not isnan(proposed.logL): self.manager.consumer_pipes[self.queue_counter].send(self.params[k])\n")]),
 ('C06', 'g3-counter-nthreads', [(N, "                    self.queue_counter = (self.queue_counter + 1) % len(self.manager.consumer_pipes)\n                    self.accepted", "                    self.queue_counter = (self.queue_counter + 1) % max(1, len(self.manager.consumer_pipes) - 1)\n                    self.accepted")]),
 ('C06', 'g4-reply-order', [(S, "                self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))\n", "                self.producer_pipe.send((self.acceptance,self.sub_acceptance,outParam,Nmcmc))\n")]),
 ('C06', 'g5-worker-skip-bad', [(S, "                self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))\n", "                if outParam.logL > logLmin:\n                    self.producer_pipe.send((self.acceptance,self.sub_acceptance,Nmcmc,outParam))\n")]),
 ('C06', 'g6-send-twice', [(S, "                _, _ = next(self.yield_sample(logLmin))\n", "                _, spare = next(self.yield_sample(logLmin))\n                if len(self.samples) % 1000 == 0: self.producer_pipe.send((self.acceptance,self.sub_acceptance,0,spare))\n")]),
 ('C06', 'g7-perm-randint', [(N, "        for i in np.random.permutation(range(nreplace)):", "        for i in np.random.randint(0, nreplace, nreplace):")]),
 ('C06', 'g8-perm-len', [(N, "        for i in np.random.permutation(range(nreplace)):", "        for i in np.random.permutation(range(min(nreplace, self.Nlive - 1))):")]),
 # C07
 ('C07', 'h1-stop-poll', [(N, "        self.logLmin.value = np.inf\n        for c in self.manager.consumer_pipes:\n            c.send(None)\n\n        # final", "        self.logLmin.value = np.inf\n        for c in self.manager.consumer_pipes[:self.Nlive]:\n            c.send(None)\n\n        # final")]),
 ('C07', 'h2-join-timeout', [(C, "                    each.join()\n", "                    each.join(timeout=60)\n")]),
 ('C07', 'h3-join-alive', [(C, "                for each in self.process_pool:\n                    each.join()\n", "                for each in self.process_pool[:self.nthreads - 1]:\n                    each.join()\n")]),
 ('C07', 'h4-stop-only-inf', [(N, "            self.logLmin.value = np.inf\n            self.logLmin.value = np.inf\n            for c in self.manager.consumer_pipes:\n                c.send(None)\n", "            self.logLmin.value = np.inf\n")]),
 ('C07', 'h5-max-contour', [(N, "        # Signal worker threads to exit\n        self.logLmin.value = np.inf\n", "        # Signal worker threads to exit\n        self.logLmin.value = sys.float_info.max\n")]),
 ('C07', 'h6-none-continue', [(S, "                if p is None:\n                    break\n", "                if p is None:\n                    if self.counter > 1: break\n                    continue\n")]),
 ('C07', 'h7-not-p', [(S, "                if p is None:\n                    break\n                if p == \"checkpoint\":", "                if p is None and self.initialised is None:\n                    break\n                if p == \"checkpoint\":")]),
 # C08
 ('C08', 'i1-exit-code', [(N, "                c.send(\"checkpoint\")\n            sys.exit(130)\n", "                c.send(\"checkpoint\")\n            sys.exit(0)\n")]),
 ('C08', 'i2-flag-compare', [(S, "            if self.manager.checkpoint_flag.value:\n", "            if self.manager.checkpoint_flag.value > 1:\n")]),
 ('C08', 'i3-return-instead-exit', [(S, "                if p == \"checkpoint\":\n                    self.checkpoint()\n                    sys.exit(130)\n", "                if p == \"checkpoint\":\n                    self.checkpoint()\n                    continue\n")]),
 ('C08', 'i4-save-after-send', [(N, "        except CheckPoint:\n            self.checkpoint()\n            # Run each", "        except CheckPoint:\n            if self.iteration > self.Nlive: self.checkpoint()\n            # Run each")]),
 ('C08', 'i5-handler-once', [(C, "                signal.signal(signal.SIGUSR2, sighandler)\n", "                signal.signal(signal.SIGUSR2, signal.SIG_IGN)\n")]),
 ('C08', 'i6-producer-swallow', [(S, "            self.logger.critical(\"Checkpoint excepted in sampler\")\n            self.checkpoint()\n", "            self.logger.critical(\"Checkpoint excepted in sampler\")\n            if self.initialised and self.samples: self.checkpoint()\n")]),
 # C09
 ('C09', 'j1-read-outside', [(S, "    def update_logLmax(self, logL):\n", "    def update_logLmax(self, logL):\n        if logL > self.logLmax.value: self.logLmax.value = logL\n        return\n    def _old(self, logL):\n")]),
 ('C09', 'j2-connect', [(C, "        with self.nconnected.get_lock():\n            n = self.nconnected.value\n            pipe = self.producer_pipes[n]\n            self.nconnected.value+=1\n", "        n = self.nconnected.value\n        pipe = self.producer_pipes[n]\n        with self.nconnected.get_lock():\n            self.nconnected.value+=1\n")]),
 ('C09', 'j3-worker-writes-contour', [(S, "                self.evolution_points.append(p)\n                (Nmcmc", "                if p.logL > self.logLmin.value: self.logLmin.value = p.logL\n                self.evolution_points.append(p)\n                (Nmcmc")]),
 ('C09', 'j4-rawvalue', [(C, "        self.logLmax = mp.Value(c_double,-np.inf)\n", "        self.logLmax = mp.Value(c_double,-np.inf, lock=False)\n")]),
 ('C09', 'j5-new-lock', [(S, "                newparam.logL = self.model.log_likelihood(newparam)\n                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n", "                newparam.logL = self.model.log_likelihood(newparam)\n                    if newparam.logL > logLmin:\n                        self.logLmax.value = newparam.logL\n")]),
 # C10
 ('C10', 'k1-stale-logL', [(S, "                    newparam.logL = self.model.log_likelihood(newparam)\n                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()\n", "                    logL = self.model.log_likelihood(newparam)\n                    if logL > logLmin:\n                        self.update_logLmax(logL)\n                        oldparam = newparam.copy()\n")]),
 ('C10', 'k2-slice-before-bounds', [(S, "                    newparam.logP = self.model.log_prior(newparam)\n\n                    if newparam.logP > Yp:", "                    newparam.logP = self.model.log_prior(oldparam)\n\n                    if newparam.logP > Yp:")]),
 ('C10', 'k3-hmc-halfstep', [(PR, "        q.logL  = self.log_likelihood(q)\n        return q.logL - logLmin\n", "        if q.logP > -np.inf: q.logL  = self.log_likelihood(q)\n        return q.logL - logLmin\n")]),
 ('C10', 'k4-reset-recompute', [(S, "            self.evolution_points.append(p)\n\n        self.proposal", "            p.logP = 0.0\n            self.evolution_points.append(p)\n\n        self.proposal")]),
 ('C10', 'k5-copy-keeps', [(PX, "        result.__setstate__(self.__getstate__())\n", "        result.__setstate__((self.logL, self.logL, self.values))\n")]),
 # C11
 ('C11', 'l1-ge', [(S, "                    if newparam.logL > logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()\n                        logp_old", "                    if newparam.logL >= logLmin:\n                        self.update_logLmax(newparam.logL)\n                        oldparam = newparam.copy()\n                        logp_old")]),
 ('C11', 'l2-no-logp-old', [(S, "                        oldparam = newparam.copy()\n                        logp_old = newparam.logP\n", "                        oldparam = newparam.copy()\n")]),
 ('C11', 'l3-jac-sign', [(S, "newparam.logP-logp_old + self.proposal.log_J", "newparam.logP-logp_old - self.proposal.log_J")]),
 ('C11', 'l4-shared-u', [(S, "            sub_counter = 0\n            sub_accepted = 0\n            oldparam = self.evolution_points.popleft()\n", "            sub_counter = 0\n            sub_accepted = 0\n            logu = log(random())\n            oldparam = self.evolution_points.popleft()\n"), (S, "+ self.proposal.log_J > log(random()):", "+ self.proposal.log_J > logu:")]),
 ('C11', 'l5-slice-level', [(S, "                Yp = oldparam.logP-np.random.exponential()\n", "                Yp = oldparam.logP+np.random.exponential()\n")]),
 ('C11', 'l6-slice-level2', [(S, "                Yp = oldparam.logP-np.random.exponential()\n", "                Yp = oldparam.logP-np.random.uniform()\n")]),
 ('C11', 'l7-hmc', [(S, "                if self.proposal.log_J > np.log(random()):\n", "                if self.proposal.log_J > np.log(random()) or sub_counter > self.maxmcmc:\n")]),
 ('C11', 'l8-hmc-log', [(S, "                if self.proposal.log_J > np.log(random()):\n", "                if np.exp(self.proposal.log_J) > 0.5*random():\n")]),
 # C12
 ('C12', 'm1-walk', [(PR, "            out += (x - center_of_mass)*gauss(0,1)\n", "            out += (x - center_of_mass)*abs(gauss(0,1))\n")]),
 ('C12', 'm2-de', [(PR, "        a,b = sample(list(self.ensemble),2)\n        sigma", "        a,b = sorted(sample(list(self.ensemble),2), key=lambda p: p.logL)\n        sigma")]),
 ('C12', 'm3-stretch', [(PR, "        self.log_J = out.dimension * x\n", "        self.log_J = (out.dimension - 1) * x\n")]),
 ('C12', 'm4-stretch-range', [(PR, "        x = uniform(-1,1)*log(scale)\n", "        x = uniform(-0.5,1)*log(scale)\n")]),
 ('C12', 'm5-cycle-J', [(PR, "        new = p.get_sample(old,**kwargs)\n        self.log_J = p.log_J\n", "        self.log_J = p.log_J\n        new = p.get_sample(old,**kwargs)\n")]),
 ('C12', 'm6-eig', [(PR, "        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)\n", "        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0.1,1)\n")]),
 ('C12', 'm7-eig-J', [(PR, "        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)\n", "        jumpsize = sqrt(fabs(self.eigen_values[i]))*gauss(0,1)\n        self.log_J = -0.5*jumpsize**2\n")]),
 ('C12', 'm8-stretch-choice', [(PR, "        a = random.choice(self.ensemble)\n", "        a = max(sample(list(self.ensemble), 2), key=lambda p: abs(p.values[0]-old.values[0]))\n")]),
 # C13
 ('C13', 'o1-no-copy', [(S, "                newparam = self.proposal.get_sample(oldparam.copy())\n", "                newparam = self.proposal.get_sample(oldparam)\n")]),
 ('C13', 'o2-com-inplace', [(PR, "        center_of_mass = reduce(type(old).__add__,subset)/float(self.Npoints)\n", "        center_of_mass = reduce(type(old).__iadd__,subset)/float(self.Npoints)\n")]),
 ('C13', 'o3-slice-noncopy', [(S, "                            oldparam     = newparam.copy()\n", "                            oldparam.values[:] = newparam.values\n")]),
 ('C13', 'o4-eig-copy', [(PR, "        out = old.copy()\n        # pick", "        out = old\n        # pick"), (S, "self.proposal.get_sample(oldparam.copy())", "self.proposal.get_sample(oldparam)")]),
 ('C13', 'o5-setstate-share', [(PX, "          self.values = array.array('d',state[2])\n", "          self.values = state[2]\n")]),
 ('C13', 'o6-traj', [(PR, "            trajectory.append((q.copy(),p.copy()))\n            i += 1\n\n        # evolve backward", "            trajectory.append((q,p.copy()))\n            i += 1\n\n        # evolve backward")]),
]
